// MCMC machinery: steps, sampler, proposals, random variates and the drivers, with scripted
// parameters and proposals in place of the statistical model.
#include "h.hpp"
#include <proposals.hpp>
#include <samplers.hpp>
#include <steps.hpp>
#include <parameters.hpp>
#include "include/carpack.hpp"
#include "include/carmcmc.hpp"

static double first(const arma::vec& v) { return v(0); }
static double first(double v) { return v; }
static double lin(const arma::vec& c, const arma::vec& v) { return arma::dot(c, v); }
static double lin(const arma::vec& c, double v) { return c(0) * v; }
static arma::vec make(const arma::vec& v, arma::vec*) { return v; }
static double make(const arma::vec& v, double*) { return v(0); }
static arma::vec list(const arma::vec& v) { return v; }
static arma::vec list(double v) { arma::vec r(1); r(0) = v; return r; }

// log-density c.v + k, not finite where the first coordinate exceeds a cap
template <class V> struct Target : Parameter<V> {
    arma::vec c; double k, cap; int bad;
    long evals = 0, starts = 0, sets = 0;
    double base = 0.0; long dim = 1; V* dummy = 0;
    Target(bool track, std::string label, double temp) : Parameter<V>(track, label, temp), k(0), cap(1e300), bad(0) {}
    double LogDensity(V v) {
        evals++;
        if (first(v) > cap) return bad == 0 ? -arma::datum::inf : bad == 1 ? arma::datum::nan : arma::datum::inf;
        return lin(c, v) + k;
    }
    V StartingValue() { starts++; arma::vec v(dim); v.fill(base + 0.001 * starts); return make(v, dummy); }
    V SetStartingValue(V init) { sets++; return init; }
};

// as the CARMA classes do, takes over the density found at the last evaluation when saved as what it is
struct Lazy : Target<arma::vec> {
    double last = 0.0;
    Lazy(bool track, std::string label, double temp) : Target<arma::vec>(track, label, temp) {}
    double LogDensity(arma::vec v) { return last = Target<arma::vec>::LogDensity(v); }
    void Save(arma::vec& v) { value_ = v; log_posterior_ = last; }
};

template <class V> struct Script : Proposal<V> {
    std::vector<arma::vec> disp; size_t at = 0; arma::vec wn, ws; V* dummy = 0;
    V Draw(V x) { return x + make(disp.at(at++), dummy); }
    double LogDensity(V n, V s) { return lin(wn, n) + lin(ws, s); }
};

struct Units : Proposal<double> {
    std::vector<double> draws; size_t at = 0; std::vector<double> centres;
    double Draw(double x) { centres.push_back(x); return x + draws.at(at++); }
    double LogDensity(double, double) { return 0.0; }
};

static double peek() {
    boost::random::mt19937 copy(rng);
    boost::random::uniform_real_distribution<> u;
    return u(copy);
}

template <class V> static void setup(Target<V>& t, In& in) {
    t.c = in.avec(); t.k = in.num(); t.cap = in.num(); t.bad = in.integer();
}

template <class V> static void metropolis(In& in, Out& out) {
    double temp = in.num();
    Target<V> t(true, "t", temp);
    setup(t, in);
    Script<V> pr;
    pr.wn = in.avec(); pr.ws = in.avec();
    t.dim = t.c.n_elem;
    t.Save(make(in.avec(), (V*)0));
    int report = in.integer();
    MetropStep<V> s(t, pr, report);
    long n = in.integer();
    for (long k = 0; k < n; k++) pr.disp.push_back(in.avec());
    for (long k = 0; k < n; k++) {
        RandGen.SetSeed(in.integer());
        out.num(peek());
        s.DoStep();
        out.avec(list(t.Value())); out.num(t.GetLogDensity());
    }
}

template <class P> static void exchange(In& in, Out& out, bool lazy) {
    long n = in.integer();
    Ensemble<P> ens;
    for (long i = 0; i < n; i++) {
        double temp = in.num();
        P* t = new P(true, "t" + std::to_string(i), temp);
        ens.AddObject(t);
        setup(*t, in); t->dim = t->c.n_elem;
        static_cast<Parameter<arma::vec>*>(t)->Save(in.avec());
        if (lazy) t->LogDensity(in.avec());
    }
    long at = in.integer(); int report = in.integer(); long steps = in.integer();
    ExchangeStep<arma::vec, P> s(ens[at], at, ens, report);
    for (long k = 0; k < steps; k++) {
        RandGen.SetSeed(in.integer());
        out.num(peek());
        s.DoStep();
        for (long i = 0; i < n; i++) { out.avec(ens[i].Value()); out.num(ens[i].GetLogDensity()); out.num(ens[i].GetTemperature()); }
    }
}

struct EvStep;
struct EvPar : Target<arma::vec> {
    EvPar(bool track, std::string label, double temp) : Target<arma::vec>(track, label, temp) {}
};
static std::vector<double> events;
static long tick;
struct EvStep : Step {
    EvPar& par; int id;
    EvStep(EvPar& p, int i) : par(p), id(i) {}
    void DoStep() { events.push_back(id); arma::vec v(par.dim); v.fill(++tick); par.Save(v); }
    std::string ParameterLabel() { return par.Label(); }
    bool ParameterTrack() { return par.Track(); }
    BaseParameter* GetParPointer() { return &par; }
};

static void act(EvPar& p, int id) { events.push_back(id); arma::vec v(p.dim); v.fill(++tick); p.Save(v); }
// the library's steps, speaking for their parameter; what a step does is replaced
struct EvGibbs : GibbsStep<arma::vec> {
    EvPar& par; int id;
    EvGibbs(EvPar& p, int i) : GibbsStep<arma::vec>(p), par(p), id(i) {}
    void DoStep() { act(par, id); }
};
struct EvMetrop : MetropStep<arma::vec> {
    EvPar& par; int id;
    EvMetrop(EvPar& p, Proposal<arma::vec>& q, int i) : MetropStep<arma::vec>(p, q, 1), par(p), id(i) {}
    void DoStep() { act(par, id); }
};
struct EvAdapt : AdaptiveMetro {
    EvPar& par; int id;
    EvAdapt(EvPar& p, Proposal<double>& q, int i) : AdaptiveMetro(p, q, arma::eye(p.dim, p.dim), 0.25, 5), par(p), id(i) {}
    void DoStep() { act(par, id); }
};
struct EvExch : ExchangeStep<arma::vec, EvPar> {
    EvPar& par; int id;
    EvExch(EvPar& p, Ensemble<EvPar>& e, int i) : ExchangeStep<arma::vec, EvPar>(p, 1, e, 1), par(p), id(i) {}
    void DoStep() { act(par, id); }
};

static void samples(Out& out, const std::vector<arma::vec>& s, const std::vector<double>& l) {
    out.num(s.size());
    for (auto& x : s) out.avec(x);
    out.vec(l);
}

template <class M> static void chain(Out& out, M& m) {
    samples(out, m.GetSamples(), m.GetLogLikes());
    out.num(m.GetTemperature());
    out.avec(m.GetTime()); out.avec(m.GetTimeSeries()); out.avec(m.GetTimeSeriesErr());
    out.avec(m.Value()); out.num(m.GetLogDensity());
    std::vector<arma::vec> a = m.GetSamples();
    std::vector<std::vector<double> > b = m.getSamples();
    bool same = a.size() == b.size();
    for (size_t k = 0; same && k < a.size(); k++) same = arma::conv_to<std::vector<double> >::from(a[k]) == b[k];
    out.num(same);
}

static double popvar(const std::vector<double>& y) {
    double m = 0, v = 0;
    for (double x : y) m += x / y.size();
    for (double x : y) v += (x - m) * (x - m) / y.size();
    return v;
}

// the documented set-up, put together from the public classes
static void reference(Out& out, bool car1, int size, int burnin, std::vector<double> t, std::vector<double> y, std::vector<double> e,
                      int p, int q, int nw, bool z, int thin, std::vector<double> init) {
    double var = popvar(y), n = y.size();
    int d = 3 + p + (z || car1 ? 0 : q);
    arma::mat C = 1e-4 * arma::eye(d, d);
    C(0, 0) = 2 * var * var / n; C(2, 2) = var / n;
    StudentProposal prop(8.0, 1.0);
    Sampler s(size, burnin, thin);
    arma::vec start = arma::conv_to<arma::vec>::from(init);
    if (car1) {
        CAR1 m(true, "chain", t, y, e);
        m.SetPrior(10 * std::sqrt(var));
        s.AddStep(new AdaptiveMetro(m, prop, C, 0.25, burnin));
        s.Run(start);
        chain(out, m);
        return;
    }
    Ensemble<CARp> ens;
    for (int i = 0; i < nw; i++) {
        double temp = nw > 1 ? std::pow(100.0, (double)i / (nw - 1)) : 1.0;
        if (z) ens.AddObject(new ZCAR(i == 0, "chain", t, y, e, p, temp));
        else if (q) ens.AddObject(new CARMA(i == 0, "chain", t, y, e, p, q, temp));
        else ens.AddObject(new CARp(i == 0, "chain", t, y, e, p, temp));
        ens[i].SetPrior(10 * std::sqrt(var));
    }
    for (int i = nw - 1; i >= 0; i--) {
        s.AddStep(new AdaptiveMetro(ens[i], prop, C, 0.25, burnin));
        if (i) s.AddStep(new ExchangeStep<arma::vec, CARp>(ens[i], i, ens, -1));
    }
    s.Run(start);
    chain(out, ens[0]);
}

static void seed(long s) { RandGen.SetSeed(s); arma::arma_rng::set_seed(s); }

void vp_dispatch(const std::string& op, In& in, Out& out) {
    if (op == "peek") { RandGen.SetSeed(in.integer()); out.num(peek()); }
    else if (op == "mh") metropolis<arma::vec>(in, out);
    else if (op == "mh1") metropolis<double>(in, out);
    else if (op == "chol") {
        arma::mat R = in.mat(); arma::vec v = in.avec(); bool down = in.num() != 0;
        CholUpdateR1(R, v, down);
        out.mat(R);
    } else if (op == "ram") {
        double temp = in.num();
        Target<arma::vec> t(true, "t", temp);
        setup(t, in);
        t.dim = t.c.n_elem;
        arma::mat C = in.mat();
        double target = in.num(); int maxiter = in.integer();
        t.Save(in.avec());
        Units u;
        AdaptiveMetro s(t, u, C, target, maxiter);
        out.mat(s.GetCovariance());
        long n = in.integer();
        for (long k = 0; k < n; k++) { std::vector<double> d = in.vec(); u.draws.insert(u.draws.end(), d.begin(), d.end()); }
        for (long k = 0; k < n; k++) {
            RandGen.SetSeed(in.integer());
            out.num(peek());
            s.DoStep();
            out.avec(t.Value()); out.num(t.GetLogDensity()); out.mat(s.GetCovariance()); out.num(s.GetAcceptRate()); out.num(u.at);
        }
    } else if (op == "exch") {
        exchange<Target<arma::vec> >(in, out, false);
    } else if (op == "exchlazy") {
        exchange<Lazy>(in, out, true);
    } else if (op == "run") {
        int size = in.integer(), burnin = in.integer(), thin = in.integer();
        long npar = in.integer();
        std::vector<std::shared_ptr<EvPar> > pars;
        for (long i = 0; i < npar; i++) {
            bool track = in.num() != 0; long d = in.integer(); double base = in.num();
            auto p = std::make_shared<EvPar>(track, "par" + std::to_string(i), 1.0);
            p->dim = d; p->base = base; p->c = arma::ones(d);
            p->Save(arma::zeros(d));
            pars.push_back(p);
        }
        std::vector<double> order = in.vec();
        std::vector<double> init = in.vec();
        long runs = in.integer();
        Sampler s(size, burnin, thin);
        std::vector<double> kind = in.vec();
        Script<arma::vec> pv; NormalProposal pn(1.0); Ensemble<EvPar> pe;
        for (size_t k = 0; k < order.size(); k++) {
            EvPar& p = *pars[(long)order[k]];
            switch ((int)kind[k]) {
            case 1: s.AddStep(new EvGibbs(p, k)); break;
            case 2: s.AddStep(new EvMetrop(p, pv, k)); break;
            case 3: s.AddStep(new EvAdapt(p, pn, k)); break;
            case 4: s.AddStep(new EvExch(p, pe, k)); break;
            default: s.AddStep(new EvStep(p, k));
            }
        }
        out.num(s.NumberOfSteps()); out.num(s.NumberOfTrackedSteps());
        for (long r = 0; r < runs; r++) {
            events.clear(); tick = 0;
            s.Run(arma::conv_to<arma::vec>::from(init));
            out.vec(events);
            for (auto& p : pars) {
                samples(out, p->GetSamples(), p->GetLogLikes());
                out.num(p->starts); out.num(p->sets); out.avec(p->Value()); out.num(p->GetLogDensity());
            }
        }
    } else if (op == "driver" || op == "reference") {
        long sd = in.integer(); bool car1 = in.num() != 0;
        int size = in.integer(), burnin = in.integer();
        std::vector<double> t = in.vec(), y = in.vec(), e = in.vec();
        int p = in.integer(), q = in.integer(), nw = in.integer(); bool z = in.num() != 0; int thin = in.integer();
        std::vector<double> init = in.vec();
        seed(sd);
        if (op == "reference") reference(out, car1, size, burnin, t, y, e, p, q, nw, z, thin, init);
        else if (car1) { auto m = RunCar1Sampler(size, burnin, t, y, e, thin, init); chain(out, *m); }
        else { auto m = RunCarmaSampler(size, burnin, t, y, e, p, q, nw, z, thin, init); chain(out, *m);
            out.num(dynamic_cast<ZCARMA*>(m.get()) ? 4 : dynamic_cast<ZCAR*>(m.get()) ? 3 : dynamic_cast<CARMA*>(m.get()) ? 2 : 1); }
    } else if (op == "rand") {
        long sd = in.integer(), which = in.integer();
        double a = in.num(), b = in.num(), c = in.num();
        long warm = in.integer();
        for (long k = 0; k < warm; k++) { RandGen.normal(3, 2); RandGen.uniform(2.0, 5.0); RandGen.chisqr(7); RandGen.gamma(2, 3); RandGen.tdist(3, 1, 2); RandGen.lognormal(1, 2); RandGen.exp(3); RandGen.uniform(1, 9); }
        RandGen.SetSeed(sd);
        boost::random::mt19937 g(rng);
        double got, want;
        switch (which) {
        case 0: { got = RandGen.normal(a, b); boost::random::normal_distribution<> d; want = a + b * d(g); break; }
        case 1: { got = RandGen.lognormal(a, b); boost::random::normal_distribution<> d; want = std::exp(a + b * d(g)); break; }
        case 2: { got = RandGen.uniform(a, b); boost::random::uniform_real_distribution<> d; want = a + (b - a) * d(g); break; }
        case 3: { got = RandGen.uniform((int)a, (int)b); boost::random::uniform_int_distribution<> d((int)a, (int)b); want = d(g); break; }
        case 4: { got = RandGen.powerlaw(a, b, c); boost::random::uniform_real_distribution<> d; double u = d(g);
            // F(x) = (x^(c+1) - a^(c+1)) / (b^(c+1) - a^(c+1))
            long double s = c + 1.0L;
            if (s == 0) want = a * std::pow((long double)b / a, (long double)u);
            else { long double A = std::pow((long double)a, s), B = std::pow((long double)b, s); want = std::pow(A + u * (B - A), 1.0L / s); }
            break; }
        case 5: { got = RandGen.tdist(a, b, c); boost::random::student_t_distribution<> d(a); want = b + c * d(g); break; }
        case 6: { got = RandGen.chisqr((int)a); boost::random::chi_squared_distribution<> d((int)a); want = d(g); break; }
        case 7: { got = RandGen.scaled_inverse_chisqr((int)a, b); boost::random::chi_squared_distribution<> d((int)a); want = (int)a * b / d(g); break; }
        case 8: { got = RandGen.gamma(a, b); boost::random::gamma_distribution<> d(a, 1.0); want = b * d(g); break; }
        case 9: { got = RandGen.invgamma(a, b); boost::random::gamma_distribution<> d(a, 1.0); want = b / d(g); break; }
        case 10: { got = RandGen.exp(a); boost::random::exponential_distribution<> d(1.0); want = d(g) / a; break; }
        case 11: { NormalProposal p(b); got = p.Draw(a); boost::random::normal_distribution<> d; want = a + b * d(g); break; }
        case 12: { StudentProposal p(b, c); got = p.Draw(a); boost::random::student_t_distribution<> d(b); want = a + c * d(g); break; }
        case 13: { LogNormalProposal p(b); got = p.Draw(a); boost::random::normal_distribution<> d; want = a * std::exp(b * d(g)); break; }
        case 14: { LogNormalProposal p(c); got = p.LogDensity(a, b) - p.LogDensity(b, a); want = std::log(b) - std::log(a); break; }
        case 15: { NormalProposal p(c); got = p.LogDensity(a, b) - p.LogDensity(b, a); want = 0; break; }
        case 16: { StudentProposal p(3, c); got = p.LogDensity(a, b) - p.LogDensity(b, a); want = 0; break; }
        default: throw std::logic_error("harness: unknown variate");
        }
        out.num(got); out.num(want);
    } else if (op == "multi") {
        long sd = in.integer(), which = in.integer(); arma::mat C = in.mat(); arma::vec x = in.avec();
        RandGen.SetSeed(sd);
        boost::random::mt19937 g(rng);
        boost::random::normal_distribution<> d;
        arma::vec zz(C.n_rows);
        for (size_t i = 0; i < zz.n_elem; i++) zz(i) = d(g);
        if (which == 0) out.avec(RandGen.normal(C));
        else { MultiNormalProposal p(C); out.avec(p.Draw(x)); arma::vec y = x + 1; out.num(p.LogDensity(x, y) - p.LogDensity(y, x)); }
        out.avec(zz);
    } else if (op == "stretch") {
        long sd = in.integer(), n = in.integer(), at = in.integer(); double a = in.num(); long setter = in.integer();
        Ensemble<Target<arma::vec> > ens;
        for (long i = 0; i < n; i++) {
            Target<arma::vec>* t = new Target<arma::vec>(true, "t", 1.0);
            arma::vec v = in.avec();
            t->c = arma::zeros(v.n_elem); t->dim = v.n_elem;
            ens.AddObject(t);
            t->Save(v);
        }
        std::shared_ptr<StretchProposal<Target<arma::vec> > > p;
        if (setter == 0) p = std::make_shared<StretchProposal<Target<arma::vec> > >(ens, at, a);
        else if (setter == 1) { p = std::make_shared<StretchProposal<Target<arma::vec> > >(ens, at, 3.5); p->SetScalingSupport(a); }
        else p = std::make_shared<StretchProposal<Target<arma::vec> > >(ens, at);
        RandGen.SetSeed(sd);
        boost::random::mt19937 g(rng);
        boost::random::uniform_int_distribution<> d(0, n - 1);
        long other = at;
        while (other == at) other = d(g);
        boost::random::uniform_real_distribution<> u;
        out.num(other); out.num(u(g));
        arma::vec old = ens[at].Value();
        arma::vec nw = p->Draw(old);
        out.avec(nw);
        out.num(p->LogDensity(old, nw) - p->LogDensity(nw, old));
    } else throw std::logic_error("harness: unknown op " + op);
}
