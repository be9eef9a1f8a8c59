// Models: CAR(1), CAR(p), CARMA(p,q), ZCAR(p), ZCARMA(p), through their public interface.
#include "h.hpp"
#include "include/carpack.hpp"

static std::map<int, std::shared_ptr<CAR1> > M1;
static std::map<int, std::shared_ptr<CARp> > MP;
static int next_id = 0;

template <class M> static bool common(const std::string& op, M& m, In& in, Out& out) {
    if (op == "set_prior") m.SetPrior(in.num());
    else if (op == "set_mle") m.SetMLE(in.num() != 0);
    else if (op == "logdens") out.num(m.getLogDensity(in.vec()));
    else if (op == "logdens_a") out.num(m.LogDensity(in.avec()));
    else if (op == "logprior") out.num(m.getLogPrior(in.vec()));
    else if (op == "bounds") out.num(m.CheckPriorBounds(in.avec()) ? 1 : 0);
    else if (op == "ma") out.avec(m.ExtractMA(in.avec()));
    else if (op == "sigsqr") out.num(m.ExtractSigsqr(in.avec()));
    else if (op == "save") { arma::vec v = in.avec(); m.Save(v); }
    else if (op == "bsave") { arma::vec v = in.avec(); Parameter<arma::vec>& b = m; b.Save(v); }
    else if (op == "value") { out.avec(m.Value()); out.num(m.GetLogDensity()); }
    else if (op == "start") { long s = in.integer(); RandGen.SetSeed(s); arma::arma_rng::set_seed(s); out.avec(m.StartingValue()); }
    else if (op == "set_start") { long s = in.integer(); RandGen.SetSeed(s); arma::arma_rng::set_seed(s); arma::vec v = in.avec();
        Parameter<arma::vec>& b = m; out.avec(b.SetStartingValue(v)); }
    else if (op == "kalman") { auto k = m.GetKalmanPtr(); out.avec(k->mean); out.avec(k->var); }
    else if (op == "data") { out.avec(m.GetTime()); out.avec(m.GetTimeSeries()); out.avec(m.GetTimeSeriesErr()); }
    else return false;
    return true;
}

void vp_dispatch(const std::string& op, In& in, Out& out) {
    if (op == "new") {
        long kind = in.integer();
        std::vector<double> t = in.vec(), y = in.vec(), e = in.vec();
        long p = in.integer(), q = in.integer();
        double temp = in.num();
        int id = next_id++;
        if (kind == 0) M1[id] = std::make_shared<CAR1>(true, "m", t, y, e, temp);
        else if (kind == 1) MP[id] = std::make_shared<CARp>(true, "m", t, y, e, p, temp);
        else if (kind == 2) MP[id] = std::make_shared<CARMA>(true, "m", t, y, e, p, q, temp);
        else if (kind == 3) MP[id] = std::make_shared<ZCAR>(true, "m", t, y, e, p, temp);
        else MP[id] = std::make_shared<ZCARMA>(true, "m", t, y, e, p, temp);
        out.num(id); return;
    }
    int id = in.integer();
    if (op == "free") { M1.erase(id); MP.erase(id); return; }
    if (M1.count(id)) {
        CAR1& m = *M1[id];
        if (op == "ar") { out.num(m.ExtractAR(in.avec())); return; }
        if (!common(op, m, in, out)) throw std::logic_error("harness: unknown op " + op);
    } else if (MP.count(id)) {
        CARp& m = *MP[id];
        if (op == "ar") { out.acvec(m.ExtractAR(in.avec())); return; }
        if (op == "roots") { out.acvec(m.ARRoots(in.avec())); return; }
        if (op == "kappa") { double a = in.num(), b = in.num(); dynamic_cast<ZCARMA&>(m).SetKappaBounds(a, b); return; }
        if (op == "variance") {
            auto c = in.cvec(); arma::cx_vec r = arma::conv_to<arma::cx_vec>::from(c);
            arma::vec ma = in.avec(); double s = in.num(), dt = in.num();
            out.num(m.Variance(r, ma, s, dt)); return;
        }
        if (!common(op, m, in, out)) throw std::logic_error("harness: unknown op " + op);
    } else throw std::logic_error("harness: unknown handle");
}
