// Kalman filter operations.
#include "h.hpp"
#include "include/kfilter.hpp"

static std::map<int, std::shared_ptr<KalmanFilter1> > K1;
static std::map<int, std::shared_ptr<KalmanFilterp> > KP;
static int next_id = 0;

template <class K> static void common(const std::string& op, K& k, In& in, Out& out, bool& done) {
    done = true;
    if (op == "filter") { k.Filter(); out.avec(k.mean); out.avec(k.var); }
    else if (op == "svec") { out.vec(k.GetMeanSvec()); out.vec(k.GetVarSvec()); }
    else if (op == "predict") { double t = in.num(); std::pair<double, double> r = k.Predict(t); out.num(r.first); out.num(r.second); }
    else if (op == "simulate") { unsigned long s = in.integer(); std::vector<double> t = in.vec(); RandGen.SetSeed(s); out.vec(k.Simulate(t)); }
    else if (op == "data") { out.avec(k.GetTime()); out.avec(k.GetTimeSeries()); out.avec(k.GetTimeSeriesErr()); out.num(k.mean.n_elem); out.num(k.var.n_elem); }
    else if (op == "set_time") { arma::vec v = in.avec(); k.SetTime(v); }
    else if (op == "set_y") { arma::vec v = in.avec(); k.SetTimeSeries(v); }
    else if (op == "set_yerr") { arma::vec v = in.avec(); k.SetTimeSeriesErr(v); }
    else if (op == "set_sigsqr") k.SetSigsqr(in.num());
    else if (op == "reset") k.Reset();
    else if (op == "update") k.Update();
    else if (op == "initcoefs") { double t = in.num(); long i = in.integer(); k.InitializeCoefs(t, i, 0.0, 0.0); }
    else if (op == "updatecoefs") k.UpdateCoefs();
    else if (op == "const_slope") { out.num(k.GetConst()); out.num(k.GetSlope()); }
    else done = false;
}

void vp_dispatch(const std::string& op, In& in, Out& out) {
    if (op == "normals") {   // the standard normal draws that a seed gives
        unsigned long s = in.integer(); long n = in.integer();
        RandGen.SetSeed(s);
        std::vector<double> z(n);
        for (auto& x : z) x = RandGen.normal(0.0, 1.0);
        out.vec(z); return;
    }
    if (op == "kf1_new") {
        long mode = in.integer();
        std::vector<double> t = in.vec(), y = in.vec(), e = in.vec();
        double s = in.num(), o = in.num();
        int id = next_id++;
        if (mode == 0) K1[id] = std::make_shared<KalmanFilter1>(t, y, e, s, o);
        else if (mode == 1) { arma::vec a(t), b(y), c(e); K1[id] = std::make_shared<KalmanFilter1>(a, b, c, s, o); }
        else if (mode == 2) { K1[id] = std::make_shared<KalmanFilter1>(t, y, e); K1[id]->SetSigsqr(s); K1[id]->SetOmega(o); }
        else { arma::vec a(t), b(y), c(e); K1[id] = std::make_shared<KalmanFilter1>(a, b, c); K1[id]->SetSigsqr(s); K1[id]->SetOmega(o); }
        out.num(id); return;
    }
    if (op == "kfp_new") {
        long mode = in.integer();
        std::vector<double> t = in.vec(), y = in.vec(), e = in.vec();
        double s = in.num();
        std::vector<std::complex<double> > o = in.cvec();
        std::vector<double> m = in.vec();
        int id = next_id++;
        arma::cx_vec ao = arma::conv_to<arma::cx_vec>::from(o);
        arma::vec am(m);
        if (mode == 0) KP[id] = std::make_shared<KalmanFilterp>(t, y, e, s, o, m);
        else if (mode == 1) { arma::vec a(t), b(y), c(e); KP[id] = std::make_shared<KalmanFilterp>(a, b, c, s, ao, am); }
        else {
            if (mode == 2) KP[id] = std::make_shared<KalmanFilterp>(t, y, e);
            else { arma::vec a(t), b(y), c(e); KP[id] = std::make_shared<KalmanFilterp>(a, b, c); }
            if (am.n_elem < ao.n_elem) am.resize(ao.n_elem);
            KP[id]->SetSigsqr(s); KP[id]->SetOmega(ao); KP[id]->SetMA(am);
        }
        out.num(id); return;
    }
    if (op == "free") { int id = in.integer(); K1.erase(id); KP.erase(id); return; }
    int id = in.integer();
    bool done = false;
    if (K1.count(id)) {
        KalmanFilter1& k = *K1[id];
        if (op == "set_omega") k.SetOmega(in.num());
        else { common(op, k, in, out, done); if (!done) throw std::logic_error("harness: unknown op " + op); }
    } else if (KP.count(id)) {
        KalmanFilterp& k = *KP[id];
        if (op == "set_omega") { auto c = in.cvec(); arma::cx_vec o = arma::conv_to<arma::cx_vec>::from(c); k.SetOmega(o); }
        else if (op == "set_ma") { arma::vec v = in.avec(); k.SetMA(v); }
        else { common(op, k, in, out, done); if (!done) throw std::logic_error("harness: unknown op " + op); }
    } else throw std::logic_error("harness: unknown handle");
}
