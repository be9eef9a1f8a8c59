// Common part of the replay harness: a flat C interface, one entry point per library,
// over the public interface of the code under /repo/src.
#ifndef VP_H_HPP
#define VP_H_HPP
#include <armadillo>
#include <complex>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <random.hpp>

extern boost::random::mt19937 rng;
extern RandomGenerator RandGen;

struct In {
    const double* p; long n, i;
    double num() { if (i >= n) throw std::logic_error("harness: short input"); return p[i++]; }
    long integer() { return (long)num(); }
    std::vector<double> vec() { long k = integer(); std::vector<double> v(k); for (auto& x : v) x = num(); return v; }
    arma::vec avec() { std::vector<double> v = vec(); return arma::conv_to<arma::vec>::from(v); }
    std::vector<std::complex<double> > cvec() {
        long k = integer(); std::vector<std::complex<double> > v(k);
        for (auto& x : v) { double a = num(), b = num(); x = std::complex<double>(a, b); } return v; }
    arma::mat mat() { long r = integer(), c = integer(); arma::mat m(r, c);
        for (long a = 0; a < r; a++) for (long b = 0; b < c; b++) m(a, b) = num(); return m; }
};
struct Out {
    std::vector<double> v;
    void num(double x) { v.push_back(x); }
    template <class V> void vec(const V& x) { num(x.size()); for (size_t k = 0; k < x.size(); k++) num(x[k]); }
    void avec(const arma::vec& x) { num(x.n_elem); for (size_t k = 0; k < x.n_elem; k++) num(x(k)); }
    void acvec(const arma::cx_vec& x) { num(x.n_elem); for (size_t k = 0; k < x.n_elem; k++) { num(x(k).real()); num(x(k).imag()); } }
    void mat(const arma::mat& m) { num(m.n_rows); num(m.n_cols);
        for (size_t a = 0; a < m.n_rows; a++) for (size_t b = 0; b < m.n_cols; b++) num(m(a, b)); }
};

void vp_dispatch(const std::string& op, In& in, Out& out);

static std::vector<double> vp_result;
static std::string vp_error;
extern "C" long vp_call(const char* op, const double* in, long n) {
    std::streambuf* old = std::cout.rdbuf();
    std::ostringstream sink;
    std::cout.rdbuf(sink.rdbuf());
    long rc;
    try {
        In i{in, n, 0}; Out o;
        vp_dispatch(op, i, o);
        vp_result = o.v; rc = (long)o.v.size();
    } catch (std::exception& e) { vp_error = e.what(); rc = -1; }
    catch (...) { vp_error = "unknown exception"; rc = -1; }
    std::cout.rdbuf(old);
    return rc;
}
extern "C" const double* vp_get() { return vp_result.data(); }
extern "C" const char* vp_msg() { return vp_error.c_str(); }
#endif
