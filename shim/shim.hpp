// Common helpers of the extern "C" shims: plain-C access to the native classes,
// so that the checks can drive parts that the Python extension does not export.
#ifndef VERIF_SHIM_HPP
#define VERIF_SHIM_HPP
#include <armadillo>
#include <complex>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

extern std::string verif_error;

#define VTRY try {
#define VCATCH(bad)                                                             \
    } catch (std::exception & e) { verif_error = e.what(); return bad; }        \
    catch (...) { verif_error = "non-standard exception"; return bad; }

inline arma::vec to_arma(int n, const double* x) {
    arma::vec v(n);
    for (int i = 0; i < n; i++) v(i) = x[i];
    return v;
}
inline std::vector<double> to_svec(int n, const double* x) { return std::vector<double>(x, x + n); }
inline arma::cx_vec to_cx(int n, const double* re, const double* im) {
    arma::cx_vec v(n);
    for (int i = 0; i < n; i++) v(i) = std::complex<double>(re[i], im[i]);
    return v;
}
inline void put(const arma::vec& v, double* out) {
    for (arma::uword i = 0; i < v.n_elem; i++) out[i] = v(i);
}
#endif
