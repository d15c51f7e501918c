// Model classes CAR1, CARp, CARMA, ZCAR, ZCARMA and the sampler drivers.
#include "shim.hpp"
#include "include/carpack.hpp"
#include "include/carmcmc.hpp"

struct Model {
    int kind, p;
    std::shared_ptr<CAR1> c1;
    std::shared_ptr<CARp> cp;   // CARp, CARMA, ZCAR or ZCARMA
};
#define BOTH(expr) (m->c1 ? m->c1->expr : m->cp->expr)

extern "C" {

// kind: 0 CAR1, 1 CARp, 2 CARMA, 3 ZCAR, 4 ZCARMA
void* model_new(int kind, int n, const double* t, const double* y, const double* e, int p, int q, double temp) {
    Model* m = new Model();
    m->kind = kind; m->p = p;
    try {
        std::vector<double> st = to_svec(n, t), sy = to_svec(n, y), se = to_svec(n, e);
        switch (kind) {
            case 0: m->c1 = std::make_shared<CAR1>(true, "par", st, sy, se, temp); break;
            case 1: m->cp = std::make_shared<CARp>(true, "par", st, sy, se, p, temp); break;
            case 2: m->cp = std::make_shared<CARMA>(true, "par", st, sy, se, p, q, temp); break;
            case 3: m->cp = std::make_shared<ZCAR>(true, "par", st, sy, se, p, temp); break;
            default: m->cp = std::make_shared<ZCARMA>(true, "par", st, sy, se, p, temp); break;
        }
        return m;
    } catch (std::exception& ex) { verif_error = ex.what(); delete m; return 0; }
    catch (...) { verif_error = "non-standard exception"; delete m; return 0; }
}
void model_free(void* h) { delete (Model*)h; }

// run the sampler drivers; the returned model holds the samples
void* model_run(int zcarma, int nsamp, int burn, int n, const double* t, const double* y, const double* e,
                int p, int q, int nwalk, int thin, int ninit, const double* init) {
    Model* m = new Model();
    m->p = p;
    try {
        std::vector<double> st = to_svec(n, t), sy = to_svec(n, y), se = to_svec(n, e), si = to_svec(ninit, init);
        if (p == 1) { m->kind = 0; m->c1 = RunCar1Sampler(nsamp, burn, st, sy, se, thin, si); }
        else {
            m->kind = zcarma ? 3 : (q == 0 ? 1 : 2);
            m->cp = RunCarmaSampler(nsamp, burn, st, sy, se, p, q, nwalk, zcarma != 0, thin, si);
        }
        return m;
    } catch (std::exception& ex) { verif_error = ex.what(); delete m; return 0; }
    catch (...) { verif_error = "non-standard exception"; delete m; return 0; }
}
double model_temperature(void* h) { Model* m = (Model*)h; return BOTH(GetTemperature()); }
int model_nsamples(void* h) { Model* m = (Model*)h; return BOTH(GetSamples()).size(); }
int model_nlogs(void* h) { Model* m = (Model*)h; return BOTH(GetLogLikes()).size(); }
int model_sample_dim(void* h, int i) { Model* m = (Model*)h; return BOTH(GetSamples())[i].n_elem; }
int model_samples(void* h, int dim, double* out, double* logp) {
    VTRY
    Model* m = (Model*)h;
    std::vector<std::vector<double> > s = BOTH(getSamples());
    std::vector<double> l = BOTH(GetLogLikes());
    if (s.size() != l.size()) { verif_error = "samples and log densities differ in number"; return -3; }
    for (size_t i = 0; i < s.size(); i++) {
        if ((int)s[i].size() != dim) { verif_error = "sample with the wrong number of values"; return -3; }
        std::copy(s[i].begin(), s[i].end(), out + i * dim);
        logp[i] = l[i];
    }
    return s.size();
    VCATCH(-1)
}

int model_logdens(void* h, int d, const double* th, double* out) {
    VTRY Model* m = (Model*)h; *out = BOTH(LogDensity(to_arma(d, th))); return 0; VCATCH(-1)
}
int model_getlogdens(void* h, int d, const double* th, double* out) {
    VTRY Model* m = (Model*)h; *out = BOTH(getLogDensity(to_svec(d, th))); return 0; VCATCH(-1)
}
int model_logprior(void* h, int d, const double* th, double* out) {
    VTRY Model* m = (Model*)h; *out = BOTH(getLogPrior(to_svec(d, th))); return 0; VCATCH(-1)
}
int model_inbounds(void* h, int d, const double* th) {
    VTRY Model* m = (Model*)h; return BOTH(CheckPriorBounds(to_arma(d, th))) ? 1 : 0; VCATCH(-1)
}
int model_setprior(void* h, double s) { VTRY Model* m = (Model*)h; BOTH(SetPrior(s)); return 0; VCATCH(-1) }
int model_setmle(void* h, int f) { VTRY Model* m = (Model*)h; BOTH(SetMLE(f != 0)); return 0; VCATCH(-1) }
int model_setkappa(void* h, double lo, double hi) {
    VTRY
    Model* m = (Model*)h;
    if (m->kind != 4) return -2;
    static_cast<ZCARMA*>(m->cp.get())->SetKappaBounds(lo, hi);
    return 0;
    VCATCH(-1)
}
// value returned by StartingValue / SetStartingValue; saved as the current value; out must hold 32 values
int model_start(void* h, double* out, double* logp) {
    VTRY
    Model* m = (Model*)h;
    arma::vec v = BOTH(StartingValue());
    BOTH(Save(v));
    *logp = BOTH(GetLogDensity());
    put(v, out);
    return v.n_elem;
    VCATCH(-1)
}
int model_setstart(void* h, int d, const double* init, double* out, double* logp) {
    VTRY
    Model* m = (Model*)h;
    arma::vec v = BOTH(SetStartingValue(to_arma(d, init)));
    BOTH(Save(v));
    *logp = BOTH(GetLogDensity());
    put(v, out);
    return v.n_elem;
    VCATCH(-1)
}
int model_arroots(void* h, int d, const double* th, double* re, double* im) {
    VTRY
    Model* m = (Model*)h;
    if (m->c1) { re[0] = m->c1->ExtractAR(to_arma(d, th)); im[0] = 0; return 1; }
    arma::cx_vec r = m->cp->ARRoots(to_arma(d, th));
    arma::cx_vec r2 = m->cp->ExtractAR(to_arma(d, th));
    bool differ = r.n_elem != r2.n_elem;
    for (arma::uword i = 0; i < r.n_elem && !differ; i++) differ = std::abs(r(i) - r2(i)) > 1e-9 * std::abs(r(i));
    if (differ) { verif_error = "ExtractAR differs from ARRoots"; return -3; }
    for (arma::uword i = 0; i < r.n_elem; i++) { re[i] = r(i).real(); im[i] = r(i).imag(); }
    return r.n_elem;
    VCATCH(-1)
}
int model_ma(void* h, int d, const double* th, double* ma) {
    VTRY Model* m = (Model*)h; arma::vec v = BOTH(ExtractMA(to_arma(d, th))); put(v, ma); return v.n_elem; VCATCH(-1)
}
int model_sigsqr(void* h, int d, const double* th, double* out) {
    VTRY Model* m = (Model*)h; *out = BOTH(ExtractSigsqr(to_arma(d, th))); return 0; VCATCH(-1)
}
int model_variance(void* h, int p, const double* re, const double* im, int nma, const double* ma, double sigma,
                   double dt, double* out) {
    VTRY
    Model* m = (Model*)h;
    if (!m->cp) return -2;
    *out = m->cp->Variance(to_cx(p, re, im), to_arma(nma, ma), sigma, dt);
    return 0;
    VCATCH(-1)
}
// filter quantities of the last evaluation, relative to the current value
int model_kalman(void* h, double* mean, double* var) {
    VTRY
    Model* m = (Model*)h;
    arma::vec a = BOTH(GetKalmanMean()), b = BOTH(GetKalmanVar());
    put(a, mean); put(b, var);
    return a.n_elem;
    VCATCH(-1)
}
// evaluate, save and report the stored log density
int model_save(void* h, int d, const double* th, double* logp) {
    VTRY
    Model* m = (Model*)h;
    arma::vec v = to_arma(d, th);
    BOTH(LogDensity(v));
    BOTH(Save(v));
    *logp = BOTH(GetLogDensity());
    return 0;
    VCATCH(-1)
}
int model_value_dim(void* h) { Model* m = (Model*)h; return BOTH(Value()).n_elem; }

double fn_logit(double x) { return logit(x); }
double fn_inv_logit(double x) { return inv_logit(x); }
int fn_unique_roots(int p, const double* re, const double* im, double tol) {
    VTRY return unique_roots(to_cx(p, re, im), tol) ? 1 : 0; VCATCH(-1)
}
int fn_polycoefs(int p, const double* re, const double* im, double* out) {
    VTRY arma::vec c = polycoefs(to_cx(p, re, im)); put(c, out); return c.n_elem; VCATCH(-1)
}

}
