// Kalman filters: construction through either kind of constructor, every public call.
#include "shim.hpp"
#include "include/random.hpp"
#include "include/kfilter.hpp"

struct KF {
    KalmanFilter1* f1;
    KalmanFilterp* fp;
    KF() : f1(0), fp(0) {}
    ~KF() { delete f1; delete fp; }
};

extern "C" {

// how: 0 std::vector constructor with parameters, 1 arma constructor with parameters,
//      2 std::vector data-only constructor + setters, 3 arma data-only constructor + setters
// p == 1 and car1 != 0 -> KalmanFilter1 with omega = re[0]
void* kf_new(int car1, int how, int n, const double* t, const double* y, const double* e, double sigsqr,
             int p, const double* re, const double* im, int nma, const double* ma) {
    KF* k = new KF();
    try {
        arma::vec at = to_arma(n, t), ay = to_arma(n, y), ae = to_arma(n, e);
        std::vector<double> st = to_svec(n, t), sy = to_svec(n, y), se = to_svec(n, e);
        if (car1) {
            switch (how) {
                case 0: k->f1 = new KalmanFilter1(st, sy, se, sigsqr, re[0]); break;
                case 1: k->f1 = new KalmanFilter1(at, ay, ae, sigsqr, re[0]); break;
                case 2: k->f1 = new KalmanFilter1(st, sy, se); break;
                default: k->f1 = new KalmanFilter1(at, ay, ae); break;
            }
            if (how >= 2) { k->f1->SetSigsqr(sigsqr); k->f1->SetOmega(re[0]); }
        } else {
            arma::cx_vec om = to_cx(p, re, im);
            std::vector<std::complex<double> > som(p);
            for (int i = 0; i < p; i++) som[i] = std::complex<double>(re[i], im[i]);
            arma::vec ama = to_arma(nma, ma);
            std::vector<double> sma = to_svec(nma, ma);
            switch (how) {
                case 0: k->fp = new KalmanFilterp(st, sy, se, sigsqr, som, sma); break;
                case 1: k->fp = new KalmanFilterp(at, ay, ae, sigsqr, om, ama); break;
                case 2: k->fp = new KalmanFilterp(st, sy, se); break;
                default: k->fp = new KalmanFilterp(at, ay, ae); break;
            }
            if (how >= 2) {
                if (nma < p) ama.resize(p);
                k->fp->SetSigsqr(sigsqr); k->fp->SetOmega(om); k->fp->SetMA(ama);
            }
        }
        return k;
    } catch (std::exception& ex) { verif_error = ex.what(); delete k; return 0; }
    catch (...) { verif_error = "non-standard exception"; delete k; return 0; }
}
void kf_free(void* h) { delete (KF*)h; }

int kf_n(void* h) { KF* k = (KF*)h; return k->f1 ? k->f1->GetTime().n_elem : k->fp->GetTime().n_elem; }

int kf_filter(void* h, double* mean, double* var) {
    VTRY
    KF* k = (KF*)h;
    std::vector<double> m, v;
    if (k->f1) { k->f1->Filter(); m = k->f1->GetMeanSvec(); v = k->f1->GetVarSvec(); }
    else { k->fp->Filter(); m = k->fp->GetMeanSvec(); v = k->fp->GetVarSvec(); }
    int n = kf_n(h);
    if ((int)m.size() != n || (int)v.size() != n) { verif_error = "mean/var have the wrong length"; return -3; }
    std::copy(m.begin(), m.end(), mean);
    std::copy(v.begin(), v.end(), var);
    return 0;
    VCATCH(-1)
}
int kf_predict(void* h, double t, double* out) {
    VTRY
    KF* k = (KF*)h;
    std::pair<double, double> r = k->f1 ? k->f1->Predict(t) : k->fp->Predict(t);
    out[0] = r.first; out[1] = r.second;
    return 0;
    VCATCH(-1)
}
int kf_simulate(void* h, int m, const double* t, double* out) {
    VTRY
    KF* k = (KF*)h;
    std::vector<double> st = to_svec(m, t);
    std::vector<double> r = k->f1 ? k->f1->Simulate(st) : k->fp->Simulate(st);
    if ((int)r.size() != m) { verif_error = "simulated path has the wrong length"; return -3; }
    std::copy(r.begin(), r.end(), out);
    return 0;
    VCATCH(-1)
}
// current data; arrays must hold kf_n values
int kf_get(void* h, double* t, double* y, double* e) {
    VTRY
    KF* k = (KF*)h;
    arma::vec a = k->f1 ? k->f1->GetTime() : k->fp->GetTime();
    arma::vec b = k->f1 ? k->f1->GetTimeSeries() : k->fp->GetTimeSeries();
    arma::vec c = k->f1 ? k->f1->GetTimeSeriesErr() : k->fp->GetTimeSeriesErr();
    if (a.n_elem != b.n_elem || a.n_elem != c.n_elem) { verif_error = "stored arrays differ in length"; return -3; }
    put(a, t); put(b, y); put(c, e);
    return 0;
    VCATCH(-1)
}
int kf_set_sigsqr(void* h, double s) {
    VTRY KF* k = (KF*)h; if (k->f1) k->f1->SetSigsqr(s); else k->fp->SetSigsqr(s); return 0; VCATCH(-1)
}
double kf_get_sigsqr(void* h) { KF* k = (KF*)h; return k->f1 ? k->f1->GetSigsqr() : k->fp->GetSigsqr(); }
int kf_set_omega(void* h, int p, const double* re, const double* im) {
    VTRY KF* k = (KF*)h; if (k->f1) k->f1->SetOmega(re[0]); else k->fp->SetOmega(to_cx(p, re, im)); return 0; VCATCH(-1)
}
int kf_get_omega(void* h, double* re, double* im) {
    VTRY
    KF* k = (KF*)h;
    if (k->f1) { re[0] = k->f1->GetOmega(); im[0] = 0; return 1; }
    arma::cx_vec o = k->fp->GetOmega();
    for (arma::uword i = 0; i < o.n_elem; i++) { re[i] = o(i).real(); im[i] = o(i).imag(); }
    return o.n_elem;
    VCATCH(-1)
}
int kf_set_ma(void* h, int n, const double* ma) {
    VTRY KF* k = (KF*)h; if (k->f1) k->f1->SetMA(to_arma(n, ma)); else k->fp->SetMA(to_arma(n, ma)); return 0; VCATCH(-1)
}
int kf_get_ma(void* h, double* ma) {
    VTRY KF* k = (KF*)h; if (k->f1) return 0; arma::vec m = k->fp->GetMA(); put(m, ma); return m.n_elem; VCATCH(-1)
}
int kf_set_y(void* h, int n, const double* y) {
    VTRY KF* k = (KF*)h; arma::vec v = to_arma(n, y);
    if (k->f1) k->f1->SetTimeSeries(v); else k->fp->SetTimeSeries(v); return 0; VCATCH(-1)
}
int kf_set_e(void* h, int n, const double* e) {
    VTRY KF* k = (KF*)h; arma::vec v = to_arma(n, e);
    if (k->f1) k->f1->SetTimeSeriesErr(v); else k->fp->SetTimeSeriesErr(v); return 0; VCATCH(-1)
}

}
