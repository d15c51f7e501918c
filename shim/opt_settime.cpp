// Replacing the times of a filter.
#include "shim.hpp"
#include "include/random.hpp"
#include "include/kfilter.hpp"

// as in shim_kf.cpp
struct KF {
    KalmanFilter1* f1;
    KalmanFilterp* fp;
    KF() : f1(0), fp(0) {}
    ~KF() { delete f1; delete fp; }
};

extern "C" {

int kf_set_t(void* h, int n, const double* t) {
    VTRY KF* k = (KF*)h; arma::vec v = to_arma(n, t);
    if (k->f1) k->f1->SetTime(v); else k->fp->SetTime(v); return 0; VCATCH(-1)
}

}
