// Generator control and the random-variate functions.
#include "shim.hpp"
#include "include/random.hpp"
#include <iostream>
#include <sstream>

extern boost::random::mt19937 rng;
extern RandomGenerator RandGen;
std::string verif_error;
static std::ostringstream captured;
static std::streambuf* plain = 0;
static std::string captured_text;

extern "C" {

// text written to std::cout between the two calls
void cout_begin() {
    captured.str("");
    if (!plain) plain = std::cout.rdbuf(captured.rdbuf());
}
const char* cout_end() {
    if (plain) std::cout.rdbuf(plain);
    plain = 0;
    captured_text = captured.str();
    return captured_text.c_str();
}

const char* verif_last_error() { return verif_error.c_str(); }

void verif_seed(unsigned long seed) {
    RandGen.SetSeed(seed & 0xffffffffUL);
    arma::arma_rng::set_seed(static_cast<arma::arma_rng::seed_type>(seed & 0x7fffffffUL));
}

void rng_set_seed(unsigned long seed) { RandGen.SetSeed(seed); }
int rng_save(const char* path) { VTRY RandGen.SaveSeed(path); return 0; VCATCH(-1) }
int rng_recover(const char* path) { VTRY RandGen.RecoverSeed(path); return 0; VCATCH(-1) }

// n draws of the variate `kind` with parameters par
int rng_draw(int kind, const double* par, int n, double* out) {
    VTRY
    for (int i = 0; i < n; i++) {
        switch (kind) {
            case 0: out[i] = RandGen.exp(par[0]); break;
            case 1: out[i] = RandGen.normal(par[0], par[1]); break;
            case 2: out[i] = RandGen.lognormal(par[0], par[1]); break;
            case 3: out[i] = RandGen.uniform(par[0], par[1]); break;
            case 4: out[i] = RandGen.uniform((int)par[0], (int)par[1]); break;
            case 5: out[i] = RandGen.powerlaw(par[0], par[1], par[2]); break;
            case 6: out[i] = RandGen.tdist(par[0], par[1], par[2]); break;
            case 7: out[i] = RandGen.chisqr((int)par[0]); break;
            case 8: out[i] = RandGen.scaled_inverse_chisqr((int)par[0], par[1]); break;
            case 9: out[i] = RandGen.gamma(par[0], par[1]); break;
            case 10: out[i] = RandGen.invgamma(par[0], par[1]); break;
            default: return -2;
        }
    }
    return 0;
    VCATCH(-1)
}

// n draws of the multivariate normal, out is n x d row-major, covar d x d
int rng_mvn(int d, const double* covar, int n, double* out) {
    VTRY
    arma::mat C(d, d);
    for (int i = 0; i < d; i++)
        for (int j = 0; j < d; j++) C(i, j) = covar[i * d + j];
    for (int k = 0; k < n; k++) {
        arma::vec x = RandGen.normal(C);
        if ((int)x.n_elem != d) { verif_error = "wrong dimension"; return -3; }
        put(x, out + (size_t)k * d);
    }
    return 0;
    VCATCH(-1)
}

}
