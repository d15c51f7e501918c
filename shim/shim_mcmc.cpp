// Parameters, proposals, steps and the sampler, driven by call-backs.
#include "shim.hpp"
#include "include/random.hpp"
#include "include/parameters.hpp"
#include "include/proposals.hpp"
#include "include/steps.hpp"
#include "include/samplers.hpp"

typedef double (*logf_t)(int id, int n, const double* x);
typedef void (*draw_t)(int id, int n, const double* from, double* to);
typedef double (*qdens_t)(int id, int n, const double* to, const double* from);
typedef void (*event_t)(int kind, int id);

// The overridden functions are defined for every way to declare them: const or not, arguments by value or by reference.
#define FN0(RET, NAME, ...) RET NAME() { __VA_ARGS__ } RET NAME() const { __VA_ARGS__ }
#define FN1(RET, NAME, T, ...)                                                        \
    RET NAME(T x) { __VA_ARGS__ } RET NAME(T x) const { __VA_ARGS__ }                 \
    RET NAME(const T& x) { __VA_ARGS__ } RET NAME(const T& x) const { __VA_ARGS__ }
#define FN2(RET, NAME, T, ...)                                                                      \
    RET NAME(T to, T from) { __VA_ARGS__ } RET NAME(T to, T from) const { __VA_ARGS__ }             \
    RET NAME(const T& to, const T& from) { __VA_ARGS__ } RET NAME(const T& to, const T& from) const { __VA_ARGS__ }

// vector parameter with a call-back log density
class VPar : public Parameter<arma::vec> {
    template <class S> static auto size(S* s, int n, int) -> decltype(s->value_.set_size(n), void()) { s->value_.set_size(n); }
    template <class S> static void size(S*, int, long) {}
    arma::vec Post() {
        if (ev_) ev_(2, id_);
        arma::vec v = Value(), w(v.n_elem);
        if (!post_) return v;
        post_(id_, v.n_elem, v.memptr(), w.memptr());
        return w;
    }
public:
    VPar(bool track, std::string label, double temp, int id, logf_t f, const arma::vec& start, event_t ev = 0)
        : Parameter<arma::vec>(track, label, temp), id_(id), f_(f), start_(start), ev_(ev) { size(this, start.n_elem, 0); }
    FN0(arma::vec, StartingValue, if (ev_) ev_(10, id_); return start_;)
    FN1(arma::vec, SetStartingValue, arma::vec, if (ev_) ev_(11, id_); return x;)
    FN1(double, LogDensity, arma::vec, return f_(id_, x.n_elem, x.memptr());)
    FN0(arma::vec, RandomPosterior, return const_cast<VPar*>(this)->Post();)
    int id_; logf_t f_; arma::vec start_; event_t ev_; draw_t post_ = 0;
};
class SPar : public Parameter<double> {
public:
    SPar(bool track, std::string label, double temp, int id, logf_t f, double start)
        : Parameter<double>(track, label, temp), id_(id), f_(f), start_(start) {}
    FN0(double, StartingValue, return start_;)
    FN1(double, SetStartingValue, double, return x;)
    FN1(double, LogDensity, double, return f_(id_, 1, &x);)
    int id_; logf_t f_; double start_;
};
class VProp : public Proposal<arma::vec> {
public:
    VProp(int id, draw_t d, qdens_t q) : id_(id), d_(d), q_(q) {}
    FN1(arma::vec, Draw, arma::vec, arma::vec to(x.n_elem); d_(id_, x.n_elem, x.memptr(), to.memptr()); return to;)
    FN2(double, LogDensity, arma::vec, return q_(id_, to.n_elem, to.memptr(), from.memptr());)
    int id_; draw_t d_; qdens_t q_;
};
class SProp : public Proposal<double> {
public:
    SProp(int id, draw_t d, qdens_t q) : id_(id), d_(d), q_(q) {}
    FN1(double, Draw, double, double to; d_(id_, 1, &x, &to); return to;)
    FN2(double, LogDensity, double, return q_(id_, 1, &to, &from);)
    int id_; draw_t d_; qdens_t q_;
};
// step that reports the call and lets the call-back change the parameter
class EventStep : public Step {
public:
    EventStep(VPar& p, int id, event_t ev, draw_t d) : p_(p), id_(id), ev_(ev), d_(d) {}
    void DoStep() {
        ev_(1, id_);
        arma::vec v = p_.Value(), w(v.n_elem);
        d_(id_, v.n_elem, v.memptr(), w.memptr());
        p_.Save(w);
    }
    FN0(std::string, ParameterLabel, return p_.Label();)
    FN0(std::string, ParameterValue, return " ";)
    FN0(bool, ParameterTrack, return p_.Track();)
    FN0(BaseParameter*, GetParPointer, return &p_;)
    VPar& p_; int id_; event_t ev_; draw_t d_;
};
struct Ens {
    Ensemble<VPar> e;
};

// a target density for long runs: mixture of Gaussians exp(-|A(x-m)|^2/2) with a box outside which it vanishes
struct Target {
    int d, k;
    std::vector<double> logw, m, a, lo, hi;
};
static Target the_target;

extern "C" {

void target_set(int d, int k, const double* logw, const double* m, const double* a, const double* lo, const double* hi) {
    the_target.d = d; the_target.k = k;
    the_target.logw.assign(logw, logw + k);
    the_target.m.assign(m, m + k * d);
    the_target.a.assign(a, a + k * d * d);
    the_target.lo.assign(lo, lo + d);
    the_target.hi.assign(hi, hi + d);
}
double target_logdens(int, int d, const double* x) {
    const Target& t = the_target;
    for (int i = 0; i < d; i++) if (!(x[i] >= t.lo[i] && x[i] <= t.hi[i])) return -std::numeric_limits<double>::infinity();
    double best = -std::numeric_limits<double>::infinity(), sum = 0.0;
    for (int k = 0; k < t.k; k++) {
        double q = t.logw[k];
        for (int i = 0; i < d; i++) {
            double z = 0.0;
            for (int j = 0; j < d; j++) z += t.a[(k * d + i) * d + j] * (x[j] - t.m[k * d + j]);
            q -= 0.5 * z * z;
        }
        if (q > best) { sum = sum * std::exp(best - q) + 1.0; best = q; } else sum += std::exp(q - best);
    }
    return best + std::log(sum);
}
void* target_address() { return (void*)&target_logdens; }

// ---- parameters and ensembles
void* vpar_new(int track, const char* label, double temp, int id, logf_t f, int n, const double* start, event_t ev) {
    return new VPar(track != 0, label, temp, id, f, to_arma(n, start), ev);
}
void vpar_posterior(void* h, draw_t d) { ((VPar*)h)->post_ = d; }
void vpar_free(void* h) { delete (VPar*)h; }
int vpar_save(void* h, int n, const double* x) { VTRY ((VPar*)h)->Save(to_arma(n, x)); return 0; VCATCH(-1) }
int vpar_value(void* h, double* out) { VTRY arma::vec v = ((VPar*)h)->Value(); put(v, out); return v.n_elem; VCATCH(-1) }
double vpar_logdens(void* h) { return ((VPar*)h)->GetLogDensity(); }
double vpar_temp(void* h) { return ((VPar*)h)->GetTemperature(); }
int vpar_nsamples(void* h) { return ((VPar*)h)->GetSamples().size(); }
int vpar_samples(void* h, int dim, double* out, double* lp) {
    VTRY
    std::vector<arma::vec> s = ((VPar*)h)->GetSamples();
    std::vector<double> l = ((VPar*)h)->GetLogLikes();
    if (s.size() != l.size()) { verif_error = "samples and log densities differ in number"; return -3; }
    for (size_t i = 0; i < s.size(); i++) {
        if ((int)s[i].n_elem != dim) { verif_error = "sample with the wrong number of values"; return -3; }
        put(s[i], out + i * dim);
        lp[i] = l[i];
    }
    return s.size();
    VCATCH(-1)
}
void* spar_new(double temp, int id, logf_t f, double start) { return new SPar(false, "s", temp, id, f, start); }
void spar_free(void* h) { delete (SPar*)h; }
int spar_save(void* h, double x) { VTRY ((SPar*)h)->Save(x); return 0; VCATCH(-1) }
double spar_value(void* h) { return ((SPar*)h)->Value(); }
double spar_logdens(void* h) { return ((SPar*)h)->GetLogDensity(); }

void* ens_new() { return new Ens(); }
void ens_add(void* h, void* par) { ((Ens*)h)->e.AddObject((VPar*)par); }   // takes ownership
void* ens_get(void* h, int i) { return &((Ens*)h)->e[i]; }
int ens_size(void* h) { return ((Ens*)h)->e.size(); }
void ens_free(void* h) { delete (Ens*)h; }

// ---- proposals with call-backs
void* vprop_new(int id, draw_t d, qdens_t q) { return new VProp(id, d, q); }
void vprop_free(void* h) { delete (VProp*)h; }
void* sprop_new(int id, draw_t d, qdens_t q) { return new SProp(id, d, q); }
void sprop_free(void* h) { delete (SProp*)h; }

// ---- package proposals. scalar kinds: 0 normal(par0), 1 student(par0 dof, par1 scale), 2 lognormal(par0)
void* prop_scalar(int kind, const double* par) {
    switch (kind) {
        case 0: return (Proposal<double>*)new NormalProposal(par[0]);
        case 1: return (Proposal<double>*)new StudentProposal(par[0], par[1]);
        default: return (Proposal<double>*)new LogNormalProposal(par[0]);
    }
}
int prop_scalar_draw(void* h, double from, int n, double* out) {
    VTRY Proposal<double>* p = (Proposal<double>*)h; for (int i = 0; i < n; i++) out[i] = p->Draw(from); return 0; VCATCH(-1)
}
double prop_scalar_logdens(void* h, double to, double from) { return ((Proposal<double>*)h)->LogDensity(to, from); }

void* prop_multi(int d, const double* covar) {
    arma::mat C(d, d);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) C(i, j) = covar[i * d + j];
    return (Proposal<arma::vec>*)new MultiNormalProposal(C);
}
void* prop_stretch(void* ens, int index, double a, int set_later) {
    if (set_later) {
        StretchProposal<VPar>* s = new StretchProposal<VPar>(((Ens*)ens)->e, index);
        s->SetScalingSupport(a);
        return (Proposal<arma::vec>*)s;
    }
    return (Proposal<arma::vec>*)new StretchProposal<VPar>(((Ens*)ens)->e, index, a);
}
// draws, and for every draw log-density of (to | from) and (from | to)
int prop_vec_draw(void* h, int d, const double* from, int n, double* out, double* fwd, double* back) {
    VTRY
    Proposal<arma::vec>* p = (Proposal<arma::vec>*)h;
    arma::vec f = to_arma(d, from);
    for (int i = 0; i < n; i++) {
        arma::vec x = p->Draw(f);
        if ((int)x.n_elem != d) { verif_error = "proposal with the wrong dimension"; return -3; }
        put(x, out + (size_t)i * d);
        if (back) back[i] = p->LogDensity(f, x);
        if (fwd) fwd[i] = p->LogDensity(x, f);
    }
    return 0;
    VCATCH(-1)
}

// ---- steps
void* step_metrop_v(void* par, void* prop, int report) {
    return (Step*)new MetropStep<arma::vec>(*(VPar*)par, *(Proposal<arma::vec>*)(VProp*)prop, report);
}
void* step_metrop_v_pkg(void* par, void* prop, int report) {
    return (Step*)new MetropStep<arma::vec>(*(VPar*)par, *(Proposal<arma::vec>*)prop, report);
}
double step_metrop_v_ratio(void* s) { return ((MetropStep<arma::vec>*)(Step*)s)->GetMetroRatio(); }
void* step_metrop_s(void* par, void* prop, int report) {
    return (Step*)new MetropStep<double>(*(SPar*)par, *(Proposal<double>*)(SProp*)prop, report);
}
void* step_metrop_s_pkg(void* par, void* prop, int report) {
    return (Step*)new MetropStep<double>(*(SPar*)par, *(Proposal<double>*)prop, report);
}
double step_metrop_s_ratio(void* s) { return ((MetropStep<double>*)(Step*)s)->GetMetroRatio(); }
void* step_ram(void* par, void* prop, int d, const double* covar, double target, int maxiter, int pkg) {
    try {
        arma::mat C(d, d);
        for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) C(i, j) = covar[i * d + j];
        Proposal<double>* p = pkg ? (Proposal<double>*)prop : (Proposal<double>*)(SProp*)prop;
        return (Step*)new AdaptiveMetro(*(VPar*)par, *p, C, target, maxiter);
    } catch (std::exception& ex) { verif_error = ex.what(); return 0; }
}
double step_ram_ratio(void* s) { return ((AdaptiveMetro*)(Step*)s)->GetMetroRatio(); }
double step_ram_rate(void* s) { return ((AdaptiveMetro*)(Step*)s)->GetAcceptRate(); }
int step_ram_covar(void* s, double* out) {
    VTRY
    arma::mat C = ((AdaptiveMetro*)(Step*)s)->GetCovariance();
    for (arma::uword i = 0; i < C.n_rows; i++) for (arma::uword j = 0; j < C.n_cols; j++) out[i * C.n_cols + j] = C(i, j);
    return C.n_rows;
    VCATCH(-1)
}
void step_ram_target(void* s, double r) { ((AdaptiveMetro*)(Step*)s)->SetTargetRate(r); }
void step_ram_decay(void* s, double g) { ((AdaptiveMetro*)(Step*)s)->SetDecayRate(g); }
void* step_exchange(void* ens, int index, int report) {
    Ens* e = (Ens*)ens;
    return (Step*)new ExchangeStep<arma::vec, VPar>(e->e[index], index, e->e, report);
}
double step_exchange_ratio(void* s) { return ((ExchangeStep<arma::vec, VPar>*)(Step*)s)->GetMetroRatio(); }
void* step_event(void* par, int id, event_t ev, draw_t d) { return (Step*)new EventStep(*(VPar*)par, id, ev, d); }
void* step_gibbs(void* par) { return (Step*)new GibbsStep<arma::vec>(*(VPar*)par); }
int step_do(void* s, int n) { VTRY for (int i = 0; i < n; i++) ((Step*)s)->DoStep(); return 0; VCATCH(-1) }
void step_free_metrop_v(void* s) { delete (MetropStep<arma::vec>*)(Step*)s; }
void step_free_metrop_s(void* s) { delete (MetropStep<double>*)(Step*)s; }
void step_free_ram(void* s) { delete (AdaptiveMetro*)(Step*)s; }
void step_free_exchange(void* s) { delete (ExchangeStep<arma::vec, VPar>*)(Step*)s; }

// repeat `n` times: put the parameter at x0 and do one step; count the moves
int step_repeat_v(void* s, void* par, int d, const double* x0, int n, int* moved) {
    VTRY
    VPar* p = (VPar*)par;
    arma::vec v = to_arma(d, x0);
    int c = 0;
    for (int i = 0; i < n; i++) {
        p->Save(v);
        ((Step*)s)->DoStep();
        arma::vec w = p->Value();
        if (arma::accu(w != v)) c++;
    }
    *moved = c;
    return 0;
    VCATCH(-1)
}
int step_repeat_s(void* s, void* par, double x0, int n, int* moved) {
    VTRY
    SPar* p = (SPar*)par;
    int c = 0;
    for (int i = 0; i < n; i++) {
        p->Save(x0);
        ((Step*)s)->DoStep();
        if (p->Value() != x0) c++;
    }
    *moved = c;
    return 0;
    VCATCH(-1)
}
// n steps from the current state, recording the value after each
int step_trace_v(void* s, void* par, int d, int n, double* out) {
    VTRY
    VPar* p = (VPar*)par;
    for (int i = 0; i < n; i++) { ((Step*)s)->DoStep(); put(p->Value(), out + (size_t)i * d); }
    return 0;
    VCATCH(-1)
}
int step_trace_s(void* s, void* par, int n, double* out) {
    VTRY
    SPar* p = (SPar*)par;
    for (int i = 0; i < n; i++) { ((Step*)s)->DoStep(); out[i] = p->Value(); }
    return 0;
    VCATCH(-1)
}

// ---- sampler
void* sampler_new(int n, int burn, int thin) { return new Sampler(n, burn, thin); }
void sampler_add(void* h, void* step) { ((Sampler*)h)->AddStep((Step*)step); }   // takes ownership
int sampler_run(void* h, int n, const double* init) {
    VTRY ((Sampler*)h)->Run(to_arma(n, init)); return 0; VCATCH(-1)
}
int sampler_nsteps(void* h) { return ((Sampler*)h)->NumberOfSteps(); }
int sampler_ntracked(void* h) { return ((Sampler*)h)->NumberOfTrackedSteps(); }
void sampler_free(void* h) { delete (Sampler*)h; }

int fn_chol_update(int d, double* L, const double* v, int downdate) {
    VTRY
    arma::mat M(d, d);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) M(i, j) = L[i * d + j];
    arma::vec w = to_arma(d, v);
    CholUpdateR1(M, w, downdate != 0);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) L[i * d + j] = M(i, j);
    return 0;
    VCATCH(-1)
}

}
