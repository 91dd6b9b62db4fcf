// probe: time integrators
#include "/opt/vp/compat/natrium_preamble.h"
#include <natrium/utilities/BasicNames.h>
#include <natrium/utilities/Logging.h>
#include <natrium/utilities/SemiParallelMatrix.cpp>
#include <natrium/timeintegration/TimeIntegrator.cpp>
#include <natrium/timeintegration/RungeKutta5LowStorage.cpp>
#include <natrium/timeintegration/ThetaMethod.cpp>
#include <natrium/timeintegration/ExponentialTimeIntegrator.cpp>
#include <natrium/timeintegration/DealIIWrapper.cpp>
#include "names.h"
using namespace natrium;
typedef distributed_sparse_block_matrix BM;
typedef distributed_block_vector BV;
typedef distributed_sparse_matrix SM;
typedef distributed_vector SV;
#define INT(n, T, ...) extern "C" T* probe_new_##n(double dt, double theta, const BV* bproto, const SV* proto) { return new T(__VA_ARGS__); } \
	extern "C" double probe_dt_##n(T* t) { return t->getTimeStepSize(); }
typedef RungeKutta5LowStorage<BM, BV> RKB; typedef RungeKutta5LowStorage<SM, SV> RKS;
typedef ThetaMethod<BM, BV> THB; typedef ThetaMethod<SM, SV> THS;
typedef ExponentialTimeIntegrator<BM, BV> EXB; typedef ExponentialTimeIntegrator<SM, SV> EXS;
INT(rkb, RKB, dt, *bproto) INT(rks, RKS, dt, *proto) INT(thb, THB, dt, *bproto, theta) INT(ths, THS, dt, *proto, theta) INT(exb, EXB, dt, 2) INT(exs, EXS, dt)
#define STEPB(n, T) extern "C" double probe_step_##n(T* t, BV* f, const BM* A, BV* b, double time, double dt) { return t->step(*f, *A, *b, time, dt); }
#define STEPS(n, T) extern "C" double probe_step_##n(T* t, SV* f, const SM* A, SV* b, double time, double dt) { return t->step(*f, *A, *b, time, dt); }
STEPB(rkb, RKB) STEPB(thb, THB) STEPB(exb, EXB) STEPS(rks, RKS) STEPS(ths, THS) STEPS(exs, EXS)
extern "C" void probe_phi(EXB* t, const numeric_matrix* H, numeric_matrix* p1, numeric_matrix* p2) { t->phiFunction(*H, *p1, *p2); }
extern "C" void probe_pade(EXB* t, const numeric_matrix* H, numeric_matrix* r) { *r = t->padeApproximation(*H); }
extern "C" void probe_taylor(EXB* t, const numeric_matrix* H, numeric_matrix* r) { *r = t->taylorSeries(*H); }
extern "C" double probe_factorial(EXB* t, int n) { return t->factorial(n); }
// deal.II's integrators, replaced by one that records what it is given
extern "C" void vhook_evolve(double t, double dt, void* y, void* fy, void* jy);
template<class V> struct ProbeRK: public dealii::TimeStepping::RungeKutta<V> {
	double m_s, m_tau;
	void initialize(const dealii::TimeStepping::runge_kutta_method) override {}
	struct S: public dealii::TimeStepping::TimeStepping<V>::Status {} m_st;
	const typename dealii::TimeStepping::TimeStepping<V>::Status& get_status() const override { return m_st; }
	double evolve_one_time_step(const std::function<V(const double, const V&)>& f, const std::function<V(const double, const double, const V&)>& j, double t, double dt, V& y) override {
		V fy = f(m_s, y);
		V jy = j(m_s, m_tau, y);
		vhook_evolve(t, dt, &y, &fy, &jy);
		return t + dt;
	}
};
extern "C" void* probe_rk_b() { return new ProbeRK<BV>(); }
extern "C" void* probe_rk_s() { return new ProbeRK<SV>(); }
#define DEALII(n, M, V) \
extern "C" void* probe_deal_##n(double dt, int scheme, int solver) { return new DealIIWrapper<M, V>(dt, DealIntegratorName(scheme), DealSolverName(solver)); } \
extern "C" void* probe_deal_e##n(double dt, int scheme, int solver, double c, double r, double lo, double hi, double rt, double ct) { return new DealIIWrapper<M, V>(dt, DealIntegratorName(scheme), DealSolverName(solver), c, r, lo, hi, rt, ct); } \
extern "C" void* probe_deal_rk##n(DealIIWrapper<M, V>* t) { return t->m_dealIIRKStepper.get(); } \
extern "C" void* probe_deal_em##n(DealIIWrapper<M, V>* t) { return t->m_dealIIRKEmbedded.get(); } \
extern "C" size_t probe_layrk_##n(int w) { ProbeRK<V>* p = 0; return w ? size_t(&p->m_tau) : size_t(&p->m_s); } \
extern "C" double probe_step_d##n(DealIIWrapper<M, V>* t, V* f, const M* A, V* b, double time, double dt) { return t->step(*f, *A, *b, time, dt); } \
extern "C" double probe_dt_d##n(DealIIWrapper<M, V>* t) { return t->getTimeStepSize(); }
DEALII(b, BM, BV)
DEALII(s, SM, SV)
#define SCHEME(n) extern "C" int probe_scheme_##n() { return natrium::n; } extern "C" int probe_dscheme_##n() { return dealii::TimeStepping::n; }
SCHEME(FORWARD_EULER) SCHEME(RK_THIRD_ORDER) SCHEME(RK_CLASSIC_FOURTH_ORDER) SCHEME(BACKWARD_EULER) SCHEME(IMPLICIT_MIDPOINT) SCHEME(CRANK_NICOLSON) SCHEME(SDIRK_TWO_STAGES) SCHEME(HEUN_EULER) SCHEME(BOGACKI_SHAMPINE) SCHEME(DOPRI) SCHEME(FEHLBERG) SCHEME(CASH_KARP)
