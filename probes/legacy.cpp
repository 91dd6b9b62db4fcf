// probe: the collision models of directory collision/ (initial distributions, iterative initialisation)
#include "/opt/vp/compat/natrium_preamble.h"
#include "all_stencils.h"
#include "all_collision.h"
#include <natrium/solver/DistributionFunctions.cpp>
#include "names.h"
using namespace natrium;

template<class S, size_t D> static void go(const CollisionModel& m, dealii::IndexSet* dofs, bool init, int eqonly, double* u0, double rho0, double* out) {
	if (eqonly) {
		numeric_vector u(D);
		for (size_t d = 0; d < D; d++) u(d) = u0[d];
		std::vector<double> feq(S::Q);
		m.getEquilibriumDistributions(feq, u, rho0);
		for (size_t i = 0; i < S::Q; i++) out[i] = feq[i];
		return;
	}
	DistributionFunctions f;
	f.reinit(S::Q, *dofs);
	distributed_vector rho;
	std::vector<distributed_vector> u(D);
	for (size_t i = 0; i < S::Q; i++) nat_name(&f.at(i), "f", i);
	nat_name(&rho, "rho", 0);
	for (size_t d = 0; d < D; d++) nat_name(&u[d], "u", d);
	m.collideAll(f, rho, u, *dofs, init);
}
#define PROBE(M, S, D, ...) extern "C" void probe_leg_##M##_##S(dealii::IndexSet* dofs, double s, double tau, double dt, double gamma, double* F, int ftype, bool init, int eqonly, double* u0, double rho0, double* out) { \
	boost::shared_ptr<Stencil> st(new S(s)); M m(tau, dt, st, ##__VA_ARGS__); \
	dealii::Tensor<1, D> t; for (size_t d = 0; d < D; d++) t[d] = F[d]; ConstantExternalForce<D> ef(t); \
	m.setForceType((ForceType) ftype); m.setExternalForce(ef); \
	go<S, D>(m, dofs, init, eqonly, u0, rho0, out); }
#define ALLS(M, ...) PROBE(M, D2Q9, 2, ##__VA_ARGS__) PROBE(M, D2Q19H, 2, ##__VA_ARGS__) PROBE(M, D2Q19V, 2, ##__VA_ARGS__) PROBE(M, D2Q25H, 2, ##__VA_ARGS__) PROBE(M, D3Q13, 3, ##__VA_ARGS__) \
	PROBE(M, D3Q15, 3, ##__VA_ARGS__) PROBE(M, D3Q19, 3, ##__VA_ARGS__) PROBE(M, D3Q21, 3, ##__VA_ARGS__) PROBE(M, D3Q27, 3, ##__VA_ARGS__) PROBE(M, D3Q45, 3, ##__VA_ARGS__) \
	PROBE(M, D3Q77, 3, ##__VA_ARGS__) PROBE(M, D3V27, 3, ##__VA_ARGS__) PROBE(M, RD3Q27, 3, ##__VA_ARGS__)
ALLS(BGKStandard) ALLS(BGKStandardTransformed) ALLS(BGKSteadyState, gamma) ALLS(BGKIncompressible) ALLS(MRTStandard) ALLS(MRTEntropic) ALLS(EntropicStabilized)
ALLS(KBCStandard) ALLS(KBCCentral) ALLS(BGKRegularized)
#define ENUM(x) extern "C" int probe_enum_##x() { return (int) x; }
ENUM(NO_FORCING) ENUM(SHIFTING_VELOCITY) ENUM(EXACT_DIFFERENCE) ENUM(GUO)

// a multistep model: what it makes of the populations, and the history it keeps
#define MULTI(S, D) extern "C" void probe_multi_##S(dealii::IndexSet* dofs, double s, double tau, double dt, double nu, int model, bool later, double* F, int ftype, bool init) { \
	boost::shared_ptr<Stencil> st(new S(s)); BGKMultistep m(tau, dt, st, model); m.setViscosity(nu); \
	dealii::Tensor<1, D> t; for (size_t d = 0; d < D; d++) t[d] = F[d]; ConstantExternalForce<D> ef(t); \
	m.setForceType((ForceType) ftype); m.setExternalForce(ef); \
	DistributionFunctions f; f.reinit(S::Q, *dofs); distributed_vector rho; std::vector<distributed_vector> u(D); \
	for (size_t i = 0; i < S::Q; i++) nat_name(&f.at(i), "o", i); \
	for (size_t d = 0; d < D; d++) nat_name(&u[d], "v", d); \
	if (later) { m.collideAll(f, rho, u, *dofs, init); \
		for (size_t i = 0; i < S::Q; i++) { nat_name(&m.getFormerF().at(i), "F", i); nat_name(&m.getFormerFEq().at(i), "E", i); } } \
	for (size_t i = 0; i < S::Q; i++) nat_name(&f.at(i), "f", i); \
	nat_name(&rho, "rho", 0); for (size_t d = 0; d < D; d++) nat_name(&u[d], "u", d); \
	m.collideAll(f, rho, u, *dofs, init); \
	for (size_t i = 0; i < S::Q; i++) { nat_out("F", i, m.getFormerF().at(i)(0)); nat_out("E", i, m.getFormerFEq().at(i)(0)); nat_out("f", i, f.at(i)(0)); } \
	nat_out("rho", 0, rho(0)); for (size_t d = 0; d < D; d++) nat_out("u", d, u[d](0)); }
MULTI(D2Q9, 2) MULTI(D2Q19H, 2) MULTI(D3Q15, 3) MULTI(D3Q19, 3) MULTI(D3Q27, 3)
