// probe: the collision step of the solver, as selected by the configuration, for every velocity set
#include "/opt/vp/compat/natrium_preamble.h"
#include "all_stencils.h"
#include <natrium/collision_advanced/CollisionSelection.h>
#include "all_collision_advanced.h"
#include <natrium/solver/DistributionFunctions.cpp>
#include "names.h"
using namespace natrium;

template<size_t D> struct PD: public ProblemDescription<D> {
	PD(double nu) : ProblemDescription<D>(boost::shared_ptr<Mesh<D> >(), nu, 1.0) {}
	void refine(Mesh<D>&) {}
	void transform(Mesh<D>&) {}
	bool isCartesian() { return true; }
};

template<class S, size_t D> static void go(SolverConfiguration* cfg, dealii::IndexSet* dofs, double s, double nu, double dt, double* F, bool force, bool init, bool thermal) {
	S st(s);
	PD<D> pd(nu);
	if (force) {
		dealii::Tensor<1, D> t;
		for (size_t d = 0; d < D; d++) t[d] = F[d];
		pd.setExternalForce(boost::shared_ptr<ConstantExternalForce<D> >(new ConstantExternalForce<D>(t)));
	}
	DistributionFunctions f, g;
	f.reinit(S::Q, *dofs);
	distributed_vector rho, T, mask;
	std::vector<distributed_vector> u(D);
	for (size_t i = 0; i < S::Q; i++) nat_name(&f.at(i), "f", i);
	nat_name(&rho, "rho", 0);
	for (size_t d = 0; d < D; d++) nat_name(&u[d], "u", d);
	if (thermal) {
		g.reinit(S::Q, *dofs);
		for (size_t i = 0; i < S::Q; i++) nat_name(&g.at(i), "g", i);
		nat_name(&T, "T", 0);
		nat_name(&mask, "mask", 0);
		selectCollision<D>(*cfg, pd, f, g, rho, u, T, mask, *dofs, nu, dt, st, init);
	} else {
		selectCollision<D>(*cfg, pd, f, rho, u, *dofs, nu, dt, st, init);
	}
}
#define PROBE(S, D) extern "C" void probe_col_##S(SolverConfiguration* cfg, dealii::IndexSet* dofs, double s, double nu, double dt, double* F, bool force, bool init, bool thermal) \
	{ go<S, D>(cfg, dofs, s, nu, dt, F, force, init, thermal); }
PROBE(D2Q9, 2) PROBE(D2Q19H, 2) PROBE(D2Q19V, 2) PROBE(D2Q25H, 2) PROBE(D3Q13, 3) PROBE(D3Q15, 3) PROBE(D3Q19, 3) PROBE(D3Q21, 3) PROBE(D3Q27, 3)
PROBE(D3Q45, 3) PROBE(D3Q77, 3) PROBE(D3V27, 3) PROBE(RD3Q27, 3)
#ifdef NAT_BIG
PROBE(D2Q777, 2)
#endif
#define ENUM(x) extern "C" int probe_enum_##x() { return (int) x; }
ENUM(BGK_STANDARD) ENUM(BGK_STANDARD_TRANSFORMED) ENUM(BGK_STEADY_STATE) ENUM(BGK_MULTIPHASE) ENUM(BGK_INCOMPRESSIBLE) ENUM(MRT_STANDARD) ENUM(MRT_ENTROPIC)
ENUM(ENTROPIC_STABILIZED) ENUM(KBC_STANDARD) ENUM(KBC_CENTRAL) ENUM(BGK_MULTI_AM4) ENUM(BGK_MULTI_BDF2) ENUM(BGK_REGULARIZED)
ENUM(BGK_EQUILIBRIUM) ENUM(QUARTIC_EQUILIBRIUM) ENUM(INCOMPRESSIBLE_EQUILIBRIUM) ENUM(STEADYSTATE_EQUILIBRIUM) ENUM(ENTROPIC_EQUILIBRIUM)
ENUM(NO_FORCING) ENUM(SHIFTING_VELOCITY) ENUM(EXACT_DIFFERENCE) ENUM(GUO)
ENUM(RELAX_FULL) ENUM(DELLAR_RELAX_ONLY_N) ENUM(RELAX_DHUMIERES_PAPER) ENUM(DELLAR_D2Q9) ENUM(LALLEMAND_D2Q9) ENUM(DHUMIERES_D3Q19)
ENUM(Stencil_D2Q9) ENUM(Stencil_D3Q13) ENUM(Stencil_D3Q15) ENUM(Stencil_D3Q19) ENUM(Stencil_D3Q21) ENUM(Stencil_D3Q27) ENUM(Stencil_D3V27)
ENUM(Stencil_D2Q25H) ENUM(Stencil_D2Q19H) ENUM(Stencil_D2Q19V) ENUM(Stencil_D3Q45) ENUM(Stencil_D3Q77) ENUM(Stencil_RD3Q27)
