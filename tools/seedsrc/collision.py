HDR = r'''// helpers: one collision step of a single node through selectCollision
#pragma once
#include "/opt/vp/compat/natrium_preamble.h"
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D2Q19H.h"
#include "natrium/stencils/D2Q19V.h"
#include "natrium/stencils/D2Q25H.h"
#include "natrium/stencils/D3Q19.h"
#include "natrium/stencils/D3Q27.h"
#include "natrium/stencils/D3V27.h"
#include "natrium/stencils/D3Q45.h"
#include "natrium/stencils/D3Q77.h"
#include "natrium/utilities/MPIGuard.h"
#include "natrium/collision_advanced/CollisionSelection.h"
#include <vector>
#include <cmath>
#include <cstdio>
using namespace natrium;
template<size_t D> struct PD: public ProblemDescription<D> {
	PD(double nu) : ProblemDescription<D>(boost::shared_ptr<Mesh<D> >(), nu, 1.0) {}
	void refine(Mesh<D>&) {}
	void transform(Mesh<D>&) {}
	bool isCartesian() { return true; }
};
typedef std::vector<std::vector<double> > VV;
struct Node { std::vector<double> f, g; double rho, T; std::vector<double> u; };
template<size_t D> Node collide(const Stencil& st, SolverConfiguration& cfg, std::vector<double> f, std::vector<double> g, double nu, double dt, std::vector<double> F = std::vector<double>()) {
	dealii::IndexSet is(1); is.add_index(0); is.compress();
	PD<D> pd(nu);
	if (F.size()) { dealii::Tensor<1, D> t; for (size_t d = 0; d < D; d++) t[d] = F[d]; pd.setExternalForce(boost::make_shared<ConstantExternalForce<D> >(t)); }
	DistributionFunctions df, dg;
	df.reinit(st.getQ(), is, MPI_COMM_WORLD);
	for (size_t i = 0; i < st.getQ(); i++) df.at(i)(0) = f[i];
	distributed_vector rho(is, MPI_COMM_WORLD), T(is, MPI_COMM_WORLD), m(is, MPI_COMM_WORLD);
	std::vector<distributed_vector> u(D, rho);
	Node n;
	if (g.size()) {
		dg.reinit(st.getQ(), is, MPI_COMM_WORLD);
		for (size_t i = 0; i < st.getQ(); i++) dg.at(i)(0) = g[i];
		selectCollision<D>(cfg, pd, df, dg, rho, u, T, m, is, nu, dt, st, false);
		for (size_t i = 0; i < st.getQ(); i++) n.g.push_back(dg.at(i)(0));
		n.T = T(0);
	} else selectCollision<D>(cfg, pd, df, rho, u, is, nu, dt, st, false);
	for (size_t i = 0; i < st.getQ(); i++) n.f.push_back(df.at(i)(0));
	n.rho = rho(0);
	for (size_t d = 0; d < D; d++) n.u.push_back(u[d](0));
	return n;
}
inline std::vector<double> state(const Stencil& st, double a = 0.05) {
	std::vector<double> f;
	for (size_t i = 0; i < st.getQ(); i++) f.push_back(st.getWeight(i) * (1 + a * std::sin(1.0 + 2.3 * i)));
	return f;
}
inline int verdict(const char* what, double a, double b, double tol = 1e-10) {
	bool ok = std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b));
	std::printf("%s: %.15g, expected %.15g -> %s\n", what, a, b, ok ? "ok" : "VIOLATED");
	return ok ? 0 : 1;
}
'''
H = {"col.h": HDR}
SEEDS = [
 dict(id="C04-exact-difference-scaling", property="C04", hdr=H,
  needs="EXACT_DIFFERENCE forcing and a stencil scaling other than one",
  breaks="the exact-difference force is added in scaled instead of lattice units, so a node gains scaling times force times dt of momentum",
  edits=[("collision_advanced/AuxiliaryCollisionFunctions.h", '''                genData.velocity[j] += genData.dt * genData.forces[j]
                                       / genData.density / genData.scaling;''', '''                genData.velocity[j] += genData.dt * genData.forces[j]
                                       / genData.density;''')],
  main=r'''#include "col.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	SolverConfiguration cfg;
	cfg.setStencil(Stencil_D2Q9); cfg.setForcingScheme(EXACT_DIFFERENCE);
	D2Q9 st(4.0);
	std::vector<double> f = state(st), F = {0.3, -0.2};
	Node n = collide<2>(st, cfg, f, {}, 0.1, 0.01, F);
	int bad = 0;
	for (int d = 0; d < 2; d++) { double j = 0; for (size_t i = 0; i < 9; i++) j += (n.f[i] - f[i]) * st.getDirection(i)(d); bad += verdict("momentum gained", j, F[d] * 0.01); }
	return bad ? 1 : 0;
}
'''),
 dict(id="C06-g-prandtl-rate", property="C06", hdr=H,
  needs="compressible solver with a Prandtl number other than one",
  breaks="the internal-energy populations relax with the thermal instead of the viscous rate, so total energy is not conserved when the two differ",
  edits=[("collision_advanced/CollisionSchemes.h", "gLocal[p] -= visc_omega * gNeq[p] - prandtl_diff * gStar[p];", "gLocal[p] -= prandtl_omega * gNeq[p] - prandtl_diff * gStar[p];")],
  main=r'''#include "col.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	SolverConfiguration cfg;
	cfg.setStencil(Stencil_D2Q25H); cfg.setEquilibriumScheme(QUARTIC_EQUILIBRIUM); cfg.setPrandtlNumber(0.7); cfg.setHeatCapacityRatioGamma(1.4);
	D2Q25H st(1.0);
	std::vector<double> f = state(st, 0.02), g = f;
	for (size_t i = 0; i < 25; i++) g[i] = 3.1 * f[i] * (1 + 0.03 * std::cos(1.7 * i));
	Node n = collide<2>(st, cfg, f, g, 0.1, 0.01);
	double a = 0, b = 0;
	for (size_t i = 0; i < 25; i++) { double e2 = st.getDirection(i).norm_sqr() / st.getSpeedOfSoundSquare(); a += e2 * f[i] + g[i]; b += e2 * n.f[i] + n.g[i]; }
	return verdict("total energy", b, a);
}
'''),
 dict(id="S01-d3v27-quartic", property="S01", hdr=H,
  needs="velocity set D3V27 configured with the quartic equilibrium",
  breaks="the collision selection runs the second-order equilibrium where the fourth-order one is configured",
  edits=[("collision_advanced/CollisionSelection.h", "DEFINE_POSSIBLE_COLLISION(3,27, Stencil_D3V27, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);", "DEFINE_POSSIBLE_COLLISION(3,27, Stencil_D3V27, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);")],
  main=r'''#include "col.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	SolverConfiguration cfg;
	cfg.setStencil(Stencil_D3V27);
	D3V27 st(1.0);
	std::vector<double> f = state(st, 0.3);
	f[1] += 0.3;
	cfg.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);
	Node a = collide<3>(st, cfg, f, {}, 0.1, 0.01);
	cfg.setEquilibriumScheme(BGK_EQUILIBRIUM);
	Node b = collide<3>(st, cfg, f, {}, 0.1, 0.01);
	double d = 0;
	for (size_t i = 0; i < 27; i++) d = std::max(d, std::fabs(a.f[i] - b.f[i]));
	std::printf("difference between the two equilibria: %g\n", d);
	return d > 1e-9 ? 0 : 1;
}
'''),
 dict(id="C03-sutherland-free-tau", property="C03", hdr=H,
  needs="compressible solver and a density other than one",
  breaks="the relaxation time of the compressible collision no longer depends on the density: the kinematic instead of the dynamic viscosity is held constant",
  edits=[("collision_advanced/CollisionSchemes.h", "sutherland_factor/(genData.temperature*genData.density)+0.5;", "sutherland_factor/(genData.temperature)+0.5;")],
  main=r'''#include "col.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	SolverConfiguration cfg;
	cfg.setStencil(Stencil_D2Q25H); cfg.setEquilibriumScheme(QUARTIC_EQUILIBRIUM); cfg.setHeatCapacityRatioGamma(1.4);
	D2Q25H st(1.0);
	const double rho = 2.0, cs2 = st.getSpeedOfSoundSquare(), nu = 0.1, dt = 0.01, eps = 1e-3;
	std::vector<double> f(25), g(25);
	for (size_t i = 0; i < 25; i++) { f[i] = rho * st.getWeight(i); g[i] = f[i] * 3.0; f[i] += eps * st.getWeight(i) * st.getDirection(i)(0) * st.getDirection(i)(1); }
	Node n = collide<2>(st, cfg, f, g, nu, dt);
	double a = 0, b = 0;
	for (size_t i = 0; i < 25; i++) { double q = st.getDirection(i)(0) * st.getDirection(i)(1); a += q * f[i]; b += q * n.f[i]; }
	double tau = nu / (cs2 * dt) / (rho * n.T) + 0.5;
	return verdict("shear stress after collision", b / a, 1 - 1 / tau, 1e-8);
}
'''),
 dict(id="C05-normal-stress-rate", property="C05", hdr=H,
  edits=[("collision_advanced/AuxiliaryMRTFunctions.cpp", "			double s9 = 1. / tau;", "			double s9 = 1. / (tau + 0.5);")],
  needs="the D3Q19 multi-relaxation-time scheme with the relaxation rates of the paper and a flow with normal strain",
  breaks="differences of normal stresses relax with another rate than shear stresses: the viscosity depends on the orientation of the strain",
  main=r"""#include "col.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	D3Q19 st(1.0);
	SolverConfiguration cfg;
	cfg.setStencil(Stencil_D3Q19);
	cfg.setCollisionScheme(MRT_STANDARD);
	cfg.setEquilibriumScheme(BGK_EQUILIBRIUM);
	cfg.setMRTBasis(DHUMIERES_D3Q19);
	cfg.setMRTRelaxationTimes(RELAX_DHUMIERES_PAPER);
	std::vector<double> f = state(st, 0.01);
	const double nu = 0.05, dt = 1;
	Node n = collide<3>(st, cfg, f, std::vector<double>(), nu, dt);
	// rate of the traceless stress components: (S+ - S) / (Seq - S), Seq = rho u_a u_b for differences of normal stresses
	auto S = [&](const std::vector<double>& h, int a, int b, int c, int d) {
		double s = 0;
		for (size_t i = 0; i < 19; i++) s += h[i] * (st.getDirection(i)(a) * st.getDirection(i)(b) - (c < 0 ? 0 : st.getDirection(i)(c) * st.getDirection(i)(d)));
		return s;
	};
	double rho = n.rho;
	std::vector<double> u = n.u;
	double e1 = rho * (u[1] * u[1] - u[2] * u[2]), e2 = rho * u[0] * u[1];
	double r1 = (S(n.f, 1, 1, 2, 2) - S(f, 1, 1, 2, 2)) / (e1 - S(f, 1, 1, 2, 2));
	double r2 = (S(n.f, 0, 1, -1, -1) - S(f, 0, 1, -1, -1)) / (e2 - S(f, 0, 1, -1, -1));
	double want = 1. / (nu / (dt / 3.) + 0.5);
	return verdict("rate of the shear stress", r2, want, 1e-6) + verdict("rate of the normal stress difference", r1, want, 1e-6);
}
"""),
]
