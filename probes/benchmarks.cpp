// probe: the benchmark problems that come with the library (exact solutions, grids, boundaries, forces)
#include "/opt/vp/compat/natrium_preamble.h"
#include <natrium/utilities/BasicNames.h>
#include <natrium/utilities/Logging.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/grid/grid_out.h>
#include <deal.II/grid/grid_generator.h>
#include <fstream>
// the library's grid transformation, applied to one arbitrary point of the mesh
extern "C" void vhook_point(const void* mesh, double* x);
extern "C" void vhook_moved(const void* mesh, const double* x);
namespace dealii { namespace GridTools {
#define TR(d) template<class T> __attribute__((always_inline)) inline void transform(const T& f, Triangulation<d, d>& m) { \
	Point<d> x; vhook_point(&m, &x[0]); const Point<d> y = f(x); vhook_moved(&m, &y[0]); }
TR(2) TR(3)
} }
#include <natrium/benchmarks/TaylorGreenVortex2D.cpp>
#include <natrium/benchmarks/TaylorGreenVortex3D.cpp>
#include <natrium/benchmarks/CouetteFlow2D.cpp>
#include <natrium/benchmarks/CouetteFlow3D.cpp>
#include <natrium/benchmarks/PoiseuilleFlow2D.cpp>
#include <natrium/benchmarks/PoiseuilleFlow3D.cpp>
#include <natrium/benchmarks/PeriodicTestDomain2D.cpp>
#include <natrium/benchmarks/PeriodicTestDomain3D.cpp>
#include <natrium/benchmarks/ShearLayer2D.cpp>
#include <natrium/benchmarks/LubricationSine.cpp>
#include <natrium/benchmarks/SinusoidalShear2D.cpp>
#include <natrium/benchmarks/Droplet2D.cpp>
#include <natrium/benchmarks/Riemann2D.cpp>
#include <natrium/benchmarks/BackwardFacingStep2D.cpp>
#include <natrium/benchmarks/AdvectionBenchmark.cpp>
using namespace natrium;
extern "C" double vhook_const(const void* f);
template<int d> struct ProbeConst: public dealii::Function<d> {
	ProbeConst() { }
	double value(const dealii::Point<d>&, const unsigned int) const override { return vhook_const(this); }
};
template struct ProbeConst<2>; template struct ProbeConst<3>;
extern "C" void probe_const2(ProbeConst<2>* p) { new (p) ProbeConst<2>(); }
extern "C" void probe_const3(ProbeConst<3>* p) { new (p) ProbeConst<3>(); }
#define MK extern "C" void
template<class T> struct type_size { };
#define SZ(name, T) extern "C" unsigned long probe_size_##name() { return sizeof(T); }
MK probe_mk_tgv2(TaylorGreenVortex2D* b, double nu, double cs, bool ana, double L, double uh) { new (b) TaylorGreenVortex2D(nu, 3, cs, ana, L); b->setHorizontalVelocity(uh); }
MK probe_mk_tgv2_default(TaylorGreenVortex2D* b, double nu) { new (b) TaylorGreenVortex2D(nu, 3); }
MK probe_mk_tgv3(TaylorGreenVortex3D* b, double nu, double cs, bool ana, size_t rep, double num, bool comp) { new (b) TaylorGreenVortex3D(nu, 3, cs, ana, rep, num, comp); }
MK probe_mk_couette2(CouetteFlow2D* b, double nu, double U, double L, double t0, bool unst) { new (b) CouetteFlow2D(nu, U, 3, L, t0, unst); }
MK probe_mk_couette3(CouetteFlow3D* b, double nu, double U, size_t L, double t0, bool unst) { new (b) CouetteFlow3D(nu, U, 3, L, t0, unst); }
MK probe_mk_poiseuille3(PoiseuilleFlow3D* b, double nu, double u, double h, double w, double l, bool per) { new (b) PoiseuilleFlow3D(nu, 3, u, h, w, l, per); }
MK probe_mk_periodic2(PeriodicTestDomain2D* b) { new (b) PeriodicTestDomain2D(3); }
MK probe_mk_periodic3(PeriodicTestDomain3D* b) { new (b) PeriodicTestDomain3D(3); }
MK probe_mk_shear(ShearLayer2D* b, double nu, double u0, double kappa, double pert, double tx, double ty) { new (b) ShearLayer2D(nu, 3, u0, kappa, pert, tx, ty); }
MK probe_mk_lubrication(LubricationSine* b, double nu, double u, double L, double h, double a, double car, double rh, size_t rl) { new (b) LubricationSine(nu, u, 3, L, h, a, car, rh, rl); }
MK probe_mk_sinusoidal(SinusoidalShear2D* b, double nu, double u, double L, double h, double a, double car) { new (b) SinusoidalShear2D(nu, u, 3, L, h, a, car); }
MK probe_mk_droplet(Droplet2D* b, double nu, double l, double h, double rl, double rg, double W, double R0) { new (b) Droplet2D(nu, 3, l, h, rl, rg, W, R0); }
MK probe_mk_riemann(Riemann2D* b, double nu, double tx, double ty) { new (b) Riemann2D(nu, 3, 1., 1., 0.05, tx, ty); }
MK probe_mk_inflow(BackwardFacingStep2D::InflowVelocity* b, double hs, double hd, double u) { new (b) BackwardFacingStep2D::InflowVelocity(hs, hd, u); }
extern "C" double probe_inflow(BackwardFacingStep2D::InflowVelocity* b, const dealii::Point<2>& x, unsigned c) { return b->value(x, c); }
extern "C" double probe_bump(double t, const dealii::Point<2>& x, bool smooth) { return AdvectionBenchmark::analytic_solution(t, x, smooth); }
MK probe_mk_poiseuille2(PoiseuilleFlow2D* b, double nu, double u, double h, double l, bool per) { new (b) PoiseuilleFlow2D(nu, 3, u, h, l, per); }
template<size_t d> static inline double uval(Benchmark<d>* b, double t, const dealii::Point<d>& x, unsigned c) { return b->getAnalyticUFunction(t)->value(x, c); }
template<size_t d> static inline double rval(Benchmark<d>* b, double t, const dealii::Point<d>& x) { return b->getAnalyticRhoFunction(t)->value(x, 0); }
#define VAL(d) \
extern "C" double probe_u##d(Benchmark<d>* b, double t, const dealii::Point<d>& x, unsigned c) { return uval<d>(b, t, x, c); } \
extern "C" double probe_rho##d(Benchmark<d>* b, double t, const dealii::Point<d>& x) { return rval<d>(b, t, x); } \
extern "C" double probe_iu##d(ProblemDescription<d>* b, const dealii::Point<d>& x, unsigned c) { return b->getInitialUFunction()->value(x, c); } \
extern "C" double probe_irho##d(ProblemDescription<d>* b, const dealii::Point<d>& x) { return b->getInitialRhoFunction()->value(x, 0); } \
extern "C" double probe_iT##d(ProblemDescription<d>* b, const dealii::Point<d>& x) { return b->getInitialTFunction()->value(x, 0); } \
extern "C" void probe_refine##d(ProblemDescription<d>* b) { b->refine(*b->getMesh()); b->transform(*b->getMesh()); } \
extern "C" bool probe_hasforce##d(ProblemDescription<d>* b) { return b->hasExternalForce(); } \
extern "C" void probe_force##d(ProblemDescription<d>* b, double* f) { for (unsigned i = 0; i < d; i++) f[i] = b->getExternalForce()->getForce()[i]; } \
extern "C" double probe_nu##d(ProblemDescription<d>* b) { return b->getViscosity(); } \
extern "C" double probe_charL##d(ProblemDescription<d>* b) { return b->getCharacteristicLength(); } \
extern "C" double probe_charU##d(ProblemDescription<d>* b) { return b->getCharacteristicVelocity(); }
VAL(2)
VAL(3)
SZ(tgv2, TaylorGreenVortex2D) SZ(tgv2_default, TaylorGreenVortex2D) SZ(tgv3, TaylorGreenVortex3D) SZ(couette2, CouetteFlow2D) SZ(couette3, CouetteFlow3D) SZ(poiseuille2, PoiseuilleFlow2D) SZ(poiseuille3, PoiseuilleFlow3D)
SZ(periodic2, PeriodicTestDomain2D) SZ(periodic3, PeriodicTestDomain3D) SZ(shear, ShearLayer2D) SZ(lubrication, LubricationSine) SZ(sinusoidal, SinusoidalShear2D)
SZ(droplet, Droplet2D) SZ(riemann, Riemann2D) SZ(inflow, BackwardFacingStep2D::InflowVelocity)
// benchmarks of a user: default solutions, and solutions that depend on time
#include <natrium/problemdescription/CompressibleBenchmark.h>
extern "C" double vhook_time(int which, double t, unsigned int component);
template<size_t d> struct TimeFunction: public dealii::Function<d> {
	int m_which;
	TimeFunction(int w): dealii::Function<d>(w == 1 ? d : 1), m_which(w) {}
	double value(const dealii::Point<d>&, const unsigned int c) const override { return vhook_time(m_which, this->get_time(), c); }
};
#define USER(B, N) \
template<size_t d> struct N: public B<d> { \
	N(double nu, double L, bool set): B<d>(boost::make_shared<Mesh<d> >(MPI_COMM_WORLD), nu, L) { if (set) { \
		this->setAnalyticRho(boost::shared_ptr<dealii::Function<d> >(new TimeFunction<d>(0))); \
		this->setAnalyticU(boost::shared_ptr<dealii::Function<d> >(new TimeFunction<d>(1))); } } \
	void refine(Mesh<d>&) override {} \
	void transform(Mesh<d>&) override {} \
	bool isCartesian() override { return true; } \
};
USER(Benchmark, UserBenchmark) USER(CompressibleBenchmark, UserCompressible)
MK probe_mk_user2(UserBenchmark<2>* b, double nu, double L, bool set) { new (b) UserBenchmark<2>(nu, L, set); }
MK probe_mk_user3(UserBenchmark<3>* b, double nu, double L, bool set) { new (b) UserBenchmark<3>(nu, L, set); }
MK probe_mk_userc2(UserCompressible<2>* b, double nu, double L, bool set) { new (b) UserCompressible<2>(nu, L, set); }
MK probe_mk_userc3(UserCompressible<3>* b, double nu, double L, bool set) { new (b) UserCompressible<3>(nu, L, set); }
SZ(user2, UserBenchmark<2>) SZ(user3, UserBenchmark<3>) SZ(userc2, UserCompressible<2>) SZ(userc3, UserCompressible<3>)
extern "C" double probe_aT2(CompressibleBenchmark<2>* b, double t, const dealii::Point<2>& x) { return b->getAnalyticTFunction(t)->value(x, 0); }
extern "C" double probe_aT3(CompressibleBenchmark<3>* b, double t, const dealii::Point<3>& x) { return b->getAnalyticTFunction(t)->value(x, 0); }
