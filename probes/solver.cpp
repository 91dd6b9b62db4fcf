// probe: the solver classes (main loop, streaming, filtering, stop conditions, output schedule, checkpoints)
#include "/opt/vp/compat/natrium_preamble.h"
#include "all_stencils.h"
#include <natrium/solver/SolverConfiguration.h>
#include <natrium/solver/DistributionFunctions.h>
#include <natrium/problemdescription/ProblemDescription.h>
// the collision kernels are the subject of other probes; here their entry point is opaque
#define LIBRARY_NATRIUM_COLLISION_ADVANCED_COLLISIONSELECTION_H_
#include <natrium/collision_advanced/AuxiliaryCollisionFunctions.h>
#include <natrium/collision_advanced/Equilibria.h>
#include <natrium/collision_advanced/CollisionSchemes.h>
namespace natrium {
template<size_t T_D> void selectCollision(SolverConfiguration& configuration, const ProblemDescription<T_D>& problemDescription, DistributionFunctions& f, distributed_vector& densities,
		vector<distributed_vector>& velocities, const dealii::IndexSet& locally_owned_dofs, const double viscosity, const double delta_t, const Stencil& stencil, const bool inInitializationProcedure);
template<size_t T_D> void selectCollision(SolverConfiguration& configuration, const ProblemDescription<T_D>& problemDescription, DistributionFunctions& f, DistributionFunctions& g,
		distributed_vector& densities, vector<distributed_vector>& velocities, distributed_vector& temperature, distributed_vector& maskShockSensor, const dealii::IndexSet& locally_owned_dofs,
		const double viscosity, const double delta_t, const Stencil& stencil, const bool inInitializationProcedure);
}
#include <natrium/solver/CFDSolver.cpp>
#include <natrium/solver/DistributionFunctions.cpp>
#include <natrium/solver/CompressibleCFDSolver.h>
#include <natrium/solver/Checkpoint.cpp>
#include <natrium/collision/MultistepCollisionData.cpp>
#include <natrium/timeintegration/TimeIntegrator.cpp>
#include <natrium/advection/AdvectionOperator.cpp>
#include <natrium/utilities/CFDSolverUtilities.cpp>
#include "names.h"
using namespace natrium;
#ifndef SDIM
#define SDIM 2
#endif
#if SDIM == 2
typedef D2Q9 ST0;
typedef D2Q25H ST1;
enum { NQ0 = 9, NQ1 = 25 };
#else
typedef D3Q19 ST0;
typedef D3Q45 ST1;
enum { NQ0 = 19, NQ1 = 45 };
#endif

template<class T> static boost::shared_ptr<T> raw(T* p) { return boost::shared_ptr<T>(p, [](T*) {}); }
extern "C" void probe_keep_vt(CFDSolver<SDIM>* s) { new (s) CFDSolver<SDIM>(boost::shared_ptr<SolverConfiguration>(), boost::shared_ptr<ProblemDescription<SDIM> >()); }
extern "C" void probe_keep_cvt(CompressibleCFDSolver<SDIM>* s) { new (s) CompressibleCFDSolver<SDIM>(boost::shared_ptr<SolverConfiguration>(), boost::shared_ptr<ProblemDescription<SDIM> >()); }
extern "C" void probe_run(CFDSolver<SDIM>* s) { s->run(); }

// ---- stand-ins for the parts of a solver; their methods are hooks of the analysis
typedef TimeIntegrator<distributed_sparse_block_matrix, distributed_block_vector> TI;
extern "C" {
void hook_bc(DistributionFunctions* f_old, DistributionFunctions* f, double t);
void hook_bc_fg(DistributionFunctions* f_old, DistributionFunctions* f, DistributionFunctions* g, double t);
void hook_bc_g(DistributionFunctions* f, DistributionFunctions* g, double t, double gamma);
double hook_step(TI* self, distributed_block_vector* f, const distributed_sparse_block_matrix* A, distributed_block_vector* b, double t, double dt);
void hook_filter(const dealii::DoFHandler<SDIM>* dofs, distributed_vector* v);
void hook_processor(int which);
void hook_call(const char* what);
const distributed_block_vector* hook_sysvec();
}
struct AdvStub: AdvectionOperator<SDIM> {
	AdvStub(ProblemDescription<SDIM>& p) : AdvectionOperator<SDIM>(p, 1, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, boost::shared_ptr<Stencil>(), 0.1, true) {}
	void reassemble() { hook_call("reassemble"); }
	void setupDoFs() { hook_call("setupDoFs"); }
	void applyBoundaryConditions(DistributionFunctions& a, DistributionFunctions& b, double t) { hook_bc(&a, &b, t); }
	void applyBoundaryConditions(DistributionFunctions& a, DistributionFunctions& b, DistributionFunctions& g, double t) { hook_bc_fg(&a, &b, &g, t); }
	void applyBoundaryConditionsToG(DistributionFunctions& f, DistributionFunctions& g, double t, const double gamma) { hook_bc_g(&f, &g, t, gamma); }
	double stream(DistributionFunctions&, DistributionFunctions&, double) { hook_call("advection stream"); return 0; }
	void setTimeIntegrator(boost::shared_ptr<TI>) { hook_call("setTimeIntegrator"); }
	const distributed_block_vector& getSystemVector() const { return *hook_sysvec(); }
};
struct TIStub: TI {
	TIStub() : TI(0.1) {}
	double step(distributed_block_vector& f, const distributed_sparse_block_matrix& A, distributed_block_vector& b, double t, double dt) { return hook_step(this, &f, &A, &b, t, dt); }
};
struct FilterStub: Filter<SDIM> { void applyFilter(const dealii::DoFHandler<SDIM>& d, distributed_vector& v) { hook_filter(&d, &v); } };
struct ProcStub: DataProcessor<SDIM> { int k; ProcStub(CFDSolver<SDIM>& s, int i) : DataProcessor<SDIM>(s), k(i) {} void apply() { hook_processor(k); } };
extern "C" void probe_keep_stubs(ProblemDescription<SDIM>* p, void** o) { o[0] = new AdvStub(*p); }

template<class ST, int NQ> static void parts(CFDSolver<SDIM>* s, SolverConfiguration* cfg, AdvectionOperator<SDIM>* adv, ProblemDescription<SDIM>* pd, CollisionModel* cm, SolverStats<SDIM>* ss, TurbulenceStats<SDIM>* ts,
		dealii::IndexSet* dofs, double scaling, double dt, size_t start, size_t i, double time, int nproc, bool dg) {
	new (&s->m_f) DistributionFunctions(); new (&s->m_density) distributed_vector(); new (&s->m_velocity) vector<distributed_vector>(SDIM);
	new (&s->m_tmpDensity) distributed_vector(); new (&s->m_tmpVelocity) vector<distributed_vector>(SDIM); new (&s->m_maskShockSensor) distributed_vector();
	new (&s->m_boundaryVector) distributed_block_vector();
	new (&s->m_problemDescription) boost::shared_ptr<ProblemDescription<SDIM> >(raw(pd));
	new (&s->m_advectionOperator) boost::shared_ptr<AdvectionOperator<SDIM> >(raw(adv));
	new (&s->m_stencil) boost::shared_ptr<Stencil>(new ST(scaling));
	new (&s->m_collisionModel) boost::shared_ptr<CollisionModel>(raw(cm));
	new (&s->m_multistepData) boost::shared_ptr<MultistepCollisionData>(new MultistepCollisionData());
	new (&s->m_timeIntegrator) boost::shared_ptr<TI>(new TIStub());
	s->m_timeIntegrator->m_timeStepSize = dt;
	new (&s->m_configuration) boost::shared_ptr<SolverConfiguration>(raw(cfg));
	new (&s->m_filter) boost::shared_ptr<Filter<SDIM> >(new FilterStub());
	new (&s->m_solverStats) boost::shared_ptr<SolverStats<SDIM> >(raw(ss));
	new (&s->m_turbulenceStats) boost::shared_ptr<TurbulenceStats<SDIM> >(raw(ts));
	new (&s->m_dataProcessors) vector<boost::shared_ptr<DataProcessor<SDIM> > >();
	for (int k = 0; k < nproc; k++) s->m_dataProcessors.push_back(boost::shared_ptr<DataProcessor<SDIM> >(new ProcStub(*s, k)));
	s->m_iterationStart = start; s->m_i = i; s->m_time = time;
	s->m_f.reinit(NQ, *dofs, *dofs, MPI_COMM_WORLD, dg);
	s->m_multistepData->m_formerF.reinit(NQ, *dofs, *dofs, MPI_COMM_WORLD, dg); s->m_multistepData->m_formerFEq.reinit(NQ, *dofs, *dofs, MPI_COMM_WORLD, dg);
	for (int q = 0; q < NQ; q++) { nat_name(&s->m_f.at(q), "f", q); nat_name(&s->m_multistepData->m_formerF.at(q), "fp", q); nat_name(&s->m_multistepData->m_formerFEq.at(q), "fe", q); }
	nat_name(&s->m_density, "rho", -1);
	for (int d = 0; d < SDIM; d++) nat_name(&s->m_velocity[d], "u", d);
	nat_name(&s->m_tmpDensity, "trho", -1);
	for (int d = 0; d < SDIM; d++) nat_name(&s->m_tmpVelocity[d], "tu", d);
}
#define PARAMS SolverConfiguration* cfg, AdvectionOperator<SDIM>* adv, ProblemDescription<SDIM>* pd, CollisionModel* cm, SolverStats<SDIM>* ss, TurbulenceStats<SDIM>* ts, \
		dealii::IndexSet* dofs, double scaling, double dt, size_t start, size_t i, double time, int nproc, bool dg
#define ARGS cfg, adv, pd, cm, ss, ts, dofs, scaling, dt, start, i, time, nproc, dg
extern "C" void probe_parts(CFDSolver<SDIM>* s, PARAMS) { parts<ST0, NQ0>(s, ARGS); }
template<class ST, int NQ> static void cparts(CompressibleCFDSolver<SDIM>* s, PARAMS) {
	parts<ST, NQ>(s, ARGS);
	new (&s->m_temperature) distributed_vector(); new (&s->m_tmpTemperature) distributed_vector();
	new (&s->m_g) DistributionFunctions();
	s->m_g.reinit(NQ, *dofs, *dofs, MPI_COMM_WORLD, dg);
	for (int q = 0; q < NQ; q++) nat_name(&s->m_g.at(q), "g", q);
	nat_name(&s->m_temperature, "T", -1);
}
extern "C" void probe_cparts(CompressibleCFDSolver<SDIM>* s, PARAMS) { cparts<ST0, NQ0>(s, ARGS); }
extern "C" void probe_cparts25(CompressibleCFDSolver<SDIM>* s, PARAMS) { cparts<ST1, NQ1>(s, ARGS); }
extern "C" size_t probe_i(CFDSolver<SDIM>* s) { return s->m_i; }
extern "C" double probe_time(CFDSolver<SDIM>* s) { return s->m_time; }
extern "C" double probe_tidt(CFDSolver<SDIM>* s) { return s->m_timeIntegrator->m_timeStepSize; }
extern "C" void probe_setres(CFDSolver<SDIM>* s, double v, double r) { s->m_residuumVelocity = v; s->m_residuumDensity = r; }
extern "C" void probe_stream(CFDSolver<SDIM>* s) { s->stream(); }
extern "C" void probe_filter(CFDSolver<SDIM>* s) { s->filter(); }
extern "C" void probe_collide(CFDSolver<SDIM>* s) { s->collide(); }
extern "C" bool probe_stop(CFDSolver<SDIM>* s) { return s->stopConditionMet(); }
extern "C" void probe_output(CFDSolver<SDIM>* s, size_t it, bool fin) { s->output(it, fin); }
extern "C" void probe_crun(CompressibleCFDSolver<SDIM>* s) { s->run(); }
extern "C" void probe_cstream(CompressibleCFDSolver<SDIM>* s) { s->stream(); }
extern "C" void probe_gstream(CompressibleCFDSolver<SDIM>* s) { s->gStream(); }
extern "C" void probe_cfilter(CompressibleCFDSolver<SDIM>* s) { s->compressibleFilter(); }
extern "C" void probe_ccollide(CompressibleCFDSolver<SDIM>* s) { s->collide(); }
extern "C" void probe_coutput(CompressibleCFDSolver<SDIM>* s, size_t it, bool fin) { s->compressibleOutput(it, fin); }
#define ENUMP(x) extern "C" int probe_enum_##x() { return (int) x; }
ENUMP(SEMI_LAGRANGIAN) ENUMP(SEDG) ENUMP(BGK_STANDARD) ENUMP(BGK_MULTI_AM4) ENUMP(BGK_MULTI_BDF2)
extern "C" distributed_vector* probe_gat(DistributionFunctions* f, int q) { return &f->atGhosted(q); }
extern "C" DistributionFunctions* probe_f(CFDSolver<SDIM>* s) { return &s->m_f; }
extern "C" DistributionFunctions* probe_g(CompressibleCFDSolver<SDIM>* s) { return &s->m_g; }
extern "C" distributed_vector* probe_at(DistributionFunctions* f, int q) { return &f->at(q); }
extern "C" size_t probe_status_it(CheckpointStatus* s) { return s->iterationNumber; }
extern "C" size_t probe_status_fe(CheckpointStatus* s) { return s->feOrder; }
extern "C" double probe_status_time(CheckpointStatus* s) { return s->time; }
extern "C" double probe_status_scaling(CheckpointStatus* s) { return s->stencilScaling; }
extern "C" const distributed_vector* probe_vec(CompressibleCFDSolver<SDIM>* s, int k) { return k == 0 ? &s->m_density : k == 1 ? &s->m_velocity[0] : k == 2 ? &s->m_velocity[1] : k == 3 ? &s->m_temperature : k == 4 ? &s->m_maskShockSensor : &s->m_velocity[SDIM - 1]; }
extern "C" DistributionFunctions* probe_fp(CFDSolver<SDIM>* s) { return &s->m_multistepData->m_formerF; }
extern "C" DistributionFunctions* probe_fe(CFDSolver<SDIM>* s) { return &s->m_multistepData->m_formerFEq; }
extern "C" const Stencil* probe_stencil(CFDSolver<SDIM>* s) { return s->m_stencil.get(); }
extern "C" double probe_umax(CFDSolver<SDIM>* s) { return s->m_stencil->getMaxParticleVelocityMagnitude(); }
extern "C" void probe_ck(Checkpoint<SDIM>* c, size_t it, boost::filesystem::path* dir, bool g, bool latest) { new (c) Checkpoint<SDIM>(it, *dir, g, latest); }
extern "C" void probe_ckwrite(Checkpoint<SDIM>* c, CFDSolver<SDIM>* s, DistributionFunctions* f, const CheckpointStatus* st) { c->write(*s->m_problemDescription->getMesh(), *f, *s->m_advectionOperator->getDoFHandler(), *st); }
extern "C" void probe_ckload(Checkpoint<SDIM>* c, CFDSolver<SDIM>* s, DistributionFunctions* f, CheckpointStatus* st) { c->load(*f, *s->m_problemDescription, *s->m_advectionOperator, *st); }
extern "C" void probe_status(CheckpointStatus* s, size_t it, double t, double sc, size_t fe) { s->iterationNumber = it; s->time = t; s->stencilScaling = sc; s->feOrder = fe; }
extern "C" const boost::filesystem::path* probe_cksf(Checkpoint<SDIM>* c) { return &c->m_statusFile; }
extern "C" const boost::filesystem::path* probe_ckdf(Checkpoint<SDIM>* c) { return &c->m_dataFile; }
extern "C" void probe_nref(int n) { Checkpoint<SDIM>::m_numberOfRefinements = n; }
extern "C" void probe_dens(CFDSolver<SDIM>* s) { s->calculateDensitiesAndVelocities(); }
extern "C" void probe_init(CFDSolver<SDIM>* s) { s->initializeDistributions(); }
extern "C" void probe_cinit(CompressibleCFDSolver<SDIM>* s) { s->initializeDistributions(); }
extern "C" void probe_cctor(CompressibleCFDSolver<SDIM>* s, boost::shared_ptr<SolverConfiguration>* c, boost::shared_ptr<ProblemDescription<SDIM> >* p) { new (s) CompressibleCFDSolver<SDIM>(*c, *p); }
extern "C" const boost::shared_ptr<SolverConfiguration>* probe_cfgp(CFDSolver<SDIM>* s) { return &s->m_configuration; }
extern "C" const boost::shared_ptr<ProblemDescription<SDIM> >* probe_pdp(CFDSolver<SDIM>* s) { return &s->m_problemDescription; }
template<class P> static long slot(P p) { long v; __builtin_memcpy(&v, &p, sizeof v); return v - 1; }
#define SLOT(n, sig) extern "C" long probe_slot_##n() { sig; return slot(p); }
SLOT(n_global_levels, unsigned int (Mesh<SDIM>::*p)() const = &Mesh<SDIM>::n_global_levels)
SLOT(save, void (Mesh<SDIM>::*p)(const std::string&) const = &Mesh<SDIM>::save)
SLOT(execute, void (Mesh<SDIM>::*p)() = &Mesh<SDIM>::execute_coarsening_and_refinement)
SLOT(prepare, bool (Mesh<SDIM>::*p)() = &Mesh<SDIM>::prepare_coarsening_and_refinement)
SLOT(transform, void (ProblemDescription<SDIM>::*p)(Mesh<SDIM>&) = &ProblemDescription<SDIM>::transform)
SLOT(load, void (Mesh<SDIM>::*p)(const std::string&) = &Mesh<SDIM>::load)
SLOT(feq, void (CollisionModel::*p)(vector<double>&, const numeric_vector&, const double) const = &CollisionModel::getEquilibriumDistributions)
SLOT(collideAll, void (CollisionModel::*p)(DistributionFunctions&, distributed_vector&, vector<distributed_vector>&, const dealii::IndexSet&, bool) const = &CollisionModel::collideAll)
extern "C" double* probe_vecd(vector<double>* v) { return v->data(); }
ENUMP(EQUILIBRIUM) ENUMP(ITERATIVE) ENUMP(COMPRESSIBLE_ITERATIVE)
extern "C" double probe_dir(CFDSolver<SDIM>* s, int q, int a) { return s->m_stencil->getDirection(q)(a); }
extern "C" double probe_cs2(CFDSolver<SDIM>* s) { return s->m_stencil->getSpeedOfSoundSquare(); }
SLOT(rhofun, const boost::shared_ptr<dealii::Function<SDIM> >& (ProblemDescription<SDIM>::*p)() const = &ProblemDescription<SDIM>::getInitialRhoFunction)
SLOT(ufun, const boost::shared_ptr<dealii::Function<SDIM> >& (ProblemDescription<SDIM>::*p)() const = &ProblemDescription<SDIM>::getInitialUFunction)
SLOT(Tfun, const boost::shared_ptr<dealii::Function<SDIM> >& (ProblemDescription<SDIM>::*p)() const = &ProblemDescription<SDIM>::getInitialTFunction)
SLOT(value, double (dealii::Function<SDIM>::*p)(const dealii::Point<SDIM>&, unsigned int) const = &dealii::Function<SDIM>::value)
extern "C" void probe_points0(CFDSolver<SDIM>* s) { typedef map<dealii::types::global_dof_index, dealii::Point<SDIM> > M; new (&s->m_supportPoints) M(); }
extern "C" void probe_points(CFDSolver<SDIM>* s, unsigned int k, double x) { dealii::Point<SDIM> p; for (unsigned int d = 0; d < SDIM; d++) p[d] = x + d; s->m_supportPoints[k] = p; }
extern "C" void probe_inirho(CFDSolver<SDIM>* s, distributed_vector* v) { s->applyInitialDensities(*v, s->m_supportPoints); }
extern "C" void probe_iniu(CFDSolver<SDIM>* s, vector<distributed_vector>* v) { s->applyInitialVelocities(*v, s->m_supportPoints); }
extern "C" void probe_iniT(CompressibleCFDSolver<SDIM>* s, distributed_vector* v) { s->applyInitialTemperatures(*v, s->m_supportPoints); }
extern "C" vector<distributed_vector>* probe_uvec(CFDSolver<SDIM>* s) { return &s->m_velocity; }
extern "C" void probe_feobj(dealii::FiniteElement<SDIM>* fe, unsigned int n) { *const_cast<volatile unsigned int*>(&fe->dofs_per_cell) = n; }
extern "C" void probe_ctor(CFDSolver<SDIM>* s, boost::shared_ptr<SolverConfiguration>* c, boost::shared_ptr<ProblemDescription<SDIM> >* p) { new (s) CFDSolver<SDIM>(*c, *p); }
extern "C" const void* probe_part(CFDSolver<SDIM>* s, int k) { return k == 0 ? (const void*) s->m_stencil.get() : k == 1 ? (const void*) s->m_collisionModel.get() : k == 2 ? (const void*) s->m_multistepData.get() : k == 3 ? (const void*) s->m_advectionOperator.get() : k == 4 ? (const void*) s->m_timeIntegrator.get() : k == 5 ? (const void*) s->m_filter.get() : k == 6 ? (const void*) s->m_solverStats.get() : (const void*) s->m_turbulenceStats.get(); }
extern "C" size_t probe_istart(CFDSolver<SDIM>* s) { return s->m_iterationStart; }
ENUMP(Stencil_D2Q9) ENUMP(Stencil_D3Q19) ENUMP(Stencil_D3Q13) ENUMP(Stencil_D3Q21) ENUMP(Stencil_D3Q15) ENUMP(Stencil_D3Q27) ENUMP(Stencil_D3Q45) ENUMP(Stencil_D3Q77)
ENUMP(Stencil_D2Q19H) ENUMP(Stencil_D2Q19V) ENUMP(Stencil_D2Q777) ENUMP(Stencil_D2Q25H) ENUMP(Stencil_RD3Q27) ENUMP(Stencil_D3V27)
ENUMP(BGK_STEADY_STATE) ENUMP(BGK_STANDARD_TRANSFORMED) ENUMP(BGK_REGULARIZED) ENUMP(BGK_MULTIPHASE) ENUMP(BGK_INCOMPRESSIBLE) ENUMP(MRT_STANDARD) ENUMP(MRT_ENTROPIC) ENUMP(ENTROPIC_STABILIZED)
ENUMP(KBC_STANDARD) ENUMP(KBC_CENTRAL) ENUMP(RUNGE_KUTTA_5STAGE) ENUMP(THETA_METHOD) ENUMP(EXPONENTIAL) ENUMP(OTHER) ENUMP(EXPONENTIAL_FILTER) ENUMP(NEW_FILTER)
ENUMP(PSEUDO_ENTROPY_MAXIMIZATION) ENUMP(PSEUDO_ENTROPY_MAXIMIZATION_WITH_E) ENUMP(NO_REGULARIZATION) ENUMP(CENTRAL) ENUMP(LAX_FRIEDRICHS)
extern "C" int probe_cmftype(const CollisionModel* c) { return (int) c->m_forceType; }
extern "C" double probe_cmforce(const CollisionModel* c, int k) { return k == 0 ? c->m_forceX : k == 1 ? c->m_forceY : c->m_forceZ; }
extern "C" double probe_cmnu(const CollisionModel* c) { return c->m_viscosity; }
extern "C" const CollisionModel* probe_cm(CFDSolver<SDIM>* s) { return s->m_collisionModel.get(); }
extern "C" size_t probe_nproc(CFDSolver<SDIM>* s) { return s->m_dataProcessors.size(); }
extern "C" int probe_D(CFDSolver<SDIM>* s) { return s->m_stencil->getD(); }
extern "C" int probe_Q(CFDSolver<SDIM>* s) { return s->m_f.size(); }
extern "C" double probe_scaling(CFDSolver<SDIM>* s) { return s->m_stencil->getScaling(); }
extern "C" bool probe_fdg(CFDSolver<SDIM>* s) { return s->m_f.m_dg; }
ENUMP(SHIFTING_VELOCITY) ENUMP(GUO)
extern "C" distributed_block_vector* probe_fblock(CFDSolver<SDIM>* s) { return &s->m_f.getFStream(); }
extern "C" int probe_stQ(CFDSolver<SDIM>* s) { return s->m_stencil->getQ(); }
extern "C" double probe_getforce(const ConstantExternalForce<SDIM>* f, int k) { return f->getForce()[k]; }
ENUMP(QGAUSS_LOBATTO) ENUMP(QGAUSS) ENUMP(GAUSS_LOBATTO_POINTS) ENUMP(GAUSS_CHEBYSHEV_POINTS) ENUMP(GAUSS_LOBATTO_CHEBYSHEV_POINTS) ENUMP(EQUIDISTANT_POINTS)
extern "C" double probe_res(CFDSolver<SDIM>* s, bool v) { return v ? s->m_residuumVelocity : s->m_residuumDensity; }
#define SETST(N) extern "C" void probe_set_##N(CFDSolver<SDIM>* s, double scaling) { new (&s->m_stencil) boost::shared_ptr<Stencil>(new N(scaling)); }
#if SDIM == 2
SETST(D2Q9) SETST(D2Q19V) SETST(D2Q19H) SETST(D2Q777) SETST(D2Q25H)
#else
SETST(D3Q13) SETST(D3Q15) SETST(D3Q19) SETST(D3Q21) SETST(D3Q27) SETST(D3Q45) SETST(D3Q77) SETST(RD3Q27) SETST(D3V27)
#endif
