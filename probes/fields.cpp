// probe: integral quantities, statistics, filters, regularisation and small solver utilities
#include <natrium/solver/PhysicalProperties.cpp>
#include "advection.cpp"
#include <natrium/solver/CFDSolver.h>
#include <natrium/solver/CompressibleCFDSolver.h>
#include <natrium/solver/TurbulenceStats.cpp>
#include <natrium/smoothing/ExponentialFilter.cpp>
#include <natrium/smoothing/NewFilter.cpp>
#include <natrium/dataprocessors/GlobalTurbulenceStats.cpp>
#include <natrium/dataprocessors/CompressibleTurbulenceStats.cpp>
#include <natrium/dataprocessors/PseudoEntropicStabilizer.cpp>
#include <natrium/utilities/Math.cpp>
typedef std::vector<distributed_vector> DVs;

#define FIELDS(D) \
extern "C" void* probe_share##D(AdvectionOperator<D>* a) { return new boost::shared_ptr<AdvectionOperator<D> >(a); } \
extern "C" void* probe_vecs##D(DistributionFunctions* f, size_t first) { DVs* v = new DVs(D); for (size_t i = 0; i < D; i++) (*v)[i] = f->at(first + i); return v; } \
extern "C" double probe_kin##D(DVs* u, distributed_vector* r, boost::shared_ptr<AdvectionOperator<D> >* a) { return PhysicalProperties<D>::kineticEnergy(*u, *r, *a); } \
extern "C" double probe_enstrophy##D(DVs* u, boost::shared_ptr<AdvectionOperator<D> >* a, double* sq) { return PhysicalProperties<D>::enstrophy(*u, *a, sq); } \
extern "C" double probe_mass##D(distributed_vector* r, boost::shared_ptr<AdvectionOperator<D> >* a) { return PhysicalProperties<D>::mass(*r, *a); } \
extern "C" double probe_maxp##D(distributed_vector* r, double cs, double* mn) { return PhysicalProperties<D>::maximalPressure(*r, cs, *mn); } \
extern "C" double probe_meanux##D(distributed_vector* u, boost::shared_ptr<AdvectionOperator<D> >* a) { return PhysicalProperties<D>::meanVelocityX(*u, *a); } \
extern "C" double probe_entropy##D(DistributionFunctions* f, boost::shared_ptr<AdvectionOperator<D> >* a) { return PhysicalProperties<D>::entropy(*f, *a); } \
extern "C" double probe_maxnorm##D(DVs* u, dealii::IndexSet* s) { return Math::maxVelocityNorm(*u, *s); } \
extern "C" double probe_2norm##D(DVs* u, dealii::IndexSet* s) { return Math::velocity2Norm(*u, *s); } \
extern "C" void probe_solver##D(CFDSolver<D>* s, DVs* u, distributed_vector* r, DistributionFunctions* f, boost::shared_ptr<AdvectionOperator<D> >* a, Stencil* st, void* cfg, size_t i, double t) { \
	new (&s->m_velocity) DVs(*u); new (&s->m_density) distributed_vector(*r); new (&s->m_f) DistributionFunctions(*f); new (&s->m_advectionOperator) boost::shared_ptr<AdvectionOperator<D> >(*a); \
	*reinterpret_cast<void**>(&s->m_stencil) = st; reinterpret_cast<void**>(&s->m_stencil)[1] = 0; *reinterpret_cast<void**>(&s->m_configuration) = cfg; reinterpret_cast<void**>(&s->m_configuration)[1] = 0; \
	s->m_i = i; s->m_iterationStart = 0; s->m_time = t; } \
extern "C" void probe_temperature##D(CompressibleCFDSolver<D>* s, distributed_vector* T) { new (&s->m_temperature) distributed_vector(*T); } \
extern "C" void* probe_solver_f##D(CFDSolver<D>* s, size_t i) { return &s->m_f.at(i); } \
extern "C" void* probe_gts##D(CFDSolver<D>* s) { return new GlobalTurbulenceStats<D>(*s); } \
extern "C" void probe_gts_calc##D(GlobalTurbulenceStats<D>* g) { g->calculate(); } \
extern "C" size_t probe_gts_n##D(GlobalTurbulenceStats<D>* g) { return g->getNames().size(); } \
extern "C" const void* probe_gts_name##D(GlobalTurbulenceStats<D>* g, size_t i) { return &g->getNames().at(i); } \
extern "C" double probe_gts_avg##D(GlobalTurbulenceStats<D>* g, size_t i) { return g->getAverages().at(i); } \
extern "C" double probe_gts_cor##D(GlobalTurbulenceStats<D>* g, size_t i, size_t j) { return g->getCorrelations().at(i).at(j); } \
extern "C" double probe_gts_m3##D(GlobalTurbulenceStats<D>* g, size_t i) { return g->getEx3().at(i); } \
extern "C" double probe_gts_m4##D(GlobalTurbulenceStats<D>* g, size_t i) { return g->getEx4().at(i); } \
extern "C" double probe_gts_e##D(GlobalTurbulenceStats<D>* g, int w) { return w == 0 ? g->m_energy : w == 1 ? g->m_enstrophy : w == 2 ? g->m_energySquared : g->m_enstrophySquared; } \
extern "C" void* probe_cts##D(CompressibleCFDSolver<D>* s) { return new CompressibleTurbulenceStats<D>(*s); } \
extern "C" void probe_cts_calc##D(CompressibleTurbulenceStats<D>* g) { g->calculate(); } \
extern "C" double probe_cts_e##D(CompressibleTurbulenceStats<D>* g, int w) { return w == 0 ? g->m_dilatation : w == 1 ? g->m_solenoidal : w == 2 ? g->m_maxMach : g->m_totalEnergy; } \
extern "C" void probe_plane##D(size_t dir, double x, DVs* u, double* pts, size_t n, dealii::IndexSet* owned, double tol, double* out) { \
	std::map<dealii::types::global_dof_index, dealii::Point<D> > m; for (unsigned int k = 0; k < n; k++) { dealii::Point<D> p; for (size_t d = 0; d < D; d++) p[d] = pts[D * k + d]; m[k] = p; } \
	StatsInPlane<D> s(dir, x, *u); s.updatePlaneIndices(m, *owned, tol); std::vector<double> a, r; s.calculate(a, r); \
	for (size_t d = 0; d < D; d++) { out[d] = a.at(d); out[D + d] = r.at(d); } } \
extern "C" void* probe_expfilter##D(double al, double s, size_t nc, bool sum, AdvectionOperator<D>* a) { return static_cast<Filter<D>*>(new ExponentialFilter<D>(al, s, nc, sum, *a->getQuadrature(), *a->getFe())); } \
extern "C" void* probe_newfilter##D(double al, double s, AdvectionOperator<D>* a) { return static_cast<Filter<D>*>(new NewFilter<D>(al, s, *a->getQuadrature(), *a->getFe())); } \
extern "C" void probe_filter##D(Filter<D>* f, AdvectionOperator<D>* a, distributed_vector* v) { f->applyFilter(*a->getDoFHandler(), *v); } \
extern "C" void probe_stabilize##D(CFDSolver<D>* s, bool e) { PseudoEntropicStabilizer<D> p(*s, e); p.apply(); } \
extern "C" double probe_gll##D(Mesh<D>* m, size_t order) { return CFDSolverUtilities::getMinimumDoFDistanceGLL<D>(*m, order); } \
extern "C" double probe_minvertex##D(Mesh<D>* m) { return CFDSolverUtilities::getMinimumVertexDistance<D>(*m); } \
extern "C" const void* lay_fedeg##D(const dealii::FiniteElement<D>* v) { return &v->degree; } \
extern "C" long lay_shape##D() { auto f = &dealii::FiniteElement<D>::shape_value; return reinterpret_cast<long&>(f) - 1; } \
extern "C" size_t lay_solver##D() { return sizeof(CompressibleCFDSolver<D>); }
FIELDS(2)
FIELDS(3)
extern "C" void probe_make_stencil(size_t d, size_t q, size_t s, int* type, size_t* dq, double* scaling) { auto p = CFDSolverUtilities::make_stencil(d, q, s); *type = p->getStencilType(); dq[0] = p->getD(); dq[1] = p->getQ(); *scaling = p->getScaling(); }
extern "C" void probe_integrator(size_t id, int* a, int* b, std::string* n) { TimeIntegratorName t = OTHER; DealIntegratorName e = NONE; CFDSolverUtilities::get_integrator_by_id(id, t, e, *n); *a = t; *b = e; }
extern "C" void probe_integrator_name(int a, int b, std::string* n) { *n = CFDSolverUtilities::get_integrator_name(TimeIntegratorName(a), DealIntegratorName(b)); }
extern "C" void probe_stab(int q, std::array<double, 19>* in, std::array<double, 19>* out) {
	if (q == 9) applyStabilizer<9>(reinterpret_cast<std::array<double, 9>&>(*in), reinterpret_cast<std::array<double, 9>&>(*out));
	else applyStabilizer<19>(*in, *out);
}
extern "C" size_t lay_polynomial() { return sizeof(dealii::Polynomials::Polynomial<double>); }
extern "C" void probe_df_update(DistributionFunctions* f) { f->updateGhosted(); }

extern "C" double probe_umax(Stencil* s) { return s->getMaxParticleVelocityMagnitude(); }
#define ENUM(X) extern "C" int probe_enum_##X() { return X; }
ENUM(RUNGE_KUTTA_5STAGE) ENUM(THETA_METHOD) ENUM(EXPONENTIAL) ENUM(OTHER) ENUM(NONE) ENUM(FORWARD_EULER) ENUM(RK_THIRD_ORDER) ENUM(RK_CLASSIC_FOURTH_ORDER) ENUM(BACKWARD_EULER) ENUM(IMPLICIT_MIDPOINT)
ENUM(CRANK_NICOLSON) ENUM(SDIRK_TWO_STAGES) ENUM(HEUN_EULER) ENUM(BOGACKI_SHAMPINE) ENUM(DOPRI) ENUM(FEHLBERG) ENUM(CASH_KARP)
ENUM(Stencil_D2Q9) ENUM(Stencil_D2Q25H) ENUM(Stencil_D3Q13) ENUM(Stencil_D3Q15) ENUM(Stencil_D3Q19) ENUM(Stencil_D3Q21) ENUM(Stencil_D3Q27) ENUM(Stencil_D3Q45)
