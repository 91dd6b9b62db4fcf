// probe: streaming operators and boundary conditions, assembled from the library's own classes
#include "all_stencils.h"
#include <natrium/collision/CollisionModel.h>
#include "all_advection.h"
#include "all_boundaries.h"
#include <natrium/boundaries/SLEquilibriumBoundary.h>
#include <natrium/boundaries/SLFirstOrderBounceBack.h>
#include <natrium/boundaries/DoNothingBoundary.h>
#include <natrium/solver/DistributionFunctions.cpp>
#include <natrium/utilities/DealiiExtensions.cpp>
#include <natrium/utilities/CFDSolverUtilities.cpp>
#include "names.h"
using namespace natrium;

// the analysis answers these (geometry of the abstract mesh, prescribed functions)
extern "C" void vhook_u2r(double* out, const void* cell, const double* p);
extern "C" void vhook_r2u(double* out, const void* cell, const double* p);
extern "C" double vhook_velocity(const void* self, const double* p, double time, unsigned int component);

template<int dim> struct ProbeMapping: public dealii::MappingCartesian<dim> {
	dealii::Point<dim> transform_unit_to_real_cell(const typename dealii::Triangulation<dim>::cell_iterator& c, const dealii::Point<dim>& p) const override {
		dealii::Point<dim> r;
		vhook_u2r(&r[0], &c, &p[0]);
		return r;
	}
	dealii::Point<dim> transform_real_to_unit_cell(const typename dealii::Triangulation<dim>::cell_iterator& c, const dealii::Point<dim>& p) const override {
		dealii::Point<dim> r;
		vhook_r2u(&r[0], &c, &p[0]);
		return r;
	}
};
template<size_t dim> struct ProbeProblem: public ProblemDescription<dim> {
	bool m_cartesian;
	ProbeProblem(boost::shared_ptr<Mesh<dim> > m, bool cartesian): ProblemDescription<dim>(m, 0.5, 1.0), m_cartesian(cartesian) {}
	void refine(Mesh<dim>&) override {}
	void transform(Mesh<dim>&) override {}
	bool isCartesian() override { return m_cartesian; }
};
template<size_t dim> struct ProbeVelocity: public dealii::Function<dim> {
	ProbeVelocity(): dealii::Function<dim>(dim) {}
	double value(const dealii::Point<dim>& p, const unsigned int c) const override { return vhook_velocity(this, &p[0], this->get_time(), c); }
	void vector_value(const dealii::Point<dim>& p, dealii::Vector<double>& v) const override {
		for (unsigned int i = 0; i < dim; i++) v(i) = vhook_velocity(this, &p[0], this->get_time(), i);
	}
};

template<size_t dim> Stencil* make(int which, double scaling) {
	if (dim == 2) {
		if (which == 1) return new D2Q25H(scaling);
		return new D2Q9(scaling);
	}
	if (which == 1) return new D3Q19(scaling);
	if (which == 2) return new D3Q45(scaling);
	return new D3Q15(scaling);
}

#define DIM(D) \
extern "C" void* probe_mapping##D() { return new ProbeMapping<D>(); } \
extern "C" void* probe_problem##D(boost::shared_ptr<Mesh<D> >* m, bool cart) { return static_cast<ProblemDescription<D>*>(new ProbeProblem<D>(*m, cart)); } \
extern "C" void* probe_collection##D() { return new BoundaryCollection<D>(); } \
extern "C" void probe_set_boundaries##D(ProblemDescription<D>* p, BoundaryCollection<D>* b) { p->setBoundaries(boost::shared_ptr<BoundaryCollection<D> >(b)); } \
extern "C" void probe_add_periodic##D(BoundaryCollection<D>* b, size_t i, size_t j, size_t dir, boost::shared_ptr<Mesh<D> >* m) { b->addBoundary(boost::make_shared<PeriodicBoundary<D> >(i, j, dir, *m)); } \
extern "C" void probe_add_wall##D(BoundaryCollection<D>* b, size_t i) { b->addBoundary(boost::make_shared<VelocityNeqBounceBack<D> >(i, boost::shared_ptr<dealii::Function<D> >(new ProbeVelocity<D>()))); } \
extern "C" void probe_add_wall_constant##D(BoundaryCollection<D>* b, size_t i, dealii::Tensor<1, D>* u) { b->addBoundary(boost::make_shared<VelocityNeqBounceBack<D> >(i, *u)); } \
extern "C" void probe_add_equilibrium##D(BoundaryCollection<D>* b, size_t i, dealii::Tensor<1, D>* u, double T) { b->addBoundary(boost::make_shared<SLEquilibriumBoundary<D> >(i, *u, T)); } \
extern "C" void probe_add_firstorder##D(BoundaryCollection<D>* b, size_t i) { b->addBoundary(boost::make_shared<SLFirstOrderBounceBack<D> >(i)); } \
extern "C" void probe_add_donothing##D(BoundaryCollection<D>* b, size_t i) { b->addBoundary(boost::make_shared<DoNothingBoundary<D> >(i)); } \
extern "C" void probe_add_thermal##D(BoundaryCollection<D>* b, size_t i, double T) { b->addBoundary(boost::make_shared<ThermalBounceBack<D> >(i, boost::shared_ptr<dealii::Function<D> >(new ProbeVelocity<D>()), T)); } \
extern "C" const void* probe_velocity_of##D(BoundaryCollection<D>* b, size_t i) { return b->getBoundary(i)->getBoundaryValues().getVelocity().get(); } \
extern "C" void probe_apply##D(AdvectionOperator<D>* a, BoundaryCollection<D>* b, size_t id, DistributionFunctions* o, DistributionFunctions* f, DistributionFunctions* g, double* p, size_t index, size_t dir, double eps, double t) { \
	GlobalBoundaryData data(*o, *f, *g, *a->getStencil(), 0.1, 1.0); \
	BoundaryFlags flags = b->getBoundary(id)->getUpdateFlags(); \
	dealii::Point<D> x; for (size_t i = 0; i < D; i++) x[i] = p[i]; \
	FEBoundaryValues<D> v(a->getDoFHandler()->begin_active(), std::vector<dealii::Point<D> >(1, x), *a->getFe(), a->getMapping(), flags, data); \
	v.reinit(0); \
	b->getBoundary(id)->calculateBoundaryValues(v, 0, LagrangianPathDestination(index, dir), eps, t); } \
extern "C" void probe_prescribed##D(double p, dealii::Tensor<1, D>* u, double T, double* out) { \
	PrescribedBoundaryValues<D> a(p, *u, T); PrescribedBoundaryValues<D> b(a); dealii::Point<D> x; \
	out[0] = b.getPressure()->value(x); out[1] = b.getTemperature()->value(x); \
	for (size_t i = 0; i < D; i++) out[2 + i] = b.getVelocity()->value(x, i); \
	PrescribedBoundaryValues<D> c(p); PrescribedBoundaryValues<D> d(*u); out[5] = c.getPressure()->value(x); \
	for (size_t i = 0; i < D; i++) out[6 + i] = d.getVelocity()->value(x, i); } \
extern "C" bool probe_is_periodic##D(BoundaryCollection<D>* b, size_t i) { return b->isPeriodic(i); } \
extern "C" void* probe_stencil##D(int which, double scaling) { return make<D>(which, scaling); } \
extern "C" void* probe_sl##D(ProblemDescription<D>* p, size_t order, Stencil* s, double dt) { return static_cast<AdvectionOperator<D>*>(new SemiLagrangian<D>(*p, order, boost::shared_ptr<Stencil>(s), dt)); } \
extern "C" void* probe_dg##D(ProblemDescription<D>* p, size_t order, Stencil* s, double dt, bool central) { return static_cast<AdvectionOperator<D>*>(new SEDGMinLee<D>(*p, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, boost::shared_ptr<Stencil>(s), central, dt)); } \
extern "C" void probe_setup##D(AdvectionOperator<D>* a) { a->setupDoFs(); } \
extern "C" void probe_dt##D(AdvectionOperator<D>* a, double dt) { a->setDeltaT(dt); } \
extern "C" double probe_get_dt##D(AdvectionOperator<D>* a) { return a->getDeltaT(); } \
extern "C" void probe_reassemble##D(AdvectionOperator<D>* a) { a->reassemble(); } \
extern "C" const void* probe_matrix##D(AdvectionOperator<D>* a) { return &a->getSystemMatrix(); } \
extern "C" const void* probe_vector##D(AdvectionOperator<D>* a) { return &static_cast<SEDGMinLee<D>*>(a)->getSystemVector(); } \
extern "C" double probe_stream##D(AdvectionOperator<D>* a, DistributionFunctions* o, DistributionFunctions* f, double t) { return a->stream(*o, *f, t); } \
extern "C" void probe_bc##D(AdvectionOperator<D>* a, DistributionFunctions* o, DistributionFunctions* f, double t) { a->applyBoundaryConditions(*o, *f, t); } \
extern "C" void probe_bcg##D(AdvectionOperator<D>* a, DistributionFunctions* o, DistributionFunctions* f, DistributionFunctions* g, double t) { a->applyBoundaryConditions(*o, *f, *g, t); } \
extern "C" void probe_bctog##D(AdvectionOperator<D>* a, DistributionFunctions* f, DistributionFunctions* g, double t, double gamma) { a->applyBoundaryConditionsToG(*f, *g, t, gamma); } \
extern "C" size_t probe_hits##D(SemiLagrangian<D>* a) { return a->getBoundaryHandler().n_hits(); } \
extern "C" double probe_hit_step##D(SemiLagrangian<D>* a) { return a->getBoundaryHandler().getTimeStep(); } \
extern "C" double probe_min_vertex##D(Mesh<D>* m) { return CFDSolverUtilities::getMinimumVertexDistance<D>(*m); } \
extern "C" double probe_timestep##D(Mesh<D>* m, size_t order, Stencil* s, double cfl) { return CFDSolverUtilities::calculateTimestep<D>(*m, order, *s, cfl); }
DIM(2)
DIM(3)
// layout of the deal.II types whose inline members are read by the library
#define LAY(D) \
extern "C" long lay_support##D() { auto f = &dealii::FiniteElement<D>::has_support_on_face; return reinterpret_cast<long&>(f) - 1; } \
extern "C" const void* lay_fedpf##D(const dealii::FiniteElement<D>* v) { return &v->dofs_per_face; } \
typedef dealii::GridTools::PeriodicFacePair<dealii::Triangulation<D>::cell_iterator> FPT##D; \
typedef dealii::GridTools::PeriodicFacePair<dealii::DoFHandler<D>::cell_iterator> FPD##D; \
extern "C" const void* lay_nq##D(const dealii::FEValuesBase<D>* v) { return &v->n_quadrature_points; } \
extern "C" const void* lay_dpc##D(const dealii::FEValuesBase<D>* v) { return &v->dofs_per_cell; } \
extern "C" const void* lay_fedpc##D(const dealii::FiniteElement<D>* v) { return &v->dofs_per_cell; } \
extern "C" const void* lay_ncomp##D(const dealii::Function<D>* v) { return &v->n_components; } \
extern "C" const void* lay_qpts##D(const dealii::Quadrature<D>* v) { return &v->quadrature_points; } \
extern "C" const void* lay_qw##D(const dealii::Quadrature<D>* v) { return &v->weights; } \
extern "C" const void* lay_tcell##D(const FPT##D* v) { return &v->cell[1]; } \
extern "C" const void* lay_tface##D(const FPT##D* v) { return &v->face_idx[0]; } \
extern "C" const void* lay_tor##D(const FPT##D* v) { return &v->orientation; } \
extern "C" const void* lay_tmat##D(const FPT##D* v) { return &v->matrix; } \
extern "C" const void* lay_tend##D(const FPT##D* v) { return v + 1; } \
extern "C" const void* lay_dcell##D(const FPD##D* v) { return &v->cell[1]; } \
extern "C" const void* lay_dface##D(const FPD##D* v) { return &v->face_idx[0]; } \
extern "C" const void* lay_dor##D(const FPD##D* v) { return &v->orientation; } \
extern "C" const void* lay_dmat##D(const FPD##D* v) { return &v->matrix; } \
extern "C" const void* lay_dend##D(const FPD##D* v) { return v + 1; }
LAY(2)
LAY(3)
extern "C" void* probe_df() { return new DistributionFunctions(); }
extern "C" void probe_df_reinit(DistributionFunctions* f, size_t Q, dealii::IndexSet* l, dealii::IndexSet* r, bool dg) { f->reinit(Q, *l, *r, MPI_COMM_WORLD, dg); }
extern "C" void* probe_df_at(DistributionFunctions* f, size_t i) { return &f->at(i); }
extern "C" void* probe_df_stream(DistributionFunctions* f) { return &f->getFStream(); }
