// probe: tables of statistics and errors
#include "fields.cpp"
#include <natrium/solver/BenchmarkCFDSolver.cpp>
#include <natrium/solver/BenchmarkCompressibleCFDSolver.cpp>
#include <natrium/solver/ErrorStats.cpp>
#include <natrium/solver/CompressibleErrorStats.cpp>
extern "C" double vhook_exact(int which, const double* p, unsigned int component, double time);
template<size_t dim> struct ExactFunction: public dealii::Function<dim> {
	int m_which;
	ExactFunction(int w): dealii::Function<dim>(w ? dim : 1), m_which(w) {}
	double value(const dealii::Point<dim>& p, const unsigned int c) const override { return vhook_exact(m_which, &p[0], c, this->get_time()); }
};
#define BENCH(B, N) \
template<size_t dim> struct N: public B<dim> { \
	N(boost::shared_ptr<Mesh<dim> > m): B<dim>(m, 0.5, 1.0) { \
		this->setAnalyticRho(boost::shared_ptr<dealii::Function<dim> >(new ExactFunction<dim>(0))); \
		this->setAnalyticU(boost::shared_ptr<dealii::Function<dim> >(new ExactFunction<dim>(1))); } \
	void refine(Mesh<dim>&) override {} \
	void transform(Mesh<dim>&) override {} \
	bool isCartesian() override { return true; } \
};
BENCH(Benchmark, IncompressibleExact)
BENCH(CompressibleBenchmark, CompressibleExact)
#define COMMON(D) \
extern "C" double probe_value##D(const dealii::Function<D>* f, const double* x) { dealii::Point<D> p; for (size_t d = 0; d < D; d++) p[d] = x[d]; return f->value(p); } \
extern "C" void probe_tmp##D(CFDSolver<D>* s, DVs* u, distributed_vector* r, size_t start) { new (&s->m_tmpVelocity) DVs(*u); new (&s->m_tmpDensity) distributed_vector(*r); s->m_iterationStart = start; s->m_residuumVelocity = 1; s->m_residuumDensity = 1; } \
extern "C" double probe_residual##D(CFDSolver<D>* s, int w) { return w ? s->m_residuumDensity : s->m_residuumVelocity; } \
extern "C" void* probe_tmp_at##D(CFDSolver<D>* s, size_t i) { return i < D ? &s->m_tmpVelocity.at(i) : &s->m_tmpDensity; } \
extern "C" void* probe_stats##D(CFDSolver<D>* s, const char* file) { return new SolverStats<D>(s, file); } \
extern "C" void probe_stats_residuals##D(SolverStats<D>* s, size_t i) { s->calculateResiduals(i); } \
extern "C" void probe_stats_update##D(SolverStats<D>* s) { s->update(); } \
extern "C" void probe_stats_print##D(SolverStats<D>* s) { s->printNewLine(); } \
extern "C" void* probe_stats_file##D(SolverStats<D>* s) { return s->m_tableFile.get(); } \
extern "C" void* probe_gts_file##D(GlobalTurbulenceStats<D>* s) { return s->m_tableFile.get(); } \
extern "C" void probe_gts_apply##D(GlobalTurbulenceStats<D>* s) { s->apply(); } \
extern "C" void probe_cts_apply##D(CompressibleTurbulenceStats<D>* s) { s->apply(); } \
extern "C" void* probe_cts_file##D(CompressibleTurbulenceStats<D>* s) { return s->m_tableFile.get(); } \
extern "C" void probe_turb_setup##D(CFDSolver<D>* s, boost::shared_ptr<Mesh<D> >* m, double* pts, size_t n) { \
	new (&s->m_problemDescription) boost::shared_ptr<ProblemDescription<D> >(new IncompressibleExact<D>(*m)); \
	new (&s->m_supportPoints) std::map<dealii::types::global_dof_index, dealii::Point<D> >(); \
	for (unsigned int k = 0; k < n; k++) { dealii::Point<D> p; for (size_t d = 0; d < D; d++) p[d] = pts[D * k + d]; s->m_supportPoints[k] = p; } } \
extern "C" void* probe_turb##D(CFDSolver<D>* s, size_t dir, const double* x, size_t n, const char* file) { return new TurbulenceStats<D>(s, dir, std::vector<double>(x, x + n), file); } \
extern "C" void probe_turb_print##D(TurbulenceStats<D>* t) { t->printNewLine(); } \
extern "C" void* probe_turb_file##D(TurbulenceStats<D>* t) { return t->m_tableFile.get(); } \
extern "C" double probe_turb_get##D(TurbulenceStats<D>* t, int rms, size_t i, size_t j) { return rms ? t->m_rms.at(i).at(j) : t->m_averages.at(i).at(j); } \
extern "C" void probe_turb_add##D(TurbulenceStats<D>* t, DVs* u) { t->addToReynoldsStatistics(*u); } \
extern "C" void probe_turb_out##D(TurbulenceStats<D>* t, dealii::DataOut<D>* o) { t->addReynoldsStatisticsToOutput(*o); } \
extern "C" void* probe_turb_mean##D(TurbulenceStats<D>* t, size_t j) { return &t->m_uAverage.at(j); } \
extern "C" double probe_stats_get##D(SolverStats<D>* s, int w) { \
	double v[] = { double(s->getTime()), s->getMaxU(), s->getMass(), s->getKinE(), s->getEnstrophy(), s->getEntropy(), s->getMaxP(), s->getMinP(), s->getMeanVelocityX(), s->m_enstrophy_sq }; return v[w]; } \
extern "C" void probe_iteration##D(CFDSolver<D>* s, size_t i) { s->m_i = i; } \
extern "C" void probe_clock##D(CFDSolver<D>* s, size_t i, double t) { s->m_i = i; s->m_time = t; }
#define ERRORS(D, SOLVER, STATS, BASE, EXACT, TAG) \
extern "C" size_t lay_bsolver##TAG##D() { return sizeof(SOLVER<D>); } \
extern "C" void probe_bsolver##TAG##D(SOLVER<D>* s, boost::shared_ptr<Mesh<D> >* m, double* pts, size_t n, DVs* u, distributed_vector* r) { \
	new (&s->m_benchmark) boost::shared_ptr<BASE<D> >(new EXACT<D>(*m)); new (&s->m_problemDescription) boost::shared_ptr<ProblemDescription<D> >(s->m_benchmark); \
	new (&s->m_supportPoints) std::map<dealii::types::global_dof_index, dealii::Point<D> >(); \
	for (unsigned int k = 0; k < n; k++) { dealii::Point<D> p; for (size_t d = 0; d < D; d++) p[d] = pts[D * k + d]; s->m_supportPoints[k] = p; } \
	new (&s->m_analyticVelocity) DVs(*u); new (&s->m_analyticDensity) distributed_vector(*r); } \
extern "C" void* probe_errors##TAG##D(SOLVER<D>* s, const char* file) { return new STATS<D>(s, file); } \
extern "C" void probe_errors_print##TAG##D(STATS<D>* s) { s->printNewLine(); } \
extern "C" void* probe_errors_file##TAG##D(STATS<D>* s) { return s->m_errorsTableFile.get(); } \
extern "C" double probe_errors_get##TAG##D(STATS<D>* s, int w) { double v[] = { s->getTime(), s->getMaxUAnalytic(), s->getMaxVelocityError(), s->getMaxDensityError(), s->getL2VelocityError(), s->getL2DensityError() }; return v[w]; }
COMMON(2)
COMMON(3)
ERRORS(2, BenchmarkCFDSolver, ErrorStats, Benchmark, IncompressibleExact, i)
ERRORS(3, BenchmarkCFDSolver, ErrorStats, Benchmark, IncompressibleExact, i)
ERRORS(2, BenchmarkCompressibleCFDSolver, CompressibleErrorStats, CompressibleBenchmark, CompressibleExact, c)
ERRORS(3, BenchmarkCompressibleCFDSolver, CompressibleErrorStats, CompressibleBenchmark, CompressibleExact, c)
extern "C" int probe_const_l2() { return dealii::VectorTools::L2_norm; }
extern "C" int probe_const_out() { return std::fstream::out; }
extern "C" int probe_const_app() { return std::fstream::out | std::fstream::app; }
