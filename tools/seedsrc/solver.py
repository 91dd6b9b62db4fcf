SOL = r'''// helpers: a solver on a small periodic domain, with access to its internals
#pragma once
#include "natrium/utilities/BasicNames.h"
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <memory>
#include <functional>
#include <thread>
#include <cmath>
#include <cstdio>
#include <vector>
#include <deal.II/base/function.h>
#include <deal.II/base/tensor_function.h>
#include <deal.II/base/timer.h>
#include <deal.II/base/parameter_handler.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/numerics/data_out.h>
#include <boost/filesystem.hpp>
#include <boost/make_shared.hpp>
#include "natrium/utilities/Logging.h"
#include "natrium/solver/SolverConfiguration.h"
#define private public
#define protected public
#include "/opt/vp/compat/natrium_preamble.h"
#undef private
#undef protected
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/problemdescription/ProblemDescription.h"
#include "natrium/boundaries/PeriodicBoundary.h"
#include "natrium/boundaries/VelocityNeqBounceBack.h"
#include "natrium/utilities/MPIGuard.h"
using namespace natrium;
template<size_t D> struct U0: public dealii::Function<D> {
	U0() : dealii::Function<D>(D) {}
	double value(const dealii::Point<D>& x, const unsigned int c) const {
		double s = 0.01 * (c + 1);
		for (size_t d = 0; d < D; d++) s *= 1 + 0.3 * std::sin(2 * M_PI * x(d) + c + d);
		return s;
	}
};
template<size_t D> struct Box: public ProblemDescription<D> {
	size_t m_ref;
	Box(size_t ref, double nu = 0.01) : ProblemDescription<D>(mesh(), nu, 1.0), m_ref(ref) {
		boost::shared_ptr<BoundaryCollection<D> > b = boost::make_shared<BoundaryCollection<D> >();
		for (size_t d = 0; d < D; d++) b->addBoundary(boost::make_shared<PeriodicBoundary<D> >(2 * d, 2 * d + 1, d, this->getMesh()));
		this->setBoundaries(b);
		this->setInitialU(boost::make_shared<U0<D> >());
	}
	static boost::shared_ptr<Mesh<D> > mesh() {
		boost::shared_ptr<Mesh<D> > m = boost::make_shared<Mesh<D> >(MPI_COMM_WORLD);
		dealii::GridGenerator::hyper_cube(*m, 0, 1, true);
		return m;
	}
	void refine(Mesh<D>& m) { m.refine_global(m_ref); }
	void transform(Mesh<D>&) {}
	bool isCartesian() { return true; }
};
inline boost::shared_ptr<SolverConfiguration> config(StencilType st = Stencil_D2Q9) {
	boost::shared_ptr<SolverConfiguration> c = boost::make_shared<SolverConfiguration>();
	c->setSwitchOutputOff(true);
	c->setUserInteraction(false);
	c->setStencil(st);
	c->setAdvectionScheme(SEMI_LAGRANGIAN);
	c->setSedgOrderOfFiniteElement(2);
	c->setCFL(0.5);
	c->setNumberOfTimeSteps(1000000);
	return c;
}
inline int verdict(const char* what, double a, double b, double tol = 1e-10) {
	bool ok = std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b));
	std::printf("%s: %.15g, expected %.15g -> %s\n", what, a, b, ok ? "ok" : "VIOLATED");
	return ok ? 0 : 1;
}
'''
H = {"sol.h": SOL}

SEEDS = [
 dict(id="R03-multistep-restart", property="R03", hdr=H,
  edits=[("solver/CFDSolver.cpp", """				|| (BGK_MULTI_BDF2 == m_configuration->getCollisionScheme()))
				&& (m_i - m_iterationStart) > 1) {
			//distributed_block_vector& formerF =""", """				|| (BGK_MULTI_BDF2 == m_configuration->getCollisionScheme()))
				&& m_i > 1) {
			//distributed_block_vector& formerF =""")],
  needs="a run that continues from a checkpoint (iteration start > 0) with a multi-step collision scheme on the semi-Lagrangian operator",
  breaks="the history populations of a multi-step scheme are streamed once too often in the first step after a restart: the continued run differs from the same run started from iteration 0 on the same populations",
  main=r'''#include "sol.h"
static void run(size_t start, std::vector<double>& out) {
	boost::shared_ptr<SolverConfiguration> c = config();
	c->setCollisionScheme(BGK_MULTI_AM4);
	CFDSolver<2> s(c, boost::make_shared<Box<2> >(2));
	s.m_iterationStart = start;
	s.m_i = start + 1;
	s.m_multistepData->getFormerF().reinit(9, s.getAdvectionOperator()->getLocallyOwnedDofs(), MPI_COMM_WORLD);
	s.m_multistepData->getFormerFEq().reinit(9, s.getAdvectionOperator()->getLocallyOwnedDofs(), MPI_COMM_WORLD);
	for (size_t q = 0; q < 9; q++) for (auto i : s.getAdvectionOperator()->getLocallyOwnedDofs()) s.m_multistepData->getFormerF().at(q)(i) = s.m_f.at(q)(i);
	s.stream();
	for (size_t q = 0; q < 9; q++) for (auto i : s.getAdvectionOperator()->getLocallyOwnedDofs()) out.push_back(s.m_multistepData->getFormerF().at(q)(i));
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	std::vector<double> a, b;
	run(0, a);
	run(20, b);
	double d = 0;
	for (size_t i = 0; i < a.size(); i++) d = std::max(d, std::fabs(a[i] - b[i]));
	return verdict("history populations after the first step: largest difference between runs starting at iteration 0 and 20", d, 0, 1e-13);
}
'''),
 dict(id="R01-end-time-reached", property="R01", hdr=H,
  edits=[("solver/CFDSolver.cpp", "	if (m_time >= end_time) {", "	if (m_time - end_time > 0) {")],
  needs="a run whose time meets the configured end time exactly, e.g. a restart from the final checkpoint or an end time that is a multiple of the step",
  breaks="a simulation that has reached its end time takes another time step",
  main=r'''#include "sol.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	boost::shared_ptr<SolverConfiguration> c = config();
	c->setSimulationEndTime(1.5);
	CFDSolver<2> s(c, boost::make_shared<Box<2> >(1));
	s.m_i = 3;
	s.m_time = 1.25;
	int r = verdict("stops before the end time", s.stopConditionMet(), 0);
	s.m_time = 1.5;
	r |= verdict("stops at the end time", s.stopConditionMet(), 1);
	s.m_time = 1.75;
	return r | verdict("stops after the end time", s.stopConditionMet(), 1);
}
'''),
 dict(id="D01-small-rescaling-dropped", property="D01", hdr=H,
  edits=[("solver/DistributionFunctions.cpp", """	if (abs(old_stencil.getSpeedOfSound() - new_stencil.getSpeedOfSound())
			< 1e-5) {""", """	if (abs(old_stencil.getSpeedOfSound() - new_stencil.getSpeedOfSound())
			< 1e-2) {""")],
  needs="a transfer between two scalings that differ by less than about two percent of the unit scaling",
  breaks="populations are left at the old scaling although the velocity set has another one: the velocity changes with the transfer",
  main=r'''#include "sol.h"
#include "natrium/stencils/D2Q9.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	D2Q9 a(1.0), b(1.01);
	dealii::IndexSet is(1); is.add_index(0); is.compress();
	DistributionFunctions f;
	f.reinit(9, is, is, MPI_COMM_WORLD);
	double ua = 0, ub = 0;
	for (size_t i = 0; i < 9; i++) { f.at(i)(0) = a.getWeight(i) * (1 + 3 * 0.05 * a.getDirection(i)(0)); ua += f.at(i)(0) * a.getDirection(i)(0); }
	f.transferFromOtherScaling(a, b, is);
	for (size_t i = 0; i < 9; i++) ub += f.at(i)(0) * b.getDirection(i)(0);
	return verdict("momentum after the transfer to another scaling", ub, ua, 1e-10);
}
'''),
 dict(id="T01-smaller-step-ignored", property="T01", hdr={},
  edits=[("timeintegration/RungeKutta5LowStorage.cpp", """	if ((0.0 != dt) and dt != this->getTimeStepSize()) {
		this->setTimeStepSize(dt);""", """	if (dt > this->getTimeStepSize()) {
		this->setTimeStepSize(dt);""")],
  needs="a step with an explicit time step that is smaller than the one the integrator was built with",
  breaks="the integrator advances the populations by its own, larger step but reports the time of the requested one",
  main=r'''#include "/opt/vp/compat/natrium_preamble.h"
#include "natrium/timeintegration/RungeKutta5LowStorage.h"
#include "natrium/utilities/MPIGuard.h"
#include <cmath>
#include <cstdio>
using namespace natrium;
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	dealii::DynamicSparsityPattern dsp(2);
	dsp.add(0, 0); dsp.add(1, 1);
	dealii::SparsityPattern sp; sp.copy_from(dsp);
	sparse_matrix A(sp);
	A.set(0, 0, -1); A.set(1, 1, -2);
	numeric_vector f(2), b(2), g(2);
	f(0) = f(1) = 1;
	RungeKutta5LowStorage<sparse_matrix, numeric_vector> rk(0.2, f);
	double t = 0;
	t = rk.step(f, A, b, t, 0.2);
	t = rk.step(f, A, b, t, 0.05);
	double e = std::fabs(f(0) - std::exp(-t)) + std::fabs(f(1) - std::exp(-2 * t));
	std::printf("time %g, error %g\n", t, e);
	return e < 1e-4 ? 0 : 1;
}
'''),
 dict(id="A01-small-weights-dropped", property="A01", hdr=H,
  edits=[("advection/SemiLagrangian.cpp", "						if (fabs(local_entries.at(i).at(j)) < 1e-10) {", "						if (fabs(local_entries.at(i).at(j)) < 1e-4) {")],
  needs="a departure point close to a support point, as with small time steps: the interpolation weights of the other points are then small",
  breaks="populations are read at their arrival point and no longer move, and the weights do not sum to one",
  main=r'''#include "sol.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	boost::shared_ptr<SolverConfiguration> c = config();
	c->setCFL(1e-5);
	CFDSolver<2> s(c, boost::make_shared<Box<2> >(2));
	const distributed_sparse_block_matrix& A = s.getAdvectionOperator()->getSystemMatrix();
	// populations that are linear in space within the cells move by dt * e
	double worst = 0;
	for (size_t q = 0; q + 1 < 9; q++) {
		for (auto i : s.getAdvectionOperator()->getLocallyOwnedDofs()) {
			double sum = 0;
			auto& B = A.block(q, q);
			for (auto e = B.begin(i); e != B.end(i); ++e) sum += e->value();
			worst = std::max(worst, std::fabs(sum - 1));
		}
	}
	return verdict("largest deviation of the weights' sum from one", worst, 0, 1e-9);
}
'''),
 dict(id="B01-wall-time-of-hit", property="B01", hdr=H,
  edits=[("boundaries/VelocityNeqBounceBack.cpp", """			t - eps);
	// evaluate""", """			t);
	// evaluate""")],
  needs="a wall whose velocity depends on time",
  breaks="the wall velocity is taken at the end of the time step instead of at the time the population hits the wall",
  main=r'''#include "sol.h"
struct Wall: public dealii::Function<2> {
	std::vector<double>* seen;
	Wall(std::vector<double>* s) : dealii::Function<2>(2), seen(s) {}
	double value(const dealii::Point<2>&, const unsigned int) const { seen->push_back(this->get_time()); return 0.01; }
	void vector_value(const dealii::Point<2>&, dealii::Vector<double>& v) const { seen->push_back(this->get_time()); v = 0; v(0) = 0.01; }
};
struct Channel: public Box<2> {
	Channel(std::vector<double>* seen) : Box<2>(2) {
		boost::shared_ptr<BoundaryCollection<2> > b = boost::make_shared<BoundaryCollection<2> >();
		b->addBoundary(boost::make_shared<PeriodicBoundary<2> >(0, 1, 0, this->getMesh()));
		b->addBoundary(boost::make_shared<VelocityNeqBounceBack<2> >(2, boost::make_shared<Wall>(seen)));
		b->addBoundary(boost::make_shared<VelocityNeqBounceBack<2> >(3, boost::make_shared<Wall>(seen)));
		this->setBoundaries(b);
	}
};
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	std::vector<double> seen;
	boost::shared_ptr<SolverConfiguration> c = config();
	c->setSedgOrderOfFiniteElement(3);
	c->setCFL(5);
	CFDSolver<2> s(c, boost::make_shared<Channel>(&seen));
	seen.clear();
	s.m_i++;
	s.stream();
	double dt = s.getTimeStepSize(), lo = 1e300;
	for (double x : seen) lo = std::min(lo, x);
	std::printf("%zu wall evaluations, dt %g, earliest at %g\n", seen.size(), dt, lo);
	// populations from the wall itself hit it at the beginning of the step or later; some do so clearly before its end
	return (seen.size() and lo < 0.9 * dt) ? 0 : 1;
}
'''),
]
