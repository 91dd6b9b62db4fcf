import os
_g = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/seedsrc", "solver.py")).read(), _g)
H = {"sol.h": _g["SOL"]}
LITE = r'''#include "/opt/vp/compat/natrium_preamble.h"
#include "natrium/utilities/MPIGuard.h"
#include <cmath>
#include <cstdio>
#include <vector>
using namespace natrium;
inline int verdict(const char* what, double a, double b, double tol = 1e-10) {
	bool ok = std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b));
	std::printf("%s: %.15g, expected %.15g -> %s\n", what, a, b, ok ? "ok" : "VIOLATED");
	return ok ? 0 : 1;
}
'''
SEEDS = [
 dict(id="N01-series-cut-short", property="N01", hdr={},
  edits=[("benchmarks/CouetteFlow2D.cpp", "			if (exp_expression < 1e-20) {", "			if (fabs(increment) < 1e-14) {")],
  needs="a point at a rational fraction of the channel height (half, a third, ...) at an early time, where a single term of the series vanishes long before the series has converged",
  breaks="the series of the start-up Couette flow ends at the first vanishing term: at mid-height only one term is summed and the analytic velocity is wrong",
  main=LITE + r'''#include "natrium/benchmarks/CouetteFlow2D.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	const double nu = 0.01, U = 0.1, L = 1.0;
	CouetteFlow2D flow(nu, U, 2, L, 1.0);
	int bad = 0;
	for (double y : {0.3, 0.5, 0.75}) {
		double t = 2.0, ref = U * y / L;
		for (int i = 1; i < 400; i++) { double l = i * M_PI / L; ref += (i % 2 ? -1.0 : 1.0) * 2 * U / (l * L) * std::exp(-nu * l * l * t) * std::sin(l * y); }
		bad |= verdict("analytic velocity", flow.getAnalyticUFunction(t - 1.0)->value(dealii::Point<2>(0.5, y), 0), ref, 1e-9);
	}
	return bad;
}
'''),
 dict(id="V01-flat-cells", property="V01", hdr={},
  edits=[("utilities/CFDSolverUtilities.cpp", "			distance = cell->minimum_vertex_distance();", "			distance = std::min(cell->vertex(0).distance(cell->vertex(1)), cell->vertex(0).distance(cell->vertex(2)));")],
  needs="a three-dimensional mesh whose cells are shorter in z than in x and y, or cells whose edges differ",
  breaks="the smallest vertex distance is taken from the first two edges of each cell: the time step of a stretched mesh exceeds the configured CFL number",
  main=LITE + r'''#include "natrium/utilities/CFDSolverUtilities.h"
#include <deal.II/grid/grid_generator.h>
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	Mesh<3> a(MPI_COMM_WORLD), b(MPI_COMM_WORLD);
	dealii::GridGenerator::hyper_rectangle(a, dealii::Point<3>(0, 0, 0), dealii::Point<3>(1, 0.5, 2));
	dealii::GridGenerator::hyper_rectangle(b, dealii::Point<3>(0, 0, 0), dealii::Point<3>(1, 0.5, 0.25));
	return verdict("tall cells", CFDSolverUtilities::getMinimumVertexDistance<3>(a), 0.5) | verdict("flat cells", CFDSolverUtilities::getMinimumVertexDistance<3>(b), 0.25);
}
'''),
 dict(id="F01-whole-exponents", property="F01", hdr={},
  edits=[("smoothing/ExponentialFilter.cpp", "															- m_Nc), m_s));", "															- m_Nc), (int) m_s));")],
  needs="a filter strength s that is not a whole number",
  breaks="the exponent of the filter is cut to a whole number: the modes are damped more than configured",
  main=LITE + r'''#include "natrium/smoothing/ExponentialFilter.h"
#include <deal.II/grid/grid_generator.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/base/quadrature_lib.h>
static double run(double s) {
	dealii::parallel::distributed::Triangulation<2> tria(MPI_COMM_WORLD);
	dealii::GridGenerator::hyper_cube(tria, 0, 1);
	dealii::QGauss<1> line(4);
	dealii::QGauss<2> q(4);
	dealii::FE_DGQArbitraryNodes<2> fe(line);
	dealii::DoFHandler<2> dof(tria);
	dof.distribute_dofs(fe);
	distributed_vector v(dof.locally_owned_dofs(), MPI_COMM_WORLD);
	// first Legendre mode in x
	for (unsigned int i = 0; i < 16; i++) v(i) = 2 * fe.get_unit_support_points()[i](0) - 1;
	ExponentialFilter<2> f(2.0, s, 0, false, q, fe);
	f.applyFilter(dof, v);
	return v(0) / (2 * fe.get_unit_support_points()[0](0) - 1);
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	// degree 1 of 3, Nc = 0: eta = (1 + 1) / (3 + 1)
	return verdict("s = 2", run(2), std::exp(-2.0 * 0.25)) | verdict("s = 1.5", run(1.5), std::exp(-2.0 * std::pow(0.5, 1.5)));
}
'''),
 dict(id="L02-d3q45-opposite", property="L02", hdr={},
  edits=[("stencils/D3Q45.h", """            case 33 :
                return 44 ;""", """            case 33 :
                return 43 ;"""), ("stencils/D3Q45.h", """            case 34 :
                return 43 ;""", """            case 34 :
                return 44 ;""")],
  needs="a bounce-back boundary with the D3Q45 velocity set, at a wall that is met by directions 33 or 34",
  breaks="two of the 45 directions are reflected into a direction that is not their opposite",
  main=LITE + r'''#include "natrium/stencils/D3Q45.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	D3Q45 s(1.0);
	double worst = 0;
	for (size_t i = 0; i < 45; i++) for (int d = 0; d < 3; d++) worst = std::max(worst, std::fabs(s.getDirection(i)(d) + s.getDirection(s.getIndexOfOppositeDirection(i))(d)));
	return verdict("largest component of a direction plus its opposite", worst, 0);
}
'''),
 dict(id="Q01-reused-cell-geometry", property="Q01", hdr=H,
  edits=[("solver/PhysicalProperties.cpp", """			cell->get_dof_indices(localDoFIndices);
			// calculate the fe values for the cell
			feCellValues.reinit(cell);

			size_t local_i;
			for (size_t q = 0; q < n_q_points; q++) {
				for (size_t i = 0; i < dofs_per_cell; i++) {
					local_i = localDoFIndices.at(i);
					result += rho(local_i) * feCellValues""", """			cell->get_dof_indices(localDoFIndices);
			// calculate the fe values for the cell
			if (cell->measure() != last_measure) {
				last_measure = cell->measure();
				feCellValues.reinit(cell);
			}

			size_t local_i;
			for (size_t q = 0; q < n_q_points; q++) {
				for (size_t i = 0; i < dofs_per_cell; i++) {
					local_i = localDoFIndices.at(i);
					result += rho(local_i) * feCellValues"""), ("solver/PhysicalProperties.cpp", """		boost::shared_ptr<AdvectionOperator<dim> > advection) {
	const size_t n_dofs = advection->getNumberOfDoFs();
	assert(n_dofs == rho.size());

	// Integrate rho over whole domain
""", """		boost::shared_ptr<AdvectionOperator<dim> > advection) {
	const size_t n_dofs = advection->getNumberOfDoFs();
	assert(n_dofs == rho.size());
	double last_measure = 0.0; // cells of the same size have the same geometry

	// Integrate rho over whole domain
""")],
  needs="a mesh with neighbouring cells of equal volume but different shape, and a density that varies in space",
  breaks="the quadrature weights of one cell are used for the next one: the mass of the domain is wrong",
  main=r'''#include "sol.h"
#include <deal.II/grid/grid_tools.h>
#include "natrium/solver/PhysicalProperties.h"
struct Skew: public Box<2> {
	Skew() : Box<2>(2) {}
	static dealii::Point<2> move(const dealii::Point<2>& x) {
		if (std::fabs(x(0) - 0.25) > 1e-6) return x;
		int row = int(std::floor(4 * x(1) + 0.5)) % 4;
		return dealii::Point<2>(x(0) + (row == 1 ? 0.05 : -0.05), x(1));
	}
	void transform(Mesh<2>& m) { dealii::GridTools::transform(&move, m); }
	bool isCartesian() { return false; }
};
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	boost::shared_ptr<SolverConfiguration> c = config();
	CFDSolver<2> s(c, boost::make_shared<Skew>());
	distributed_vector rho(s.getAdvectionOperator()->getLocallyOwnedDofs(), MPI_COMM_WORLD);
	std::map<dealii::types::global_dof_index, dealii::Point<2> > sp;
	s.getAdvectionOperator()->mapDoFsToSupportPoints(sp);
	for (auto i : s.getAdvectionOperator()->getLocallyOwnedDofs()) rho(i) = sp.at(i)(1) < 0.125 ? 2 : 1;
	dealii::FEValues<2> fe(s.getAdvectionOperator()->getMapping(), *s.getAdvectionOperator()->getFe(), *s.getAdvectionOperator()->getQuadrature(), dealii::update_JxW_values | dealii::update_values);
	double ref = 0;
	std::vector<dealii::types::global_dof_index> dofs(s.getAdvectionOperator()->getFe()->dofs_per_cell);
	for (auto cell = s.getAdvectionOperator()->getDoFHandler()->begin_active(); cell != s.getAdvectionOperator()->getDoFHandler()->end(); ++cell) {
		fe.reinit(cell);
		cell->get_dof_indices(dofs);
		for (unsigned int q = 0; q < fe.n_quadrature_points; q++) for (size_t i = 0; i < dofs.size(); i++) ref += rho(dofs[i]) * fe.shape_value(i, q) * fe.JxW(q);
	}
	return verdict("mass", PhysicalProperties<2>::mass(rho, s.getAdvectionOperator()), ref, 1e-9);
}
'''),
 dict(id="K01-time-single-precision", property="K01", hdr=H,
  edits=[("solver/Checkpoint.cpp", """	double phys_time = 0.0;
	size_t iteration_start = 0;
	double stencil_scaling = 0.0;""", """	float phys_time = 0.0;
	size_t iteration_start = 0;
	double stencil_scaling = 0.0;""")],
  needs="a restart from a checkpoint whose time is not representable in single precision",
  breaks="the time is read in single precision: the continued run has another time, and its end time and time-dependent boundaries are off",
  main=r'''#include "sol.h"
#include "natrium/solver/Checkpoint.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	boost::filesystem::create_directories("out/checkpoint");
	{
		CFDSolver<2> s(config(), boost::make_shared<Box<2> >(2));
		CheckpointStatus st; st.iterationNumber = 7; st.time = 0.1; st.stencilScaling = s.getStencil()->getScaling(); st.feOrder = 2;
		Checkpoint<2> c(7, "out/checkpoint", false);
		c.write(*s.getProblemDescription()->getMesh(), s.m_f, *s.getAdvectionOperator()->getDoFHandler(), st);
	}
	boost::shared_ptr<SolverConfiguration> c = config();
	c->setOutputDirectory("out");
	c->setRestartAtIteration(7);
	CFDSolver<2> s(c, boost::make_shared<Box<2> >(2));
	return verdict("time after the restart", s.getTime(), 0.1, 1e-13) | verdict("iteration after the restart", s.getIterationStart(), 7);
}
'''),
 dict(id="A02-grazing-faces", property="A02", hdr=H,
  edits=[("advection/SEDGMinLee.cpp", "		} else if (exn < 0) { // otherwise: no contributions", "		} else if (exn < -1e-2) { // otherwise: no contributions")],
  needs="a mesh whose faces are slightly oblique, so that a direction crosses them at a grazing angle, or a small stencil scaling",
  breaks="the flux through a face that is crossed at a grazing angle is dropped: mass that leaves one cell does not arrive in the next",
  main=r'''#include "sol.h"
static int run(double scaling) {
	boost::shared_ptr<SolverConfiguration> c = config();
	c->setAdvectionScheme(SEDG);
	c->setStencilScaling(scaling);
	CFDSolver<2> s(c, boost::make_shared<Box<2> >(2));
	const distributed_sparse_block_matrix& A = s.getAdvectionOperator()->getSystemMatrix();
	// f = x within the cells has a jump only at the periodic boundary; compare one row sum of |A| with its scaled counterpart
	double sum = 0;
	const distributed_sparse_matrix& b = A.block(0, 0);
	for (auto it = b.begin(); it != b.end(); ++it) sum += std::fabs(it->value());
	static double unit = 0;
	if (unit == 0) unit = sum / scaling;
	return verdict("operator divided by the scaling", sum / scaling, unit, 1e-8);
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	return run(1.0) | run(0.001);
}
'''),
 dict(id="W01-continued-table-cut", property="W01", hdr=H,
  edits=[("solver/ErrorStats.cpp", "	if (m_solver->getIterationStart() > 0) {", "	if (m_solver->getIterationStart() > 1) {")],
  needs="a simulation that continues from a checkpoint of its first iteration",
  breaks="the error table of the previous run is truncated instead of continued",
  main=r'''#include "sol.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/ErrorStats.h"
#include "natrium/benchmarks/TaylorGreenVortex2D.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	boost::shared_ptr<SolverConfiguration> c = config();
	BenchmarkCFDSolver<2> s(c, boost::make_shared<TaylorGreenVortex2D>(0.1, 2, 0.01));
	int bad = 0;
	for (size_t start : {1, 7}) {
		s.m_iterationStart = start;
		{
			std::ofstream f("errors.txt");
			f << "row of the first run\n";
		}
		{
			ErrorStats<2> e(&s, "errors.txt");
		}
		std::ifstream f("errors.txt");
		std::string line;
		bool kept = std::getline(f, line) and line == "row of the first run";
		std::printf("continued from iteration %zu: %s\n", start, kept ? "table kept" : "TABLE LOST");
		bad |= not kept;
	}
	return bad;
}
'''),
]
