// probe: SolverConfiguration (declared entries, getters, setters, enumerators)
#include "/opt/vp/compat/natrium_preamble.h"
#include <natrium/utilities/BasicNames.h>
#include <natrium/utilities/Logging.h>
#include <natrium/solver/SolverConfiguration.cpp>
#include <utility>
using namespace natrium;
extern "C" void probe_cfg_ctor(SolverConfiguration* c) { new (c) SolverConfiguration(); }
extern "C" void probe_cfg_consistent(SolverConfiguration* c) { c->isConsistent(); }
#define SCALAR(T, G, S) extern "C" void probe_set_##G(SolverConfiguration* c, T v) { c->S(v); } extern "C" T probe_get_##G(SolverConfiguration* c) { return c->G(); }
#define GETONLY(T, G) extern "C" T probe_get_##G(SolverConfiguration* c) { return c->G(); }
#define ENUMP(T, G, S) SCALAR(T, G, S)
template<class E, E V> const char* nat_en() { return __PRETTY_FUNCTION__; }
template<class E, int... I> const char* nat_es(int i, std::integer_sequence<int, I...>) {
	const char* r = "?";
	(void) std::initializer_list<int> { (i == I ? (r = nat_en<E, (E) I>(), 0) : 0)... };
	return r;
}
#define ENUMS(T) extern "C" const char* probe_names_##T(int i) { return nat_es<T>(i, std::make_integer_sequence<int, 32>()); }
ENUMS(AdvectionSchemeName) ENUMS(CollisionSchemeName) ENUMS(EquilibriumSchemeName) ENUMS(StencilType) ENUMS(TimeIntegratorName) ENUMS(DealIntegratorName) ENUMS(DealSolverName)
ENUMS(FluxTypeName) ENUMS(InitializationSchemeName) ENUMS(PseudopotentialType) ENUMS(ForceType) ENUMS(FilteringSchemeName) ENUMS(SupportPointsName) ENUMS(QuadratureName)
ENUMS(RegularizationSchemeName) ENUMS(RelaxMode) ENUMS(MomentBasis)
ENUMP(AdvectionSchemeName, getAdvectionScheme, setAdvectionScheme) ENUMP(CollisionSchemeName, getCollisionScheme, setCollisionScheme)
ENUMP(EquilibriumSchemeName, getEquilibriumScheme, setEquilibriumScheme) ENUMP(StencilType, getStencil, setStencil)
ENUMP(TimeIntegratorName, getTimeIntegrator, setTimeIntegrator) ENUMP(DealIntegratorName, getDealIntegrator, setDealIntegrator)
ENUMP(DealSolverName, getDealLinearSolver, setDealLinearSolver) ENUMP(FluxTypeName, getSedgFluxType, setSedgFluxType)
ENUMP(InitializationSchemeName, getInitializationScheme, setInitializationScheme) ENUMP(PseudopotentialType, getPseudopotentialType, setPseudopotentialType)
ENUMP(ForceType, getForcingScheme, setForcingScheme) ENUMP(FilteringSchemeName, getFilteringScheme, setFilteringScheme)
ENUMP(SupportPointsName, getSupportPoints, setSupportPoints) ENUMP(QuadratureName, getQuadrature, setQuadrature)
ENUMP(RegularizationSchemeName, getRegularizationScheme, setRegularizationScheme) ENUMP(RelaxMode, getMRTRelaxationTimes, setMRTRelaxationTimes)
ENUMP(MomentBasis, getMRTBasis, setMRTBasis)
SCALAR(bool, isWriteALogFile, setWriteALogFile) SCALAR(size_t, getWallNormalDirection, setWallNormalDirection) SCALAR(bool, isVmultLimiter, setVmultLimiter)
SCALAR(bool, isUserInteraction, setUserInteraction) SCALAR(double, getThetaMethodTheta, setThetaMethodTheta) SCALAR(bool, isSwitchOutputOff, setSwitchOutputOff)
SCALAR(double, getStencilScaling, setStencilScaling) SCALAR(double, getSimulationEndTime, setSimulationEndTime) SCALAR(size_t, getSedgOrderOfFiniteElement, setSedgOrderOfFiniteElement)
SCALAR(size_t, getRestartAtIteration, setRestartAtIteration) SCALAR(double, getReferenceTemperature, setReferenceTemperature) SCALAR(double, getPrandtlNumber, setPrandtlNumber)
SCALAR(bool, isOutputTurbulenceStatistics, setOutputTurbulenceStatistics) SCALAR(size_t, getOutputTableInterval, setOutputTableInterval)
SCALAR(size_t, getOutputSolutionInterval, setOutputSolutionInterval) SCALAR(bool, isOutputGlobalTurbulenceStatistics, setOutputGlobalTurbulenceStatistics)
SCALAR(bool, isOutputCompressibleTurbulenceStatistics, setOutputCompressibleTurbulenceStatistics) SCALAR(size_t, getOutputCheckpointInterval, setOutputCheckpointInterval)
SCALAR(size_t, getNumberOfTimeSteps, setNumberOfTimeSteps) SCALAR(double, getHeatCapacityRatioGamma, setHeatCapacityRatioGamma) SCALAR(bool, hasAnalyticSolution, setHasAnalyticSolution)
SCALAR(bool, isFiltering, setFiltering) SCALAR(size_t, getFilterInterval, setFilterInterval) SCALAR(bool, isFilterDegreeByComponentSums, setFilterDegreeByComponentSums)
SCALAR(double, getExponentialFilterS, setExponentialFilterS) SCALAR(size_t, getExponentialFilterNc, setExponentialFilterNc) SCALAR(double, getExponentialFilterAlpha, setExponentialFilterAlpha)
SCALAR(double, getConvergenceThreshold, setConvergenceThreshold) SCALAR(size_t, getCommandLineVerbosity, setCommandLineVerbosity) SCALAR(double, getCFL, setCFL)
SCALAR(double, getBGKSteadyStateGamma, setBGKSteadyStateGamma) SCALAR(double, getBGKPseudopotentialT, setBGKPseudopotentialT) SCALAR(double, getBGKPseudopotentialG, setBGKPseudopotentialG)
SCALAR(size_t, getIterativeInitializationNumberOfIterations, setIterativeInitializationNumberOfIterations) SCALAR(double, getIterativeInitializationResidual, setIterativeInitializationResidual)
GETONLY(bool, isPrandtlNumberSet) GETONLY(bool, isSutherlandLawSet)
GETONLY(double, getEmbeddedDealIntegratorCoarsenParameter) GETONLY(double, getEmbeddedDealIntegratorRefinementParameter) GETONLY(double, getEmbeddedDealIntegratorMinimumCFL)
GETONLY(double, getEmbeddedDealIntegratorMaximumCFL) GETONLY(double, getEmbeddedDealIntegratorRefinementTolerance) GETONLY(double, getEmbeddedDealIntegratorCoarsenTolerance)
extern "C" void probe_sutherland(SolverConfiguration* c) { c->setSutherlandLaw(); }
extern "C" void probe_embedded(SolverConfiguration* c, double a, double b, double d, double e, double f, double g) { c->setEmbeddedDealIntegratorParameters(a, b, d, e, f, g); }
extern "C" void probe_outdir(SolverConfiguration* c, const std::string* s, std::string* o) { c->setOutputDirectory(*s); *o = c->getOutputDirectory(); }
extern "C" void probe_wallnormal_set(SolverConfiguration* c, const std::vector<double>* v) { c->setWallNormalCoordinates(*v); }
