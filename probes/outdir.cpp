// probe: SolverConfiguration::prepareOutputDirectory
#include "/opt/vp/compat/natrium_preamble.h"
#include <natrium/utilities/BasicNames.h>
#include <natrium/utilities/Logging.h>
#include <natrium/solver/SolverConfiguration.cpp>
using namespace natrium;
extern "C" void probe_cfg_ctor(SolverConfiguration* c) { new (c) SolverConfiguration(); }
extern "C" void probe_prepare(SolverConfiguration* c) { c->prepareOutputDirectory(); }
