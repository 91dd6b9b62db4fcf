// probe: CommandLineParser (declared options, application to a SolverConfiguration)
#include "/opt/vp/compat/natrium_preamble.h"
#include <natrium/utilities/BasicNames.h>
#include <natrium/utilities/Logging.h>
#include <natrium/solver/SolverConfiguration.cpp>
#include <natrium/utilities/CFDSolverUtilities.cpp>
#include <natrium/utilities/CommandLineParser.cpp>
using namespace natrium;
extern "C" void probe_cfg_ctor(SolverConfiguration* c) { new (c) SolverConfiguration(); }
extern "C" void probe_cli_ctor(CommandLineParser* p) { new (p) CommandLineParser(0, 0); }
extern "C" void probe_cli_import(CommandLineParser* p) { p->importOptions(); }
extern "C" void probe_cli_apply(CommandLineParser* p, SolverConfiguration* c) { p->applyToSolverConfiguration(*c); }
extern "C" int probe_verbosity_all() { return (int) ALL; }
