SEEDS = [dict(
    id="U03-old-output-emptied", property="U03",
    needs="an output directory with files of an earlier run",
    breaks="the writability probe opens existing output files without the append mode, so every file of the earlier run is truncated before the run starts (also on restart)",
    edits=[("src/library/natrium/solver/SolverConfiguration.cpp", "					filestream.open(p.string().c_str(),\n							std::fstream::app | std::fstream::out);",
            "					filestream.open(p.string().c_str(), std::fstream::out);")],
    main=r'''
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/utilities/BasicNames.h"
#include "deal.II/base/mpi.h"
#include <boost/filesystem.hpp>
#include <fstream>
#include <iostream>
using namespace natrium;
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	boost::filesystem::path out = boost::filesystem::current_path() / "run";
	boost::filesystem::create_directory(out);
	{ std::ofstream f((out / "results_table.txt").string().c_str()); f << "1 0.1 3.5\n2 0.2 3.4\n"; }
	SolverConfiguration c;
	c.setOutputDirectory(out.string());
	c.setUserInteraction(false);
	c.setRestartAtIteration(2);
	c.prepareOutputDirectory();
	std::ifstream f((out / "results_table.txt").string().c_str());
	std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	std::cout << "table has " << s.size() << " bytes" << std::endl;
	return s == "1 0.1 3.5\n2 0.2 3.4\n" ? 0 : 1;
}
''')]
