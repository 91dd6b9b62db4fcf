// probe: builds every velocity set with an arbitrary scaling and hands its tables out
#include "all_stencils.h"
using namespace natrium;
template<class S> static void fill(double s, double* out, double* mom, double* inv, bool basis) {
	S st(s);
	const Stencil& b = st;
	size_t k = 0;
	out[k++] = b.getD(); out[k++] = b.getQ(); out[k++] = b.getSpeedOfSoundSquare(); out[k++] = b.getSpeedOfSound();
	out[k++] = b.getScaling(); out[k++] = b.getStencilType();
	out[k++] = b.getWeights().size(); out[k++] = b.getDirections().size();
	for (size_t i = 0; i < b.getQ(); i++) {
		out[k++] = b.getWeight(i);
		out[k++] = b.getIndexOfOppositeDirection(i);
		for (size_t d = 0; d < b.getD(); d++) out[k++] = b.getDirection(i)(d);
	}
	out[k++] = b.getMaxParticleVelocityMagnitude();
	if (basis) {
		numeric_matrix m, n;
		b.getMomentBasis(m); b.getInverseMomentBasis(n);
		for (size_t i = 0; i < b.getQ(); i++) for (size_t j = 0; j < b.getQ(); j++) { mom[i * b.getQ() + j] = m(i, j); inv[i * b.getQ() + j] = n(i, j); }
	}
}
#define PROBE(S) extern "C" void probe_lat_##S(double s, double* out, double* mom, double* inv) { fill<S>(s, out, mom, inv, S::Q <= 27); }
PROBE(D2Q9) PROBE(D2Q19H) PROBE(D2Q19V) PROBE(D2Q25H) PROBE(D2Q777) PROBE(D3Q13) PROBE(D3Q15) PROBE(D3Q19) PROBE(D3Q21) PROBE(D3Q27)
PROBE(D3Q45) PROBE(D3Q77) PROBE(D3V27) PROBE(RD3Q27)
