// probe: the container of the distribution functions
#include "all_stencils.h"
#include <natrium/utilities/Logging.h>
#include <natrium/utilities/Timing.cpp>
#include <natrium/solver/DistributionFunctions.cpp>
#include "names.h"
using namespace natrium;
typedef DistributionFunctions DF;
extern "C" DF* probe_new(bool dg) { return new DF(dg); }
extern "C" DF* probe_copy(const DF* f) { return new DF(*f); }
extern "C" DF* probe_from(const distributed_vector* v, size_t Q, bool dg) { vector<distributed_vector> x; for (size_t i = 0; i < Q; i++) x.push_back(v[i]); return new DF(x, dg); }
extern "C" void probe_reinit(DF* f, size_t Q, const dealii::IndexSet* l, const dealii::IndexSet* r, bool dg) { f->reinit(Q, *l, *r, MPI_COMM_WORLD, dg); }
extern "C" void probe_reinit_dg(DF* f, size_t Q, const dealii::IndexSet* l) { f->reinit(Q, *l); }
extern "C" distributed_vector* probe_at(DF* f, size_t i) { return &f->at(i); }
extern "C" const distributed_vector* probe_cat(const DF* f, size_t i) { return &f->at(i); }
extern "C" distributed_vector* probe_atg(DF* f, size_t i) { return &f->atGhosted(i); }
extern "C" const distributed_vector* probe_catg(const DF* f, size_t i) { return &f->atGhosted(i); }
extern "C" const distributed_vector* probe_f0(DF* f) { return &f->getF0(); }
extern "C" const distributed_vector* probe_f0g(DF* f) { return &f->getF0Ghosted(); }
extern "C" const distributed_vector* probe_st(DF* f, size_t i) { return &f->getFStream().block(i); }
extern "C" const distributed_vector* probe_stg(DF* f, size_t i) { return &f->getFStreamGhosted().block(i); }
extern "C" size_t probe_nst(DF* f) { return f->getFStream().n_blocks(); }
extern "C" size_t probe_nstg(DF* f) { return f->getFStreamGhosted().n_blocks(); }
extern "C" size_t probe_q(DF* f) { return f->getQ() == f->size() ? f->size() : 99999; }
extern "C" bool probe_dg(DF* f) { return f->isDg(); }
extern "C" void probe_update(DF* f) { f->updateGhosted(); }
extern "C" void probe_compress(DF* f) { f->compress(dealii::VectorOperation::insert); }
extern "C" void probe_assign(DF* f, const DF* g) { *f = *g; }
extern "C" void probe_setf0(DF* f, const distributed_vector* g) { f->setF0(*g); }
extern "C" void probe_setst(DF* f, const distributed_block_vector* g) { f->setFStream(*g); }
extern "C" const distributed_block_vector* probe_blk(DF* f) { return &f->getFStream(); }
extern "C" bool probe_equals(const DF* f, const DF* g, double t) { return f->equals(*g, t); }
extern "C" bool probe_equals_def(const DF* f, const DF* g) { return f->equals(*g); }
extern "C" void probe_scale(DF* f, double s, const dealii::IndexSet* l) { f->scaleF(s, *l); }
template<class S> void transfer(DF* f, double a, double b, const dealii::IndexSet* l) { S x(a), y(b); f->transferFromOtherScaling(x, y, *l); }
#define TR(S) extern "C" void probe_tr_##S(DF* f, double a, double b, const dealii::IndexSet* l) { transfer<S>(f, a, b, l); }
TR(D2Q9) TR(D3Q13) TR(D3Q15) TR(D3Q19) TR(D3Q21) TR(D3Q27) TR(RD3Q27) TR(D2Q19H) TR(D2Q25H)
