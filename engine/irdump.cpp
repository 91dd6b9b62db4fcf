// irdump: load LLVM bitcode, normalise it with value-preserving scalar passes
// and write the part reachable from a set of roots as JSON for the analyses.
//
//   irdump IN.bc OUT.json --roots REGEX [--stop REGEX] [--all REGEX]
//
// --roots  functions (demangled name, full match) the dump starts from
// --stop   functions that are modelled by the analysis: never inlined, body not dumped
// --all    dump every defined function whose demangled name matches (no reachability)
#include "llvm/ADT/APFloat.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <map>
#include <regex>
#include <set>
#include <deque>
#include <string>
#include <vector>
using namespace llvm;

static const DataLayout *DL;
static uint64_t szof(Type *t) { return t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 0; }
static FILE *out;
static std::map<std::string, int> files;
static std::vector<std::string> fileNames;
static std::deque<const Function *> fnWork;
static std::set<const Function *> fnSeen;
static std::deque<const GlobalVariable *> gvWork;
static std::set<const GlobalVariable *> gvSeen;
static bool allMode = false;

static void str(const std::string &s) {
  fputc('"', out);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { fputc('\\', out); fputc(c, out); }
    else if (c < 32 || c >= 127) fprintf(out, "\\u%04x", c);
    else fputc(c, out);
  }
  fputc('"', out);
}
static void type(Type *t) {
  switch (t->getTypeID()) {
  case Type::VoidTyID: fputs("\"v\"", out); return;
  case Type::FloatTyID: fputs("\"f\"", out); return;
  case Type::DoubleTyID: fputs("\"d\"", out); return;
  case Type::X86_FP80TyID: fputs("\"x\"", out); return;
  case Type::PointerTyID: fputs("\"p\"", out); return;
  case Type::IntegerTyID: fprintf(out, "\"i%u\"", t->getIntegerBitWidth()); return;
  case Type::StructTyID: {
    auto *st = cast<StructType>(t);
    if (st->isOpaque()) { fputs("\"o\"", out); return; }
    const StructLayout *sl = DL->getStructLayout(st);
    fprintf(out, "[%llu,[", (unsigned long long)szof(t));
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      if (i) fputc(',', out);
      fprintf(out, "[%llu,", (unsigned long long)(uint64_t)sl->getElementOffset(i));
      type(st->getElementType(i));
      fputc(']', out);
    }
    fputs("]]", out);
    return;
  }
  case Type::ArrayTyID: case Type::FixedVectorTyID: {
    Type *e; uint64_t n;
    if (auto *a = dyn_cast<ArrayType>(t)) { e = a->getElementType(); n = a->getNumElements(); }
    else { auto *v = cast<FixedVectorType>(t); e = v->getElementType(); n = v->getNumElements(); }
    uint64_t es = szof(e);
    fprintf(out, "[%llu,[", (unsigned long long)szof(t));
    for (uint64_t i = 0; i < n && i < 64; i++) {
      if (i) fputc(',', out);
      fprintf(out, "[%llu,", (unsigned long long)(i * es));
      type(e);
      fputc(']', out);
    }
    fputs("]]", out);
    return;
  }
  default: fputs("\"?\"", out);
  }
}
static void fpval(const APFloat &v) {
  APFloat w = v; bool li;
  w.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  double d = w.convertToDouble();
  if (d != d) fputs("[\"f\",\"nan\"]", out);
  else if (d > 1.7e308) fputs("[\"f\",\"inf\"]", out);
  else if (d < -1.7e308) fputs("[\"f\",\"-inf\"]", out);
  else fprintf(out, "[\"f\",%.17g]", d);
}
static void noteGlobal(const GlobalValue *g) {
  if (auto *f = dyn_cast<Function>(g)) { if (!allMode && fnSeen.insert(f).second) fnWork.push_back(f); }
  else if (auto *v = dyn_cast<GlobalVariable>(g)) { if (gvSeen.insert(v).second) gvWork.push_back(v); }
  else if (auto *a = dyn_cast<GlobalAlias>(g)) { if (auto *o = dyn_cast<GlobalValue>(a->getAliaseeObject())) noteGlobal(o); }
}
static void constant(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; i->getValue().toStringUnsigned(s);
    fprintf(out, "[\"i\",%u,%s]", i->getBitWidth(), s.c_str()); return;
  }
  if (auto *f = dyn_cast<ConstantFP>(c)) { fpval(f->getValueAPF()); return; }
  if (isa<ConstantPointerNull>(c)) { fputs("[\"n\"]", out); return; }
  if (isa<UndefValue>(c)) { fputs("[\"u\"]", out); return; }
  if (isa<ConstantAggregateZero>(c)) { fputs("[\"z\",", out); type(c->getType()); fputs("]", out); return; }
  if (auto *a = dyn_cast<GlobalAlias>(c)) { constant(a->getAliasee()); return; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { noteGlobal(g); fputs("[\"g\",", out); str(g->getName().str()); fputs(",0]", out); return; }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (e->getType()->isPointerTy()) {
      APInt off(DL->getIndexTypeSizeInBits(e->getType()), 0);
      const Value *b = e->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *a = dyn_cast<GlobalAlias>(b)) b = a->getAliaseeObject();
      if (auto *g = dyn_cast<GlobalValue>(b)) {
        noteGlobal(g); fputs("[\"g\",", out); str(g->getName().str());
        fprintf(out, ",%lld]", (long long)off.getSExtValue()); return;
      }
      if (e->getOpcode() == Instruction::IntToPtr) { fputs("[\"c\",", out); constant(cast<Constant>(e->getOperand(0))); fputs("]", out); return; }
    }
    if (e->isCast()) { fputs("[\"c\",", out); constant(cast<Constant>(e->getOperand(0))); fputs("]", out); return; }
    fputs("[\"?\"]", out); return;
  }
  if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    fputs("[\"s\",[", out);
    unsigned n = 0;
    if (auto *a = dyn_cast<ConstantAggregate>(c)) {
      for (unsigned i = 0; i < a->getNumOperands(); i++) { if (n++) fputc(',', out); constant(a->getOperand(i)); }
    } else {
      auto *d = cast<ConstantDataSequential>(c);
      for (unsigned i = 0; i < d->getNumElements(); i++) { if (n++) fputc(',', out); constant(d->getElementAsConstant(i)); }
    }
    fputs("],", out); type(c->getType()); fputs("]", out); return;
  }
  fputs("[\"?\"]", out);
}
struct Ctx { std::map<const Value *, int> ids; std::map<const BasicBlock *, int> bbs; };
static void operand(const Value *v, Ctx &c) {
  if (auto *k = dyn_cast<Constant>(v)) { constant(k); return; }
  if (auto *b = dyn_cast<BasicBlock>(v)) { fprintf(out, "%d", c.bbs[b]); return; }
  auto it = c.ids.find(v);
  if (it != c.ids.end()) { fprintf(out, "%d", it->second); return; }
  fputs("[\"?\"]", out);
}
static int fileId(const std::string &s) {
  auto it = files.find(s);
  if (it != files.end()) return it->second;
  int n = fileNames.size(); files[s] = n; fileNames.push_back(s); return n;
}
static std::string path(const DIFile *f) {
  if (!f) return "?";
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] == '/') return n;
  return f->getDirectory().str() + "/" + n;
}
static void loc(const Instruction &I) {
  if (auto d = I.getDebugLoc()) {
    auto *l = d.get();
    fprintf(out, "%d,%u", fileId(path(l->getFile())), l->getLine());
  } else fputs("-1,0", out);
}
// instruction: [opcode, result, type, [operands], extra, file, line]
static void inst(const Instruction &I, Ctx &c) {
  fputc('[', out);
  std::string op = I.getOpcodeName();
  int res = I.getType()->isVoidTy() ? -1 : c.ids[&I];
  fprintf(out, "\"%s\",%d,", op.c_str(), res);
  auto head = [&](Type *t) { type(t); fputs(",[", out); };
  auto ops = [&]() { for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) fputc(',', out); operand(I.getOperand(i), c); } };
  if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
    head(g->getType());
    operand(g->getPointerOperand(), c);
    fputs("],[", out);
    unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
    MapVector<Value *, APInt> vars; APInt off(bw, 0);
    if (g->collectOffset(*DL, bw, vars, off)) {
      fprintf(out, "%lld", (long long)off.getSExtValue());
      for (auto &p : vars) { fputs(",[", out); operand(p.first, c); fprintf(out, ",%lld]", (long long)p.second.getSExtValue()); }
    } else fputs("null", out);
    fputs("],", out);
  } else if (auto *a = dyn_cast<AllocaInst>(&I)) {
    head(a->getType()); operand(a->getArraySize(), c);
    fprintf(out, "],%llu,", (unsigned long long)szof(a->getAllocatedType()));
  } else if (auto *p = dyn_cast<PHINode>(&I)) {
    head(p->getType());
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
      if (i) fputc(',', out);
      fputc('[', out); operand(p->getIncomingValue(i), c); fprintf(out, ",%d]", c.bbs[p->getIncomingBlock(i)]);
    }
    fputs("],null,", out);
  } else if (auto *cb = dyn_cast<CallBase>(&I)) {
    head(cb->getType());
    operand(cb->getCalledOperand(), c);
    for (auto &u : cb->args()) { fputc(',', out); if (isa<MetadataAsValue>(u.get())) fputs("[\"u\"]", out); else operand(u.get(), c); }
    fputs("],", out);
    if (auto *iv = dyn_cast<InvokeInst>(&I)) fprintf(out, "[%d,%d],", c.bbs[iv->getNormalDest()], c.bbs[iv->getUnwindDest()]);
    else fputs("null,", out);
  } else if (auto *cm = dyn_cast<CmpInst>(&I)) {
    head(cm->getOperand(0)->getType()); ops();
    fprintf(out, "],\"%s\",", CmpInst::getPredicateName(cm->getPredicate()).str().c_str());
  } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
    head(ev->getAggregateOperand()->getType()); ops(); fputs("],[", out);
    for (unsigned i = 0; i < ev->getNumIndices(); i++) fprintf(out, "%s%u", i ? "," : "", ev->getIndices()[i]);
    fputs("],", out);
  } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
    head(iv->getType()); ops(); fputs("],[", out);
    for (unsigned i = 0; i < iv->getNumIndices(); i++) fprintf(out, "%s%u", i ? "," : "", iv->getIndices()[i]);
    fputs("],", out);
  } else if (isa<StoreInst>(&I)) {
    head(I.getOperand(0)->getType()); ops(); fputs("],null,", out);
  } else if (isa<CastInst>(&I)) {
    head(I.getType()); ops(); fputs("],", out); type(I.getOperand(0)->getType()); fputc(',', out);
  } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
    head(sw->getCondition()->getType()); operand(sw->getCondition(), c); fprintf(out, "],[%d", c.bbs[sw->getDefaultDest()]);
    for (auto cs : sw->cases()) { SmallString<40> s; cs.getCaseValue()->getValue().toStringUnsigned(s); fprintf(out, ",[%s,%d]", s.c_str(), c.bbs[cs.getCaseSuccessor()]); }
    fputs("],", out);
  } else if (auto *br = dyn_cast<BranchInst>(&I)) {
    head(I.getType());
    if (br->isConditional()) { operand(br->getCondition(), c); fprintf(out, "],[%d,%d],", c.bbs[br->getSuccessor(0)], c.bbs[br->getSuccessor(1)]); }
    else fprintf(out, "],[%d],", c.bbs[br->getSuccessor(0)]);
  } else if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
    head(I.getType()); ops(); fprintf(out, "],\"%s\",", AtomicRMWInst::getOperationName(rmw->getOperation()).str().c_str());
  } else if (isa<LandingPadInst>(&I)) {
    head(I.getType()); ops(); fputs("],null,", out);
  } else {
    head(I.getType()); ops(); fputs("],null,", out);
  }
  loc(I);
  fputc(']', out);
}
static bool firstFn = true;
static std::regex stopRe; static bool haveStop = false;
static std::map<std::string,std::string> demCache;
static std::string dem(const Function &F) { return demangle(F.getName().str()); }
// the function's own qualified name followed by '(': no return type, no argument types
static std::string qual(const std::string &d) {
  int depth = 0; size_t start = 0;
  for (size_t i = 0; i < d.size(); i++) {
    if (depth == 0 && d.compare(i, 8, "operator") == 0 && (i == 0 || !(isalnum((unsigned char)d[i-1]) || d[i-1] == '_')) && !(i + 8 < d.size() && (isalnum((unsigned char)d[i+8]) || d[i+8] == '_'))) {
      size_t j = i + 8;
      if (d.compare(j, 2, "()") == 0) j += 2;
      int dd = 0;
      size_t k = j;
      while (k < d.size() && (d[k] == '<' || d[k] == '>' || d[k] == '-') ) k++;   // symbolic operator characters
      for (; k < d.size(); k++) { if (d[k] == '<') dd++; else if (d[k] == '>') dd--; else if (d[k] == '(' && dd <= 0) break; }
      return d.substr(start, k - start) + "(";
    }
    char c = d[i];
    if (c == '<' ) depth++;
    else if (c == '>' ) depth--;
    else if (c == '{') depth++;
    else if (c == '}') depth--;
    else if (c == '(' && depth == 0) {
      if (d.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
      return d.substr(start, i - start) + "(";
    } else if (c == ' ' && depth == 0) start = i + 1;
  }
  return d.substr(start) + "(";
}
static void function(const Function &F, bool body) {
  if (!firstFn) fputs(",\n", out);
  firstFn = false;
  str(F.getName().str()); fputs(":{\"d\":", out); str(dem(F));
  if (auto *sp = F.getSubprogram()) { fprintf(out, ",\"file\":%d,\"line\":%u", fileId(path(sp->getFile())), sp->getLine()); }
  fputs(",\"ret\":", out); type(F.getReturnType());
  fputs(",\"args\":[", out);
  for (unsigned i = 0; i < F.arg_size(); i++) {
    if (i) fputc(',', out);
    auto *A = F.getArg(i); fputc('[', out); type(A->getType());
    if (A->hasStructRetAttr()) fprintf(out, ",\"sret\",%llu", (unsigned long long)szof(A->getParamStructRetType()));
    else if (A->hasByValAttr()) fprintf(out, ",\"byval\",%llu", (unsigned long long)szof(A->getParamByValType()));
    fputc(']', out);
  }
  fputs("]", out);
  if (body && !F.isDeclaration()) {
    Ctx c; int n = 0, b = 0;
    for (auto &A : F.args()) c.ids[&A] = n++;
    for (auto &B : F) { c.bbs[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) c.ids[&I] = n++; }
    fprintf(out, ",\"n\":%d,\"b\":[", n);
    bool fb = true;
    for (auto &B : F) {
      if (!fb) fputc(',', out); fb = false; fputs("\n[", out);
      bool fi = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I))
          if (ii->isLifetimeStartOrEnd() || ii->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl) continue;
        if (!fi) fputc(',', out); fi = false;
        inst(I, c);
      }
      fputc(']', out);
    }
    fputc(']', out);
  }
  fputc('}', out);
}
int main(int argc, char **argv) {
  std::string in = argv[1], outp = argv[2], roots, stop, all; bool opt = true;
  for (int i = 3; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    if (k == "--roots") roots = argv[i + 1];
    else if (k == "--stop") stop = argv[i + 1];
    else if (k == "--all") all = argv[i + 1];
    else if (k == "--opt") opt = std::string(argv[i + 1]) == "1";
  }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(in, E, C);
  if (!M) { E.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  haveStop = !stop.empty();
  std::regex::flag_type fl = std::regex::ECMAScript | std::regex::optimize;
  if (haveStop) stopRe = std::regex(stop, fl);
  // inline small std:: plumbing so that the scalar passes see through it
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::StackProtectStrong);
    if (F.isDeclaration()) continue;
    std::string d = dem(F);
    bool st = haveStop && std::regex_search(qual(d), stopRe);
    unsigned n = 0; for (auto &B : F) n += B.size();
    bool isStd = d.rfind("std::", 0) == 0 || d.find(" std::") != std::string::npos || d.rfind("__gnu_cxx::", 0) == 0 || d.rfind("boost::shared_ptr", 0) == 0 || d.find("boost::shared_ptr")<40;
    if (opt && !st && isStd && n <= 60 && !F.hasFnAttribute(Attribute::NoInline)) F.addFnAttr(Attribute::AlwaysInline);
    else if (st) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    const char *pipe = opt ? "always-inline,function(sroa,early-cse,simplifycfg)" : "function(sroa,simplifycfg)";
    if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)); return 2; }
    MPM.run(*M, MAM);
  }
  out = fopen(outp.c_str(), "w");
  fputs("{\"functions\":{\n", out);
  if (!all.empty()) {
    allMode = true;
    std::regex re(all, fl);
    for (auto &F : *M) { bool m = !F.isDeclaration() && std::regex_search(dem(F), re); function(F, m); }
  } else {
    std::regex re(roots, fl);
    for (auto &F : *M) if (!F.isDeclaration() && std::regex_search(dem(F), re)) if (fnSeen.insert(&F).second) fnWork.push_back(&F);
    while (!fnWork.empty() || !gvWork.empty()) {
      if (!fnWork.empty()) {
        auto *F = fnWork.front(); fnWork.pop_front();
        bool st = haveStop && std::regex_search(qual(dem(*F)), stopRe);
        function(*F, !st);
      } else {
        auto *g = gvWork.front(); gvWork.pop_front();
        // discover what its initialiser references (written below)
        if (g->hasInitializer()) {
          std::vector<const Value *> st{g->getInitializer()}; std::set<const Value *> seen;
          while (!st.empty()) {
            auto *v = st.back(); st.pop_back();
            if (!seen.insert(v).second) continue;
            if (auto *gv = dyn_cast<GlobalValue>(v)) { noteGlobal(gv); continue; }
            if (auto *u = dyn_cast<User>(v)) for (auto &o : u->operands()) st.push_back(o.get());
          }
        }
      }
    }
  }
  fputs("},\n\"globals\":{\n", out);
  bool fg = true;
  std::set<const GlobalVariable *> written;
  bool more = true;
  while (more) {
    more = false;
    auto snapshot = gvSeen;
    for (auto *g : snapshot) {
      if (!written.insert(g).second) continue;
      more = true;
      if (!fg) fputs(",\n", out); fg = false;
      str(g->getName().str());
      fprintf(out, ":{\"size\":%llu,\"const\":%d,\"ty\":", (unsigned long long)szof(g->getValueType()), g->isConstant() ? 1 : 0);
      type(g->getValueType());
      if (g->hasInitializer()) { fputs(",\"init\":", out); constant(g->getInitializer()); }
      fputc('}', out);
    }
  }
  fputs("},\n\"files\":[", out);
  for (size_t i = 0; i < fileNames.size(); i++) { if (i) fputc(',', out); str(fileNames[i]); }
  fputs("]}\n", out);
  fclose(out);
  return 0;
}
