// Forking symbolic executor over LLVM bitcode.
//
//   symex FILE.bc --entry FUNC --out RESULT.json [--time S] [--max-steps N] [--param NAME=VALUE]... [--samples N]
//
// Every path of FUNC is executed with the bytes given to sym_bytes() as bit-vector variables.  Branches, assertions,
// memory addresses and lengths that depend on them are decided by Z3.  See ../DESIGN.md for the semantics.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <functional>
#include <memory>
#include <unordered_map>
#include <unistd.h>

using namespace llvm;
typedef std::string str;

static ExprPool P;
static Solver S(P);

template <class T> struct RC {
  T* p = nullptr;
  RC() {} RC(T* x) : p(x) { if (p) p->rc++; } RC(const RC& o) : p(o.p) { if (p) p->rc++; } RC(RC&& o) : p(o.p) { o.p = nullptr; }
  ~RC() { if (p && --p->rc == 0) delete p; }
  RC& operator=(RC o) { std::swap(p, o.p); return *this; }
  T* operator->() const { return p; } explicit operator bool() const { return p; }
};

struct ObjState { int rc = 0; uint64_t size; bool ro = false; const char* name = ""; std::vector<E> b; };
struct Chunk { int rc = 0; RC<ObjState> o[64]; };

static const unsigned OBJ_SHIFT = 40;
static const uint64_t OBJ_PAD = 1ull << 20;
static uint64_t obj_base(uint32_t id) { return ((uint64_t)(id + 1) << OBJ_SHIFT) + OBJ_PAD; }
static uint32_t obj_id(uint64_t addr) { uint64_t t = addr >> OBJ_SHIFT; return t == 0 ? ~0u : (uint32_t)(t - 1); }

struct Opnd { int slot; E c; };
struct PInst {
  const Instruction* I; unsigned op; int dst = -1; std::vector<Opnd> ops;
  uint64_t cst = 0; std::vector<std::pair<int, uint64_t>> scaled; // GEP: operand index, scale
  unsigned w = 0; const Function* callee = nullptr; int t0 = -1, t1 = -1;
  std::vector<std::pair<uint64_t, int>> cases; std::vector<bool> src_w;
};
struct PBlock { const BasicBlock* bb; unsigned start, nphi; };
struct FInfo { const Function* f; std::vector<PInst> code; std::vector<PBlock> blocks; DenseMap<const BasicBlock*, int> bidx; DenseMap<const Value*, int> slot; int nslots = 0; };

struct Frame { FInfo* fi; std::vector<E> va; unsigned pc = 0; int prev = -1, cur = 0; std::vector<E> v; std::vector<uint32_t> allocas; const PInst* call = nullptr; };

struct Input { str name; uint32_t first, n; };

struct State {
  std::vector<Frame> st;
  std::vector<RC<Chunk>> mem; uint32_t nextobj = 0;
  std::vector<E> pc; std::vector<uint8_t> model;
  std::vector<Input> inputs; uint32_t nin = 0, nundef = 0;
  std::vector<E> obs;
  uint64_t steps = 0; uint32_t depth = 0;
  // two unsynchronised threads, one executed after the other: bytes of objects existing before, touched by the first (1 read, 2 written)
  uint8_t thr = 0, guard = 0; uint32_t shared = 0; std::shared_ptr<std::unordered_map<uint64_t, uint8_t>> acc;
};

struct Violation { str kind, msg, loc; std::vector<str> stack; std::vector<std::pair<str, std::vector<uint8_t>>> in; };

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL = nullptr;
  std::map<const Function*, FInfo*> finfo; std::map<const GlobalVariable*, uint32_t> gid; std::map<const Function*, uint64_t> faddr; std::map<uint64_t, const Function*> byaddr;
  std::vector<State*> work;
  std::vector<Violation> viol; std::set<str> viol_keys; size_t max_viol = 4, n_real = 0; bool stopped = false;
  std::map<str, uint64_t> covers; std::map<str, int64_t> params;
  std::set<const Function*> used;
  double t_limit = 600, t_start = 0; uint64_t max_steps = 3000000; uint64_t max_paths = ~0ull;
  uint64_t paths = 0, paths_done = 0, paths_assume = 0, forks = 0, steps = 0, asserts = 0, asserts_solver = 0, branches = 0, loads = 0, stores = 0, enum_forks = 0, maxdepth = 0;
  bool incomplete = false; str incomplete_why; uint64_t undecided = 0; double t_viol = 0;
  bool noheap = false; size_t nsamples = 8; std::vector<str> samples;
  std::vector<E> insyms, undefsyms;
  struct PathEnd { };
  bool allow_heap = false;
  std::set<str> externs;

  // ------------------------------------------------------------------ module
  unsigned tw(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
  }
  str tstr(Type* t) { str s; raw_string_ostream o(s); t->print(o); return s; }
  E undefval(Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) { std::vector<E> v; for (auto* e : st->elements()) v.push_back(undefval(e)); return P.tuple(v); }
    if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<E> v; for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(undefval(at->getElementType())); return P.tuple(v); }
    unsigned w = tw(t); if (!w || w > 64) throw Unsupported("undef of type " + tstr(t));
    E r = nullptr; for (unsigned i = 0; i < (w + 7) / 8; i++) { E u = P.undef_sym("undef"); r = r ? P.concat(u, r) : u; if (r->width > w) r = P.trunc(r, w); }
    return P.trunc(r, w);
  }
  E constant(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported("wide constant"); return P.c(ci->getZExtValue(), ci->getBitWidth()); }
    if (isa<ConstantPointerNull>(c)) return P.c(0, 64);
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() > 64) throw Unsupported("long double"); return P.c(a.getZExtValue(), a.getBitWidth()); }
    if (isa<UndefValue>(c)) return undefval(t);
    if (auto* gv = dyn_cast<GlobalVariable>(c)) { auto it = gid.find(gv); if (it == gid.end()) throw Unsupported("global " + gv->getName().str()); return P.c(obj_base(it->second), 64); }
    if (auto* f = dyn_cast<Function>(c)) return P.c(faddr.at(f), 64);
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
    if (auto* az = dyn_cast<ConstantAggregateZero>(c)) { std::vector<E> v; for (unsigned i = 0; i < az->getElementCount().getFixedValue(); i++) v.push_back(constant(az->getElementValue(i))); return P.tuple(v); }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<E> v; for (auto& o : ca->operands()) v.push_back(constant(cast<Constant>(o))); return P.tuple(v); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<E> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constant(cd->getElementAsConstant(i))); return P.tuple(v); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          E b = constant(ce->getOperand(0)); APInt off(64, 0);
          if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep");
          return P.add(b, P.c(off.getZExtValue(), 64)); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
          E b = constant(ce->getOperand(0)); unsigned w = tw(t); return b->width > w ? P.trunc(b, w) : P.zext(b, w); }
        case Instruction::Sub: return P.sub(constant(ce->getOperand(0)), constant(ce->getOperand(1)));
        case Instruction::Add: return P.add(constant(ce->getOperand(0)), constant(ce->getOperand(1)));
        case Instruction::Trunc: return P.trunc(constant(ce->getOperand(0)), tw(t));
        default: break;
      }
    }
    str s; raw_string_ostream o(s); c->print(o); throw Unsupported("constant " + s);
  }
  void initmem(ObjState* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { uint64_t n = DL->getTypeStoreSize(t); for (uint64_t i = 0; i < n; i++) o->b[off + i] = P.c(0, 8); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initmem(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initmem(o, off + i * es, c->getAggregateElement(i)); return; }
    E e = constant(c); put(o, off, e);
  }
  static void put(ObjState* o, uint64_t off, E e) {
    unsigned n = (e->width + 7) / 8;
    if (e->width % 8) e = P.zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) o->b[off + i] = P.extract(e, i * 8, 8);
  }
  FInfo* info(const Function* f) {
    auto& fi = finfo[f]; if (fi) return fi;
    fi = new FInfo; fi->f = f;
    for (auto& a : f->args()) fi->slot[&a] = fi->nslots++;
    for (auto& bb : *f) for (auto& I : bb) if (!I.getType()->isVoidTy()) fi->slot[&I] = fi->nslots++;
    for (auto& bb : *f) { fi->bidx[&bb] = fi->blocks.size(); fi->blocks.push_back({&bb, 0, 0}); }
    for (auto& pb : fi->blocks) {
      pb.start = fi->code.size();
      for (auto& I : *pb.bb) {
        if (isa<PHINode>(I)) pb.nphi++;
        PInst pi; pi.I = &I; pi.op = I.getOpcode(); if (!I.getType()->isVoidTy()) { pi.dst = fi->slot[&I]; pi.w = tw(I.getType()); }
        auto opnd = [&](const Value* v) -> Opnd {
          if (auto* c = dyn_cast<Constant>(v)) return {-1, constant(c)};
          if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return {-1, nullptr};
          auto it = fi->slot.find(v); return {it == fi->slot.end() ? -1 : it->second, nullptr};
        };
        if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) { pi.ops.push_back(opnd(br->getCondition())); pi.t0 = fi->bidx[br->getSuccessor(0)]; pi.t1 = fi->bidx[br->getSuccessor(1)]; }
          else pi.t0 = fi->bidx[br->getSuccessor(0)];
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          pi.ops.push_back(opnd(sw->getCondition())); pi.t0 = fi->bidx[sw->getDefaultDest()];
          for (auto& c : sw->cases()) pi.cases.push_back({c.getCaseValue()->getZExtValue(), fi->bidx[c.getCaseSuccessor()]});
        } else if (auto* ph = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { pi.ops.push_back(opnd(ph->getIncomingValue(i))); pi.cases.push_back({(uint64_t)fi->bidx[ph->getIncomingBlock(i)], 0}); }
        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
          if (isa<DbgInfoIntrinsic>(I)) { fi->code.push_back(pi); continue; }
          pi.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
          bool isdbg = pi.callee && pi.callee->getName().starts_with("llvm.dbg");
          if (!isdbg) { for (auto& a : cb->args()) pi.ops.push_back(isa<MetadataAsValue>(a.get()) ? Opnd{-1, nullptr} : opnd(a.get())); if (!pi.callee) pi.ops.push_back(opnd(cb->getCalledOperand())); }
        } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
          pi.ops.push_back(opnd(gep->getPointerOperand()));
          for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
            if (StructType* st = gi.getStructTypeOrNull()) { unsigned n = cast<ConstantInt>(gi.getOperand())->getZExtValue(); pi.cst += DL->getStructLayout(st)->getElementOffset(n); }
            else {
              uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) pi.cst += sc * (uint64_t)ci->getSExtValue();
              else { pi.scaled.push_back({(int)pi.ops.size(), sc}); pi.ops.push_back(opnd(gi.getOperand())); }
            }
          }
        } else for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) pi.ops.push_back(opnd(o.get()));
        fi->code.push_back(pi);
      }
    }
    return fi;
  }

  // ------------------------------------------------------------------ memory
  ObjState* get(State& s, uint32_t id) { if (id >= s.nextobj) return nullptr; auto& c = s.mem[id / 64]; return c ? c->o[id % 64].p : nullptr; }
  ObjState* getw(State& s, uint32_t id) {
    auto& c = s.mem[id / 64];
    if (c->rc > 1) { Chunk* n = new Chunk(); for (int i = 0; i < 64; i++) n->o[i] = c->o[i]; c = RC<Chunk>(n); }
    auto& o = c->o[id % 64];
    if (o->rc > 1) { ObjState* n = new ObjState(*o.p); n->rc = 0; o = RC<ObjState>(n); }
    return o.p;
  }
  uint32_t newobj(State& s, uint64_t size, const char* name) {
    uint32_t id = s.nextobj++;
    if (id / 64 >= s.mem.size()) s.mem.push_back(RC<Chunk>(new Chunk()));
    auto& c = s.mem[id / 64];
    if (c->rc > 1) { Chunk* n = new Chunk(); for (int i = 0; i < 64; i++) n->o[i] = c->o[i]; c = RC<Chunk>(n); }
    ObjState* o = new ObjState; o->size = size; o->name = name; o->b.assign(size, nullptr);
    c->o[id % 64] = RC<ObjState>(o);
    return id;
  }
  void freeobj(State& s, uint32_t id) {
    auto& c = s.mem[id / 64];
    if (c->rc > 1) { Chunk* n = new Chunk(); for (int i = 0; i < 64; i++) n->o[i] = c->o[i]; c = RC<Chunk>(n); }
    c->o[id % 64] = RC<ObjState>();
  }
  // resolve a concrete address range; returns false when not fully inside a live object
  bool resolve(State& s, uint64_t a, uint64_t n, uint32_t& id, uint64_t& off) {
    id = obj_id(a); if (id == ~0u) return false;
    ObjState* o = get(s, id); if (!o) return false;
    off = a - obj_base(id);
    return off <= o->size && n <= o->size - off;
  }
  str addrstr(State& s, uint64_t a) {
    char b[160]; uint32_t id = obj_id(a);
    if (a < 4096) snprintf(b, sizeof b, "null+%llu", (unsigned long long)a);
    else { ObjState* o = id == ~0u ? nullptr : get(s, id);
      if (o) snprintf(b, sizeof b, "%s(size %llu)%+lld", o->name, (unsigned long long)o->size, (long long)(a - obj_base(id)));
      else snprintf(b, sizeof b, "dead or wild pointer 0x%llx", (unsigned long long)a); }
    return b;
  }
  uint8_t dummy = 0;
  E rdbyte(State& s, uint32_t id, uint64_t off) {
    ObjState* o = get(s, id); E e = o->b[off];
    if (!e) {
      e = s.nundef < undefsyms.size() ? undefsyms[s.nundef] : nullptr;
      if (!e) { e = P.undef_sym("uninit"); undefsyms.push_back(e); }
      s.nundef++;
      getw(s, id)->b[off] = e;
    }
    return e;
  }
  E load(State& s, uint32_t id, uint64_t off, unsigned w) {
    unsigned n = (w + 7) / 8; E r = nullptr;
    for (unsigned i = 0; i < n; i++) { E b = rdbyte(s, id, off + i); r = r ? P.concat(b, r) : b; }
    return w % 8 ? P.trunc(r, w) : r;
  }
  E loadt(State& s, uint32_t id, uint64_t off, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); std::vector<E> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadt(s, id, off + sl->getElementOffset(i), st->getElementType(i))); return P.tuple(v); }
    if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); std::vector<E> v; for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(loadt(s, id, off + i * es, at->getElementType())); return P.tuple(v); }
    unsigned w = tw(t); if (!w || w > 64) throw Unsupported("load of type " + tstr(t));
    return load(s, id, off, w);
  }
  void storet(State& s, uint32_t id, uint64_t off, E e, Type* t) {
    if (e->op == O_TUPLE) {
      if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storet(s, id, off + sl->getElementOffset(i), (*e->tuple)[i], st->getElementType(i)); }
      else { auto* at = cast<ArrayType>(t); uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) storet(s, id, off + i * es, (*e->tuple)[i], at->getElementType()); }
      return;
    }
    put(getw(s, id), off, e);
  }

  // ------------------------------------------------------------------ path condition and decisions
  void add_pc(State& s, E c) {
    if (ExprPool::isc(c)) return;
    if (c->op == O_AND) { add_pc(s, c->k[0]); add_pc(s, c->k[1]); return; }
    if (c->op == O_NOT && c->k[0]->op == O_OR) { add_pc(s, P.bnot(c->k[0]->k[0])); add_pc(s, P.bnot(c->k[0]->k[1])); return; }
    for (E e : s.pc) if (e == c) return;
    s.pc.push_back(c);
  }
  std::vector<E> slice(State& s, E c) {
    std::vector<uint64_t> u = P.syms(c)->w; std::vector<E> r; r.push_back(c);
    std::vector<char> in(s.pc.size(), 0); bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < s.pc.size(); i++) if (!in[i]) { auto* ss = P.syms(s.pc[i]); if (ExprPool::intersects(ss, u)) { in[i] = 1; ch = true; r.push_back(s.pc[i]); if (u.size() < ss->w.size()) u.resize(ss->w.size(), 0); for (size_t j = 0; j < ss->w.size(); j++) u[j] |= ss->w[j]; } }
    }
    return r;
  }
  // is pc && c satisfiable?  if so m receives the model
  bool feasible(State& s, E c, std::vector<uint8_t>* m) {
    if (ExprPool::isc(c)) { if (c->aux && m) *m = s.model; return c->aux; }
    auto& r = S.check(slice(s, c));
    if (r.sat && m) { *m = s.model; m->resize(std::max(m->size(), P.syminfo.size()), 0); for (auto& p : r.model) (*m)[p.first] = p.second; }
    return r.sat;
  }
  int known(State& s, E c) { // 1 true, 0 false, -1 unknown, from the path condition syntactically
    E n = P.bnot(c);
    for (E e : s.pc) { if (e == c) return 1; if (e == n) return 0; }
    E q = c; bool neg = false; if (q->op == O_NOT) { q = q->k[0]; neg = true; }
    if (q->op == O_EQ && ExprPool::isc(q->k[1])) {
      for (E e : s.pc) if (e->op == O_EQ && e->k[0] == q->k[0] && ExprPool::isc(e->k[1])) return (e->k[1] == q->k[1]) != neg;
    } else if (q->op == O_ULT) {
      for (E e : s.pc) if (e->op == O_EQ && ExprPool::isc(e->k[1])) {
        E a = q->k[0] == e->k[0] ? e->k[1] : q->k[0], b = q->k[1] == e->k[0] ? e->k[1] : q->k[1];
        if (ExprPool::isc(a) && ExprPool::isc(b)) return (a->aux < b->aux) != neg;
      }
    } else if (q->op == O_AND || q->op == O_OR) {
      int a = known(s, q->k[0]), b = known(s, q->k[1]); int r = -1;
      if (q->op == O_AND) { if (a == 0 || b == 0) r = 0; else if (a == 1 && b == 1) r = 1; }
      else { if (a == 1 || b == 1) r = 1; else if (a == 0 && b == 0) r = 0; }
      if (r >= 0) return r != (int)neg;
    }
    return -1;
  }
  void check_undef(State& s, E c, const char* what) {
    if (!P.has_undef(c)) return;
    auto sl = slice(s, c); P.submap.clear(); P.sub_epoch++;
    std::set<uint64_t> u; for (E e : sl) { auto* ss = P.syms(e); for (size_t i = 0; i < ss->w.size(); i++) for (uint64_t x = ss->w[i] & (i < P.undef_mask.size() ? P.undef_mask[i] : 0); x; x &= x - 1) u.insert(i * 64 + __builtin_ctzll(x)); }
    static std::map<uint64_t, E> twin;
    for (auto k : u) { auto& t = twin[k]; if (!t) t = P.undef_sym("twin"); P.submap[k] = t; }
    std::vector<E> q; for (size_t i = 1; i < sl.size(); i++) { q.push_back(sl[i]); q.push_back(P.subst(sl[i])); }
    E d = P.bnot(P.eq(sl[0], P.subst(sl[0])));
    if (ExprPool::isc(d, 0)) return;
    q.push_back(d);
    std::vector<E> q2; for (E e : q) { if (ExprPool::isc(e, 0)) return; if (!ExprPool::isc(e)) q2.push_back(e); }
    auto& r = S.check(q2);
    if (r.sat) { std::vector<uint8_t> m = s.model; m.resize(P.syminfo.size(), 0); for (auto& p : r.model) m[p.first] = p.second; report(s, m, "uninit", str("use of uninitialised data in ") + what); throw PathEnd(); }
  }
  // returns 0/1 when decided; 2 when both are feasible (then other = model of the side the current model does not take)
  int decide(State& s, E c, bool& modelside, std::vector<uint8_t>& other, const char* what) {
    if (ExprPool::isc(c)) return c->aux;
    int k = known(s, c); if (k >= 0) return k;
    check_undef(s, c, what);
    branches++;
    P.begin_eval(s.model); modelside = P.ev(c);
    E o = modelside ? P.bnot(c) : c;
    if (!feasible(s, o, &other)) { add_pc(s, P.bnot(o)); return modelside; }
    return 2;
  }
  bool branch(State& s, E c, const char* what) { // fork; returns the side this state takes
    bool ms; std::vector<uint8_t> om; int d = decide(s, c, ms, om, what);
    if (d < 2) return d;
    State* n = new State(s); n->model = om; add_pc(*n, ms ? P.bnot(c) : c); n->depth++; s.depth++; forks++;
    fork_resume(n);
    add_pc(s, ms ? c : P.bnot(c));
    return ms;
  }
  // A forked copy re-executes the current instruction: the frame pc still points at it.
  void fork_resume(State* n) { work.push_back(n); }
  uint64_t concretize(State& s, E e, const char* what) { // fork over all feasible values
    if (ExprPool::isc(e)) return e->aux;
    for (E q : s.pc) if (q->op == O_EQ && q->k[0] == e && ExprPool::isc(q->k[1])) return q->k[1]->aux;
    check_undef(s, e, what);
    P.begin_eval(s.model); uint64_t v = P.ev(e); E q = P.eq(e, P.c(v, e->width));
    std::vector<uint8_t> om;
    if (feasible(s, P.bnot(q), &om)) { State* n = new State(s); n->model = om; add_pc(*n, P.bnot(q)); n->depth++; s.depth++; enum_forks++; fork_resume(n); }
    add_pc(s, q);
    return v;
  }
  bool atomic_now = false; std::set<uint32_t> tls;
  void record(State& s, uint32_t id, uint64_t off, uint64_t n, bool wr) {
    if (!s.thr || id >= s.shared || atomic_now || s.guard || get(s, id)->ro || tls.count(id)) return;
    if (s.thr == 1) { if (s.acc.use_count() > 1) s.acc = std::make_shared<std::unordered_map<uint64_t, uint8_t>>(*s.acc); for (uint64_t i = 0; i < n; i++) (*s.acc)[(uint64_t)id << 32 | (off + i)] |= wr ? 2 : 1; return; }
    for (uint64_t i = 0; i < n; i++) { auto it = s.acc->find((uint64_t)id << 32 | (off + i)); if (it != s.acc->end() && (wr || (it->second & 2))) die(s, "race", str("data race: both threads use ") + addrstr(s, obj_base(id) + off + i) + (wr ? ", this one writes it" : ", the other one writes it")); }
  }
  void thread(State& s, uint64_t k) {
    s.thr = k; s.guard = 0; if (k == 1) { s.shared = s.nextobj; s.acc = std::make_shared<std::unordered_map<uint64_t, uint8_t>>(); }
    for (auto& g : gid) if (g.first->isThreadLocal() && !g.first->isDeclaration()) { auto* o = getw(s, g.second); std::fill(o->b.begin(), o->b.end(), P.c(0, 8)); initmem(o, 0, g.first->getInitializer()); }
  }
  // resolve an address expression for an access of n bytes
  void access(State& s, E a, uint64_t n, bool wr, uint32_t& id, uint64_t& off) {
    if (!ExprPool::isc(a)) {
      check_undef(s, a, "a memory address");
      P.begin_eval(s.model); uint64_t v = P.ev(a);
      if (!resolve(s, v, n, id, off)) { report(s, s.model, "memory", str(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + addrstr(s, v)); throw PathEnd(); }
      ObjState* o = get(s, id);
      E outside = P.ult(P.c(o->size - n, 64), P.sub(a, P.c(obj_base(id), 64)));
      std::vector<uint8_t> m;
      if (feasible(s, outside, &m)) { P.begin_eval(m); uint64_t v2 = P.ev(a); uint32_t i2; uint64_t o2; if (!resolve(s, v2, n, i2, o2)) { report(s, m, "memory", str(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + addrstr(s, v2)); throw PathEnd(); } }
      v = concretize(s, a, "a memory address");
      resolve(s, v, n, id, off);
    } else if (!resolve(s, a->aux, n, id, off)) { report(s, s.model, "memory", str(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + addrstr(s, a->aux)); throw PathEnd(); }
    if (wr && get(s, id)->ro) { report(s, s.model, "memory", str("write to constant ") + addrstr(s, obj_base(id) + off)); throw PathEnd(); }
    if (s.thr) record(s, id, off, n, wr);
  }

  // ------------------------------------------------------------------ reporting
  str locof(const Instruction* I) {
    if (!I) return ""; auto& d = I->getDebugLoc(); if (!d) return "";
    str f = cast<DIScope>(d.getScope())->getFilename().str(); return f + ":" + std::to_string(d.getLine());
  }
  void report(State& s, const std::vector<uint8_t>& m, const str& kind, const str& msg) {
    Violation v; v.kind = kind; v.msg = msg;
    for (size_t i = s.st.size(); i-- > 0;) { auto& f = s.st[i]; const Instruction* I = f.pc < f.fi->code.size() ? f.fi->code[f.pc].I : nullptr; str l = locof(I); if (i + 1 == s.st.size()) v.loc = l; v.stack.push_back(demangle(f.fi->f->getName().str()) + " @ " + l); }
    str key = kind + "|" + msg + "|" + v.loc;
    if (!viol_keys.insert(key).second) return;
    for (auto& in : s.inputs) { std::vector<uint8_t> b; for (uint32_t i = 0; i < in.n; i++) { uint64_t si = insyms[in.first + i]->aux; b.push_back(si < m.size() ? m[si] : 0); } v.in.push_back({in.name, b}); }
    viol.push_back(v); if (msg.compare(0, 3, "KF:") && !n_real++) t_viol = now_s();   // KF: a tagged known finding, does not stop the exploration
  }
  static str js(const str& s) { str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
  static str hex(const std::vector<uint8_t>& b) { str r; char t[4]; for (auto x : b) { snprintf(t, 4, "%02x", x); r += t; } return r; }
  void sample(State& s) {
    // deterministic thinning: keep the 1st, 2nd, 4th, 8th ... paths and then every k-th
    if (samples.size() >= nsamples) return;
    uint64_t n = paths_done; if ((n & (n - 1)) != 0 && n % 97 != 0) return;
    P.begin_eval(s.model);
    str r = "{\"inputs\":["; bool first = true;
    for (auto& in : s.inputs) { std::vector<uint8_t> b; for (uint32_t i = 0; i < in.n; i++) b.push_back(P.ev(insyms[in.first + i])); r += str(first ? "" : ",") + "[" + js(in.name) + ",\"" + hex(b) + "\"]"; first = false; }
    std::vector<uint8_t> ob; for (E e : s.obs) { if (P.has_undef(e)) { ob.push_back(0); continue; } ob.push_back(P.ev(e)); }
    bool und = false; for (E e : s.obs) und |= P.has_undef(e);
    if (und) return;
    r += "],\"obs\":\"" + hex(ob) + "\"}";
    samples.push_back(r);
  }

  // ------------------------------------------------------------------ execution
  E val(Frame& f, const Opnd& o) { if (o.c) return o.c; E e = f.v[o.slot]; if (!e) throw Unsupported("value without definition"); return e; }
  void jump(State& s, int target) {
    Frame& f = s.st.back(); PBlock& b = f.fi->blocks[target]; f.prev = f.cur; f.cur = target;
    if (b.nphi) {
      std::vector<E> tmp(b.nphi);
      for (unsigned i = 0; i < b.nphi; i++) { PInst& p = f.fi->code[b.start + i]; bool ok = false; for (size_t j = 0; j < p.cases.size(); j++) if ((int)p.cases[j].first == f.prev) { tmp[i] = val(f, p.ops[j]); ok = true; break; } if (!ok) throw Unsupported("phi"); }
      for (unsigned i = 0; i < b.nphi; i++) f.v[f.fi->code[b.start + i].dst] = tmp[i];
    }
    f.pc = b.start + b.nphi;
  }
  void push(State& s, const Function* fn, const std::vector<E>& args, const PInst* call) {
    FInfo* fi = info(fn); used.insert(fn);
    Frame f; f.fi = fi; f.v.assign(fi->nslots, nullptr); f.call = call;
    for (size_t i = 0; i < fn->arg_size() && i < args.size(); i++) f.v[i] = args[i];
    for (size_t i = fn->arg_size(); i < args.size(); i++) f.va.push_back(args[i]);
    f.pc = fi->blocks[0].start; f.cur = 0;
    if (s.st.size() > 100000) { report(s, s.model, "termination", "call depth exceeds 100000"); throw PathEnd(); }
    s.st.push_back(std::move(f));
  }
  void dopop(State& s, E rv) {
    Frame& f = s.st.back(); for (auto id : f.allocas) freeobj(s, id);
    const PInst* call = f.call; s.st.pop_back();
    if (s.st.empty()) return;
    Frame& c = s.st.back(); if (call && call->dst >= 0) c.v[call->dst] = rv;
    c.pc++;
  }
  str cstr(State& s, E p) {
    str r; uint64_t a = concretize(s, p, "a string pointer");
    for (;;) { uint32_t id; uint64_t off; if (!resolve(s, a, 1, id, off)) throw Unsupported("bad string"); E b = get(s, id)->b[off]; if (!b || !ExprPool::isc(b)) throw Unsupported("symbolic string literal"); if (!b->aux) return r; r += (char)b->aux; a++; }
  }
  void die(State& s, const str& kind, const str& msg) { report(s, s.model, kind, msg); throw PathEnd(); }

  E minmax(E a, E b, bool sgn, bool mx) { E l = sgn ? P.slt(a, b) : P.ult(a, b); return mx ? P.ite(l, b, a) : P.ite(l, a, b); }
  E ovf(const StringRef& n, E a, E b) {
    unsigned w = a->width; E r, o;
    if (n.contains("uadd")) { r = P.add(a, b); o = P.ult(r, a); }
    else if (n.contains("usub")) { r = P.sub(a, b); o = P.ult(a, b); }
    else if (n.contains("sadd")) { r = P.add(a, b); E sa = P.extract(a, w - 1, 1), sb = P.extract(b, w - 1, 1), sr = P.extract(r, w - 1, 1); o = P.band(P.eq(sa, sb), P.bxor(sa, sr)); }
    else if (n.contains("ssub")) { r = P.sub(a, b); E sa = P.extract(a, w - 1, 1), sb = P.extract(b, w - 1, 1), sr = P.extract(r, w - 1, 1); o = P.band(P.bxor(sa, sb), P.bxor(sa, sr)); }
    else if (w <= 32 && n.contains("smul")) { E x = P.mul(P.sext(a, 64), P.sext(b, 64)); r = P.trunc(x, w); o = P.bnot(P.eq(x, P.sext(r, 64))); }
    else if (w <= 32 && n.contains("umul")) { E x = P.mul(P.zext(a, 64), P.zext(b, 64)); r = P.trunc(x, w); o = P.bnot(P.eq(x, P.zext(r, 64))); }
    else if (ExprPool::isc(a) && ExprPool::isc(b)) { uint64_t x; bool ov; int64_t y; if (n.contains("umul")) { ov = __builtin_mul_overflow(a->aux, b->aux, &x); r = P.c(x, 64); } else { ov = __builtin_mul_overflow((int64_t)a->aux, (int64_t)b->aux, &y); r = P.c((uint64_t)y, 64); } o = P.c(ov, 1); }
    else if (ExprPool::isc(b) && n.contains("umul") && b->aux) { r = P.mul(a, b); o = P.ult(P.c(~0ull / b->aux, 64), a); }
    else throw Unsupported("64-bit multiplication overflow check");
    return P.tuple({r, o});
  }

  static char cv0(const str& f, size_t i) { return i < f.size() ? f[i] : 0; }
  // number of characters "%d"/"%u"-style conversion produces, as an expression
  // printed lengths: fork by binary search over the thresholds at which the length changes
  uint64_t digits(State& s, E mag, const std::vector<uint64_t>& thr) {
    size_t lo = 0, hi = thr.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (branch(s, P.ult(mag, P.c(thr[mid], mag->width)), "a printed length")) hi = mid; else lo = mid + 1; } return lo;
  }
  uint64_t declen(State& s, E v, bool sgn) {
    unsigned w = v->width; bool neg = sgn && branch(s, P.extract(v, w - 1, 1), "a printed sign");
    std::vector<uint64_t> thr; for (uint64_t p = 10;; p *= 10) { if (w < 64 && p > maskw(w)) break; thr.push_back(p); if (p > ~0ull / 10) break; }
    return 1 + digits(s, neg ? P.neg(v) : v, thr) + neg;
  }
  std::vector<uint64_t> fthr; // fthr[k]: smallest positive double bits printing k+2 integer digits with %f
  uint64_t fltlen(State& s, E v) { // v: double bits, "%f"
    if (fthr.empty()) for (int k = 1; k <= 308; k++) {
      uint64_t lo = 0, hi = 0x7fefffffffffffffull; auto L = [&](uint64_t x) { double d; memcpy(&d, &x, 8); return snprintf(nullptr, 0, "%f", d) - 7; };
      while (lo < hi) { uint64_t mid = lo + (hi - lo) / 2; if (L(mid) > k) hi = mid; else lo = mid + 1; } fthr.push_back(lo); }
    E mag = P.concat(P.c(0, 1), P.extract(v, 0, 63)); bool neg = branch(s, P.extract(v, 63, 1), "a printed sign");
    if (branch(s, P.eq(P.extract(v, 52, 11), P.c(0x7ff, 11)), "inf or nan")) return 3 + neg;
    return 8 + digits(s, mag, fthr) + neg;
  }
  E insym(State& s) { E e; if (s.nin < insyms.size()) e = insyms[s.nin]; else { e = P.sym("in", insyms.size(), false); insyms.push_back(e); } s.nin++; return e; }

  // snprintf(buf, size, fmt, ...): exact length and bytes; symbolic floating point: exact length, all digits '0'
  // (v)s(n)printf: the arguments of a va_list are taken from the object va_start made
  E do_printf(State& s, std::vector<E> a, bool sized, bool list) {
    std::vector<E> b; b.push_back(a[0]); size_t i = 1; if (sized) b.push_back(a[i++]); else b.push_back(P.c(0x7fffffff, 64));
    b.push_back(a[i++]);
    if (list) { uint32_t id; uint64_t off; access(s, a[i], 8, false, id, off); uint64_t v = concretize(s, load(s, id, off, 64), "a va_list"); uint32_t vi; uint64_t vo; if (!resolve(s, v, 0, vi, vo) || strcmp(get(s, vi)->name, "va_list")) throw Unsupported("va_list"); for (uint64_t k = 0; k < get(s, vi)->size; k += 8) b.push_back(load(s, vi, k, 64)); }
    else for (; i < a.size(); i++) b.push_back(a[i]);
    return do_snprintf(s, b);
  }
  E do_snprintf(State& s, std::vector<E>& a) {
    str fmt = cstr(s, a[2]); std::vector<E> out; size_t ai = 3; E star = P.c('0', 8);
    uint64_t size = concretize(s, a[1], "the size passed to snprintf");
    E buf = a[0];
    auto arg = [&]() -> E { if (ai >= a.size()) die(s, "memory", "snprintf reads a missing argument"); return a[ai++]; };
    for (size_t i = 0; i < fmt.size(); i++) {
      if (fmt[i] != '%') { out.push_back(P.c((uint8_t)fmt[i], 8)); continue; }
      i++; bool left = false, zero = false, plus = false; while (i < fmt.size() && (fmt[i] == '-' || fmt[i] == '0' || fmt[i] == ' ' || fmt[i] == '+')) { left |= fmt[i] == '-'; zero |= fmt[i] == '0'; plus |= fmt[i] == '+' || fmt[i] == ' '; i++; }
      int64_t width = 0, prec = -1;
      if (fmt[i] == '*') { width = sx(concretize(s, P.trunc(arg(), 32), "a snprintf width"), 32); if (width < 0) { left = true; width = -width; } i++; } else while (isdigit(fmt[i])) width = width * 10 + (fmt[i++] - '0');
      if (fmt[i] == '.') { i++; prec = 0; if (fmt[i] == '*') { prec = sx(concretize(s, P.trunc(arg(), 32), "a snprintf precision"), 32); i++; } else while (isdigit(fmt[i])) prec = prec * 10 + (fmt[i++] - '0'); }
      int lng = 0, hh = 0; while (fmt[i] == 'l' || fmt[i] == 'h' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't') { if (fmt[i] == 'h') hh++; else lng++; i++; } if (plus && cv0(fmt, i) != 's') throw Unsupported("snprintf flag");
      std::vector<E> piece; char cv = fmt[i];
      if (cv == '%') { out.push_back(P.c('%', 8)); continue; }
      if (cv == 's') {
        E p = arg(); uint64_t ad = concretize(s, p, "a string argument");
        for (uint64_t k = 0; prec < 0 || k < (uint64_t)prec; k++) {
          uint32_t id; uint64_t off; if (!resolve(s, ad + k, 1, id, off)) die(s, "memory", "snprintf %s reads at " + addrstr(s, ad + k));
          record(s, id, off, 1, false); E b = rdbyte(s, id, off); if (branch(s, P.eq(b, P.c(0, 8)), "snprintf %s")) break; piece.push_back(b);
        }
      } else if (cv == 'd' || cv == 'i' || cv == 'u' || cv == 'x' || cv == 'X') {
        E v = arg(); if (!lng && v->width > 32) v = P.trunc(v, 32); if (lng && v->width < 64) throw Unsupported("snprintf length modifier");
        if (hh) { v = P.trunc(v, hh > 1 ? 8 : 16); v = cv == 'd' || cv == 'i' ? P.sext(v, 32) : P.zext(v, 32); }
        if (prec > 1) throw Unsupported("snprintf precision");
        if ((cv == 'x' || cv == 'X') && !ExprPool::isc(v)) { std::vector<uint64_t> thr; for (unsigned k = 4; k < v->width; k += 4) thr.push_back(1ull << k); uint64_t n = 1 + digits(s, v, thr); for (uint64_t k = 0; k < n; k++) piece.push_back(star); }
        else if (cv == 'x' || cv == 'X') { char t[40]; snprintf(t, 40, cv == 'x' ? "%llx" : "%llX", (unsigned long long)v->aux); for (char* q = t; *q; q++) piece.push_back(P.c((uint8_t)*q, 8));
        } else { uint64_t n = declen(s, v, cv != 'u');
          if (ExprPool::isc(v)) { char t[40]; if (cv == 'u') snprintf(t, 40, "%llu", (unsigned long long)v->aux); else snprintf(t, 40, "%lld", (long long)sx(v->aux, v->width)); for (char* q = t; *q; q++) piece.push_back(P.c((uint8_t)*q, 8)); }
          else { unsigned w = v->width; E sb = P.extract(v, w - 1, 1); bool neg = cv != 'u' && (ExprPool::isc(sb) ? sb->aux == 1 : known(s, sb) == 1); E m = neg ? P.neg(v) : v; if (neg) piece.push_back(P.c('-', 8)); uint64_t nd = n - neg, p10 = 1; for (uint64_t k = 1; k < nd; k++) p10 *= 10;
            { unsigned nb = 8; while (nb < 64 && p10 > (maskw(nb) / 10)) nb++; if (nb < w) { m = P.extract(m, 0, nb); w = nb; } } // m < 10^nd: computed with as many bits as that takes
            for (uint64_t k = 0; k < nd; k++, p10 /= 10) piece.push_back(P.add(star, P.trunc(P.urem(P.udiv(m, P.c(p10, w)), P.c(10, w)), 8))); } }
      } else if (cv == 'f' || cv == 'F') {
        E v = arg(); if (v->width != 64 || (prec >= 0 && prec != 6)) throw Unsupported("snprintf %f");
        if (ExprPool::isc(v)) { double d; memcpy(&d, &v->aux, 8); char t[400]; int n = snprintf(t, 400, "%f", d); for (int k = 0; k < n; k++) piece.push_back(P.c((uint8_t)t[k], 8)); }
        else { uint64_t n = fltlen(s, v); for (uint64_t k = 0; k < n; k++) piece.push_back(star); }
      } else if (cv == 'c') piece.push_back(P.trunc(arg(), 8));
      else if (cv == 'p') { for (int k = 0; k < 14; k++) piece.push_back(star); arg(); }
      else throw Unsupported(str("snprintf conversion %") + cv);
      int64_t padn = width - (int64_t)piece.size();
      if (padn > 100000) throw Unsupported("snprintf width too large");
      if (!left) for (; padn > 0; padn--) out.push_back(P.c(zero ? '0' : ' ', 8));
      out.insert(out.end(), piece.begin(), piece.end());
      for (; padn > 0; padn--) out.push_back(P.c(' ', 8));
    }
    if (size > 0) {
      uint64_t n = std::min<uint64_t>(out.size(), size - 1); uint64_t ba = concretize(s, buf, "the snprintf buffer");
      for (uint64_t k = 0; k <= n; k++) {
        uint32_t id; uint64_t off; if (!resolve(s, ba + k, 1, id, off)) die(s, "memory", "snprintf writes at " + addrstr(s, ba + k) + " (size argument " + std::to_string(size) + ")");
        record(s, id, off, 1, true); getw(s, id)->b[off] = k < n ? out[k] : P.c(0, 8);
      }
    }
    return P.c(out.size(), 32);
  }

  // all calls to functions without a body, and intrinsics; returns the value (or null for void)
  E external(State& s, const PInst& pi, const Function* fn, std::vector<E>& a) {
    StringRef n = fn->getName();
    if (fn->isIntrinsic()) {
      switch (fn->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { do_copy(s, a[0], a[1], a[2]); return nullptr; }
        case Intrinsic::memset: { do_set(s, a[0], a[1], a[2]); return nullptr; }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
          if (ExprPool::isc(a[1])) { uint32_t id; uint64_t off; if (resolve(s, a[1]->aux, 0, id, off) && off == 0) { auto* o = getw(s, id); std::fill(o->b.begin(), o->b.end(), nullptr); } }
          return nullptr; }
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: return nullptr;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: return P.c(0, 64);
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return a[0];
        case Intrinsic::vastart: { Frame& f = s.st.back(); uint32_t id = newobj(s, 8 * f.va.size(), "va_list"); f.allocas.push_back(id); for (size_t i = 0; i < f.va.size(); i++) put(getw(s, id), 8 * i, P.zext(f.va[i], 64)); uint32_t vi; uint64_t vo; access(s, a[0], 8, true, vi, vo); put(getw(s, vi), vo, P.c(obj_base(id), 64)); return nullptr; }
        case Intrinsic::vaend: return nullptr;
        case Intrinsic::vacopy: do_copy(s, a[0], a[1], P.c(24, 64)); return nullptr;
        case Intrinsic::bitreverse: { E r = nullptr; for (unsigned i = 0; i < a[0]->width; i++) { E b = P.extract(a[0], i, 1); r = r ? P.concat(r, b) : b; } return r; }
        case Intrinsic::threadlocal_address: return a[0];
        case Intrinsic::umin: return minmax(a[0], a[1], false, false);
        case Intrinsic::umax: return minmax(a[0], a[1], false, true);
        case Intrinsic::smin: return minmax(a[0], a[1], true, false);
        case Intrinsic::smax: return minmax(a[0], a[1], true, true);
        case Intrinsic::abs: return P.ite(P.slt(a[0], P.c(0, a[0]->width)), P.neg(a[0]), a[0]);
        case Intrinsic::uadd_sat: { E t = ovf("uadd", a[0], a[1]); return P.ite((*t->tuple)[1], P.c(~0ull, a[0]->width), (*t->tuple)[0]); }
        case Intrinsic::usub_sat: return P.ite(P.ult(a[0], a[1]), P.c(0, a[0]->width), P.sub(a[0], a[1]));
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: return ovf(n, a[0], a[1]);
        case Intrinsic::is_constant: return P.c(0, 1);
        case Intrinsic::objectsize: return P.c(ExprPool::isc(a[1], 0) ? ~0ull : 0, pi.w);
        case Intrinsic::fabs: return P.concat(P.c(0, 1), P.extract(a[0], 0, a[0]->width - 1));
        case Intrinsic::copysign: return P.concat(P.extract(a[1], a[1]->width - 1, 1), P.extract(a[0], 0, a[0]->width - 1));
        case Intrinsic::is_fpclass: { // NaN, inf, zero, ... mask
          uint64_t m = a[1]->aux; E v = a[0]; unsigned eb, mb; ExprPool::fpar(v->width, eb, mb);
          E sg = P.extract(v, v->width - 1, 1), ex = P.extract(v, mb, eb), ma = P.extract(v, 0, mb); E e1 = P.eq(ex, P.c(~0ull, eb)), e0 = P.eq(ex, P.c(0, eb)), m0 = P.eq(ma, P.c(0, mb)), q = P.extract(v, mb - 1, 1);
          E nan = P.band(e1, P.bnot(m0)), inf = P.band(e1, m0), zr = P.band(e0, m0), sub = P.band(e0, P.bnot(m0)), nrm = P.band(P.bnot(e1), P.bnot(e0)); E ns = P.bnot(sg); E r = P.fls();
          E cl[10] = {P.band(nan, P.bnot(q)), P.band(nan, q), P.band(inf, sg), P.band(nrm, sg), P.band(sub, sg), P.band(zr, sg), P.band(zr, ns), P.band(sub, ns), P.band(nrm, ns), P.band(inf, ns)};
          for (int i = 0; i < 10; i++) if (m >> i & 1) r = P.bor(r, cl[i]); return r; }
        case Intrinsic::bswap: { E r = nullptr; for (unsigned i = 0; i < a[0]->width / 8; i++) { E b = P.extract(a[0], i * 8, 8); r = r ? P.concat(r, b) : b; } return r; }
        case Intrinsic::fshl: { unsigned w = a[0]->width; if (!ExprPool::isc(a[2])) throw Unsupported("fshl"); unsigned k = a[2]->aux % w; if (!k) return a[0]; return P.bor(P.shl(a[0], P.c(k, w)), P.lshr(a[1], P.c(w - k, w))); }
        case Intrinsic::fshr: { unsigned w = a[0]->width; if (!ExprPool::isc(a[2])) throw Unsupported("fshr"); unsigned k = a[2]->aux % w; if (!k) return a[1]; return P.bor(P.shl(a[0], P.c(w - k, w)), P.lshr(a[1], P.c(k, w))); }
        case Intrinsic::ctlz: { unsigned w = a[0]->width; E r = P.c(w, w); for (unsigned i = 0; i < w; i++) r = P.ite(P.extract(a[0], i, 1), P.c(w - 1 - i, w), r); return r; }
        case Intrinsic::cttz: { unsigned w = a[0]->width; E r = P.c(w, w); for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(a[0], i, 1), P.c(i, w), r); return r; }
        case Intrinsic::ctpop: { unsigned w = a[0]->width; E r = P.c(0, w); for (unsigned i = 0; i < w; i++) r = P.add(r, P.zext(P.extract(a[0], i, 1), w)); return r; }
        case Intrinsic::ubsantrap: { static const char* nm[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem", "dynamic-type", "float-cast", "function", "implicit-conversion", "invalid-builtin", "invalid-objc", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "null", "nullability", "nullability-return", "nonnull", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment", "vla"}; uint64_t k = a[0]->aux; die(s, "undefined", str("undefined behaviour: ") + (k < 26 ? nm[k] : "?")); }
        case Intrinsic::trap: case Intrinsic::debugtrap: die(s, "trap", "trap reached");
        default: throw Unsupported("intrinsic " + n.str());
      }
    }
    externs.insert(n.str());
    if (n == "sym_bytes") {
      uint64_t len = concretize(s, a[1], "sym_bytes length"); uint32_t id; uint64_t off; if (len == 0) return nullptr;
      access(s, a[0], len, true, id, off); Input in; in.name = cstr(s, a[2]); in.first = s.nin; in.n = len;
      auto* o = getw(s, id); for (uint64_t i = 0; i < len; i++) o->b[off + i] = insym(s);
      s.inputs.push_back(in); return nullptr;
    }
    if (n == "sym_assume") {
      E c = P.bnot(P.eq(a[0], P.c(0, a[0]->width)));
      if (ExprPool::isc(c)) { if (!c->aux) { paths_assume++; throw PathEnd(); } return nullptr; }
      check_undef(s, c, "an assumption");
      P.begin_eval(s.model); if (!P.ev(c)) { std::vector<uint8_t> m; if (!feasible(s, c, &m)) { paths_assume++; throw PathEnd(); } s.model = m; }
      add_pc(s, c); return nullptr;
    }
    if (n == "sym_assert") {
      asserts++; E c = P.bnot(P.eq(a[0], P.c(0, a[0]->width))); str msg = cstr(s, a[1]);
      if (ExprPool::isc(c)) { if (!c->aux) die(s, "assert", msg); return nullptr; }
      if (known(s, c) == 1) return nullptr;
      check_undef(s, c, "a checked result");
      asserts_solver++; std::vector<uint8_t> m;
      P.begin_eval(s.model); if (!P.ev(c)) { report(s, s.model, "assert", msg); if (msg.compare(0, 3, "KF:") || !feasible(s, c, &m)) throw PathEnd(); s.model = m; }
      else try { if (feasible(s, P.bnot(c), &m)) report(s, m, "assert", msg); } catch (Undecided&) { undecided++; return nullptr; }
      add_pc(s, c); return nullptr;
    }
    if (n == "sym_cover") { covers[cstr(s, a[0])]++; return nullptr; }
    if (n == "sym_observe") { uint64_t len = concretize(s, a[1], "length"); if (!len) return nullptr; uint32_t id; uint64_t off; access(s, a[0], len, false, id, off); for (uint64_t i = 0; i < len; i++) s.obs.push_back(rdbyte(s, id, off + i)); return nullptr; }
    if (n == "sym_concrete") { uint64_t v = concretize(s, a[0], "sym_concrete"); return P.c(v, a[0]->width); }
    if (n == "sym_param") { str k = cstr(s, a[0]); auto it = params.find(k); return P.c(it == params.end() ? a[1]->aux : (uint64_t)it->second, 32); }
    if (n == "sym_equal") { uint64_t len = concretize(s, a[2], "length"); if (!len) return P.c(1, 32); uint32_t i, j; uint64_t o, q; access(s, a[0], len, false, i, o); access(s, a[1], len, false, j, q); E r = P.tru(); for (uint64_t k = 0; k < len; k++) { E x = rdbyte(s, i, o + k), y = rdbyte(s, j, q + k); if (x != y) r = P.band(r, P.eq(x, y)); } return P.zext(r, 32); }
    if (n == "sym_thread") { thread(s, a[0]->aux); return nullptr; }
    if (n == "sym_fail") die(s, "assert", cstr(s, a[0]));
    if (n == "snprintf" || n == "sprintf" || n == "vsnprintf" || n == "vsprintf") return do_printf(s, a, n.contains("sn"), n[0] == 'v');
    if (n == "__snprintf_chk" || n == "__vsnprintf_chk") { std::vector<E> b(a); b.erase(b.begin() + 2, b.begin() + 4); return do_printf(s, b, true, n.contains("vsn")); }
    if (n == "__sprintf_chk" || n == "__vsprintf_chk") { std::vector<E> b(a); b.erase(b.begin() + 1, b.begin() + 3); return do_printf(s, b, false, n.contains("vs")); }
    if (n == "mempcpy") { do_copy(s, a[0], a[1], a[2]); return P.add(a[0], a[2]); }
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { do_copy(s, a[0], a[1], a[2]); return a[0]; }
    if (n == "memset" || n == "__memset_chk") { do_set(s, a[0], P.trunc(a[1], 8), a[2]); return a[0]; }
    if (!noheap && (n == "malloc" || n == "calloc" || n.starts_with("_Znw") || n.starts_with("_Zna"))) {
      uint64_t k = concretize(s, a[0], "an allocation size"); if (n == "calloc") k *= concretize(s, a[1], "an allocation size");
      if (k > (1u << 24)) throw Unsupported("large allocation"); uint32_t id = newobj(s, k, "heap"); if (n == "calloc") for (auto& b : getw(s, id)->b) b = P.c(0, 8); return P.c(obj_base(id), 64); }
    if (!noheap && (n == "free" || n.starts_with("_Zdl") || n.starts_with("_Zda"))) {
      uint64_t ad = concretize(s, a[0], "a pointer released"); if (!ad) return nullptr; uint32_t id; uint64_t off;
      if (!resolve(s, ad, 0, id, off) || off != 0 || strcmp(get(s, id)->name, "heap")) die(s, "memory", "release of " + addrstr(s, ad)); freeobj(s, id); return nullptr; }
    if (n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc" || n == "posix_memalign" || n.starts_with("_Znw") || n.starts_with("_Zna")) die(s, "heap", "dynamic memory requested through " + demangle(n.str()));
    if (n == "free" || n.starts_with("_Zdl") || n.starts_with("_Zda")) die(s, "heap", "dynamic memory released through " + demangle(n.str()));
    if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail" || n == "__cxa_pure_virtual" || n.contains("glibcxx_assert_fail") || n.starts_with("_ZSt") || n == "_ZSt9terminatev") die(s, "abort", "call of " + demangle(n.str()));
    if (n == "__cxa_guard_acquire") { uint32_t id; uint64_t off; s.guard++; access(s, a[0], 1, true, id, off); E b = rdbyte(s, id, off); if (!ExprPool::isc(b, 0)) s.guard--; return P.zext(P.eq(b, P.c(0, 8)), 32); }
    if (n == "__cxa_guard_release") { uint32_t id; uint64_t off; access(s, a[0], 1, true, id, off); getw(s, id)->b[off] = P.c(1, 8); if (s.guard) s.guard--; return nullptr; }
    if (n == "__cxa_atexit") return P.c(0, 32);
    throw Unsupported("external function " + n.str());
  }
  void do_copy(State& s, E d, E sp, E len) {
    uint64_t n = concretize_len(s, len, d, sp); if (n == 0) return;
    uint32_t di, si; uint64_t dof, sof; access(s, sp, n, false, si, sof); access(s, d, n, true, di, dof);
    std::vector<E> t(n); ObjState* so = get(s, si); for (uint64_t i = 0; i < n; i++) t[i] = so->b[sof + i];
    ObjState* o = getw(s, di); for (uint64_t i = 0; i < n; i++) o->b[dof + i] = t[i];
  }
  void do_set(State& s, E d, E v, E len) {
    uint64_t n = concretize_len(s, len, d, nullptr); if (n == 0) return;
    uint32_t id; uint64_t off; access(s, d, n, true, id, off); ObjState* o = getw(s, id); for (uint64_t i = 0; i < n; i++) o->b[off + i] = v;
  }
  // a symbolic length: first ask whether it can leave the objects, then enumerate
  uint64_t concretize_len(State& s, E len, E d, E sp) {
    if (ExprPool::isc(len)) return len->aux;
    check_undef(s, len, "a copy length");
    for (E p : {d, sp}) if (p && ExprPool::isc(p)) {
      uint32_t id; uint64_t off; if (!resolve(s, p->aux, 0, id, off)) continue; uint64_t room = get(s, id)->size - off;
      std::vector<uint8_t> m; if (feasible(s, P.ult(P.c(room, len->width), len), &m)) { P.begin_eval(m); report(s, m, "memory", str(p == d ? "write" : "read") + " of " + std::to_string(P.ev(len)) + " bytes at " + addrstr(s, p->aux)); throw PathEnd(); }
    }
    return concretize(s, len, "a copy length");
  }

  void step(State& s) {
    Frame& f = s.st.back(); const PInst& pi = f.fi->code[f.pc]; const Instruction* I = pi.I;
    steps++; s.steps++;
    if (s.steps > max_steps) die(s, "termination", "more than " + std::to_string(max_steps) + " instructions on one path");
    auto V = [&](int i) { return val(f, pi.ops[i]); };
    auto set = [&](E e) { f.v[pi.dst] = e; f.pc++; };
    switch (pi.op) {
      case Instruction::Br:
        if (pi.ops.empty()) jump(s, pi.t0);
        else { bool d = branch(s, V(0), "a branch"); jump(s, d ? pi.t0 : pi.t1); }
        return;
      case Instruction::Switch: {
        E c = V(0);
        if (ExprPool::isc(c)) { int t = pi.t0; for (auto& k : pi.cases) if (k.first == c->aux) { t = k.second; break; } jump(s, t); return; }
        for (E q : s.pc) if (q->op == O_EQ && q->k[0] == c && ExprPool::isc(q->k[1])) { int t = pi.t0; for (auto& k : pi.cases) if (k.first == q->k[1]->aux) { t = k.second; break; } jump(s, t); return; }
        check_undef(s, c, "a switch");
        // the target of the current model
        P.begin_eval(s.model); uint64_t v = P.ev(c); E cond; int t = pi.t0; bool isdef = true;
        for (auto& k : pi.cases) if (k.first == v) { t = k.second; isdef = false; break; }
        if (!isdef) cond = P.eq(c, P.c(v, c->width));
        else { cond = P.tru(); for (auto& k : pi.cases) cond = P.band(cond, P.bnot(P.eq(c, P.c(k.first, c->width)))); }
        branches++;
        std::vector<uint8_t> om; E nc = P.bnot(cond);
        if (feasible(s, nc, &om)) { State* n = new State(s); n->model = om; add_pc(*n, nc); n->depth++; s.depth++; forks++; fork_resume(n); }
        add_pc(s, cond); jump(s, t); return; }
      case Instruction::Ret: { E r = pi.ops.empty() ? nullptr : V(0); dopop(s, r); return; }
      case Instruction::Unreachable: die(s, "undefined", "unreachable code reached");
      case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
        if (ai->isArrayAllocation()) n *= concretize(s, V(0), "an array size");
        const char* nm = ai->hasName() ? ai->getName().data() : "local";
        uint32_t id = newobj(s, n, nm); f.allocas.push_back(id); set(P.c(obj_base(id), 64)); return; }
      case Instruction::Load: { loads++; uint32_t id; uint64_t off; Type* t = I->getType(); atomic_now = I->isAtomic(); access(s, V(0), DL->getTypeStoreSize(t), false, id, off); atomic_now = false; set(loadt(s, id, off, t)); return; }
      case Instruction::Store: { stores++; uint32_t id; uint64_t off; Type* t = I->getOperand(0)->getType(); E p = V(1), v = V(0); atomic_now = I->isAtomic(); access(s, p, DL->getTypeStoreSize(t), true, id, off); atomic_now = false; storet(s, id, off, v, t); f.pc++; return; }
      case Instruction::GetElementPtr: {
        E r = P.add(V(0), P.c(pi.cst, 64));
        for (auto& sc : pi.scaled) { E x = V(sc.first); if (x->width < 64) x = P.sext(x, 64); else if (x->width > 64) throw Unsupported("gep"); r = P.add(r, P.mul(x, P.c(sc.second, 64))); }
        set(r); return; }
      case Instruction::Add: set(P.add(V(0), V(1))); return;
      case Instruction::Sub: set(P.sub(V(0), V(1))); return;
      case Instruction::Mul: set(P.mul(V(0), V(1))); return;
      case Instruction::And: set(P.band(V(0), V(1))); return;
      case Instruction::Or: set(P.bor(V(0), V(1))); return;
      case Instruction::Xor: { E a = V(0), b = V(1); set(P.bxor(a, b)); return; }
      case Instruction::Shl: set(P.shl(V(0), V(1))); return;
      case Instruction::LShr: set(P.lshr(V(0), V(1))); return;
      case Instruction::AShr: set(P.ashr(V(0), V(1))); return;
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        E a = V(0), b = V(1); std::vector<uint8_t> m; E z = P.eq(b, P.c(0, b->width));
        if (feasible(s, z, &m)) { report(s, m, "undefined", "division by zero"); throw PathEnd(); }
        set(pi.op == Instruction::UDiv ? P.udiv(a, b) : pi.op == Instruction::SDiv ? P.sdiv(a, b) : pi.op == Instruction::URem ? P.urem(a, b) : P.srem(a, b)); return; }
      case Instruction::ICmp: {
        E a = V(0), b = V(1); E r;
        switch (cast<ICmpInst>(I)->getPredicate()) {
          case CmpInst::ICMP_EQ: r = P.eq(a, b); break; case CmpInst::ICMP_NE: r = P.bnot(P.eq(a, b)); break;
          case CmpInst::ICMP_ULT: r = P.ult(a, b); break; case CmpInst::ICMP_ULE: r = P.ule(a, b); break; case CmpInst::ICMP_UGT: r = P.ult(b, a); break; case CmpInst::ICMP_UGE: r = P.ule(b, a); break;
          case CmpInst::ICMP_SLT: r = P.slt(a, b); break; case CmpInst::ICMP_SLE: r = P.sle(a, b); break; case CmpInst::ICMP_SGT: r = P.slt(b, a); break; default: r = P.sle(b, a); break;
        }
        set(r); return; }
      case Instruction::FCmp: {
        E a = V(0), b = V(1), r; auto p = cast<FCmpInst>(I)->getPredicate();
        E un = P.bor(P.fisnan(a), P.fisnan(b)), eq = P.foeq(a, b), l = P.folt(a, b), g = P.folt(b, a);
        switch (p) {
          case CmpInst::FCMP_FALSE: r = P.fls(); break; case CmpInst::FCMP_TRUE: r = P.tru(); break;
          case CmpInst::FCMP_OEQ: r = eq; break; case CmpInst::FCMP_OGT: r = g; break; case CmpInst::FCMP_OGE: r = P.bor(g, eq); break; case CmpInst::FCMP_OLT: r = l; break; case CmpInst::FCMP_OLE: r = P.bor(l, eq); break;
          case CmpInst::FCMP_ONE: r = P.bor(l, g); break; case CmpInst::FCMP_ORD: r = P.bnot(un); break; case CmpInst::FCMP_UNO: r = un; break;
          case CmpInst::FCMP_UEQ: r = P.bor(un, eq); break; case CmpInst::FCMP_UGT: r = P.bor(un, g); break; case CmpInst::FCMP_UGE: r = P.bnot(l); break; case CmpInst::FCMP_ULT: r = P.bor(un, l); break; case CmpInst::FCMP_ULE: r = P.bnot(g); break;
          default: r = P.bnot(eq); break;
        }
        set(r); return; }
      case Instruction::Select: { E c = V(0), a = V(1), b = V(2);
        int k = ExprPool::isc(c) ? (int)c->aux : known(s, c);
        if (k >= 0) { set(k ? a : b); return; }
        if (I->getType()->isPointerTy()) { bool d = branch(s, c, "a pointer selection"); s.st.back().v[pi.dst] = d ? a : b; s.st.back().pc++; return; }
        set(P.ite(c, a, b)); return; }
      case Instruction::Trunc: set(P.trunc(V(0), pi.w)); return;
      case Instruction::ZExt: set(P.zext(V(0), pi.w)); return;
      case Instruction::SExt: set(P.sext(V(0), pi.w)); return;
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { E a = V(0); if (pi.op == Instruction::BitCast && a->op != O_TUPLE && a->width != pi.w) throw Unsupported("bitcast"); set(a); return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { E a = V(0); set(a->width > pi.w ? P.trunc(a, pi.w) : P.zext(a, pi.w)); return; }
      case Instruction::FAdd: set(P.fbin(O_FADD, V(0), V(1))); return;
      case Instruction::FSub: set(P.fbin(O_FSUB, V(0), V(1))); return;
      case Instruction::FMul: set(P.fbin(O_FMUL, V(0), V(1))); return;
      case Instruction::FDiv: set(P.fbin(O_FDIV, V(0), V(1))); return;
      case Instruction::FNeg: { E a = V(0); unsigned w = a->width; set(P.concat(P.bnot(P.extract(a, w - 1, 1)), P.extract(a, 0, w - 1))); return; }
      case Instruction::FPToSI: set(P.fconv(O_FP2SI, V(0), pi.w)); return;
      case Instruction::FPToUI: set(P.fconv(O_FP2UI, V(0), pi.w)); return;
      case Instruction::SIToFP: set(P.fconv(O_SI2FP, V(0), pi.w)); return;
      case Instruction::UIToFP: set(P.fconv(O_UI2FP, V(0), pi.w)); return;
      case Instruction::FPExt: { E f = V(0); // infinities and NaNs by bits (as the hardware does: sign and payload kept, quiet), the rest by the solver's floating point
        if (f->width != 32 || pi.w != 64 || ExprPool::isc(f)) { set(P.fconv(O_FPEXT, f, pi.w)); return; }
        E man = P.extract(f, 0, 23), quiet = P.ite(P.eq(man, P.c(0, 23)), P.c(0, 23), P.bor(man, P.c(1u << 22, 23)));
        E special = P.concat(P.extract(f, 31, 1), P.concat(P.c(0x7ff, 11), P.concat(quiet, P.c(0, 29))));
        set(P.ite(P.eq(P.extract(f, 23, 8), P.c(0xff, 8)), special, P.fconv(O_FPEXT, f, 64))); return; }
      case Instruction::FPTrunc: set(P.fconv(O_FPTRUNC, V(0), pi.w)); return;
      case Instruction::ExtractValue: { E a = V(0); for (auto i : cast<ExtractValueInst>(I)->indices()) a = (*a->tuple)[i]; set(a); return; }
      case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(I); auto idx = iv->getIndices(); E v = V(1);
        std::function<E(E, unsigned)> ins = [&](E t, unsigned d) -> E { if (d == idx.size()) return v; std::vector<E> k = *t->tuple; k[idx[d]] = ins(k[idx[d]], d + 1); return P.tuple(k); };
        set(ins(V(0), 0)); return; }
      case Instruction::Call: {
        auto* cb = cast<CallBase>(I); const Function* fn = pi.callee;
        if (fn && fn->getName().starts_with("llvm.dbg")) { f.pc++; return; }
        if (cb->isInlineAsm()) throw Unsupported("inline assembly");
        std::vector<E> a; size_t na = cb->arg_size(); for (size_t i = 0; i < na; i++) a.push_back(pi.ops[i].slot < 0 && !pi.ops[i].c ? nullptr : V(i));
        if (!fn) { uint64_t ad = concretize(s, V(na), "a call target"); auto it = byaddr.find(ad); if (it == byaddr.end()) die(s, "memory", "call through an invalid function pointer"); fn = it->second; }
        if (fn->isDeclaration()) {
          E r = external(s, pi, fn, a); Frame& g = s.st.back(); if (pi.dst >= 0) { if (!r) throw Unsupported("no result from " + fn->getName().str()); if (r->op != O_TUPLE && pi.w && r->width != pi.w) r = r->width > pi.w ? P.trunc(r, pi.w) : P.zext(r, pi.w); g.v[pi.dst] = r; } g.pc++; return;
        }
        std::vector<uint32_t> copies;
        for (size_t i = 0; i < na && i < fn->arg_size(); i++) if (cb->isByValArgument(i)) {
          uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(i)); uint32_t si; uint64_t so; access(s, a[i], n, false, si, so);
          uint32_t id = newobj(s, n, "byval"); ObjState* src = get(s, si); ObjState* o = getw(s, id); for (uint64_t k = 0; k < n; k++) o->b[k] = src->b[so + k];
          a[i] = P.c(obj_base(id), 64); copies.push_back(id);
        }
        push(s, fn, a, &pi); for (auto c : copies) s.st.back().allocas.push_back(c);
        return; }
      default: throw Unsupported(str("instruction ") + I->getOpcodeName());
    }
  }
  void run_to_end(State* s) {
    paths++;
    try {
      while (!s->st.empty()) {
        step(*s);
        if ((steps & 1023) == 0 && n_real && now_s() - t_viol > 20) { stopped = true; break; }
        if ((steps & 1023) == 0 && now_s() - t_start > t_limit) { incomplete = true; incomplete_why = "time limit"; break; }
      }
      if (s->st.empty()) { paths_done++; sample(*s); }
    } catch (PathEnd&) {} catch (Undecided&) { undecided++; }
    maxdepth = std::max<uint64_t>(maxdepth, s->pc.size());
    delete s;
  }
  int main(int argc, char** argv) {
    str bc, entry, out; t_start = now_s();
    for (int i = 1; i < argc; i++) { str a = argv[i];
      if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") { t_limit = atof(argv[++i]); S.deadline = t_start + t_limit; } else if (a == "--query-time") S.query_s = atof(argv[++i]); else if (a == "--max-steps") max_steps = atoll(argv[++i]);
      else if (a == "--param") { str p = argv[++i]; auto e = p.find('='); params[p.substr(0, e)] = atoll(p.substr(e + 1).c_str()); } else if (a == "--samples") nsamples = atoi(argv[++i]); else if (a == "--no-heap") noheap = true; else if (a == "--max-viol") max_viol = atoi(argv[++i]);
      else if (a == "--dump") S.dump_dir = argv[++i]; else if (a == "--dump-every") S.dump_every = atoi(argv[++i]); else bc = a; }
    SMDiagnostic err; M = parseIRFile(bc, err, ctx); if (!M) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 3; }
    DL = &M->getDataLayout(); str error;
    try {
      State* s = new State; uint64_t fa = 0x7000000000000000ull;
      for (auto& f : *M) { faddr[&f] = fa; byaddr[fa] = &f; fa += 16; }
      for (auto& g : M->globals()) { if (g.isDeclaration()) { gid[&g] = newobj(*s, 64, "external-global"); continue; } gid[&g] = newobj(*s, DL->getTypeAllocSize(g.getValueType()), g.getName().data()); }
      for (auto& g : M->globals()) if (g.isThreadLocal()) tls.insert(gid[&g]);
      for (auto& g : M->globals()) if (!g.isDeclaration()) { if (g.getName().starts_with("llvm.")) continue; auto* o = getw(*s, gid[&g]); initmem(o, 0, g.getInitializer()); o->ro = g.isConstant(); for (auto& b : o->b) if (!b) b = P.c(0, 8); }
      if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) {
        auto* fn = cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts()); push(*s, fn, {}, nullptr); while (!s->st.empty()) { if (s->st.size() == 1 && s->st.back().fi->code[s->st.back().pc].op == Instruction::Ret) { dopop(*s, nullptr); break; } step(*s); } }
      auto* ef = M->getFunction(entry); if (!ef || ef->isDeclaration()) throw Unsupported("no entry function " + entry);
      used.clear(); push(*s, ef, {}, nullptr); s->steps = 0; steps = 0; work.push_back(s);
      while (!work.empty()) {
        State* n = work.back(); work.pop_back(); run_to_end(n);
        if (incomplete) break;
        if (n_real && now_s() - t_viol > 20) { stopped = true; break; }
        if (n_real >= max_viol) { stopped = true; break; }
        if (paths >= max_paths) { incomplete = true; incomplete_why = "path limit"; break; }
      }
    } catch (Unsupported& e) { error = e.what(); } catch (std::exception& e) { error = str("exception: ") + e.what(); }
    if (undecided && !incomplete) { incomplete = true; incomplete_why = std::to_string(undecided) + " queries the solver did not decide in time"; }
    std::ofstream o(out); o << "{\n";
    o << "\"entry\":" << js(entry) << ",\"error\":" << js(error) << ",\"complete\":" << ((!incomplete && error.empty() && !stopped) ? "true" : "false") << ",\"incomplete_why\":" << js(incomplete_why) << ",\n";
    o << "\"paths\":" << paths << ",\"paths_completed\":" << paths_done << ",\"paths_assumed_away\":" << paths_assume << ",\"forks\":" << forks << ",\"enum_forks\":" << enum_forks << ",\"instructions\":" << steps << ",\"branches\":" << branches << ",\"loads\":" << loads << ",\"stores\":" << stores << ",\"asserts\":" << asserts << ",\"asserts_solver\":" << asserts_solver << ",\"max_constraints\":" << maxdepth << ",\n";
    o << "\"undecided\":" << undecided << ",\"queries\":" << S.n_query << ",\"sat\":" << S.n_sat << ",\"unsat\":" << S.n_unsat << ",\"cache_hits\":" << S.n_cache << ",\"pool_hits\":" << S.n_pool << ",\"fallbacks\":" << S.n_fallback << ",\"solver_s\":" << S.solver_time << ",\"max_query_s\":" << S.max_query << ",\"input_bytes\":" << insyms.size() << ",\"wall_s\":" << now_s() - t_start << ",\n";
    o << "\"covers\":{"; bool first = true; for (auto& c : covers) { o << (first ? "" : ",") << js(c.first) << ":" << c.second; first = false; } o << "},\n";
    o << "\"functions\":["; first = true; for (auto* f : used) { str file; unsigned line = 0; if (auto* sp = f->getSubprogram()) { file = sp->getFilename().str(); line = sp->getLine(); } o << (first ? "" : ",") << "[" << js(demangle(f->getName().str())) << "," << js(file) << "," << line << "]"; first = false; } o << "],\n";
    o << "\"samples\":["; first = true; for (auto& x : samples) { o << (first ? "" : ",") << x; first = false; } o << "],\n";
    o << "\"violations\":["; first = true;
    for (auto& v : viol) { o << (first ? "" : ",\n") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"stack\":["; for (size_t i = 0; i < v.stack.size(); i++) o << (i ? "," : "") << js(v.stack[i]); o << "],\"inputs\":["; for (size_t i = 0; i < v.in.size(); i++) o << (i ? "," : "") << "[" << js(v.in[i].first) << ",\"" << hex(v.in[i].second) << "\"]"; o << "]}"; first = false; }
    o << "]\n}\n"; o.close();
    return error.empty() ? (n_real == 0 ? (incomplete ? 2 : 0) : 1) : 3;
  }
};

int main(int argc, char** argv) { auto* e = new Engine; int r = e->main(argc, argv); fflush(nullptr); _exit(r); }
