#include "exec.h"
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <thread>
static const u64 FUNC_BASE = 0x4000, GLOBAL_BASE = 0x10000000;

// ---------- loading ----------
void Exec::load(const std::string& file) { SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("sx", errs()); exit(3); } DL = &M->getDataLayout(); }
u64 tySize(const DataLayout* DL, Type* T) { return DL->getTypeAllocSize(T); }
void Exec::initGlobals(State& s) {
  u64 fa = FUNC_BASE; for (Function& F : *M) { FnInfo* f = new FnInfo; f->F = &F; f->dname = demangle(F.getName().str()); if (auto* sp = F.getSubprogram()) f->file = sp->getFilename().str(); fns[&F] = f; gaddr[&F] = fa; faddr[fa] = f; fa += 16; }
  u64 a = GLOBAL_BASE; std::vector<std::pair<GlobalVariable*, Obj*>> todo;
  for (GlobalVariable& G : M->globals()) { if (G.isThreadLocal()) continue; if (G.getName().starts_with("llvm.")) continue;
    u64 sz = tySize(DL, G.getValueType()); Obj* o = new Obj; o->base = a; o->size = sz; o->kind = K_GLOBAL; o->name = G.getName().str(); o->c.assign(sz, 0); o->st.assign(sz, 1); o->ro = G.isConstant() && G.hasInitializer();
    gaddr[&G] = a; u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 1); (void)al; a += (sz + 64 + 63) / 64 * 64; if (G.hasInitializer()) todo.push_back({&G, o}); else if (G.isDeclaration()) { bool so = G.getName() == "stdout", se = G.getName() == "stderr"; o->st.assign(sz, G.getName() == "__libc_single_threaded" || so || se ? 1 : 0); if (so || se) o->c.assign(sz, so ? 0x11 : 0x12); /* opaque streams */ }
    if (o->ro) ro.push_back({o->base, ObjRef(o)}); else s.mem.push_back({o->base, ObjRef(o)}); }
  for (GlobalAlias& A : M->aliases()) { if (auto* f = dyn_cast<Function>(A.getAliaseeObject())) gaddr[&A] = gaddr[f]; else if (auto* g = dyn_cast<GlobalVariable>(A.getAliaseeObject())) gaddr[&A] = gaddr[g]; }
  for (auto& t : todo) initConst(t.second, 0, t.first->getInitializer());
  s.nextAddr = (a + 0xfffff) / 0x100000 * 0x100000; }
void Exec::initConst(Obj* o, u64 off, Constant* C) {
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + L->getElementOffset(i), cs->getOperand(i)); return; }
  if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) { Type* et = C->getOperand(0)->getType(); u64 es = tySize(DL, et); for (unsigned i = 0; i < C->getNumOperands(); i++) initConst(o, off + i * es, cast<Constant>(C->getOperand(i))); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { u64 es = tySize(DL, cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initConst(o, off + i * es, cd->getElementAsConstant(i)); return; }
  Val v = constVal(C); storeC(o, off, v.e, DL->getTypeStoreSize(T)); }
Val Exec::constVal(Constant* C, Type* T0) {
  Val r; Type* T = T0 ? T0 : C->getType();
  if (auto* ci = dyn_cast<ConstantInt>(C)) { const APInt& a = ci->getValue(); if (a.getBitWidth() > 128) { r.e = nullptr; return r; } u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; r.e = mkConst(v, a.getBitWidth()); return r; }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { APInt a = cf->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0]; if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64; r.e = mkConst(v, a.getBitWidth()); return r; }
  if (isa<ConstantPointerNull>(C)) { r.e = mkConst(0, 64); return r; }
  if (auto* gv = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(gv); r.e = mkConst(it == gaddr.end() ? 0 : it->second, 64); return r; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantTargetNone>(C)) return zeroVal(T);
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { Val b = constVal(ce->getOperand(0)); APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { r.e = mkAdd(b.e, mkConst(off.getZExtValue(), 64)); return r; } return zeroVal(T); }
    if (ce->isCast()) { Val b = constVal(ce->getOperand(0)); unsigned w = T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits(); if (b.e) { if (ce->getOpcode() == Instruction::SExt) r.e = mkSExt(b.e, w); else r.e = b.e->w > w ? mkExtract(b.e, 0, w) : mkZExt(b.e, w); } return r; }
    if (ce->getNumOperands() == 2) { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); if (ce->getOpcode() == Instruction::ICmp) { auto* x = ce; bool eq = x->getPredicate() == CmpInst::ICMP_EQ; r.e = eq ? mkEq(a.e, b.e) : mkNot(mkEq(a.e, b.e)); return r; } return binop(ce->getOpcode(), a, b, T); }
    return zeroVal(T); }
  r.agg = new std::vector<Val>; 
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(constVal(cd->getElementAsConstant(i))); return r; }
  for (unsigned i = 0; i < C->getNumOperands(); i++) if (auto* o = dyn_cast<Constant>(C->getOperand(i))) r.agg->push_back(constVal(o));
  return r; }
Val Exec::zeroVal(Type* T) { Val r; if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return r; if (auto* st = dyn_cast<StructType>(T)) { r.agg = new std::vector<Val>; for (auto* e : st->elements()) r.agg->push_back(zeroVal(e)); return r; } if (auto* at = dyn_cast<ArrayType>(T)) { r.agg = new std::vector<Val>; for (u64 i = 0; i < at->getNumElements(); i++) r.agg->push_back(zeroVal(at->getElementType())); return r; } if (auto* vt = dyn_cast<FixedVectorType>(T)) { r.agg = new std::vector<Val>; for (u64 i = 0; i < vt->getNumElements(); i++) r.agg->push_back(zeroVal(vt->getElementType())); return r; }
  unsigned w = T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits(); if (!w || w > 128) return r; r.e = mkConst(0, w); return r; }
FnInfo* Exec::info(Function* F) { FnInfo* f = fns[F]; if (f && !f->prepared && !F->isDeclaration()) prepare(f); return f; }
void Exec::prepare(FnInfo* f) {
  f->prepared = true; Function& F = *f->F; DenseMap<Value*, int> num; DenseMap<BasicBlock*, int> bn; int n = 0; for (auto& A : F.args()) num[&A] = n++; f->nargs = n; int b = 0;
  for (auto& B : F) { bn[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) num[&I] = n++; } f->nregs = n;
  auto op = [&](Value* v) { Opnd o; if (auto* C = dyn_cast<Constant>(v)) { o.c = constVal(C); } else { auto it = num.find(v); if (it != num.end()) o.reg = it->second; } return o; };
  for (auto& B : F) { PBlock pb; for (auto* P : predecessors(&B)) pb.preds.push_back(P);
    for (auto& I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; PInst p; p.I = &I; p.opc = I.getOpcode(); p.preempt = isPreemptPoint(&I); p.plain = isPlainPoint(&I); p.ty = I.getType(); if (!I.getType()->isVoidTy()) p.dst = num[&I];
      if (auto* ph = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { p.ops.push_back(op(ph->getIncomingValue(i))); p.succ.push_back(bn[ph->getIncomingBlock(i)]); } }
      else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) p.ops.push_back(op(br->getCondition())); for (unsigned i = 0; i < br->getNumSuccessors(); i++) p.succ.push_back(bn[br->getSuccessor(i)]); }
      else if (auto* sw = dyn_cast<SwitchInst>(&I)) { p.ops.push_back(op(sw->getCondition())); p.succ.push_back(bn[sw->getDefaultDest()]); for (auto c : sw->cases()) { p.ops.push_back(op(c.getCaseValue())); p.succ.push_back(bn[c.getCaseSuccessor()]); } }
      else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { p.ops.push_back(op(g->getPointerOperand())); for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value* ix = it.getOperand(); if (auto* st = it.getStructTypeOrNull()) p.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 es = tySize(DL, it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) p.gepOff += (u64)ci->getSExtValue() * es; else { p.gepIdx.push_back({(int)p.ops.size(), es}); p.ops.push_back(op(ix)); } } } }
      else if (auto* cb = dyn_cast<CallBase>(&I)) { for (auto& A : cb->args()) { if (isa<MetadataAsValue>(A.get())) p.ops.push_back(Opnd()); else p.ops.push_back(op(A.get())); } p.ops.push_back(op(cb->getCalledOperand()));
        if (auto* F2 = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) { p.callee = fns[F2]; p.extname = F2->getName().str(); }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) p.succ.push_back(bn[iv->getNormalDest()]); }
      else for (auto& o : I.operands()) p.ops.push_back(op(o.get()));
      pb.insts.push_back(p); }
    f->blocks.push_back(pb); } }

// ---------- memory ----------
static Obj* findIn(std::vector<std::pair<u64, ObjRef>>& v, u64 addr) { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].first <= addr) lo = m + 1; else hi = m; } if (!lo) return nullptr; Obj* o = v[lo - 1].second.o; return addr <= o->base + o->size && (addr < o->base + o->size || o->size == 0 || addr == o->base + o->size) ? o : nullptr; }
Obj* Exec::find(State& s, u64 a, bool& isRo) { isRo = false; Obj* o = findIn(s.mem, a); if (o && (a < o->base + o->size || (o->size == 0 && a == o->base))) return o; Obj* r = findIn(ro, a); if (r && a < r->base + r->size) { isRo = true; return r; } return o; }
static bool g_dedup = false;
static inline u64 mix64(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static void dgByte(Obj* o, u64 i) { u8 st = o->st[i]; if (st == (o->zinit ? 1 : 0) && (st == 0 || o->c[i] == 0)) return; u64 x = (i << 34) ^ ((u64)st << 32) ^ (st == 2 ? (u64)o->s[i]->id : st == 1 ? o->c[i] : 0); u64 h = mix64(x + 0x9e3779b97f4a7c15ull); o->dg[0] ^= h; o->dg[1] ^= mix64(h + 0x1234567ull); }
static inline void dg(Obj* o, u64 off, u64 n) { if (g_dedup) for (u64 i = 0; i < n; i++) dgByte(o, off + i); }
Obj* Exec::writable(State& s, u64 base) { size_t lo = 0, hi = s.mem.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (s.mem[m].first <= base) lo = m + 1; else hi = m; } ObjRef& r = s.mem[lo - 1].second; if (r->rc > 1) { Obj* n = new Obj(*r.o); n->rc = 0; r = ObjRef(n); } return r.o; }
// When states are merged, each thread allocates from address ranges of its own (and reuses its stack), so that addresses do not depend
// on how the threads' steps were interleaved.
u64 Exec::alloc(State& s, u64 size, u8 kind, const std::string& name, bool zero) { Obj* o = new Obj; u64* at = &s.nextAddr; if (dedup && !s.th.empty() && s.th[s.cur].heap) { Thread& t = s.th[s.cur]; at = kind == K_STACK ? &t.sp : &t.heap; }
  o->base = *at; o->size = size; o->kind = kind; o->name = name; o->c.assign(size, 0); o->st.assign(size, zero ? 1 : 0); o->zinit = zero; *at += (size + 63) / 32 * 32 + 64; u64 b = o->base; if (s.mem.empty() || s.mem.back().first < b) s.mem.push_back({b, ObjRef(o)}); else s.mem.insert(std::upper_bound(s.mem.begin(), s.mem.end(), b, [](u64 x, const std::pair<u64, ObjRef>& y) { return x < y.first; }), {b, ObjRef(o)}); return b; }
void Exec::freeObj(State& s, u64 base) { size_t lo = 0, hi = s.mem.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (s.mem[m].first < base) lo = m + 1; else hi = m; } if (lo < s.mem.size() && s.mem[lo].first == base) s.mem.erase(s.mem.begin() + lo); }
E Exec::loadByte(State& s, Obj*& o, u64 off) { if (o->st[off] == 1) return mkConst(o->c[off], 8); if (o->st[off] == 2) return o->s[off];
  Obj* w = o; bool isro; if (find(s, o->base, isro) == o && !isro) { w = writable(s, o->base); o = w; } E v = mkVar("uninit", 8, 1); u32 vi = (u32)v->v; (void)vi; if (w->s.empty()) w->s.assign(w->size, nullptr); dg(w, off, 1); w->s.w(off) = v; w->st.w(off) = 2; dg(w, off, 1); return v; }
E Exec::loadC(State& s, Obj*& o, u64 off, unsigned n) { bool allc = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { allc = false; break; } if (allc) { u128 v = 0; for (unsigned i = n; i-- > 0;) v = v << 8 | o->c[off + i]; return mkConst(v, n * 8); }
  E r = loadByte(s, o, off + n - 1); for (unsigned i = n - 1; i-- > 0;) r = mkConcat(r, loadByte(s, o, off + i)); return r; }
void Exec::storeC(Obj* o, u64 off, E v, unsigned n) { if (v->w < n * 8) v = mkZExt(v, n * 8); dg(o, off, n); if (v->isConst()) { u128 x = v->v; for (unsigned i = 0; i < n; i++) { o->c.w(off + i) = (u8)x; x >>= 8; o->st.w(off + i) = 1; } dg(o, off, n); return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr); for (unsigned i = 0; i < n; i++) { E b = mkExtract(v, i * 8, 8); if (b->isConst()) { o->c.w(off + i) = (u8)b->v; o->st.w(off + i) = 1; } else { o->s.w(off + i) = b; o->st.w(off + i) = 2; } } dg(o, off, n); }
std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
bool Exec::resolve(State& s, E addr, u64 n, Obj*& o, E& off, const char* what) {
  addr = substExpr(addr, s.fixed); bool isRo;
  if (addr->isConst()) { u64 a = (u64)addr->v; o = find(s, a, isRo); if (!o || a < o->base || a - o->base > o->size || n > o->size - (a - o->base)) {
      std::string m = std::string(what) + " of " + std::to_string(n) + " bytes "; if (o) m += "out of bounds of " + o->name + " (offset " + std::to_string((int64_t)(a - o->base)) + ", size " + std::to_string(o->size) + ")"; else if (a < 0x1000) m += "through null pointer"; else m += "at unmapped or freed address";
      violation(s, "memory", m); kill(s); return false; } off = mkConst(a - o->base, 64); return true; }
  u64 a = (u64)evalExpr(addr, *s.model); o = find(s, a, isRo);
  if (!o || a - o->base > o->size || n > o->size - (a - o->base)) { violation(s, "memory", std::string(what) + " of " + std::to_string(n) + " bytes at a symbolic address outside every object" + (o ? " (near " + o->name + ", size " + std::to_string(o->size) + ")" : ""), s.model); 
    // the other values of this address may be fine: explore them in a sibling
    E bad = mkEq(addr, mkConst(a, 64)); ModelRef m2; if (feasible(s, mkNot(bad), m2)) { addC(s, mkNot(bad)); s.model = m2; if (viol.size() < maxViol) return resolve(s, addr, n, o, off, what); } kill(s); return false; }
  off = mkBin(O_SUB, addr, mkConst(o->base, 64)); E inb = mkBin(O_ULE, off, mkConst(o->size - n, 64)); if (!decide(s, inb)) abort(); off = substExpr(off, s.fixed); return true; }
static E muxRange(std::vector<E>& v, E idx, unsigned bit, size_t lo, size_t cnt) { // v[lo .. lo+2^bit)
  if (bit == 0) return v[std::min(lo, v.size() - 1)]; size_t half = (size_t)1 << (bit - 1); if (lo + half >= v.size()) return muxRange(v, idx, bit - 1, lo, half);
  E a = muxRange(v, idx, bit - 1, lo, half), b = muxRange(v, idx, bit - 1, lo + half, half); return mkIte(mkExtract(idx, bit - 1, 1), b, a); }
E Exec::loadBytes(State& s, Obj* o, E off, unsigned n) {
  if (off->isConst()) return loadC(s, o, (u64)off->v, n);
  unsigned tz = std::min(knownTZ(off), 6u); u64 step = 1ull << tz; u64 maxOff = o->size - n; u128 um = umaxOf(off); if (um < maxOff) maxOff = (u64)um; u64 cnt = maxOff / step + 1;
  if (cnt > 2048) { u64 c = concretize(s, off); return loadC(s, o, c, n); }
  std::vector<E> vals; for (u64 i = 0; i < cnt; i++) vals.push_back(loadC(s, o, i * step, n)); unsigned bits = 0; while (((u64)1 << bits) < cnt) bits++;
  E idx = bits ? mkExtract(off, tz, bits) : nullptr;
  if (idx && cnt >= 64 && n <= 8) { bool allc = true; for (E x : vals) if (!x->isConst()) { allc = false; break; } if (allc) { std::vector<u64> t; for (E x : vals) t.push_back((u64)x->v); return mkTab(t, n * 8, idx); } }
  return muxRange(vals, idx, bits, 0, cnt); }
bool Exec::load(State& s, E addr, Type* T, Val& out) {
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) { out.agg = new std::vector<Val>; u64 n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (u64 i = 0; i < n; i++) { Type* et = T->isStructTy() ? T->getStructElementType(i) : T->getContainedType(0); u64 o = T->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * tySize(DL, et); Val v; if (!load(s, mkAdd(addr, mkConst(o, 64)), et, v)) return false; out.agg->push_back(v); } return true; }
  unsigned n = DL->getTypeStoreSize(T); unsigned w = T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits(); if (!w || w > 128) { unsup(s, "load type"); return false; }
  Obj* o; E off; if (!resolve(s, addr, n, o, off, "load")) return false;
  E v = loadBytes(s, o, off, n); out.e = w < v->w ? mkExtract(v, 0, w) : v; return true; }
bool Exec::store(State& s, E addr, Type* T, Val v) {
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) { if (!v.agg) { unsup(s, "agg store"); return false; } for (u64 i = 0; i < v.agg->size(); i++) { Type* et = T->isStructTy() ? T->getStructElementType(i) : T->getContainedType(0); u64 o = T->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * tySize(DL, et); if (!store(s, mkAdd(addr, mkConst(o, 64)), et, (*v.agg)[i])) return false; } return true; }
  unsigned n = DL->getTypeStoreSize(T); if (!v.e) { unsup(s, "store of non-scalar"); return false; }
  Obj* o; E off; if (!resolve(s, addr, n, o, off, "store")) return false; if (o->ro) { violation(s, "memory", "store to read-only object " + o->name); kill(s); return false; }
  E x = v.e->w < n * 8 ? mkZExt(v.e, n * 8) : v.e;
  u64 c = off->isConst() ? (u64)off->v : 0;
  if (!off->isConst()) { unsigned tz = std::min(knownTZ(off), 6u); u64 step = 1ull << tz; u64 maxOff = o->size - n; u128 um = umaxOf(off); if (um < maxOff) maxOff = (u64)um; u64 cnt = maxOff / step + 1; 
    if (cnt <= 16 && step >= n) { Obj* w = writable(s, o->base); for (u64 i = 0; i < cnt; i++) { Obj* w2 = w; E old = loadC(s, w2, i * step, n); w = w2; storeC(w, i * step, mkIte(mkEq(off, mkConst(i * step, 64)), x, old), n); } return true; }
    c = concretize(s, off); }
  storeC(writable(s, o->base), c, x, n); return true; }

// ---------- constraints and forking ----------
State* Exec::clone(State& s) { State* n = new State(s); n->id = ++nstates; forks++; n->forks++; s.forks++; return n; }
void Exec::addC(State& s, E c) {
  if (c->isTrue()) return; if (c->op == O_AND && c->w == 1) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  for (E p : s.pc) if (p == c) return; s.pc.push_back(c);
  auto fix = [&](E v, u128 x) { if (v->op == O_VAR) s.fixed[(u32)v->v] = mkConst(x, v->w); };
  auto bound = [&](E v, u128 mx) { if (v->op != O_VAR || v->w < 16) return; unsigned k = 1; while (k < v->w && (mx >> k)) k++; if (k + 4 >= v->w) return; auto it = s.fixed.find((u32)v->v); if (it != s.fixed.end() && (it->second->isConst() || it->second->k[0]->w <= k)) return; s.fixed[(u32)v->v] = mkZExt(mkExtract(v, 0, k), v->w); };
  if (c->op == O_ULE && c->k[1]->isConst()) bound(c->k[0], c->k[1]->v); if (c->op == O_ULT && c->k[1]->isConst() && c->k[1]->v) bound(c->k[0], c->k[1]->v - 1);
  if (c->op == O_EQ && c->k[1]->isConst()) fix(c->k[0], c->k[1]->v); else if (c->op == O_VAR) fix(c, 1); else if (c->op == O_XOR && c->w == 1 && c->k[0]->op == O_VAR && c->k[1]->isConst()) fix(c->k[0], 0); }
bool Exec::feasible(State& s, E c, ModelRef& m) {
  if (c->isTrue()) { m = s.model; return true; } if (c->isFalse()) return false; if (evalExpr(c, *s.model)) { m = s.model; return true; }
  std::vector<std::pair<u32, u128>> asg; Sat r = S.check(s.pc, c, asg); if (r == UNKNOWN) { incomplete.push_back("solver unknown at " + where(s)); return false; } if (r == UNSAT) return false;
  m = std::make_shared<Model>(*s.model); for (auto& a : asg) m->set(a.first, a.second); return true; }
bool Exec::decide(State& s, E c) {
  c = substExpr(c, s.fixed); if (c->isConst()) return c->v != 0; E nc = mkNot(c); for (E p : s.pc) { if (p == c) return true; if (p == nc) return false; }
  bool mv = evalExpr(c, *s.model) != 0; E other = mv ? nc : c; std::vector<std::pair<u32, u128>> asg; Sat r = S.check(s.pc, other, asg);
  if (r == UNKNOWN) incomplete.push_back("solver unknown at " + where(s));
  if (r == SAT) { State* n = clone(s); addC(*n, other); n->model = std::make_shared<Model>(*s.model); for (auto& a : asg) n->model->set(a.first, a.second); work.push_back(n); addC(s, mv ? c : nc); }
  return mv; }
u64 Exec::concretize(State& s, E e) {
  e = substExpr(e, s.fixed); if (e->isConst()) return (u64)e->v; u128 v = evalExpr(e, *s.model); E eq = mkEq(e, mkConst(v, e->w)); if (!decide(s, eq)) abort(); 
  addC(s, eq); return (u64)v; }
std::string Exec::where(State& s) { auto v = stackOf(s); for (auto& x : v) if (x.find("/usr/") == std::string::npos) return x; return v.empty() ? "?" : v[0]; }
std::vector<std::string> Exec::stackOf(State& s) { std::vector<std::string> r; auto& st = s.th[s.cur].st; for (size_t i = st.size(); i-- > 0;) { Frame& f = st[i]; if (f.bb >= f.f->blocks.size() || f.ip >= f.f->blocks[f.bb].insts.size()) continue; Instruction* I = f.f->blocks[f.bb].insts[f.ip].I; 
    if (auto dl = I->getDebugLoc()) { DILocation* L = dl.get(); while (L) { std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : f.f->dname; r.push_back(fn + " " + L->getFilename().str() + ":" + std::to_string(L->getLine())); L = L->getInlinedAt(); } } else r.push_back(f.f->dname); } return r; }
std::vector<std::pair<std::string, std::string>> Exec::evalInputs(State& s, const Model& m) { std::vector<std::pair<std::string, std::string>> r; for (auto& in : s.inputs) { std::string h; for (E e : in.vals) { u128 v = evalExpr(e, m); for (unsigned i = 0; i < e->w; i += 8) { char b[8]; snprintf(b, 8, "%02x", (unsigned)((v >> i) & 255)); h += b; } } r.push_back({in.name, h}); } return r; }
void Exec::violation(State& s, const std::string& kind, const std::string& msg, ModelRef m) {
  std::string loc = where(s); for (auto& v : viol) if (v.kind == kind && v.msg == msg && v.loc == loc) return; 
  Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackOf(s); v.inputs = evalInputs(s, m ? *m : *s.model); v.notes = s.notes; viol.push_back(v); if (viol.size() == 1) timeLimit = std::min(timeLimit, elapsed() + afterViol);   // the verdict is known: look for others only briefly
  if (verbose) { fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str()); for (auto& x : v.stack) fprintf(stderr, "    %s\n", x.c_str()); for (auto& x : v.inputs) fprintf(stderr, "  in %s=%s\n", x.first.c_str(), x.second.c_str()); } }
bool Exec::checkAssert(State& s, E c, const std::string& kind, const std::string& msg) {
  asserts++; c = substExpr(c, s.fixed); if (c->isTrue()) { assertsProved++; return true; } E nc = mkNot(c); ModelRef m;
  size_t inc0 = incomplete.size(); if (feasible(s, nc, m)) { violation(s, kind, msg, m); ModelRef m2; if (c->isFalse() || !feasible(s, c, m2)) { kill(s); return false; } addC(s, c); s.model = m2; return true; }
  if (incomplete.size() == inc0) assertsProved++; if (!c->isConst()) addC(s, c); return true; }
void Exec::unsup(State& s, const std::string& w) { std::string x = w + " @ " + where(s); if (unsupported.insert(x).second && verbose) { fprintf(stderr, "UNSUPPORTED %s\n", x.c_str()); for (auto& t : stackOf(s)) fprintf(stderr, "    %s\n", t.c_str()); } kill(s); }
std::string Exec::cstr(State& s, E p) { std::string r; p = substExpr(p, s.fixed); if (!p->isConst()) return "?"; bool isro; for (u64 a = (u64)p->v; r.size() < 400; a++) { Obj* o = find(s, a, isro); if (!o || a - o->base >= o->size || o->st[a - o->base] != 1) break; char ch = o->c[a - o->base]; if (!ch) break; r += ch; } return r; }

// ---------- instructions ----------
E Exec::flatten(Val v, Type* T) { if (v.e) return v.e; E r = nullptr; for (size_t i = v.agg->size(); i-- > 0;) { E x = flatten((*v.agg)[i], nullptr); r = r ? mkConcat(r, x) : x; } return r; }
Val Exec::unflatten(E e, Type* T) { Val r; if (auto* vt = dyn_cast<FixedVectorType>(T)) { r.agg = new std::vector<Val>; unsigned w = vt->getElementType()->isPointerTy() ? 64 : vt->getElementType()->getPrimitiveSizeInBits(); for (unsigned i = 0; i < vt->getNumElements(); i++) { Val x; x.e = mkExtract(e, i * w, w); r.agg->push_back(x); } return r; } r.e = e; return r; }
Val Exec::binop(unsigned opc, Val a, Val b, Type* T) { Val r; if (a.agg) { r.agg = new std::vector<Val>; for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(opc, (*a.agg)[i], (*b.agg)[i], T->isVectorTy() ? T->getContainedType(0) : T)); return r; }
  if (!a.e || !b.e) return r; Op o;
  switch (opc) { case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break; case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SRem: o = O_SREM; break;
    case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break; case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
    case Instruction::FAdd: r.e = mkFp(O_FADD, a.e, b.e, a.e->w); return r; case Instruction::FSub: r.e = mkFp(O_FSUB, a.e, b.e, a.e->w); return r; case Instruction::FMul: r.e = mkFp(O_FMUL, a.e, b.e, a.e->w); return r; case Instruction::FDiv: r.e = mkFp(O_FDIV, a.e, b.e, a.e->w); return r;
    default: return r; }
  r.e = mkBin(o, a.e, b.e); return r; }
static E icmp(CmpInst::Predicate p, E a, E b) { switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_ULT: return mkBin(O_ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(O_ULE, a, b); case CmpInst::ICMP_UGT: return mkBin(O_ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(O_ULE, b, a); case CmpInst::ICMP_SLT: return mkBin(O_SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(O_SLE, a, b); case CmpInst::ICMP_SGT: return mkBin(O_SLT, b, a); default: return mkBin(O_SLE, b, a); } }
static E fcmp(CmpInst::Predicate p, E a, E b) { E un = mkFp(O_FUNO, a, b, 1), lt = mkFp(O_FLT, a, b, 1), gt = mkFp(O_FLT, b, a, 1), eq = mkFp(O_FEQ, a, b, 1); bool inv = CmpInst::isUnordered(p); E r;
  switch (p) { case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue(); case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = eq; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkOr(lt, gt); break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = lt; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = gt; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkFp(O_FLE, a, b, 1); break; default: r = mkFp(O_FLE, b, a, 1); break; }
  return inv ? mkOr(un, r) : r; }
static unsigned tw(Type* T) { return T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits(); }
void Exec::jump(State& s, int target) { Frame& f = s.th[s.cur].st.back(); f.prev = f.bb; f.bb = target; f.ip = 0; PBlock& b = f.f->blocks[target]; std::vector<std::pair<int, Val>> upd; u32 n = 0;
  for (auto& p : b.insts) { if (p.opc != Instruction::PHI) break; n++; for (size_t i = 0; i < p.succ.size(); i++) if (p.succ[i] == (int)f.prev) { upd.push_back({p.dst, p.ops[i].reg >= 0 ? f.regs[p.ops[i].reg] : p.ops[i].c}); break; } }
  for (auto& u : upd) f.regs[u.first] = u.second; f.ip = n; }
void Exec::pushCall(State& s, FnInfo* f, std::vector<Val> args, int retDst, const CallBase* cb) {
  info(f->F); f->calls++; Frame fr; fr.f = f; fr.regs.resize(f->nregs); fr.retDst = retDst; fr.sp0 = s.th[s.cur].sp; 
  for (unsigned i = 0; i < f->nargs && i < args.size(); i++) { fr.regs[i] = args[i]; Argument* A = f->F->getArg(i); if (args[i].e && A->getType()->isIntegerTy() && args[i].e->w != A->getType()->getIntegerBitWidth() && args[i].e->w > 1) { unsigned aw = A->getType()->getIntegerBitWidth(); fr.regs[i].e = args[i].e->w < aw ? mkSExt(args[i].e, aw) : mkExtract(args[i].e, 0, aw); } if (A->hasByValAttr()) { u64 sz = tySize(DL, A->getParamByValType()); u64 na = alloc(s, sz, K_STACK, "byval"); fr.allocas.push_back(na); u64 src = concretize(s, args[i].e); Obj* so; E off; if (!resolve(s, mkConst(src, 64), sz, so, off, "byval copy")) return; for (u64 k = 0; k < sz; k++) { Obj* d = writable(s, na); bool isro; so = find(s, src, isro); u64 b = src - so->base + k; d->c.w(k) = so->c[b]; d->st.w(k) = so->st[b]; if (so->st[b] == 2) { if (d->s.empty()) d->s.assign(d->size, nullptr); d->s.w(k) = so->s[b]; } } fr.regs[i].e = mkConst(na, 64); } }
  if (f->F->isVarArg() && args.size() > f->nargs) { u64 cnt = args.size() - f->nargs; u64 a = alloc(s, cnt * 8, K_STACK, "varargs"); fr.va = a; fr.allocas.push_back(a); for (u64 i = 0; i < cnt; i++) { E v = args[f->nargs + i].e; if (!v) continue; Obj* d = writable(s, a); storeC(d, i * 8, v->w < 64 ? mkZExt(v, 64) : v->w > 64 ? mkExtract(v, 0, 64) : v, 8); } }
  auto& st = s.th[s.cur].st; if (st.size() > 400) { violation(s, "recursion", "call depth exceeds 400 frames (unbounded recursion)"); kill(s); return; } st.push_back(std::move(fr)); }
void Exec::doReturn(State& s, Val v) { auto& t = s.th[s.cur]; Frame& f = t.st.back(); for (u64 a : f.allocas) freeObj(s, a); if (f.sp0) t.sp = f.sp0; t.st.pop_back(); 
  if (t.st.empty()) { if (!s.boot.empty()) { FnInfo* b = s.boot.front(); s.boot.erase(s.boot.begin()); pushCall(s, b, {}, -1, nullptr); return; } t.done = true; s.progress++; return; }
  Frame& c = t.st.back(); PInst& ci = c.f->blocks[c.bb].insts[c.ip]; if (ci.dst >= 0) c.regs[ci.dst] = v; if (ci.opc == Instruction::Invoke) jump(s, ci.succ[0]); else c.ip++; }
bool Exec::step(State& s) {
  Thread& t = s.th[s.cur]; Frame& f = t.st.back(); PInst& p = f.f->blocks[f.bb].insts[f.ip]; s.steps++; steps++;
  if (p.preempt) { if (s.preemptLeft > 0 && !preempt(s)) return true; s.th[s.cur].preDone = false; s.th[s.cur].armed = true; }
  else if (p.plain && t.armed && s.preemptLeft > 0 && s.th.size() > 1) { E a = substExpr(getE(s, p.ops[p.opc == Instruction::Load ? 0 : 1]), s.fixed); bool ro = false; Obj* o = a->isConst() ? find(s, (u64)a->v, ro) : nullptr; if (a->isConst() && o && !ro && o->kind != K_STACK && o->name.compare(0, 4, "tls ")) { if (!preempt(s)) return true; s.th[s.cur].preDone = s.th[s.cur].armed = false; } }
  switch (p.opc) {
  case Instruction::Ret: doReturn(s, p.ops.empty() ? Val() : get(s, p.ops[0])); return !s.dead;
  case Instruction::Br: if (p.succ.size() == 1) { jump(s, p.succ[0]); return true; } { E c = getE(s, p.ops[0]); bool d = decide(s, c); jump(s, d ? p.succ[0] : p.succ[1]); } return !s.dead;
  case Instruction::Switch: { E v = getE(s, p.ops[0]); v = substExpr(v, s.fixed); if (v->isConst()) { int tgt = p.succ[0]; for (size_t i = 1; i < p.ops.size(); i++) if (p.ops[i].c.e == v) { tgt = p.succ[i]; break; } jump(s, tgt); return true; }
    for (size_t i = 1; i < p.ops.size(); i++) { if (decide(s, mkEq(v, p.ops[i].c.e))) { jump(s, p.succ[i]); return true; } } jump(s, p.succ[0]); return true; }
  case Instruction::Unreachable: violation(s, "unreachable", "control reached an unreachable point (undefined behaviour or missing return)"); kill(s); return false;
  case Instruction::Call: case Instruction::Invoke: return doCall(s, p);
  case Instruction::Alloca: { auto* A = cast<AllocaInst>(p.I); u64 n = concretize(s, getE(s, p.ops[0])); u64 sz = n * tySize(DL, A->getAllocatedType()); if (sz > (64u << 20)) { unsup(s, "huge alloca"); return false; } u64 a = alloc(s, sz, K_STACK, "stack variable " + A->getName().str() + " of " + f.f->F->getName().str()); s.th[s.cur].st.back().allocas.push_back(a); set(s, p, mkConst(a, 64)); break; }
  case Instruction::Load: { Val v; auto* L = cast<LoadInst>(p.I); E addr = getE(s, p.ops[0]); 
    if (!load(s, addr, p.ty, v)) return false; (void)L; set(s, p, v); break; }
  case Instruction::Store: if (!store(s, getE(s, p.ops[1]), p.I->getOperand(0)->getType(), get(s, p.ops[0]))) return false; break;
  case Instruction::GetElementPtr: { Val b = get(s, p.ops[0]); if (b.agg) { unsup(s, "vector gep"); return false; } E a = b.e; if (p.gepOff) a = mkAdd(a, mkConst(p.gepOff, 64)); for (auto& g : p.gepIdx) { E i = getE(s, p.ops[g.first]); if (!i) { unsup(s, "vector gep index"); return false; } if (i->w < 64) i = mkSExt(i, 64); a = mkAdd(a, mkBin(O_MUL, i, mkConst(g.second, 64))); } set(s, p, a); break; }
  case Instruction::ICmp: { auto pr = cast<ICmpInst>(p.I)->getPredicate(); Val a = get(s, p.ops[0]), b = get(s, p.ops[1]); if (a.agg) { Val r; r.agg = new std::vector<Val>; for (size_t i = 0; i < a.agg->size(); i++) { Val x; x.e = icmp(pr, (*a.agg)[i].e, (*b.agg)[i].e); r.agg->push_back(x); } set(s, p, r); } else set(s, p, icmp(pr, a.e, b.e)); break; }
  case Instruction::FCmp: { auto pr = cast<FCmpInst>(p.I)->getPredicate(); Val a = get(s, p.ops[0]), b = get(s, p.ops[1]); if (a.agg) { Val r; r.agg = new std::vector<Val>; for (size_t i = 0; i < a.agg->size(); i++) { Val x; x.e = fcmp(pr, (*a.agg)[i].e, (*b.agg)[i].e); r.agg->push_back(x); } set(s, p, r); break; } set(s, p, fcmp(pr, a.e, b.e)); break; }
  case Instruction::Select: { Val c = get(s, p.ops[0]), a = get(s, p.ops[1]), b = get(s, p.ops[2]); if (c.agg) { Val r; r.agg = new std::vector<Val>; for (size_t i = 0; i < c.agg->size(); i++) { Val x; x.e = mkIte((*c.agg)[i].e, (*a.agg)[i].e, (*b.agg)[i].e); r.agg->push_back(x); } set(s, p, r); break; } if (a.agg) { bool d = decide(s, c.e); set(s, p, d ? a : b); break; } E ce = substExpr(c.e, s.fixed); if (!ce->isConst() && selectFork && a.e->w == 64 && a.e != b.e) { bool d = decide(s, ce); set(s, p, d ? a : b); break; } set(s, p, mkIte(ce, a.e, b.e)); break; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = get(s, p.ops[0]); auto cv = [&](E x, unsigned w) { return p.opc == Instruction::SExt ? mkSExt(x, w) : w < x->w ? mkExtract(x, 0, w) : mkZExt(x, w); }; if (a.agg) { Val r; r.agg = new std::vector<Val>; unsigned w = tw(p.ty->getContainedType(0)); for (auto& x : *a.agg) { Val y; y.e = cv(x.e, w); r.agg->push_back(y); } set(s, p, r); break; } if (tw(p.ty) > 128 || !a.e) { unsup(s, "wide integer"); return false; } set(s, p, cv(a.e, tw(p.ty))); break; }
  case Instruction::BitCast: { Val a = get(s, p.ops[0]); if (a.e && !p.ty->isVectorTy()) { set(s, p, a); break; } u64 tot = p.I->getOperand(0)->getType()->getPrimitiveSizeInBits(); if (tot > 128) { unsup(s, "wide bitcast"); return false; } set(s, p, unflatten(flatten(a, nullptr), p.ty)); break; }
  case Instruction::Freeze: set(s, p, get(s, p.ops[0])); break;
  case Instruction::FPTrunc: case Instruction::FPExt: { E a = getE(s, p.ops[0]); if (!a || tw(p.ty) > 64 || a->w > 64) { unsup(s, "fp conversion"); return false; } set(s, p, mkFp(O_FTOF, a, nullptr, tw(p.ty))); break; }
  case Instruction::FPToSI: case Instruction::FPToUI: { E a = getE(s, p.ops[0]); if (!a || a->w > 64) { unsup(s, "fp conversion"); return false; } set(s, p, mkFp(p.opc == Instruction::FPToSI ? O_FTOSI : O_FTOUI, a, nullptr, tw(p.ty))); break; }
  case Instruction::SIToFP: case Instruction::UIToFP: { E a = getE(s, p.ops[0]); if (!a || tw(p.ty) > 64) { unsup(s, "fp conversion"); return false; } set(s, p, mkFp(p.opc == Instruction::SIToFP ? O_SITOF : O_UITOF, a, nullptr, tw(p.ty))); break; }
  case Instruction::FNeg: { E a = getE(s, p.ops[0]); if (!a) { unsup(s, "fneg"); return false; } set(s, p, mkBin(O_XOR, a, mkConst((u128)1 << (a->w - 1), a->w))); break; }
  case Instruction::ExtractValue: { Val v = get(s, p.ops[0]); for (unsigned i : cast<ExtractValueInst>(p.I)->indices()) { Val n = (*v.agg)[i]; v = n; } set(s, p, v); break; }
  case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(p.I); std::function<Val(Val, ArrayRef<unsigned>, Val)> ins = [&](Val a, ArrayRef<unsigned> ix, Val x) -> Val { if (ix.empty()) return x; Val r; r.agg = new std::vector<Val>(*a.agg); (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.slice(1), x); return r; }; set(s, p, ins(get(s, p.ops[0]), iv->getIndices(), get(s, p.ops[1]))); break; }
  case Instruction::ExtractElement: { Val v = get(s, p.ops[0]); u64 i = concretize(s, getE(s, p.ops[1])); if (i >= v.agg->size()) { unsup(s, "extractelement"); return false; } set(s, p, (*v.agg)[i]); break; }
  case Instruction::InsertElement: { Val v = get(s, p.ops[0]); u64 i = concretize(s, getE(s, p.ops[2])); Val r; r.agg = new std::vector<Val>(*v.agg); (*r.agg)[i] = get(s, p.ops[1]); set(s, p, r); break; }
  case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(p.I); Val a = get(s, p.ops[0]), b = get(s, p.ops[1]); Val r; r.agg = new std::vector<Val>; int n = a.agg->size(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? (*a.agg)[0] : m < n ? (*a.agg)[m] : (*b.agg)[m - n]); set(s, p, r); break; }
  case Instruction::Fence: break;
  case Instruction::AtomicCmpXchg: { auto* cx = cast<AtomicCmpXchgInst>(p.I); E addr = getE(s, p.ops[0]); Val ex = get(s, p.ops[1]), nw = get(s, p.ops[2]); Type* T = cx->getCompareOperand()->getType(); unsigned n = DL->getTypeStoreSize(T); Obj* o; E off; if (!resolve(s, addr, n, o, off, "cmpxchg")) return false; Val r; r.agg = new std::vector<Val>(2);
    E old = loadBytes(s, o, off, n); E eq = mkEq(old, ex.e); Val sv; sv.e = mkIte(eq, nw.e, old); (*r.agg)[0].e = old; (*r.agg)[1].e = eq; if (!store(s, addr, T, sv)) return false; set(s, p, r); break; }
  case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(p.I); E addr = getE(s, p.ops[0]); E v = getE(s, p.ops[1]); Type* T = rm->getValOperand()->getType(); unsigned n = DL->getTypeStoreSize(T); Obj* o; E off; if (!resolve(s, addr, n, o, off, "atomicrmw")) return false;
    E old = loadBytes(s, o, off, n); if (v->w < old->w) old = mkExtract(old, 0, v->w); E nv;
    switch (rm->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = mkBin(O_SUB, old, v); break; case AtomicRMWInst::And: nv = mkBin(O_AND, old, v); break; case AtomicRMWInst::Or: nv = mkBin(O_OR, old, v); break; case AtomicRMWInst::Xor: nv = mkBin(O_XOR, old, v); break; case AtomicRMWInst::UMax: nv = mkIte(mkBin(O_ULT, old, v), v, old); break; case AtomicRMWInst::UMin: nv = mkIte(mkBin(O_ULT, v, old), v, old); break; case AtomicRMWInst::Max: nv = mkIte(mkBin(O_SLT, old, v), v, old); break; case AtomicRMWInst::Min: nv = mkIte(mkBin(O_SLT, v, old), v, old); break; default: unsup(s, "atomicrmw op"); return false; }
    Val sv; sv.e = nv; if (!store(s, addr, T, sv)) return false; set(s, p, old); break; }
  case Instruction::LandingPad: case Instruction::Resume: unsup(s, "exception unwinding"); return false;
  default: { if (p.I->isBinaryOp()) { Val a = get(s, p.ops[0]), b = get(s, p.ops[1]); 
      if (a.e && a.e->w > 128) { unsup(s, "wide integer"); return false; }
      if (p.opc == Instruction::UDiv || p.opc == Instruction::SDiv || p.opc == Instruction::URem || p.opc == Instruction::SRem) { if (b.e && !b.e->isConst()) { if (!checkAssert(s, mkNot(mkEq(b.e, mkConst(0, b.e->w))), "arithmetic", "division by zero")) return false; } else if (b.e && b.e->v == 0) { violation(s, "arithmetic", "division by zero"); kill(s); return false; } }
      if (p.opc == Instruction::FRem) { unsup(s, "frem"); return false; }
      Val r = binop(p.opc, a, b, p.ty); if (!r.e && !r.agg) { unsup(s, std::string("binop ") + p.I->getOpcodeName()); return false; } set(s, p, r); break; }
    unsup(s, std::string("instruction ") + p.I->getOpcodeName()); return false; } }
  if (s.dead) return false; s.th[s.cur].st.back().ip++; return true; }
bool Exec::doCall(State& s, PInst& p) {
  auto* cb = cast<CallBase>(p.I); FnInfo* callee = p.callee; std::string name = p.extname;
  if (!callee) { if (cb->isInlineAsm()) { if (!p.ty->isVoidTy()) { unsup(s, "inline asm"); return false; } s.th[s.cur].st.back().ip++; return true; }
    E fp = getE(s, p.ops.back()); u64 a = concretize(s, fp); auto it = faddr.find(a); if (it == faddr.end()) { violation(s, "memory", a == 0 ? "call through null function pointer" : "call through invalid function pointer"); kill(s); return false; } callee = it->second; name = callee->F->getName().str(); }
  if (isa<IntrinsicInst>(p.I)) { if (!intrinsic(s, p)) return false; if (s.dead) return false; s.th[s.cur].st.back().ip++; return true; }
  if (callee->F->isDeclaration()) { // redirect libc call f to model sx_f
    if (name.rfind("sx_", 0) != 0) if (Function* R = M->getFunction("sx_" + name)) if (!R->isDeclaration()) { callee = fns[R]; name = R->getName().str(); } }
  if (callee->F->isDeclaration()) { int th = s.cur; size_t dep = s.th[s.cur].st.size(); if (!builtin(s, p, name)) return false; if (s.dead) return false; (void)dep; Thread& t = s.th[th]; Frame& f = t.st.back(); if (p.opc == Instruction::Invoke) { int c = s.cur; s.cur = th; jump(s, p.succ[0]); s.cur = c; } else f.ip++; return true; }
  std::vector<Val> args; for (size_t i = 0; i + 1 < p.ops.size(); i++) args.push_back(get(s, p.ops[i])); pushCall(s, callee, args, p.dst, cb); return !s.dead; }

// copy n concrete bytes between objects, preserving symbolic and uninitialised content
static bool copyBytes(Exec& X, State& s, E dst, E src, u64 n, bool disjoint) { if (!n) return true; Obj *so, *d; E so_, do_; 
  if (!X.resolve(s, src, n, so, so_, "memcpy read")) return false; u64 so0 = X.concretize(s, so_); if (!X.resolve(s, dst, n, d, do_, "memcpy write")) return false; u64 do0 = X.concretize(s, do_); if (d->ro) { X.violation(s, "memory", "memcpy into read-only object " + d->name); X.kill(s); return false; } if (disjoint && so->base == d->base && so0 != do0 && (so0 < do0 ? so0 + n > do0 : do0 + n > so0)) { X.violation(s, "memory", "memcpy between overlapping parts of " + d->name); X.kill(s); return false; }
  bool isro; u64 sb = so->base, db = d->base; 
  std::vector<u8> c = so->c.range(so0, n), st = so->st.range(so0, n); std::vector<E> sy; if (!so->s.empty()) sy = so->s.range(so0, n); (void)sb; (void)isro;
  Obj* w = X.writable(s, db); dg(w, do0, n); for (u64 i = 0; i < n; i++) { w->c.w(do0 + i) = c[i]; w->st.w(do0 + i) = st[i]; if (st[i] == 2) { if (w->s.empty()) w->s.assign(w->size, nullptr); w->s.w(do0 + i) = sy[i]; } } dg(w, do0, n); return true; }
static bool setBytes(Exec& X, State& s, E dst, E b, u64 n) { if (!n) return true; Obj* d; E off; if (!X.resolve(s, dst, n, d, off, "memset")) return false; u64 o = X.concretize(s, off); if (d->ro) { X.violation(s, "memory", "memset of read-only object"); X.kill(s); return false; } 
  Obj* w = X.writable(s, d->base); E v = mkExtract(b, 0, 8); for (u64 i = 0; i < n; i++) X.storeC(w, o + i, v, 1); return true; }
bool Exec::intrinsic(State& s, PInst& p) {
  auto* II = cast<IntrinsicInst>(p.I); auto A = [&](int i) { return getE(s, p.ops[i]); };
  auto ovf = [&](E a, E b, int kind, bool sg) { unsigned w = a->w; E r, o; if (kind == 2 && w * 2 > 128) { // multiply overflow on 64-bit and narrower fits 128
      } unsigned W = std::min(128u, kind == 2 ? w * 2 : w + 1); E x = sg ? mkSExt(a, W) : mkZExt(a, W), y = sg ? mkSExt(b, W) : mkZExt(b, W); E z = mkBin(kind == 0 ? O_ADD : kind == 1 ? O_SUB : O_MUL, x, y); r = mkExtract(z, 0, w); o = mkNot(mkEq(z, sg ? mkSExt(r, W) : mkZExt(r, W))); Val v; v.agg = new std::vector<Val>(2); (*v.agg)[0].e = r; (*v.agg)[1].e = o; set(s, p, v); };
  std::function<Val(Val, Val, const std::function<E(E, E)>&)> mapv = [&](Val a, Val b, const std::function<E(E, E)>& fn) -> Val { Val r; if (a.agg) { r.agg = new std::vector<Val>; for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(mapv((*a.agg)[i], b.agg ? (*b.agg)[i] : b, fn)); } else r.e = fn(a.e, b.e); return r; };
  auto map2 = [&](const std::function<E(E, E)>& fn) { set(s, p, mapv(get(s, p.ops[0]), p.ops.size() > 2 ? get(s, p.ops[1]) : Val(), fn)); };
  switch (II->getIntrinsicID()) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(s, A(2)); return copyBytes(*this, s, A(0), A(1), n, II->getIntrinsicID() != Intrinsic::memmove); }
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(s, A(2)); return setBytes(*this, s, A(0), A(1), n); }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::sideeffect:  return true;
  case Intrinsic::invariant_start: set(s, p, mkConst(0, 64)); return true; case Intrinsic::invariant_end: return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: set(s, p, get(s, p.ops[0])); return true;
  case Intrinsic::is_constant: set(s, p, mkFalse()); return true;
  case Intrinsic::objectsize: set(s, p, mkConst(~0ull, tw(p.ty))); return true;
  case Intrinsic::uadd_with_overflow: ovf(A(0), A(1), 0, false); return true; case Intrinsic::usub_with_overflow: ovf(A(0), A(1), 1, false); return true; case Intrinsic::umul_with_overflow: ovf(A(0), A(1), 2, false); return true;
  case Intrinsic::sadd_with_overflow: ovf(A(0), A(1), 0, true); return true; case Intrinsic::ssub_with_overflow: ovf(A(0), A(1), 1, true); return true; case Intrinsic::smul_with_overflow: ovf(A(0), A(1), 2, true); return true;
  case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: if (selectFork && tw(p.ty) == 64 && !p.ty->isVectorTy()) { E a = A(0), b = A(1); bool sg = II->getIntrinsicID() == Intrinsic::smin || II->getIntrinsicID() == Intrinsic::smax, mx = II->getIntrinsicID() == Intrinsic::umax || II->getIntrinsicID() == Intrinsic::smax; E lt = mkBin(sg ? O_SLT : O_ULT, a, b); bool d = decide(s, lt); set(s, p, d != mx ? a : b); return true; }
    if (II->getIntrinsicID() == Intrinsic::umin) map2([](E a, E b) { return mkIte(mkBin(O_ULT, a, b), a, b); }); else if (II->getIntrinsicID() == Intrinsic::umax) map2([](E a, E b) { return mkIte(mkBin(O_ULT, a, b), b, a); }); else if (II->getIntrinsicID() == Intrinsic::smin) map2([](E a, E b) { return mkIte(mkBin(O_SLT, a, b), a, b); }); else map2([](E a, E b) { return mkIte(mkBin(O_SLT, a, b), b, a); }); return true;
  case Intrinsic::usub_sat: map2([](E a, E b) { return mkIte(mkBin(O_ULT, a, b), mkConst(0, a->w), mkBin(O_SUB, a, b)); }); return true;
  case Intrinsic::uadd_sat: map2([](E a, E b) { E r = mkAdd(a, b); return mkIte(mkBin(O_ULT, r, a), mkConst(maskw(a->w), a->w), r); }); return true;
  case Intrinsic::abs: map2([](E a, E) { return mkIte(mkBin(O_SLT, a, mkConst(0, a->w)), mkBin(O_SUB, mkConst(0, a->w), a), a); }); return true;
  case Intrinsic::bswap: { E a = A(0); E r = nullptr; for (unsigned i = 0; i < a->w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } set(s, p, r); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: { E a = A(0), b = A(1), c = A(2); unsigned w = a->w; E sh = mkBin(O_UREM, c, mkConst(w, w)); if (w * 2 > 128) { E inv = mkBin(O_SUB, mkConst(w, w), sh); (void)inv; unsup(s, "wide funnel shift"); return false; } E cc = mkConcat(a, b); E s2 = mkZExt(sh, 2 * w); E r = II->getIntrinsicID() == Intrinsic::fshl ? mkExtract(mkBin(O_SHL, cc, s2), w, w) : mkExtract(mkBin(O_LSHR, cc, s2), 0, w); set(s, p, r); return true; }
  case Intrinsic::ctpop: { E a = A(0); E r = mkConst(0, a->w); for (unsigned i = 0; i < a->w; i++) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), a->w)); set(s, p, r); return true; }
  case Intrinsic::ctlz: { E a = A(0); E r = mkConst(a->w, a->w); for (unsigned i = 0; i < a->w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(a->w - 1 - i, a->w), r); set(s, p, r); return true; }
  case Intrinsic::cttz: { E a = A(0); E r = mkConst(a->w, a->w); for (unsigned i = a->w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, a->w), r); set(s, p, r); return true; }
  case Intrinsic::stacksave: set(s, p, mkConst(0, 64)); return true; case Intrinsic::stackrestore: return true;
  case Intrinsic::threadlocal_address: { auto* G = cast<GlobalVariable>(II->getArgOperand(0)->stripPointerCasts()); auto& tls = s.th[s.cur].tls; auto it = tls.find(G); if (it == tls.end()) { u64 sz = tySize(DL, G->getValueType()); u64 a = alloc(s, sz, K_GLOBAL, "tls " + G->getName().str(), true); if (G->hasInitializer()) initConst(writable(s, a), 0, G->getInitializer()); it = s.th[s.cur].tls.insert({G, a}).first; } set(s, p, mkConst(it->second, 64)); return true; }
  case Intrinsic::load_relative: { E q = A(0); Val v; if (!load(s, mkAdd(q, mkSExt(A(1), 64)), Type::getInt32Ty(p.I->getContext()), v)) return false; set(s, p, mkAdd(q, mkSExt(v.e, 64))); return true; }
  case Intrinsic::vastart: { u64 va = s.th[s.cur].st.back().va; u64 ap = concretize(s, A(0)); Obj* o; E off; if (!resolve(s, mkConst(ap, 64), 24, o, off, "va_start")) return false; u64 b = ap - o->base; Obj* w = writable(s, o->base); storeC(w, b, mkConst(48, 32), 4); storeC(w, b + 4, mkConst(176, 32), 4); storeC(w, b + 8, mkConst(va, 64), 8); storeC(w, b + 16, mkConst(0, 64), 8); return true; }
  case Intrinsic::vaend: return true;
  case Intrinsic::vacopy: return copyBytes(*this, s, A(0), A(1), 24, false);
  case Intrinsic::trap: violation(s, "trap", "llvm.trap reached"); kill(s); return false;
  case Intrinsic::fabs: { E a = A(0); set(s, p, mkBin(O_AND, a, mkConst(maskw(a->w) >> 1, a->w))); return true; }
  case Intrinsic::fmuladd: { E m = mkFp(O_FMUL, A(0), A(1), A(0)->w); set(s, p, mkFp(O_FADD, m, A(2), m->w)); return true; }
  case Intrinsic::eh_typeid_for: set(s, p, mkConst(1, 32)); return true;
  default: unsup(s, "intrinsic " + II->getCalledFunction()->getName().str()); return false; } }
// A scheduling decision: a symbolic variable, decided (and forked over) by the solver like any other input.
u64 Exec::schedChoice(State& s, u64 max, const char* name, u64 lo) {
  unsigned w = 1; while (w < 64 && (max >> w)) w++; E v;
  if (!s.evs.empty() && s.evs.back() < 0) v = g_exprs[-s.evs.back()];
  else { static std::map<u32, E> sv; E& cv = sv[s.nsched++ * 65 + w]; if (!cv) cv = mkVar("schedule", w, 3); v = cv; s.inputs.push_back({name, {mkAdd(mkZExt(v, 64), mkConst(lo, 64))}, 8}); s.evs.push_back(-(int)v->id); E c = mkBin(O_ULE, v, mkConst(max, w)); addC(s, c); if (!evalExpr(c, *s.model)) { s.model = std::make_shared<Model>(*s.model); s.model->set((u32)v->v, 0); } }
  u64 k = concretize(s, v); s.evs.pop_back();
  u32 vi = (u32)v->v; s.pc.erase(std::remove_if(s.pc.begin(), s.pc.end(), [&](E c) { return c->vs->v.size() == 1 && c->vs->v[0] == vi; }), s.pc.end()); s.fixed.erase(vi); return k; }   // spent: the model keeps the value
std::vector<int> Exec::runnable(State& s) { std::vector<int> cand; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && !s.th[i].done && !s.th[i].idle && s.th[i].blockedAt != s.progress) cand.push_back(i); return cand; }
// Digest of everything the future of a state depends on (scheduling inputs are spent once decided). A state reached twice has the
// same continuations, which were or are being explored from the first visit, so the second visit ends here.
// Registers whose value can still be read when execution continues at (bb, ip); the instruction at ip counts as still to be executed.
static const std::vector<int>& liveRegs(FnInfo* f, u32 bb, u32 ip) {
  auto it = f->liveAt.find((u64)bb << 32 | ip); if (it != f->liveAt.end()) return it->second; size_t W = (f->nregs + 63) / 64, nb = f->blocks.size();
  auto back = [&](std::vector<u64>& L, PInst& p) { if (p.dst >= 0) L[p.dst / 64] &= ~(1ull << p.dst % 64); if (p.opc != Instruction::PHI) for (auto& o : p.ops) if (o.reg >= 0) L[o.reg / 64] |= 1ull << o.reg % 64; };
  if (f->lout.empty()) { f->lout.assign(nb, std::vector<u64>(W, 0)); std::vector<std::vector<u64>> in(nb, std::vector<u64>(W, 0)); for (bool ch = true; ch;) { ch = false;
    for (size_t b = nb; b-- > 0;) { std::vector<u64> L(W, 0); auto& B = f->blocks[b]; if (!B.insts.empty() && B.insts.back().opc != Instruction::PHI) for (int t : B.insts.back().succ) { for (size_t k = 0; k < W; k++) L[k] |= in[t][k]; for (auto& p : f->blocks[t].insts) { if (p.opc != Instruction::PHI) break; for (size_t i = 0; i < p.succ.size(); i++) if (p.succ[i] == (int)b && p.ops[i].reg >= 0) L[p.ops[i].reg / 64] |= 1ull << p.ops[i].reg % 64; } }
      if (L != f->lout[b]) { f->lout[b] = L; ch = true; } for (size_t i = B.insts.size(); i-- > 0;) back(L, B.insts[i]); if (L != in[b]) { in[b] = L; ch = true; } } } }
  std::vector<u64> L = f->lout[bb]; auto& B = f->blocks[bb]; for (size_t i = B.insts.size(); i-- > ip;) back(L, B.insts[i]);
  if (ip < B.insts.size() && B.insts[ip].dst >= 0) { int d = B.insts[ip].dst; bool phi = B.insts[ip].opc == Instruction::PHI; if (phi) L[d / 64] |= 1ull << d % 64; }
  std::vector<int> r; for (unsigned i = 0; i < f->nregs; i++) if (L[i / 64] >> i % 64 & 1) r.push_back(i); return f->liveAt[(u64)bb << 32 | ip] = r; }
bool Exec::visited(State& s) {
  if (!dedup || !s.evs.empty()) return false; u64 a = 0, b = 0; auto add = [&](u64 x) { a = mix64(a ^ x) + 0x9e3779b97f4a7c15ull; b = mix64(b + (x ^ 0x5bd1e995)) * 31; };
  std::function<void(const Val&)> val = [&](const Val& v) { if (v.e) add(v.e->id); else add(~0ull); if (v.agg) { add(v.agg->size()); for (auto& x : *v.agg) val(x); } };
  u64 ma = 0, mb = 0; for (auto& m : s.mem) { u64 h = mix64(m.first * 3 + m.second->zinit + m.second->dg[0] * 7), g = mix64(m.first + m.second->dg[1] * 5 + m.second->kind); ma += h; mb += g; } add(ma); add(mb);
  add(s.cur); add(s.preemptLeft); add(s.freeSched); add(s.heapLive); add(s.nextAddr); add(s.boot.size());
  for (auto& t : s.th) { add(t.done | t.idle << 1 | t.preDone << 2 | (t.blockedAt == s.progress) << 3 | t.armed << 4); add(t.heap); add(t.sp); add(t.tls.size()); for (auto& x : t.tls) add(x.second); add(t.st.size()); for (auto& f : t.st) { add((u64)f.f); add(f.bb); add(f.ip); add(f.va); add(f.retDst); add(f.isInvoke); add(f.normalBB); for (u64 x : f.allocas) add(x); for (int r : liveRegs(f.f, f.bb, f.ip)) val(f.regs[r]); } }
  u64 pa = 0; for (E c : s.pc) { bool sched = true; if (c->vs) for (u32 v : c->vs->v) if (g_vars[v].kind != 3) { sched = false; break; } if (!sched) pa += mix64(c->id + 77); } add(pa);
  auto it = seen.insert({{a, b}, (u32)seen.size() + 1}); u32 id = it.first->second; edges.push_back({s.node, id});
  if (!it.second) { merged++; s.merged = true; if (s.preemptLeft <= 0 && !runnable(s).empty()) { good.resize(std::max<size_t>(good.size(), id + 1)); good[id] = true; } return true; }   // an unfair spin is not a livelock
  s.node = id; if (!trap.empty() && trap.count({a, b})) violation(s, "nontermination", "livelock: from here no schedule reaches the end"); return false; }
// States from which the exploration (complete, without violations) found no way to an end.
std::set<std::pair<u64, u64>> Exec::findTraps() {
  size_t n = seen.size() + 1; good.resize(n); std::sort(edges.begin(), edges.end(), [](auto& x, auto& y) { return x.second < y.second; }); std::vector<u32> q; for (u32 i = 0; i < n; i++) if (good[i]) q.push_back(i);
  while (!q.empty()) { u32 v = q.back(); q.pop_back(); for (auto e = std::lower_bound(edges.begin(), edges.end(), v, [](auto& x, u32 y) { return x.second < y; }); e != edges.end() && e->second == v; ++e) if (!good[e->first]) { good[e->first] = true; q.push_back(e->first); } }
  std::set<std::pair<u64, u64>> r; for (auto& x : seen) if (!good[x.second]) r.insert(x.first); return r; }
// Optional context switch before a visible operation; false: another thread runs now (the caller retries the instruction later).
bool Exec::preempt(State& s) {
  Thread& t = s.th[s.cur]; if (t.preDone) { t.preDone = false; return true; } if (s.preemptLeft <= 0 || s.th.size() < 2) return true;
  auto cand = runnable(s); if (cand.empty()) return true; if (visited(s)) { kill(s); return false; } u64 k = schedChoice(s, cand.size()); if (!k) return true; if (s.preemptLeft < 1000) s.preemptLeft--; s.th[s.cur].preDone = true; s.cur = cand[k - 1]; return false; }
static std::string srcPath(const DebugLoc& dl) { std::string f = dl->getFilename().str(); return f.empty() || f[0] == '/' ? f : dl->getDirectory().str() + "/" + f; }
bool Exec::isPreemptPoint(Instruction* I) { // atomic accesses, except those of library reference counting
  if (auto* L = dyn_cast<LoadInst>(I)) { if (!L->isAtomic() && !L->isVolatile()) return false; } else if (auto* S = dyn_cast<StoreInst>(I)) { if (!S->isAtomic() && !S->isVolatile()) return false; } else if (!isa<AtomicRMWInst>(I) && !isa<AtomicCmpXchgInst>(I)) return false;
  if (auto dl = I->getDebugLoc()) { std::string f = srcPath(dl); if (StringRef(f).ends_with("atomicity.h") || StringRef(f).contains("/verif/")) return false; } return true; }
bool Exec::isPlainPoint(Instruction* I) { // plain accesses of the library itself that another thread may see
  Value* ptr; if (auto* L = dyn_cast<LoadInst>(I)) { if (L->isAtomic() || L->isVolatile()) return false; ptr = L->getPointerOperand(); } else if (auto* S = dyn_cast<StoreInst>(I)) { if (S->isAtomic() || S->isVolatile()) return false; ptr = S->getPointerOperand(); } else return false;
  ptr = ptr->stripInBoundsOffsets(); if (isa<AllocaInst>(ptr)) return false; if (auto* C = dyn_cast<IntrinsicInst>(ptr)) if (C->getIntrinsicID() == Intrinsic::threadlocal_address) return false;
  if (auto dl = I->getDebugLoc()) { std::string f = srcPath(dl); return StringRef(f).contains("/source/cy") && !StringRef(f).contains("/verif/"); } return false; }
bool Exec::schedule(State& s, bool) {
  std::vector<int> cand; int n = s.th.size(); for (int k = 1; k <= n; k++) { int i = (s.cur + k) % n; Thread& t = s.th[i]; if (t.done || t.idle) continue; if (t.blockedAt != s.progress) cand.push_back(i); }
  if (cand.empty()) { for (int i = 0; i < n; i++) if (!s.th[i].done && s.th[i].idle) { s.th[i].idle = false; s.cur = i; s.th[i].blockedAt = ~0ull; return true; } return false; }
  if (s.freeSched && visited(s)) { kill(s); return true; } u64 k = s.freeSched && cand.size() > 1 ? schedChoice(s, cand.size() - 1) : 0; s.cur = cand[k]; return true; }
bool Exec::builtin(State& s, PInst& p, const std::string& n) {
  auto A = [&](int i) { return getE(s, p.ops[i]); };
  auto addInput = [&](const std::string& nm, std::vector<E> v, int bytes) { s.inputs.push_back({nm, v, bytes}); };
  if (n == "sx_pick") { if (visited(s)) { kill(s); return false; } u64 lo = concretize(s, A(1)), hi = concretize(s, A(2)); if (lo > hi) { kill(s); killed++; return false; } u64 k = schedChoice(s, hi - lo, cstr(s, A(0)).c_str(), lo); set(s, p, mkConst(lo + k, 64)); return true; }
  if (n == "sx_sym") { // sx_sym(name, bits) -> u64
    std::string nm = cstr(s, A(0)); unsigned w = (unsigned)concretize(s, A(1)); E v = mkVar(nm, w); addInput(nm, {w % 8 ? mkZExt(v, (w + 7) / 8 * 8) : v}, (w + 7) / 8); set(s, p, mkZExt(v, 64)); return true; }
  if (n == "sx_range") { std::string nm = cstr(s, A(0)); u64 lo = concretize(s, A(1)), hi = concretize(s, A(2)); if (lo > hi) { kill(s); killed++; return false; } u64 span = hi - lo; unsigned w = 1; while (w < 64 && (span >> w)) w++; E v = mkVar(nm, w); E r = mkAdd(mkZExt(v, 64), mkConst(lo, 64)); addInput(nm, {r}, 8); E c = mkBin(O_ULE, v, mkConst(span, w)); if (!c->isTrue()) { addC(s, c); if (!evalExpr(c, *s.model)) { s.model = std::make_shared<Model>(*s.model); s.model->set((u32)v->v, 0); } } set(s, p, r); return true; }
  if (n == "sx_bytes") { u64 sz = concretize(s, A(1)); std::string nm = cstr(s, A(2)); std::vector<E> v; for (u64 i = 0; i < sz; i++) v.push_back(mkVar(nm + "[" + std::to_string(i) + "]", 8)); Obj* o; E off; if (sz) { if (!resolve(s, A(0), sz, o, off, "sx_bytes")) return false; u64 b = concretize(s, off); Obj* w = writable(s, o->base); for (u64 i = 0; i < sz; i++) storeC(w, b + i, v[i], 1); } addInput(nm, v, sz); return true; }
  if (n == "sx_assume") { E c = substExpr(A(0), s.fixed); c = c->w == 1 ? c : mkNot(mkEq(c, mkConst(0, c->w))); ModelRef m; if (!feasible(s, c, m)) { kill(s); killed++; return false; } addC(s, c); s.model = m; return true; }
  if (n == "sx_assert_") { E c = A(0); c = c->w == 1 ? c : mkNot(mkEq(c, mkConst(0, c->w))); return checkAssert(s, c, "assert", cstr(s, A(1))); }
  if (n == "sx_reach") { reach[cstr(s, A(0))]++; return true; }
  if (n == "sx_note") { s.notes.push_back(cstr(s, A(0))); return true; }
  if (n == "sx_notev") { E v = substExpr(A(1), s.fixed); s.notes.push_back(cstr(s, A(0)) + "=" + (v->isConst() ? std::to_string((u64)v->v) : exprStr(v))); return true; }
  if (n == "sx_fail") { violation(s, "assert", cstr(s, A(0))); kill(s); return false; }
  if (n == "sx_stop") { kill(s); killed++; return false; }
  if (n == "sx_concrete") { u64 v = concretize(s, A(0)); set(s, p, mkConst(v, 64)); return true; }
  if (n == "sx_observe") { s.obs.push_back(mkZExt(A(0), 64)); return true; }
  if (n == "sx_is_symbolic") { set(s, p, mkConst(!substExpr(A(0), s.fixed)->isConst(), 32)); return true; }
  if (n == "sx_ite") { E c = A(0); c = mkNot(mkEq(c, mkConst(0, c->w))); set(s, p, mkIte(c, A(1), A(2))); return true; }
  if (n == "sx_heap_live") { set(s, p, mkConst(s.heapLive, 64)); return true; }
  if (n == "sx_step_limit") { s.stepLimit = s.steps + concretize(s, A(0)); return true; }
  if (n == "sx_native") { set(s, p, mkConst(0, 32)); return true; }
  if (n == "sx_readable") { E a = substExpr(A(0), s.fixed); u64 sz = concretize(s, A(1)); if (!sz) return true; Obj* o; E off; return resolve(s, a, sz, o, off, "access by the callee"); }
  // --- threads ---
  if (n == "sx_thread_create") { u64 fn = concretize(s, A(0)), arg = concretize(s, A(1)); auto it = faddr.find(fn); if (it == faddr.end()) { violation(s, "memory", "bad thread entry"); kill(s); return false; } Thread t; t.id = s.th.size(); t.heap = 0x1000000000ull * (1 + 2 * t.id); t.sp = t.heap + 0x1000000000ull; t.fn = fn; t.arg = arg; s.th.push_back(t); int me = s.cur; s.cur = t.id; Val a; a.e = mkConst(arg, 64); pushCall(s, it->second, {a}, -1, nullptr); s.cur = me; s.progress++; set(s, p, mkConst(t.id, 32)); return !s.dead; }
  if (n == "sx_self") { set(s, p, mkConst(s.cur, 32)); return true; }
  if (n == "sx_thread_done") { u64 t = concretize(s, A(0)); set(s, p, mkConst(t < s.th.size() && s.th[t].done, 32)); return true; }
  if (n == "sx_progress") { s.progress++; return true; }
  if (n == "sx_block") { s.th[s.cur].blockedAt = s.progress; int me = s.cur; if (!schedule(s, true)) { violation(s, "deadlock", "all threads are blocked"); kill(s); return false; } (void)me; return true; }
  if (n == "sx_idle") { s.th[s.cur].idle = true; if (!schedule(s, true)) { kill(s); return false; } return true; }
  if (n == "sx_preempt") { // optional context switch, chosen by a symbolic schedule variable
    s.th[s.cur].armed = true;
    if (s.preemptLeft <= 0) { if (s.freeSched && s.th.size() > 1 && visited(s)) { kill(s); return false; } return true; } auto cand = runnable(s); if (cand.empty()) return true; if (visited(s)) { kill(s); return false; } u64 k = schedChoice(s, cand.size()); if (k) { if (s.preemptLeft < 1000) s.preemptLeft--; s.cur = cand[k - 1]; } return true; }
  if (n == "sx_yield") { int n2 = s.th.size(); for (int k = 1; k < n2; k++) { int i = (s.cur + k) % n2; Thread& t = s.th[i]; if (t.done || t.idle || t.blockedAt == s.progress) continue; s.cur = i; return true; } return true; }
  if (n == "sx_free_sched") { s.freeSched = (int)concretize(s, A(0)); return true; }
  if (n == "sx_preempt_budget") { s.preemptLeft = (int)concretize(s, A(0)); return true; }
  if (n == "sx_shared") { u64 a = concretize(s, A(0)); bool isro; Obj* o = find(s, a, isro); if (!o) { unsup(s, "sx_shared"); return false; } writable(s, o->base)->shared = true; return true; }
  // --- heap ---
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "calloc" || n == "_ZnwmSt11align_val_t" || n == "aligned_alloc") { u64 k = concretize(s, A(n == "aligned_alloc" ? 1 : 0)); if (n == "calloc") k *= concretize(s, A(1)); if (k > (256u << 20)) { if (n == "malloc" || n == "calloc") { set(s, p, mkConst(0, 64)); return true; } violation(s, "exception", "operator new of " + std::to_string(k) + " bytes fails (std::bad_alloc)"); kill(s); return false; }
    u8 kd = n == "malloc" || n == "calloc" || n == "aligned_alloc" ? K_HEAP_MALLOC : n.rfind("_Znam", 0) == 0 ? K_HEAP_NEWA : K_HEAP_NEW; u64 a = alloc(s, k, kd, "heap block of " + std::to_string(k) + " bytes", n == "calloc"); s.heapLive++; set(s, p, mkConst(a, 64)); return true; }
  if (n == "free" || n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0) { u64 a = concretize(s, A(0)); if (!a) return true; bool isro; Obj* o = find(s, a, isro); u8 want = n == "free" ? K_HEAP_MALLOC : n.rfind("_ZdaPv", 0) == 0 ? K_HEAP_NEWA : K_HEAP_NEW; if (!o || o->base != a || isro || (o->kind != K_HEAP_MALLOC && o->kind != K_HEAP_NEW && o->kind != K_HEAP_NEWA)) { violation(s, "memory", "free of an invalid or already freed pointer"); kill(s); return false; } if (o->kind != want) { violation(s, "memory", "mismatched allocation and deallocation functions"); } freeObj(s, a); s.heapLive--; return true; }
  if (n == "realloc") { u64 a = concretize(s, A(0)), k = concretize(s, A(1)); if (k > (256u << 20)) { set(s, p, mkConst(0, 64)); return true; } u64 na = alloc(s, k, K_HEAP_MALLOC, "heap block of " + std::to_string(k) + " bytes"); s.heapLive++; if (a) { bool isro; Obj* o = find(s, a, isro); if (!o || o->base != a || o->kind != K_HEAP_MALLOC) { violation(s, "memory", "realloc of an invalid pointer"); kill(s); return false; } if (!copyBytes(*this, s, mkConst(na, 64), mkConst(a, 64), std::min(k, o->size), false)) return false; freeObj(s, a); s.heapLive--; } set(s, p, mkConst(na, 64)); return true; }
  // --- mem functions ---
  if (n == "memcpy" || n == "memmove") { u64 k = concretize(s, A(2)); if (!copyBytes(*this, s, A(0), A(1), k, n == "memcpy")) return false; set(s, p, A(0)); return true; }
  if (n == "memset") { u64 k = concretize(s, A(2)); if (!setBytes(*this, s, A(0), A(1), k)) return false; set(s, p, A(0)); return true; }
  if (n == "memcmp" || n == "bcmp") { u64 k = concretize(s, A(2)); E r = mkConst(0, 32); if (k) { Obj *a, *b; E ao, bo; if (!resolve(s, A(0), k, a, ao, "memcmp")) return false; u64 a0 = concretize(s, ao); u64 ab = a->base; if (!resolve(s, A(1), k, b, bo, "memcmp")) return false; u64 b0 = concretize(s, bo); u64 bb = b->base; for (u64 i = k; i-- > 0;) { bool ir; Obj* x = find(s, ab + a0 + i, ir); E p1 = loadByte(s, x, a0 + i); Obj* y = find(s, bb + b0 + i, ir); E p2 = loadByte(s, y, b0 + i); r = mkIte(mkEq(p1, p2), r, mkIte(mkBin(O_ULT, p1, p2), mkConst(~0u, 32), mkConst(1, 32))); } } set(s, p, r); return true; }
  if (n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__stack_chk_fail") { violation(s, "abort", n + " called"); kill(s); return false; }
  if (n == "__assert_fail") { violation(s, "assertion", "assertion failed: " + cstr(s, A(0)) + " (" + cstr(s, A(1)) + ")"); kill(s); return false; }
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n == "__cxa_thread_atexit_impl" || n == "atexit") { set(s, p, mkConst(0, 32)); return true; }
  if (n == "__cxa_guard_acquire") { Val v; if (!load(s, A(0), Type::getInt8Ty(ctx), v)) return false; E e = mkEq(v.e, mkConst(0, 8)); set(s, p, mkZExt(e, 32)); return true; }
  if (n == "__cxa_guard_release") { Val v; v.e = mkConst(1, 8); return store(s, A(0), Type::getInt8Ty(ctx), v); }
  if (n == "__cxa_guard_abort") return true;
  if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return true;
  if (n == "__cxa_throw" || n == "__cxa_rethrow" || n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) { violation(s, "exception", "exception thrown by " + demangle(n)); kill(s); return false; }
  if (n == "__cxa_pure_virtual") { violation(s, "abort", "pure virtual call"); kill(s); return false; }
  unsup(s, "external function " + n); return false; }

// ---------- driver ----------
void Exec::finish(State& s) { paths++; if (samples.size() < wantSamples || (rng = rng * 6364136223846793005ULL + 1442695040888963407ULL, (rng >> 33) % paths < wantSamples)) { PathSample ps; ps.inputs = evalInputs(s, *s.model); bool ok = true; for (E e : s.obs) { for (u32 v : e->vs->v) if (g_vars[v].kind) ok = false; ps.obs.push_back((u64)evalExpr(e, *s.model)); } for (E c : s.pc) for (u32 v : c->vs->v) if (g_vars[v].kind) ok = false; if (ok) { if (samples.size() < wantSamples) samples.push_back(ps); else samples[(rng >> 17) % samples.size()] = ps; } } }
void Exec::runState(State* sp) { State& s = *sp; u64 chk = 0;
  while (!s.dead) { if (s.th[s.cur].done) { if (s.cur == 0 && s.boot.empty()) { finish(s); break; } if (!schedule(s, false)) { violation(s, "deadlock", "all threads are blocked"); break; } continue; }
    if (!step(s)) { if (s.dead) break; }
    if (s.stepLimit && s.steps > s.stepLimit) { violation(s, "nontermination", "execution does not finish within the stated step bound"); break; }
    if (s.steps > maxSteps) { violation(s, "nontermination", "execution does not finish within " + std::to_string(maxSteps) + " steps (livelock?)"); incomplete.push_back("step limit at " + where(s)); break; }
    if ((++chk & 0x3f) == 0) { if (elapsed() > timeLimit) { timedOut = true; incomplete.push_back("time limit"); break; } } }
  if (dedup && !s.merged) { good.resize(std::max<size_t>(good.size(), s.node + 1)); good[s.node] = true; } delete sp; }
void Exec::run(const std::string& entry) {
  t0 = std::chrono::steady_clock::now(); started = true; State* s = new State; s->model = std::make_shared<Model>(); initGlobals(*s); Function* F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
  Thread t; t.id = 0; t.heap = 0x1000000000ull; t.sp = 0x2000000000ull; s->th.push_back(t);
  if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer())) { std::vector<std::pair<u64, FnInfo*>> v; for (auto& o : CA->operands()) { auto* cs = cast<ConstantStruct>(o.get()); if (auto* f = dyn_cast<Function>(cs->getOperand(1))) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fns[f]}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) s->boot.push_back(x.second); }
  s->boot.push_back(fns[F]); FnInfo* b = s->boot.front(); s->boot.erase(s->boot.begin()); pushCall(*s, b, {}, -1, nullptr); work.push_back(s);
  while (!work.empty()) { if (elapsed() > timeLimit) { timedOut = true; incomplete.push_back("time limit with " + std::to_string(work.size()) + " states left"); break; } if (viol.size() >= maxViol) { incomplete.push_back("violation limit"); break; }
    struct rusage ru; if ((nstates & 63) == 0) { getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss / 1024.0 > memLimitMB) { incomplete.push_back("memory limit"); break; } }
    State* n = work.back(); work.pop_back(); runState(n); } }
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
void Exec::writeOut(const std::string& path, const std::string& entry) {
  std::ofstream o(path); auto ins = [&](std::vector<std::pair<std::string, std::string>>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::string("[") + js(v[i].first) + "," + js(v[i].second) + "]"; return r + "]"; };
  o << "{\"entry\":" << js(entry) << ",\"paths\":" << paths << ",\"states\":" << nstates + 1 << ",\"assumed_away\":" << killed << ",\"merged\":" << merged << ",\"steps\":" << steps << ",\"forks\":" << forks << ",\"asserts\":" << asserts << ",\"asserts_proved\":" << assertsProved << ",\"queries\":" << S.nq << ",\"sat\":" << S.nsat << ",\"unsat\":" << S.nunsat << ",\"unknown\":" << S.nunk << ",\"cached\":" << S.ncache << ",\"solver_s\":" << S.tsec << ",\"max_query_s\":" << S.tmax << ",\"wall_s\":" << elapsed() << ",\"timed_out\":" << (timedOut ? "true" : "false");
  o << ",\"incomplete\":["; std::set<std::string> inc(incomplete.begin(), incomplete.end()); bool f = true; for (auto& x : inc) { o << (f ? "" : ",") << js(x); f = false; } o << "],\"unsupported\":["; f = true; for (auto& x : unsupported) { o << (f ? "" : ",") << js(x); f = false; }
  o << "],\"reach\":{"; f = true; for (auto& x : reach) { o << (f ? "" : ",") << js(x.first) << ":" << x.second; f = false; } o << "},\"functions\":["; f = true; std::vector<std::string> fl; for (auto& k : fns) if (k.second->calls) { if (k.second->file.find("/repo/") != std::string::npos) fl.push_back(k.second->dname); for (auto& BB : *k.second->F) for (auto& I : BB) if (DILocation* L = I.getDebugLoc().get()) while ((L->getInlinedAt())) { if (srcPath(DebugLoc(L)).find("/repo/") != std::string::npos) if (auto* SP = L->getScope()->getSubprogram()) fl.push_back(SP->getName().str()); L = L->getInlinedAt(); } } std::sort(fl.begin(), fl.end()); fl.erase(std::unique(fl.begin(), fl.end()), fl.end()); for (auto& x : fl) { o << (f ? "" : ",") << js(x); f = false; }
  o << "],\"violations\":["; f = true; for (auto& v : viol) { o << (f ? "" : ",") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"stack\":["; for (size_t i = 0; i < v.stack.size(); i++) o << (i ? "," : "") << js(v.stack[i]); o << "],\"notes\":["; for (size_t i = 0; i < v.notes.size(); i++) o << (i ? "," : "") << js(v.notes[i]); o << "],\"inputs\":" << ins(v.inputs) << "}"; f = false; }
  o << "],\"samples\":["; f = true; for (auto& v : samples) { o << (f ? "" : ",") << "{\"inputs\":" << ins(v.inputs) << ",\"obs\":["; for (size_t i = 0; i < v.obs.size(); i++) o << (i ? "," : "") << js(std::to_string(v.obs[i])); o << "]}"; f = false; } o << "]}\n"; }
int main(int argc, char** argv) {
  Exec X; std::string file, entry = "sx_main", out; for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--entry") entry = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--time") X.timeLimit = atof(argv[++i]); else if (a == "--dedup") X.dedup = g_dedup = true; else if (a == "--mem") X.memLimitMB = atof(argv[++i]); else if (a == "--query-timeout") X.S.timeoutMs = atoi(argv[++i]) * 1000; else if (a == "--max-viol") X.maxViol = atoi(argv[++i]); else if (a == "--max-steps") X.maxSteps = atoll(argv[++i]); else if (a == "--seed") X.rng = atoll(argv[++i]); else if (a == "--no-select-fork") X.selectFork = false; else if (a == "--after") X.afterViol = atof(argv[++i]); else if (a == "-v") X.verbose = true; else file = a; }
  struct rlimit rl = {512u << 20, 512u << 20}; (void)rl; X.load(file);
  // A livelock is known only after the exploration; a copy of this process, made before it, then explores again up to it.
  int fd[2]; pid_t kid = 0; if (X.dedup && !pipe(fd)) { kid = fork(); if (!kid) { close(fd[1]); std::pair<u64, u64> h; while (read(fd[0], &h, sizeof h) == (ssize_t)sizeof h) X.trap.insert(h); if (X.trap.empty()) _exit(0); X.maxViol = 1; X.timeLimit *= 2; } else close(fd[0]); }
  // A query that ignores its time limit must not cost the verdict: past the limit the solver is interrupted, and if that does not help, what is known so far is reported.
  static std::atomic<bool> over{false}; std::thread([&] { for (;;) { std::this_thread::sleep_for(std::chrono::seconds(1)); if (over) return; if (!X.started) continue; double late = X.elapsed() - X.timeLimit; if (late > 5) Z3_interrupt(X.S.c); if (late > 30 && !over.exchange(true)) { X.timedOut = true; X.incomplete.push_back("time limit in a query"); if (!out.empty() && (!X.dedup || kid > 0)) X.writeOut(out, entry); fprintf(stderr, "[%s] stopped in a query, viol=%zu\n", entry.c_str(), X.viol.size()); if (kid > 0) kill(kid, SIGKILL); _exit(0); } } }).detach();
  X.run(entry); if (over.exchange(true)) for (;;) pause();
  if (kid > 0) { std::set<std::pair<u64, u64>> t; if (X.viol.empty() && X.incomplete.empty() && X.unsupported.empty()) t = X.findTraps(); X.traps = t.size(); if (t.size() > 4096) t.erase(std::next(t.begin(), 4096), t.end()); for (auto& h : t) if (write(fd[1], &h, sizeof h) < 0) break; close(fd[1]); int st; waitpid(kid, &st, 0); if (!t.empty()) { fprintf(stderr, "[%s] livelock: %llu states\n", entry.c_str(), (unsigned long long)X.traps); _exit(0); } }
  if (!out.empty()) X.writeOut(out, entry);
  fprintf(stderr, "[%s] paths=%llu states=%llu steps=%llu asserts=%llu/%llu queries=%llu (%.2fs) viol=%zu unsup=%zu incomplete=%zu wall=%.2fs\n", entry.c_str(), (unsigned long long)X.paths, (unsigned long long)X.nstates + 1, (unsigned long long)X.steps, (unsigned long long)X.assertsProved, (unsigned long long)X.asserts, (unsigned long long)X.S.nq, X.S.tsec, X.viol.size(), X.unsupported.size(), X.incomplete.size(), X.elapsed());
  for (auto& r : X.reach) fprintf(stderr, "   reach %s: %llu\n", r.first.c_str(), (unsigned long long)r.second); if (X.verbose) for (auto& r : X.incomplete) fprintf(stderr, "   INCOMPLETE %s\n", r.c_str());
  _exit(0); }
