#pragma once
#include "expr.h"
#include "solver.h"
#include <atomic>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/DenseMap.h>
using namespace llvm;

struct Val { E e = nullptr; std::vector<Val>* agg = nullptr; };   // agg vectors are never freed or mutated after creation
// contents in chunks shared between copies of an object until written
template <class T> struct Cow { struct Ch { int rc; T v[1]; }; enum { SH = 9, N = 1 << SH }; std::vector<Ch*> ch; size_t n = 0;
  static Ch* mk(size_t k) { Ch* c = (Ch*)malloc(sizeof(Ch) + k * sizeof(T)); c->rc = 1; return c; } size_t len(size_t i) const { return i + 1 < ch.size() || n % N == 0 ? N : n % N; }
  Cow() {} Cow(const Cow& o) : ch(o.ch), n(o.n) { for (Ch* c : ch) c->rc++; } Cow& operator=(const Cow&) = delete; ~Cow() { clear(); } void clear() { for (Ch* c : ch) if (--c->rc == 0) free(c); ch.clear(); n = 0; }
  void assign(size_t k, T x) { clear(); n = k; Ch* full = nullptr; for (size_t i = 0; i < k; i += N) { size_t l = std::min<size_t>(N, k - i); if (full && l == N) { full->rc++; ch.push_back(full); continue; } Ch* c = mk(l); for (size_t j = 0; j < l; j++) c->v[j] = x; if (l == N) full = c; ch.push_back(c); } }
  bool empty() const { return n == 0; } size_t size() const { return n; } T operator[](size_t i) const { return ch[i >> SH]->v[i & (N - 1)]; }
  std::vector<T> range(size_t a, size_t k) const { std::vector<T> r(k); for (size_t i = 0; i < k; i++) r[i] = (*this)[a + i]; return r; }
  T& w(size_t i) { Ch*& c = ch[i >> SH]; if (c->rc > 1) { size_t l = len(i >> SH); Ch* d = mk(l); memcpy(d->v, c->v, l * sizeof(T)); c->rc--; c = d; } return c->v[i & (N - 1)]; } };
struct Obj { int rc = 0; u64 base = 0, size = 0; u8 kind = 0; bool ro = false, shared = false, zinit = false; u64 dg[2] = {0, 0}; std::string name; Cow<u8> c, st; Cow<E> s; };
enum { K_GLOBAL, K_HEAP_MALLOC, K_HEAP_NEW, K_HEAP_NEWA, K_STACK, K_FUNC };
struct ObjRef { Obj* o = nullptr; ObjRef() {} ObjRef(Obj* x) : o(x) { if (o) o->rc++; } ObjRef(const ObjRef& r) : o(r.o) { if (o) o->rc++; } ObjRef(ObjRef&& r) noexcept : o(r.o) { r.o = nullptr; } ~ObjRef() { if (o && --o->rc == 0) delete o; } ObjRef& operator=(ObjRef r) { std::swap(o, r.o); return *this; } Obj* operator->() const { return o; } };

struct PInst; struct FnInfo;
struct Opnd { int reg = -1; Val c; };
typedef bool (*Builtin)(struct Exec&, struct State&, PInst&);
struct PInst { Instruction* I = nullptr; unsigned opc = 0; int dst = -1; std::vector<Opnd> ops; std::vector<int> succ;
  u64 gepOff = 0; std::vector<std::pair<int, u64>> gepIdx; FnInfo* callee = nullptr; int builtin = -1; bool preempt = false, plain = false; unsigned w = 0; Type* ty = nullptr; std::string extname; };
struct PBlock { std::vector<PInst> insts; std::vector<BasicBlock*> preds; };
struct FnInfo { Function* F = nullptr; bool prepared = false; std::vector<PBlock> blocks; unsigned nregs = 0, nargs = 0; u64 calls = 0; std::vector<std::vector<u64>> lout; std::map<u64, std::vector<int>> liveAt; std::string file; std::string dname; };
struct Frame { FnInfo* f; std::vector<Val> regs; u32 bb = 0, prev = 0, ip = 0; std::vector<u64> allocas; u64 va = 0, sp0 = 0; int retDst = -1; bool isInvoke = false; int normalBB = -1; };
struct Thread { int id = 0; std::vector<Frame> st; bool done = false; bool idle = false; bool preDone = false, armed = false; u64 blockedAt = ~0ull; std::map<GlobalVariable*, u64> tls; u64 fn = 0, arg = 0, heap = 0, sp = 0; int tevent = -1; };
struct Input { std::string name; std::vector<E> vals; int bytes; };
struct State { u64 id = 0; std::vector<std::pair<u64, ObjRef>> mem; std::vector<Thread> th; int cur = 0; std::vector<E> pc; ModelRef model; std::map<u32, E> fixed; u64 nextAddr = 0x100000; std::vector<Input> inputs; std::vector<E> obs; u64 steps = 0, progress = 0, forks = 0; std::vector<FnInfo*> boot; u64 heapLive = 0; bool dead = false; int schedFork = 0; int preemptLeft = 0; u32 nsched = 0; int freeSched = 0; u32 node = 0; bool merged = false; u64 stepLimit = 0; std::vector<int> evs; int evPred = -1; std::vector<std::string> notes; };
struct Violation { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> notes; };
struct PathSample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<u64> obs; };

struct Exec {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL = nullptr; Solver S;
  DenseMap<const Function*, FnInfo*> fns; DenseMap<const GlobalValue*, u64> gaddr; std::vector<std::pair<u64, ObjRef>> ro; std::map<u64, FnInfo*> faddr;
  std::vector<State*> work; std::vector<Violation> viol; std::vector<PathSample> samples; std::map<std::string, u64> reach; std::set<std::string> unsupported; std::vector<std::string> incomplete;
  u64 paths = 0, killed = 0, steps = 0, forks = 0, nstates = 0, asserts = 0, assertsProved = 0; std::atomic<bool> started{false}; double timeLimit = 300, afterViol = 20; u64 maxViol = 20; u64 maxSteps = 20000000; unsigned wantSamples = 12; double memLimitMB = 6000; u64 rng = 1;
  std::chrono::steady_clock::time_point t0; bool verbose = false, timedOut = false; bool bfs = false, selectFork = true;
  bool dedup = false; std::map<std::pair<u64, u64>, u32> seen; u64 merged = 0, traps = 0; bool visited(State& s);   // states already explored are not explored again
  // graph of the merged exploration: a node nothing good is reachable from is a livelock
  std::vector<std::pair<u32, u32>> edges; std::vector<bool> good; std::set<std::pair<u64, u64>> trap; std::set<std::pair<u64, u64>> findTraps();
  void load(const std::string& file);
  void initGlobals(State& s);
  FnInfo* info(Function* F);
  void prepare(FnInfo* f);
  Val constVal(Constant* C, Type* T = nullptr);
  void initConst(Obj* o, u64 off, Constant* C);
  void run(const std::string& entry);
  void runState(State* s);
  bool step(State& s);
  // memory
  Obj* find(State& s, u64 addr, bool& isRo);
  Obj* writable(State& s, u64 base);
  u64 alloc(State& s, u64 size, u8 kind, const std::string& name, bool zero = false);
  void freeObj(State& s, u64 base);
  bool resolve(State& s, E addr, u64 n, Obj*& o, E& off, const char* what); // false -> state died
  E loadBytes(State& s, Obj* o, E off, unsigned nbytes);
  E loadC(State& s, Obj*& o, u64 off, unsigned nbytes);
  void storeC(Obj* o, u64 off, E v, unsigned nbytes);
  bool load(State& s, E addr, Type* T, Val& out);
  bool store(State& s, E addr, Type* T, Val v);
  E loadByte(State& s, Obj*& o, u64 off);
  // control
  State* clone(State& s);
  void addC(State& s, E c);
  bool decide(State& s, E c);         // fork if both feasible
  bool feasible(State& s, E c, ModelRef& m); // is pc /\ c sat; m = full model
  u64 concretize(State& s, E e);
  void violation(State& s, const std::string& kind, const std::string& msg, ModelRef m = nullptr);
  bool checkAssert(State& s, E c, const std::string& kind, const std::string& msg); // false: state died
  void kill(State& s) { s.dead = true; }
  void finish(State& s);
  void unsup(State& s, const std::string& what);
  Val get(State& s, const Opnd& o) { return o.reg >= 0 ? s.th[s.cur].st.back().regs[o.reg] : o.c; }
  E getE(State& s, const Opnd& o) { return get(s, o).e; }
  void set(State& s, PInst& p, Val v) { if (p.dst >= 0) s.th[s.cur].st.back().regs[p.dst] = v; }
  void set(State& s, PInst& p, E e) { Val v; v.e = e; set(s, p, v); }
  void pushCall(State& s, FnInfo* f, std::vector<Val> args, int retDst, const CallBase* cb);
  void doReturn(State& s, Val v);
  void jump(State& s, int target);
  bool doCall(State& s, PInst& p);
  bool builtin(State& s, PInst& p, const std::string& n);
  bool intrinsic(State& s, PInst& p);
  bool schedule(State& s, bool blocked); u64 schedChoice(State& s, u64 max, const char* name = "schedule", u64 lo = 0); std::vector<int> runnable(State& s); bool preempt(State& s); static bool isPreemptPoint(Instruction* I); static bool isPlainPoint(Instruction* I);
  Val fresh(Type* T, const std::string& n, int kind);
  Val zeroVal(Type* T);
  E flatten(Val v, Type* T); Val unflatten(E e, Type* T);
  Val binop(unsigned opc, Val a, Val b, Type* T);
  std::string where(State& s); std::vector<std::string> stackOf(State& s);
  std::string cstr(State& s, E p);
  std::vector<std::pair<std::string, std::string>> evalInputs(State& s, const Model& m);
  void writeOut(const std::string& path, const std::string& entry);
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
