// Hash-consed bit-vector expression DAG with on-the-fly simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <cstring>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_TAB,   // constant table v indexed by k[0] (the last entry beyond its end)
  // floating point, operands and results are IEEE bit patterns; v = predicate / aux
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FLT, O_FLE, O_FEQ, O_FUNO, O_FTOSI, O_FTOUI, O_SITOF, O_UITOF, O_FTOF,
  O_NOPS };

struct VarSet { std::vector<u32> v; };

struct Expr {
  Op op; uint16_t w; u32 id; u8 nk; const Expr* k[3]; u128 v; const VarSet* vs; u64 h; u128 um; u8 tz, ht /*contains a table*/;
  bool isConst() const { return op == O_CONST; }
  bool isTrue() const { return op == O_CONST && v == 1 && w == 1; }
  bool isFalse() const { return op == O_CONST && v == 0 && w == 1; }
};
typedef const Expr* E;

struct VarInfo { std::string name; uint16_t w; int kind; /*0 input,1 uninit,2 shared read*/ };
extern std::vector<VarInfo> g_vars;
extern std::vector<E> g_exprs;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sext128(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ m) - m); }

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, int kind = 0);
E mkTab(const std::vector<u64>& t, unsigned w, E idx);
extern std::vector<const std::vector<u64>*> g_tabs;
E varExpr(u32 i);                   // the expression of variable i
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFp(Op op, E a, E b, unsigned w);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkBool(bool b) { return mkConst(b, 1); }
E mkNot(E a);
inline E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }
inline E mkAnd(E a, E b) { return mkBin(O_AND, a, b); }
inline E mkOr(E a, E b) { return mkBin(O_OR, a, b); }
inline E mkAdd(E a, E b) { return mkBin(O_ADD, a, b); }
E rebuild(E e, E* k);               // same op, new kids
u128 foldOp(const Expr* e, const u128* kv); // evaluate op on concrete kid values
inline unsigned knownTZ(E e) { return e->tz; }
inline u128 umaxOf(E e) { return e->um; }

struct Model { std::vector<u128> val; u128 get(u32 i) const { return i < val.size() ? val[i] : 0; } void set(u32 i, u128 x) { if (i >= val.size()) val.resize(i + 1, 0); val[i] = x; } };
typedef std::shared_ptr<Model> ModelRef;
u128 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 6);
E substExpr(E e, const std::map<u32, E>& fixed);
