#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
enum Sat { SAT, UNSAT, UNKNOWN };
struct Solver {
  z3::context c; z3::solver inc; std::vector<Z3_ast> memo; bool inited = false; unsigned timeoutMs = 60000, quickMs = 3000, intMs = 10000;
  u64 nq = 0, nsat = 0, nunsat = 0, nunk = 0, ncache = 0; double tsec = 0; double tmax = 0;
  std::unordered_map<u64, std::pair<Sat, std::vector<std::pair<u32, u128>>>> cache;
  Solver();
  z3::expr tr(E e); bool hasDiv(E e); std::vector<u8> divs; bool trInt(E e, std::unordered_map<u32, z3::expr>& m, z3::solver& s);
  // is conj(cs) /\ q satisfiable? on SAT fills asg with values of the variables involved
  Sat check(const std::vector<E>& pc, E q, std::vector<std::pair<u32, u128>>& asg, bool slice = true);
  Sat rawCheck(const std::vector<E>& cs, std::vector<std::pair<u32, u128>>& asg);
};
