// C18 monitor: the verifier's abstract domain executed in lockstep with the plain
// interval domain; the reduction's result is compared with its exact extremes.
extern "C" {
#include "h.h"
}
#undef Q
#include NTT_INTERVALS
#include <crab/domains/intervals.hpp>
unsigned long crab_stub::warnings, crab_stub::errors;
typedef __int128 Z;
using N = clam::number_t; using V = clam::varname_t;
using Dom = ntt_verifier::ntt_interval_domain<N, V>; using Ref = ikos::interval_domain<N, V>;
using Iv = ikos::interval<N>; using B = ikos::bound<N>; using Var = crab::variable<N, V>; using VC = crab::variable_or_constant<N, V>;
using LE = ikos::linear_expression<N, V>; using LC = ikos::linear_constraint<N, V>; using LS = ikos::linear_constraint_system<N, V>;
static rng_t R; static const int NV = 6; static std::vector<Var> vars;
template <typename T> static std::string S(const T &x) { std::ostringstream o; o << x; return o.str(); }
static Z fdiv(Z x) { Z q = x / 4096; if (x % 4096 < 0) q--; return q; }
static Z redz(Z x) { Z q = fdiv(x); return 3 * (x - 4096 * q) - q; }
/* exact extremes over [a,b], by walking small ranges and from the block structure for large ones */
static void extremes(Z a, Z b, Z &lo, Z &hi) {
  lo = hi = redz(a); auto see = [&](Z x) { if (x < a || x > b) return; Z r = redz(x); if (r < lo) lo = r; if (r > hi) hi = r; };
  if (b - a <= 9000) { for (Z x = a; x <= b; x++) see(x); return; }
  see(b); Z qa = fdiv(a), qb = fdiv(b);
  for (Z k = 0; k < 3; k++) { see(4096 * (qa + k)); see(4096 * (qa + k) + 4095); see(4096 * (qb - k)); see(4096 * (qb - k) + 4095); }
}
static Z rz() { int bits = (int) rng_below(&R, 91); Z x = ((Z) rng_u64(&R) << 32) ^ (Z) rng_u64(&R); Z m = ((Z) 1 << bits) - 1; x &= m; if (rng_u64(&R) & 1) x = -x; if (rng_below(&R, 3) == 0) x = (x & ~(Z) 4095) + (Z) rng_below(&R, 3) - 1; return x; }
static N num(Z z) { return N::raw(z); }
static Iv riv() { switch (rng_below(&R, 12)) { case 0: return Iv::top(); case 1: return Iv(B(num(rz())), B::plus_infinity()); case 2: return Iv(B::minus_infinity(), B(num(rz()))); case 3: return Iv(num(rz())); }
  Z a = rz(), b = rng_below(&R, 2) ? a + (Z) rng_below(&R, 1u << (1 + rng_below(&R, 16))) : rz(); if (a > b) std::swap(a, b); return Iv(B(num(a)), B(num(b))); }
static Var rv() { return vars[rng_below(&R, NV)]; }
static LE rle() { LE e(num(rz() >> 50)); for (uint32_t i = rng_below(&R, 3); i; i--) e.add(num((Z) rng_range(&R, -3, 3)), rv()); return e; }
static LC rlc() { LE e; if (rng_below(&R, 3)) { e = LE(num(rz() >> 40)); e.add(num(rng_below(&R, 2) ? 1 : -1), rv()); } else e = rle(); return LC(e, (LC::kind_t) rng_below(&R, 3)); }
static void constrain(Dom &d, const Var &x, const Iv &i) { LS s; if (auto n = i.lb().number()) { LE e(*n); e.add(N(-1), x); s += LC(e, LC::INEQUALITY); } if (auto n = i.ub().number()) { LE e(-*n); e.add(N(1), x); s += LC(e, LC::INEQUALITY); } d += s; }
static void same(const char *what, const Dom &d, const Ref &r, const std::string &h) {
  bool ok = d.is_bottom() == r.is_bottom() && d.is_top() == r.is_top(); for (auto &x : vars) if (d.at(x) != r.at(x)) ok = false;
  if (!ok) { crab::crab_os o, p; d.write(o); r.write(p); viol(what, "%s: {%s} instead of {%s}", h.c_str(), o.str().c_str(), p.str().c_str()); }
}
static void red_all(void) {
  uint64_t n = 0;
  auto one = [&](Z a, Z b, int alias) {
    Dom d; Ref before; for (int i = 2; i < NV; i++) { Iv v = i == 5 ? Iv::top() : Iv(B(num(-i)), B(num(i * 100))); constrain(d, vars[i], v); before.set(vars[i], v); }
    constrain(d, vars[0], Iv(B(num(a)), B(num(b)))); before.set(vars[0], Iv(B(num(a)), B(num(b)))); if ((n >> 1) & 1) { Iv v(B(num(7)), B(num(8))); constrain(d, vars[1], v); before.set(vars[1], v); }
    Var out = alias ? vars[0] : vars[1]; d.intrinsic("red", {VC(vars[0])}, {out});
    Z lo, hi; extremes(a, b, lo, hi); Ref want = before; want.set(out, Iv(B(num(lo)), B(num(hi)))); n++; TICK();
    std::string h = "red of [" + S(num(a)) + "," + S(num(b)) + "]" + (alias ? " in place" : "");
    Iv got = d.at(out); bool out_ok = !got.is_bottom() && got.lb() <= B(num(lo)) && B(num(hi)) <= got.ub();
    if (!out_ok) viol("reduction interval does not cover all values", "%s: %s, exact [%s,%s]", h.c_str(), S(got).c_str(), S(num(lo)).c_str(), S(num(hi)).c_str());
    else same("state after the reduction", d, want, h);
  };
  /* every interval with both ends near a multiple of 4096, and every length around one period */
  static const int off[] = { 0, 1, 2, -1, -2, 100, 4000, 2048 };
  Z bases[] = { 0, 4096, -4096, 8192, -8192, 40960, -40960, (Z) 4096 << 20, -((Z) 4096 << 20), ((Z) 4096 << 31), -((Z) 4096 << 31), (Z) 1 << 80, -((Z) 1 << 80) };
  int idx = 0;
  for (Z x : bases) for (Z k = -2; k <= 3; k++) for (int p : off) for (int q : off) { if (idx++ % H_nshards != H_shard) continue; Z a = x + p, b = x + 4096 * k + q; if (a <= b) { one(a, b, 0); one(a, b, 1); } }
  case_exhaustive(n); stat_add("boundary_reductions", n);
  uint64_t it, iters = H_thorough ? 400000 : 20000;
  for (it = 0; it < iters; it++) { Z a = rz(), b = it % 3 == 0 ? rz() : a + (Z) rng_below(&R, it % 3 == 1 ? 9000 : 60); if (a > b) std::swap(a, b); one(a, b, (int)(it & 1)); Z k[2] = { a, b }; case_seen(hash_bytes(k, sizeof k, it & 1), 1); }
  stat_add("random_reductions", iters);
  for (it = 0; it < iters / 20; it++) {
    Dom d, z; Ref r; for (int i = 1; i < NV; i++) { Iv v = riv(); constrain(d, vars[i], v); r.set(vars[i], v); }
    Iv half = it % 3 == 0 ? Iv::top() : it % 3 == 1 ? Iv(B(num(rz())), B::plus_infinity()) : Iv(B::minus_infinity(), B(num(rz()))); constrain(d, vars[0], half); r.set(vars[0], half);
    Var out = vars[rng_below(&R, NV)]; d.intrinsic("red", {VC(vars[0])}, {out}); r -= out; same("reduction of an unbounded value", d, r, "red of " + S(half) + " into " + out.name());
    z.set_to_bottom(); z.intrinsic("red", {VC(vars[0])}, {out}); if (!z.is_bottom()) viol("unreachable state changed", "red on an unreachable state"); TICK();
    stat_add("unbounded_reductions", 1); stat_add("unreachable_reductions", 1);
  }
}
static void lockstep(void) {
  uint32_t seqs = H_thorough ? 60000 : 4000; uint64_t steps = 0; static const char *nm[] = { "assign", "add constraints", "apply arith", "apply arith const", "apply bitwise", "apply bitwise const", "conversion", "select", "forget one", "forget", "project", "rename", "expand", "weak assign", "join", "meet", "widening", "narrowing", "widening with thresholds", "join in place", "meet in place", "to top", "to bottom", "red", "queries", "copies", "other intrinsic", "normalise", "with itself", "constant operand" };
  const int NOPS = 30; uint64_t cnt[NOPS] = { 0 };
  for (uint32_t q = 0; q < seqs; q++) {
    Dom d, d2; Ref r, r2; std::string h;
    for (auto &x : vars) { Iv v = riv(), w = riv(); constrain(d, x, v); r.set(x, v); constrain(d2, x, w); r2.set(x, w); }
    same("constraints", d, r, "initial"); same("constraints", d2, r2, "initial");
    uint32_t len = 1 + rng_below(&R, 14); uint64_t hv = 0;
    for (uint32_t s = 0; s < len; s++) {
      int op = (int) rng_below(&R, NOPS); if ((op == 22 || op == 21) && rng_below(&R, 4)) op = 23; Var x = rv(), y = rv(), z = rv(); N k = num(rz() >> 40); TICK(); steps++; cnt[op]++; hv = hv * 31 + (uint64_t) op;
      h += std::string(h.empty() ? "" : "; ") + nm[op] + " " + x.name() + y.name() + z.name();
      /* products of unbounded growth would leave the stand-in's 128 bits */
      auto big = [&](const Var &v) { Iv i = r.at(v); for (auto b : { i.lb().number(), i.ub().number() }) if (b && (b->value() > ((Z) 1 << 90) || b->value() < -((Z) 1 << 90))) return true; return false; };
      bool any = false; for (auto &v : vars) any |= big(v); if (any) break;
      switch (op) {
      case 0: { LE e = rle(); d.assign(x, e); r.assign(x, e); break; }
      case 1: { LS c; for (uint32_t i = rng_below(&R, 3); i; i--) c += rlc(); d += c; r += c; break; }
      case 2: { auto o = (crab::domains::arith_operation_t) rng_below(&R, 7); auto small = [&](const Var &v) { Iv i = r.at(v); for (auto b : { i.lb().number(), i.ub().number() }) if (b && (b->value() > ((Z) 1 << 44) || b->value() < -((Z) 1 << 44))) return false; return true; };
        if (o == crab::domains::OP_MULTIPLICATION && !(small(y) && small(z))) o = crab::domains::OP_ADDITION; d.apply(o, x, y, z); r.apply(o, x, y, z); break; }
      case 3: { auto o = (crab::domains::arith_operation_t) rng_below(&R, 7); N c = o == crab::domains::OP_MULTIPLICATION ? num((Z) rng_range(&R, -5, 5)) : k; d.apply(o, x, y, c); r.apply(o, x, y, c); break; }
      case 4: { auto o = (crab::domains::bitwise_operation_t) rng_below(&R, 6); d.apply(o, x, y, z); r.apply(o, x, y, z); break; }
      case 5: { auto o = (crab::domains::bitwise_operation_t) rng_below(&R, 6); d.apply(o, x, y, k); r.apply(o, x, y, k); break; }
      case 6: { auto o = (crab::domains::int_conv_operation_t) rng_below(&R, 3); d.apply(o, x, y); r.apply(o, x, y); break; }
      case 7: { LC c = rlc(); LE a = rle(), b = rle(); d.select(x, c, a, b); r.select(x, c, a, b); break; }
      case 8: d -= x; r -= x; break;
      case 9: d.forget({x, y}); r.forget({x, y}); break;
      case 10: d.project({x, y, z}); r.project({x, y, z}); break;
      case 11: { if (x == y) break; d -= y; r -= y; d.rename({x}, {y}); r.rename({x}, {y}); break; }
      case 12: { if (x == y) break; d -= y; r -= y; d.expand(x, y); r.expand(x, y); break; }
      case 13: { LE e = rle(); d.weak_assign(x, e); r.weak_assign(x, e); break; }
      case 14: d = d | d2; r = r | r2; break;
      case 15: d = d & d2; r = r & r2; break;
      case 16: d = d || d2; r = r || r2; break;
      case 17: d = d && d2; r = r && r2; break;
      case 18: { crab::thresholds<N> t; for (uint32_t i = rng_below(&R, 4); i; i--) t.add(num(rz())); d = d.widening_thresholds(d2, t); r = r.widening_thresholds(r2, t); break; }
      case 19: d |= d2; r |= r2; break;
      case 20: d &= d2; r &= r2; break;
      case 21: if (q & 1) { d.set_to_top(); r.set_to_top(); } else { d = d2.make_top(); r = r2.make_top(); } break;
      case 22: if (q & 1) { d.set_to_bottom(); r.set_to_bottom(); } else { d = d2.make_bottom(); r = r2.make_bottom(); } break;
      case 23: { Iv i = r.at(x); auto a = i.lb().number(), b = i.ub().number(); d.intrinsic("red", {VC(x)}, {y}); if (r.is_bottom()) break; if (a && b) { Z lo, hi; extremes(a->value(), b->value(), lo, hi); r.set(y, Iv(B(num(lo)), B(num(hi)))); } else r -= y; break; }
      case 24: { LC c = rlc(); bool bad = d.entails(c) != r.entails(c) || (d <= d2) != (r <= r2) || (d2 <= d) != (r2 <= r) || d[x] != r[x] || S(d.to_linear_constraint_system()) != S(r.to_linear_constraint_system()) || S(d.to_disjunctive_linear_constraint_system()) != S(r.to_disjunctive_linear_constraint_system());
        crab::crab_os o, p; d.write(o); r.write(p); if (o.str() != p.str()) bad = true; if (bad) viol("query answered differently from the interval domain", "after %s", h.c_str()); break; }
      case 25: { Dom t(d); t -= x; Dom u(d2); u = d; u.set_to_bottom(); std::swap(d, d2); std::swap(r, r2); break; }
      case 26: { static const char *const in[] = { "red2", "Red", "redd", "", "RED", "re", "print" }; std::vector<VC> a{VC(x)}; std::vector<Var> b{y}; const char *f = in[rng_below(&R, 7)];
        switch (rng_below(&R, 4)) { case 0: a.push_back(VC(z)); f = "red"; break; case 1: b.push_back(z); f = "red"; break; default: break; } if (x == y) b.clear(); d.intrinsic(f, a, b); break; }
      case 27: if (s & 1) d.normalize(); else d.minimize(); break;
      case 28: { switch (rng_below(&R, 7)) { case 0: d |= d; break; case 1: d &= d; break; case 2: d = d | d; break; case 3: d = d & d; break; case 4: d = d || d; r = r || r; break; case 5: { if (!(d <= d)) viol("query answered differently from the interval domain", "not below itself after %s", h.c_str()); Dom &u = d; d = u; break; } default: { Dom t(std::move(d)); d = std::move(t); } } break; }
      case 29: { bool thrown = false; try { d.intrinsic("red", {VC(k)}, {y}); } catch (std::runtime_error &) { thrown = true; } if (!thrown && !r.is_bottom()) { Iv g = d.at(y); N w = num(redz(k.value())); if (!(Iv(w) <= g)) viol("reduction interval does not cover all values", "red of the constant %s: %s", S(k).c_str(), S(g).c_str()); r.set(y, g); } break; }
      }
      same("differs from the interval domain", d, r, h); same("other operand changed", d2, r2, h);
      if (H_viols > 30) return;
    }
    case_seen(hash_bytes(h.data(), h.size(), hv), len > 1); if (q < 3 && H_shard == 0) sample("%s", h.c_str());
  }
  stat_add("lockstep_steps", steps); for (int i = 0; i < NOPS; i++) { char b[64]; snprintf(b, sizeof b, "op_%s", nm[i]); stat_add(b, cnt[i]); }
}
int main(int argc, char **argv) {
  h_init(argc, argv); rng_seed(&R, 0x18); h_watch("crabdom");
  for (int i = 0; i < NV; i++) vars.push_back(Var(V(1, (char)('a' + i))));
  OP("red"); red_all(); OP("lockstep"); lockstep();
  return h_finish();
}
