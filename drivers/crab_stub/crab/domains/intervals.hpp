/* Executable stand-in for ikos::interval_domain. */
#pragma once
#include <crab/domains/abstract_domain.hpp>
namespace ikos {
template <typename N, typename V> class interval_domain;
}
namespace crab { namespace domains { template <typename N, typename V> struct abstract_domain_traits<ikos::interval_domain<N, V>> { using number_t = N; using varname_t = V; }; } }
namespace ikos {
template <typename N, typename V> class interval_domain final : public crab::domains::abstract_domain_api<interval_domain<N, V>> {
public:
  using dom_t = interval_domain<N, V>; using api_t = crab::domains::abstract_domain_api<dom_t>;
  using typename api_t::interval_t; using typename api_t::variable_t; using typename api_t::variable_vector_t; using typename api_t::linear_expression_t; using typename api_t::linear_constraint_t; using typename api_t::linear_constraint_system_t;
  using typename api_t::disjunctive_linear_constraint_system_t; using typename api_t::variable_or_constant_vector_t; using number_t = N; using varname_t = V; using bound_t = bound<N>;
private:
  bool bot = false; std::map<variable_t, interval_t> m;
  template <typename F> dom_t merge(const dom_t &o, F f) const { dom_t r; for (auto &p : m) { auto i = f(p.second, o.at(p.first)); r.set(p.first, i); } for (auto &p : o.m) if (!m.count(p.first)) r.set(p.first, f(interval_t::top(), p.second)); return r; }
  interval_t eval(const linear_expression_t &e) const { interval_t r(e.k); for (auto &p : e.t) r = r + interval_t(p.second) * at(p.first); return r; }
  void add1(const linear_constraint_t &c) {
    interval_t v = eval(c.e); if (v.is_bottom()) { set_to_bottom(); return; }
    if (c.kd == linear_constraint_t::DISEQUATION) { if (v == interval_t(N(0))) set_to_bottom(); return; }
    if (v.lb() > bound_t(N(0)) || (c.kd == linear_constraint_t::EQUALITY && v.ub() < bound_t(N(0)))) { set_to_bottom(); return; }
    if (c.e.t.size() == 1) { const variable_t &x = c.e.t.begin()->first; N a = c.e.t.begin()->second; if (a == N(1) || a == N(-1)) { N k = a == N(1) ? -c.e.k : c.e.k; interval_t lim = c.kd == linear_constraint_t::EQUALITY ? interval_t(k) : a == N(1) ? interval_t(bound_t::minus_infinity(), bound_t(k)) : interval_t(bound_t(k), bound_t::plus_infinity()); set(x, at(x) & lim); } }
  }
public:
  interval_domain() {} interval_domain(const dom_t &) = default; interval_domain(dom_t &&) = default; dom_t &operator=(const dom_t &) = default; dom_t &operator=(dom_t &&) = default;
  dom_t make_top() const override { return dom_t(); } dom_t make_bottom() const override { dom_t d; d.bot = true; return d; } static dom_t top() { return dom_t(); } static dom_t bottom() { dom_t d; d.bot = true; return d; }
  void set_to_top() override { bot = false; m.clear(); } void set_to_bottom() override { bot = true; m.clear(); }
  bool is_bottom() const override { return bot; } bool is_top() const override { return !bot && m.empty(); }
  void set(const variable_t &x, interval_t i) { if (bot) return; if (i.is_bottom()) { set_to_bottom(); return; } m.erase(x); if (!i.is_top()) m.insert({x, i}); }
  void set(const variable_t &x, N n) { set(x, interval_t(n)); }
  interval_t at(const variable_t &x) const override { if (bot) return interval_t::bottom(); auto i = m.find(x); return i == m.end() ? interval_t::top() : i->second; }
  interval_t operator[](const variable_t &x) override { return at(x); }
  bool operator<=(const dom_t &o) const override { if (bot) return true; if (o.bot) return false; for (auto &p : o.m) if (!(at(p.first) <= p.second)) return false; return true; }
  dom_t operator|(const dom_t &o) const override { if (bot) return o; if (o.bot) return *this; return merge(o, [](const interval_t &a, const interval_t &b) { return a | b; }); }
  dom_t operator&(const dom_t &o) const override { if (bot || o.bot) return make_bottom(); return merge(o, [](const interval_t &a, const interval_t &b) { return a & b; }); }
  dom_t operator||(const dom_t &o) const override { if (bot) return o; if (o.bot) return *this; return merge(o, [](const interval_t &a, const interval_t &b) { return a || b; }); }
  dom_t operator&&(const dom_t &o) const override { if (bot || o.bot) return make_bottom(); return merge(o, [](const interval_t &a, const interval_t &b) { return a && b; }); }
  dom_t widening_thresholds(const dom_t &o, const crab::thresholds<N> &ts) const override { if (bot) return o; if (o.bot) return *this; return merge(o, [&ts](const interval_t &a, const interval_t &b) { return interval_t(b.lb() < a.lb() ? ts.prev(b.lb()) : a.lb(), a.ub() < b.ub() ? ts.next(b.ub()) : a.ub()); }); }
  void operator|=(const dom_t &o) override { *this = *this | o; } void operator&=(const dom_t &o) override { *this = *this & o; }
  void operator-=(const variable_t &v) override { m.erase(v); }
  void operator+=(const linear_constraint_system_t &s) override { for (auto &c : s) { if (bot) return; add1(c); } }
  void assign(const variable_t &x, const linear_expression_t &e) override { if (!bot) set(x, eval(e)); }
  void weak_assign(const variable_t &x, const linear_expression_t &e) override { if (!bot) set(x, at(x) | eval(e)); }
  void arith(crab::domains::arith_operation_t op, const variable_t &x, interval_t a, interval_t b) { if (bot) return; switch (op) { case crab::domains::OP_ADDITION: set(x, a + b); break; case crab::domains::OP_SUBTRACTION: set(x, a - b); break; case crab::domains::OP_MULTIPLICATION: set(x, a * b); break;
    case crab::domains::OP_SDIV: set(x, b == interval_t(N(1)) ? a : interval_t(a.lb() < bound_t(N(0)) ? bound_t::minus_infinity() : bound_t(N(0)), bound_t::plus_infinity())); break; case crab::domains::OP_SREM: set(x, interval_t(bound_t(N(-12289)), bound_t(N(12289)))); break; default: *this -= x; } }
  void bitw(crab::domains::bitwise_operation_t op, const variable_t &x, interval_t a, interval_t b) { if (bot) return; auto k = b.singleton(), j = a.singleton(); if (k && j) { N r; switch (op) { case crab::domains::OP_AND: r = *j & *k; break; case crab::domains::OP_OR: r = *j | *k; break; case crab::domains::OP_XOR: r = *j ^ *k; break; case crab::domains::OP_SHL: r = *j * N(2); break; default: r = *j >> N(1); } set(x, r); } else if (op == crab::domains::OP_AND && k && *k >= N(0)) set(x, interval_t(bound_t(N(0)), bound_t(*k))); else if (op == crab::domains::OP_XOR) set(x, a | b); else *this -= x; }
  void apply(crab::domains::arith_operation_t op, const variable_t &x, const variable_t &y, const variable_t &z) override { arith(op, x, at(y), at(z)); }
  void apply(crab::domains::arith_operation_t op, const variable_t &x, const variable_t &y, N k) override { arith(op, x, at(y), interval_t(k)); }
  void apply(crab::domains::int_conv_operation_t op, const variable_t &d, const variable_t &s) override { if (!bot) set(d, op == crab::domains::OP_ZEXT ? (at(s) & interval_t(bound_t(N(0)), bound_t::plus_infinity())) | interval_t(N(0)) : at(s)); }
  void apply(crab::domains::bitwise_operation_t op, const variable_t &x, const variable_t &y, const variable_t &z) override { bitw(op, x, at(y), at(z)); }
  void apply(crab::domains::bitwise_operation_t op, const variable_t &x, const variable_t &y, N k) override { bitw(op, x, at(y), interval_t(k)); }
  bool entails(const linear_constraint_t &c) const override { if (bot) return true; interval_t v = eval(c.e); if (c.kd == linear_constraint_t::EQUALITY) return v == interval_t(N(0)); if (c.kd == linear_constraint_t::DISEQUATION) return v.ub() < bound_t(N(0)) || v.lb() > bound_t(N(0)); return v.ub() <= bound_t(N(0)); }
  void select(const variable_t &x, const linear_constraint_t &c, const linear_expression_t &a, const linear_expression_t &b) override { if (bot) return; if (entails(c)) { assign(x, a); return; } dom_t t(*this); t += linear_constraint_system_t(c); if (t.is_bottom()) { assign(x, b); return; } set(x, eval(a) | eval(b)); }
  void intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &) override { CRAB_WARN("intrinsic"); }
  void backward_assign(const variable_t &, const linear_expression_t &, const dom_t &) override {} void backward_apply(crab::domains::arith_operation_t, const variable_t &, const variable_t &, N, const dom_t &) override {}
  void backward_apply(crab::domains::arith_operation_t, const variable_t &, const variable_t &, const variable_t &, const dom_t &) override {} void backward_intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &, const dom_t &) override {}
  void forget(const variable_vector_t &v) override { for (auto &x : v) m.erase(x); }
  void project(const variable_vector_t &v) override { std::map<variable_t, interval_t> r; for (auto &x : v) { auto i = m.find(x); if (i != m.end()) r.insert(*i); } m = r; }
  void rename(const variable_vector_t &f, const variable_vector_t &t) override { std::vector<interval_t> v; for (auto &x : f) v.push_back(at(x)); for (auto &x : f) m.erase(x); for (size_t i = 0; i < f.size() && i < t.size(); i++) set(t[i], v[i]); }
  void expand(const variable_t &x, const variable_t &y) override { if (!bot) set(y, at(x)); }
  void normalize() override {} void minimize() override {}
  void write(crab::crab_os &o) const override { if (bot) { o << "_|_"; return; } for (auto &p : m) o << p.first << " -> " << p.second << "; "; }
  linear_constraint_system_t to_linear_constraint_system() const override { linear_constraint_system_t s; if (bot) { s += linear_constraint_t(linear_expression_t(N(1)), linear_constraint_t::EQUALITY); return s; } for (auto &p : m) { if (p.second.lb().is_finite()) { linear_expression_t e(*p.second.lb().number()); e.add(N(-1), p.first); s += linear_constraint_t(e, linear_constraint_t::INEQUALITY); } if (p.second.ub().is_finite()) { linear_expression_t e(-*p.second.ub().number()); e.add(N(1), p.first); s += linear_constraint_t(e, linear_constraint_t::INEQUALITY); } } return s; }
  disjunctive_linear_constraint_system_t to_disjunctive_linear_constraint_system() const override { if (bot) return disjunctive_linear_constraint_system_t(true); return disjunctive_linear_constraint_system_t(to_linear_constraint_system()); }
  std::string domain_name() const override { return "Intervals"; }
};
}
