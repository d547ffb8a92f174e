/* Executable stand-in for the parts of the Crab library that the verifier's
 * domain uses (Crab itself is not installed here). Numbers are 128-bit with the
 * two's-complement bit operations and the flooring right shift of GMP integers. */
#pragma once
#include <boost/optional.hpp>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <memory>
#include <algorithm>
#include <functional>
#include <utility>
#include <cstdint>
#include <climits>
#include <cstdlib>

namespace crab_stub { extern unsigned long warnings, errors; }
template <typename... A> inline void crab_stub_sink(A &&...) {}
#define CRAB_WARN(...) do { crab_stub_sink(__VA_ARGS__); crab_stub::warnings++; } while (0)
#define CRAB_ERROR(...) do { crab_stub_sink(__VA_ARGS__); crab_stub::errors++; throw std::runtime_error("CRAB_ERROR"); } while (0)
#define CRAB_LOG(TAG, ...) do { } while (0)
#define BOOL_OPERATIONS_NOT_IMPLEMENTED(DOM)
#define ARRAY_OPERATIONS_NOT_IMPLEMENTED(DOM)
#define REGION_AND_REFERENCE_OPERATIONS_NOT_IMPLEMENTED(DOM)

namespace crab {
class crab_os { std::ostringstream m; public: std::string str() const { return m.str(); } template <typename T> crab_os &operator<<(const T &x) { m << x; return *this; } };
inline crab_os &outs() { static crab_os o; return o; }
inline crab_os &errs() { static crab_os o; return o; }
struct CrabStats { static void count(const std::string &) {} static void resume(const std::string &) {} static void stop(const std::string &) {} static unsigned get(const std::string &) { return 0; } };
struct ScopedCrabStats { explicit ScopedCrabStats(const std::string &, bool = false) {} ScopedCrabStats(const char *) {} };
}
namespace ikos {
class z_number {
  __int128 n;
public:
  z_number() : n(0) {}
  z_number(int x) : n(x) {} z_number(long x) : n(x) {} z_number(long long x) : n(x) {} z_number(unsigned x) : n(x) {} z_number(unsigned long x) : n(x) {} z_number(unsigned long long x) : n(x) {}
  static z_number raw(__int128 x) { z_number z; z.n = x; return z; }
  __int128 value() const { return n; }
  bool fits_int64() const { return n >= INT64_MIN && n <= INT64_MAX; }
  explicit operator int64_t() const { return (int64_t) n; }
#define B(op) friend z_number operator op(const z_number &a, const z_number &b) { return raw(a.n op b.n); } z_number &operator op##=(const z_number &b) { n = n op b.n; return *this; }
  B(+) B(-) B(*) B(/) B(%) B(&) B(|) B(^)
#undef B
  friend z_number operator<<(const z_number &a, const z_number &b) { return raw((__int128)((unsigned __int128) a.n << (int) b.n)); }
  friend z_number operator>>(const z_number &a, const z_number &b) { return raw(a.n >> (int) b.n); }
  z_number operator-() const { return raw(-n); } z_number operator~() const { return raw(~n); }
  z_number &operator++() { ++n; return *this; } z_number &operator--() { --n; return *this; }
  z_number operator++(int) { z_number t = *this; ++n; return t; } z_number operator--(int) { z_number t = *this; --n; return t; }
#define C(op) friend bool operator op(const z_number &a, const z_number &b) { return a.n op b.n; }
  C(==) C(!=) C(<) C(<=) C(>) C(>=)
#undef C
  std::string get_str() const { if (n == 0) return "0"; std::string s; unsigned __int128 v = n < 0 ? -(unsigned __int128) n : (unsigned __int128) n; while (v) { s += (char)('0' + (int)(v % 10)); v /= 10; } if (n < 0) s += '-'; std::reverse(s.begin(), s.end()); return s; }
  friend std::ostream &operator<<(std::ostream &o, const z_number &z) { return o << z.get_str(); }
};
template <typename N> class bound {
  int inf; N n;      /* inf: -1, 0, +1 */
  bound(int i, N x) : inf(i), n(x) {}
public:
  bound() : inf(0), n(0) {}
  bound(N x) : inf(0), n(x) {}
  bound(int x) : inf(0), n(x) {}
  static bound plus_infinity() { return bound(1, N(0)); } static bound minus_infinity() { return bound(-1, N(0)); }
  bool is_infinite() const { return inf != 0; } bool is_finite() const { return inf == 0; }
  bool is_plus_infinity() const { return inf > 0; } bool is_minus_infinity() const { return inf < 0; }
  boost::optional<N> number() const { if (inf) return boost::optional<N>(); return boost::optional<N>(n); }
  friend bool operator<(const bound &a, const bound &b) { return a.inf != b.inf ? a.inf < b.inf : a.inf == 0 && a.n < b.n; }
  friend bool operator==(const bound &a, const bound &b) { return a.inf == b.inf && (a.inf || a.n == b.n); }
  friend bool operator!=(const bound &a, const bound &b) { return !(a == b); }
  friend bool operator<=(const bound &a, const bound &b) { return !(b < a); }
  friend bool operator>(const bound &a, const bound &b) { return b < a; }
  friend bool operator>=(const bound &a, const bound &b) { return !(a < b); }
  bound operator-() const { return bound(-inf, -n); }
  friend bound operator+(const bound &a, const bound &b) { if (a.inf) return a; if (b.inf) return b; return bound(a.n + b.n); }
  friend bound operator-(const bound &a, const bound &b) { return a + (-b); }
  friend bound operator*(const bound &a, const bound &b) { if (!a.inf && !b.inf) return bound(a.n * b.n); int sa = a.inf ? a.inf : a.n > N(0) ? 1 : a.n < N(0) ? -1 : 0, sb = b.inf ? b.inf : b.n > N(0) ? 1 : b.n < N(0) ? -1 : 0; int s = sa * sb; return s == 0 ? bound(N(0)) : bound(s, N(0)); }
  static bound min(const bound &a, const bound &b) { return a < b ? a : b; } static bound max(const bound &a, const bound &b) { return a < b ? b : a; }
  friend std::ostream &operator<<(std::ostream &o, const bound &b) { if (b.inf) return o << (b.inf > 0 ? "+oo" : "-oo"); return o << b.n; }
};
using z_bound = bound<z_number>;
template <typename N> class interval {
public:
  using bound_t = bound<N>;
private:
  bound_t l, u;
  static bound_t P() { return bound_t::plus_infinity(); } static bound_t M() { return bound_t::minus_infinity(); }
public:
  interval() : l(M()), u(P()) {}
  interval(bound_t a, bound_t b) : l(a), u(b) { if (u < l) { l = P(); u = M(); } }
  explicit interval(bound_t a) : l(a), u(a) {}
  explicit interval(N n) : l(n), u(n) {}
  static interval top() { return interval(); }
  static interval bottom() { interval i; i.l = P(); i.u = M(); return i; }
  bound_t lb() const { return l; } bound_t ub() const { return u; }
  bool is_bottom() const { return u < l; } bool is_top() const { return l.is_minus_infinity() && u.is_plus_infinity(); }
  boost::optional<N> singleton() const { if (!is_bottom() && l == u) return l.number(); return boost::optional<N>(); }
  bool operator==(const interval &o) const { return (is_bottom() && o.is_bottom()) || (l == o.l && u == o.u); }
  bool operator!=(const interval &o) const { return !(*this == o); }
  bool operator<=(const interval &o) const { return is_bottom() || (!o.is_bottom() && o.l <= l && u <= o.u); }
  interval operator|(const interval &o) const { if (is_bottom()) return o; if (o.is_bottom()) return *this; return interval(bound_t::min(l, o.l), bound_t::max(u, o.u)); }
  interval operator&(const interval &o) const { if (is_bottom() || o.is_bottom()) return bottom(); return interval(bound_t::max(l, o.l), bound_t::min(u, o.u)); }
  interval operator||(const interval &o) const { if (is_bottom()) return o; if (o.is_bottom()) return *this; return interval(o.l < l ? M() : l, u < o.u ? P() : u); }
  interval operator&&(const interval &o) const { if (is_bottom() || o.is_bottom()) return bottom(); return interval(l.is_infinite() && o.l.is_finite() ? o.l : l, u.is_infinite() && o.u.is_finite() ? o.u : u); }
  friend interval operator+(const interval &a, const interval &b) { if (a.is_bottom() || b.is_bottom()) return bottom(); return interval(a.l + b.l, a.u + b.u); }
  friend interval operator-(const interval &a, const interval &b) { if (a.is_bottom() || b.is_bottom()) return bottom(); return interval(a.l - b.u, a.u - b.l); }
  interval operator-() const { return is_bottom() ? bottom() : interval(-u, -l); }
  friend interval operator*(const interval &a, const interval &b) { if (a.is_bottom() || b.is_bottom()) return bottom(); bound_t p = a.l * b.l, q = a.l * b.u, r = a.u * b.l, s = a.u * b.u; return interval(std::min({p, q, r, s}), std::max({p, q, r, s})); }
  void write(crab::crab_os &o) const { o << *this; }
  friend std::ostream &operator<<(std::ostream &o, const interval &i) { if (i.is_bottom()) return o << "_|_"; return o << "[" << i.l << "," << i.u << "]"; }
};
template <typename N> interval<N> max_iv() { return interval<N>(); }
}
namespace crab {
template <typename N> class thresholds { std::vector<N> v; public: void add(N n) { v.push_back(n); }
  ikos::bound<N> next(const ikos::bound<N> &b) const { ikos::bound<N> r = ikos::bound<N>::plus_infinity(); for (auto &x : v) if (b <= ikos::bound<N>(x) && ikos::bound<N>(x) < r) r = x; return r; }
  ikos::bound<N> prev(const ikos::bound<N> &b) const { ikos::bound<N> r = ikos::bound<N>::minus_infinity(); for (auto &x : v) if (ikos::bound<N>(x) <= b && r < ikos::bound<N>(x)) r = x; return r; } };
template <typename N, typename V> class variable { V v; public: variable(const V &x) : v(x) {} const V &name() const { return v; }
  bool operator<(const variable &o) const { return v < o.v; } bool operator==(const variable &o) const { return v == o.v; } bool operator!=(const variable &o) const { return !(v == o.v); }
  friend std::ostream &operator<<(std::ostream &o, const variable &x) { return o << x.v; } };
template <typename N, typename V> class variable_or_constant { boost::optional<variable<N, V>> m; N n; public: variable_or_constant(const variable<N, V> &x) : m(x) {} explicit variable_or_constant(N k) : n(k) {}
  bool is_variable() const { return (bool) m; } bool is_constant() const { return !m; } variable<N, V> get_variable() const { return *m; } N get_constant() const { return n; } };
}
namespace ikos {
template <typename N, typename V> class linear_expression { public: using variable_t = crab::variable<N, V>; std::map<variable_t, N> t; N k;
  linear_expression() : k(0) {} linear_expression(N c) : k(c) {} linear_expression(const variable_t &x) : k(0) { t.insert({x, N(1)}); }
  void add(N c, const variable_t &x) { auto i = t.find(x); if (i == t.end()) t.insert({x, c}); else i->second = i->second + c; }
  N constant() const { return k; } bool is_constant() const { return t.empty(); }
  friend std::ostream &operator<<(std::ostream &o, const linear_expression &e) { for (auto &p : e.t) o << p.second << "*" << p.first << "+"; return o << e.k; } };
/* expression (<=, ==, !=) 0 */
template <typename N, typename V> class linear_constraint { public: enum kind_t { EQUALITY, DISEQUATION, INEQUALITY }; using linear_expression_t = linear_expression<N, V>; linear_expression_t e; kind_t kd;
  linear_constraint(const linear_expression_t &x, kind_t q) : e(x), kd(q) {} const linear_expression_t &expression() const { return e; } kind_t kind() const { return kd; }
  friend std::ostream &operator<<(std::ostream &o, const linear_constraint &c) { return o << c.e << (c.kd == EQUALITY ? "=0" : c.kd == DISEQUATION ? "!=0" : "<=0"); } };
template <typename N, typename V> class linear_constraint_system { std::vector<linear_constraint<N, V>> v; public: using linear_constraint_t = linear_constraint<N, V>;
  linear_constraint_system() {} linear_constraint_system(const linear_constraint_t &c) { v.push_back(c); } linear_constraint_system &operator+=(const linear_constraint_t &c) { v.push_back(c); return *this; }
  typename std::vector<linear_constraint_t>::const_iterator begin() const { return v.begin(); } typename std::vector<linear_constraint_t>::const_iterator end() const { return v.end(); } std::size_t size() const { return v.size(); } bool is_true() const { return v.empty(); }
  friend std::ostream &operator<<(std::ostream &o, const linear_constraint_system &s) { for (auto &c : s) o << c << ";"; return o; } };
template <typename N, typename V> class disjunctive_linear_constraint_system { std::vector<linear_constraint_system<N, V>> v; bool f; public:
  disjunctive_linear_constraint_system(bool is_false = false) : f(is_false) {} disjunctive_linear_constraint_system(const linear_constraint_system<N, V> &s) : f(false) { v.push_back(s); }
  friend std::ostream &operator<<(std::ostream &o, const disjunctive_linear_constraint_system &s) { if (s.f) return o << "false"; for (auto &c : s.v) o << "{" << c << "}"; return o; } };
}
namespace crab { namespace domains {
enum arith_operation_t { OP_ADDITION, OP_SUBTRACTION, OP_MULTIPLICATION, OP_SDIV, OP_UDIV, OP_SREM, OP_UREM };
enum bitwise_operation_t { OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR };
enum int_conv_operation_t { OP_TRUNC, OP_SEXT, OP_ZEXT };
template <typename Dom> struct abstract_domain_traits;
template <typename N, typename V> struct reference_constraint {};
template <typename Dom> class abstract_domain_api {
public:
  using number_t = typename abstract_domain_traits<Dom>::number_t; using varname_t = typename abstract_domain_traits<Dom>::varname_t;
  using linear_expression_t = ikos::linear_expression<number_t, varname_t>; using linear_constraint_t = ikos::linear_constraint<number_t, varname_t>;
  using linear_constraint_system_t = ikos::linear_constraint_system<number_t, varname_t>; using disjunctive_linear_constraint_system_t = ikos::disjunctive_linear_constraint_system<number_t, varname_t>;
  using variable_t = crab::variable<number_t, varname_t>; using variable_vector_t = std::vector<variable_t>;
  using variable_or_constant_t = crab::variable_or_constant<number_t, varname_t>; using variable_or_constant_vector_t = std::vector<variable_or_constant_t>;
  using reference_constraint_t = reference_constraint<number_t, varname_t>; using interval_t = ikos::interval<number_t>;
  virtual ~abstract_domain_api() {}
  virtual Dom make_top() const = 0; virtual Dom make_bottom() const = 0; virtual void set_to_top() = 0; virtual void set_to_bottom() = 0; virtual bool is_bottom() const = 0; virtual bool is_top() const = 0;
  virtual bool operator<=(const Dom &) const = 0; virtual void operator|=(const Dom &) = 0; virtual void operator&=(const Dom &) = 0; virtual Dom operator|(const Dom &) const = 0; virtual Dom operator&(const Dom &) const = 0;
  virtual Dom operator||(const Dom &) const = 0; virtual Dom widening_thresholds(const Dom &, const crab::thresholds<number_t> &) const = 0; virtual Dom operator&&(const Dom &) const = 0;
  virtual void operator-=(const variable_t &) = 0; virtual interval_t operator[](const variable_t &) = 0; virtual interval_t at(const variable_t &) const = 0; virtual void operator+=(const linear_constraint_system_t &) = 0;
  virtual void assign(const variable_t &, const linear_expression_t &) = 0; virtual void weak_assign(const variable_t &, const linear_expression_t &) = 0;
  virtual void apply(arith_operation_t, const variable_t &, const variable_t &, const variable_t &) = 0; virtual void apply(arith_operation_t, const variable_t &, const variable_t &, number_t) = 0;
  virtual void apply(int_conv_operation_t, const variable_t &, const variable_t &) = 0; virtual void apply(bitwise_operation_t, const variable_t &, const variable_t &, const variable_t &) = 0; virtual void apply(bitwise_operation_t, const variable_t &, const variable_t &, number_t) = 0;
  virtual void select(const variable_t &, const linear_constraint_t &, const linear_expression_t &, const linear_expression_t &) = 0;
  virtual void intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &) = 0; virtual bool entails(const linear_constraint_t &) const = 0;
  virtual void backward_assign(const variable_t &, const linear_expression_t &, const Dom &) = 0; virtual void backward_apply(arith_operation_t, const variable_t &, const variable_t &, number_t, const Dom &) = 0;
  virtual void backward_apply(arith_operation_t, const variable_t &, const variable_t &, const variable_t &, const Dom &) = 0;
  virtual void backward_intrinsic(std::string, const variable_or_constant_vector_t &, const variable_vector_t &, const Dom &) = 0;
  virtual void forget(const variable_vector_t &) = 0; virtual void project(const variable_vector_t &) = 0; virtual void rename(const variable_vector_t &, const variable_vector_t &) = 0; virtual void expand(const variable_t &, const variable_t &) = 0;
  virtual void normalize() = 0; virtual void minimize() = 0; virtual void write(crab::crab_os &) const = 0; virtual linear_constraint_system_t to_linear_constraint_system() const = 0;
  virtual disjunctive_linear_constraint_system_t to_disjunctive_linear_constraint_system() const = 0; virtual std::string domain_name() const = 0;
};
} }
