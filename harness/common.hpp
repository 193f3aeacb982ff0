// Replay / search harness: random expression trees, an independent mirror of
// them, and oracles on the mirror.  Uses only the library's public interface.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <new>
#include <memory>
#include <set>
#include <vector>
#include <string>
#include <sstream>
#include <functional>
#include <exception>
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/runtime/integral.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/runtime/interval.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
namespace vm = viennamath;
typedef vm::default_interface_type IF;
typedef vm::op_interface<IF> OI;
typedef vm::rt_expr<> RE; typedef vm::rt_binary_expr<> RB; typedef vm::rt_unary_expr<> RU;
typedef vm::rt_variable<> RV; typedef vm::rt_constant<> RC; typedef vm::rt_constant<long> RCL; typedef vm::rt_constant<int> RCI;
typedef vm::rt_function_symbol<> RF; typedef vm::rt_vector_expr<> VE; typedef vm::rt_interval<> RI; typedef vm::rt_equation<> RQ;
typedef vm::rt_symbolic_interval<> SI;

// ---------------------------------------------------------------- random numbers
struct Rng { unsigned long long s; Rng(unsigned long long x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; ++i) next(); }
  unsigned long long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull >> 11; }
  int below(int n) { return (int)(next() % (unsigned)n); }
  bool chance(int pct) { return below(100) < pct; }
  double coord() { return (below(33) - 16) / 8.0; }
};
// ---------------------------------------------------------------- reporting
static std::string cur_case; static const char* the_prop = "?"; static long n_cases = 0; static int n_fail = 0; static std::set<size_t> seen_cases; static int n_samples = 0;
static unsigned long the_seed = 1; static long case_no = 0;
inline void fail(std::string key, std::string text) {
  if (n_fail++ > 40) return;
  for (auto& c : text) if (c == '\n') c = ' ';
  for (auto& c : key) if (c == '\n') c = ' ';
  printf("FAIL\t%s\t[seed %lu case %ld] %s | %s\n", key.c_str(), the_seed, case_no, cur_case.c_str(), text.c_str()); fflush(stdout);
}
inline void die(const char* why) {
  char buf[6000]; int n = snprintf(buf, sizeof buf, "FAIL\t%s\t[seed %lu case %ld] %.5000s | %s\n", why, the_seed, case_no, cur_case.c_str(), why);
  if (write(1, buf, n) < 0) {} _exit(3);
}
inline void on_sig(int s) { die(s == SIGSEGV ? "invalid memory access" : s == SIGABRT ? "assertion failure or abort" : s == SIGFPE ? "arithmetic trap" : s == SIGVTALRM ? "does not terminate" : "signal"); }
inline void arm() { itimerval t{}; t.it_value.tv_sec = 8; setitimer(ITIMER_VIRTUAL, &t, 0); }
inline void begin_case(std::string d) { cur_case = d; ++n_cases; if (seen_cases.insert(std::hash<std::string>()(d)).second && n_samples < 6 && d.size() > 12) { ++n_samples; printf("SAMPLE\t%s\n", d.substr(0, 300).c_str()); } arm(); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)());
inline void asan_death() { die("memory error reported by the address sanitizer"); }
#endif
inline void init_signals() {
  signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGVTALRM, on_sig); signal(SIGILL, on_sig);
#if defined(__SANITIZE_ADDRESS__)
  __asan_set_death_callback(asan_death);
#else
  signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig);
#endif
}
// ---------------------------------------------------------------- live allocation counter
static long live_allocs = 0;
#ifdef COUNT_ALLOCS
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); ++live_allocs; return p; }
void operator delete(void* p) noexcept { if (p) { --live_allocs; free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --live_allocs; free(p); } }
void* operator new[](std::size_t n) { void* p = malloc(n ? n : 1); ++live_allocs; return p; }
void operator delete[](void* p) noexcept { if (p) { --live_allocs; free(p); } }
void operator delete[](void* p, std::size_t) noexcept { if (p) { --live_allocs; free(p); } }
#endif
// ---------------------------------------------------------------- mirror trees
enum { K_C, K_L, K_I, K_VAR, K_FUN, K_UN, K_BIN, K_VEC };
enum { O_PLUS, O_MINUS, O_MULT, O_DIV, O_ID, O_EXP, O_SIN, O_COS, O_TAN, O_FABS, O_SQRT, O_LOG, O_LOG10, O_GRAD, O_DIVG, O_PD, O_SINT, O_INT, O_NUM };
static const char* op_nm[] = {"+", "-", "*", "/", "id", "exp", "sin", "cos", "tan", "fabs", "sqrt", "log", "log10", "grad", "div", "d_", "sint_", "int"};
struct N; typedef std::shared_ptr<const N> T;
struct N { int k = K_C; double c = 0; long l = 0; unsigned long id = 0, tag = 0; int op = 0; std::vector<T> ch; };   // K_INT: ch = child, lo, hi; id = variable
inline T mkc(double v) { auto n = std::make_shared<N>(); n->k = K_C; n->c = v; return n; }
inline T mkl(long v) { auto n = std::make_shared<N>(); n->k = K_L; n->l = v; return n; }
inline T mki(int v) { auto n = std::make_shared<N>(); n->k = K_I; n->l = v; return n; }
inline T mkv(unsigned long i) { auto n = std::make_shared<N>(); n->k = K_VAR; n->id = i; return n; }
inline T mkf(unsigned long i, unsigned long t) { auto n = std::make_shared<N>(); n->k = K_FUN; n->id = i; n->tag = t; return n; }
inline T mkb(int op, T a, T b) { auto n = std::make_shared<N>(); n->k = K_BIN; n->op = op; n->ch = {a, b}; return n; }
inline T mku(int op, T a, unsigned long id = 0) { auto n = std::make_shared<N>(); n->k = K_UN; n->op = op; n->id = id; n->ch = {a}; return n; }
inline T mkint(T a, T lo, T hi, unsigned long v) { auto n = std::make_shared<N>(); n->k = K_UN; n->op = O_INT; n->id = v; n->ch = {a, lo, hi}; return n; }
inline T mkvec(std::vector<T> c) { auto n = std::make_shared<N>(); n->k = K_VEC; n->ch = c; return n; }
inline std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
inline std::string show(T t) {
  if (!t) return "<null>";
  switch (t->k) {
    case K_C: return num(t->c); case K_L: return std::to_string(t->l) + "L"; case K_I: return std::to_string(t->l) + "i";
    case K_VAR: return "x" + std::to_string(t->id); case K_FUN: return "f" + std::to_string(t->id) + "_" + std::to_string(t->tag);
    case K_UN: if (t->op == O_INT) return "int[" + show(t->ch[1]) + "," + show(t->ch[2]) + "]dx" + std::to_string(t->id) + "(" + show(t->ch[0]) + ")";
      return std::string(op_nm[t->op]) + (t->op == O_PD || t->op == O_SINT ? std::to_string(t->id) : "") + "(" + show(t->ch[0]) + ")";
    case K_BIN: return "(" + show(t->ch[0]) + " " + op_nm[t->op] + " " + show(t->ch[1]) + ")";
    default: { std::string s = "["; for (size_t i = 0; i < t->ch.size(); ++i) s += (i ? ", " : "") + show(t->ch[i]); return s + "]"; }
  }
}
inline double six(double v) { char b[40]; snprintf(b, 40, "%g", v); return strtod(b, 0); }      // a number as the library's streams print it
inline bool same_d(double a, double b) { return a == b || (a != a && b != b); }
inline bool eq(T a, T b) {
  if (a == b) return true; if (!a || !b) return false;
  if (a->k != b->k || a->ch.size() != b->ch.size()) return false;
  if (a->k == K_C && !same_d(a->c, b->c)) return false;
  if ((a->k == K_L || a->k == K_I) && a->l != b->l) return false;
  if ((a->k == K_VAR || a->k == K_FUN) && a->id != b->id) return false;
  if (a->k == K_FUN && a->tag != b->tag) return false;
  if (a->k == K_UN && (a->op != b->op || ((a->op == O_PD || a->op == O_SINT || a->op == O_INT) && a->id != b->id))) return false;
  if (a->k == K_BIN && a->op != b->op) return false;
  for (size_t i = 0; i < a->ch.size(); ++i) if (!eq(a->ch[i], b->ch[i])) return false;
  return true;
}
inline bool is_leaf_const(T t) { return t->k == K_C || t->k == K_L || t->k == K_I; }
inline double leaf_val(T t) { return t->k == K_C ? t->c : (double)t->l; }
inline bool is_const(T t) { return is_leaf_const(t) || (t->k == K_BIN && is_const(t->ch[0]) && is_const(t->ch[1])); }
inline bool any(T t, std::function<bool(T)> p) { if (p(t)) return true; for (auto c : t->ch) if (any(c, p)) return true; return false; }
inline int nodes(T t) { int n = 1; for (auto c : t->ch) n += nodes(c); return n; }
// ---------------------------------------------------------------- mirror -> library
inline IF* build(T t);
inline OI* build_op(T t) {
  using namespace vm;
  switch (t->op) {
    case O_PLUS: return new op_binary<op_plus<double>, IF>(); case O_MINUS: return new op_binary<op_minus<double>, IF>();
    case O_MULT: return new op_binary<op_mult<double>, IF>(); case O_DIV: return new op_binary<op_div<double>, IF>();
    case O_ID: return new op_unary<op_id<double>, IF>(); case O_EXP: return new op_unary<op_exp<double>, IF>(); case O_SIN: return new op_unary<op_sin<double>, IF>();
    case O_COS: return new op_unary<op_cos<double>, IF>(); case O_TAN: return new op_unary<op_tan<double>, IF>(); case O_FABS: return new op_unary<op_fabs<double>, IF>();
    case O_SQRT: return new op_unary<op_sqrt<double>, IF>(); case O_LOG: return new op_unary<op_log<double>, IF>(); case O_LOG10: return new op_unary<op_log10<double>, IF>();
    case O_GRAD: return new op_unary<op_gradient<double>, IF>(); case O_DIVG: return new op_unary<op_divergence<double>, IF>();
    case O_PD: return new op_unary<op_partial_deriv<double>, IF>(op_partial_deriv<double>(t->id));
    case O_SINT: return new op_unary<op_rt_symbolic_integral<IF>, IF>(op_rt_symbolic_integral<IF>(SI(t->id)));
    default: { RE a(build(t->ch[1])), b(build(t->ch[2])); return new op_unary<op_rt_integral<IF>, IF>(op_rt_integral<IF>(RI(a, b), RV(t->id))); }
  }
}
inline IF* build(T t) {
  switch (t->k) {
    case K_C: return new RC(t->c); case K_L: return new RCL(t->l); case K_I: return new RCI((int)t->l); case K_VAR: return new RV(t->id); case K_FUN: return new RF(t->id, t->tag);
    case K_UN: return new RU(build(t->ch[0]), build_op(t)); case K_BIN: return new RB(build(t->ch[0]), build_op(t), build(t->ch[1]));
    default: { VE* v = new VE(t->ch.size()); for (size_t i = 0; i < t->ch.size(); ++i) (*v)[i] = RE(build(t->ch[i])); return v; }
  }
}
// ---------------------------------------------------------------- library -> mirror
template <typename O> inline bool is_op(const OI* o) { return dynamic_cast<const O*>(o) != 0; }
inline T rd(const IF* p) {
  using namespace vm;
  if (!p) return T();
  if (auto q = dynamic_cast<const RC*>(p)) return mkc(static_cast<double>(*q));
  if (auto q = dynamic_cast<const RCL*>(p)) return mkl(static_cast<long>(*q));
  if (auto q = dynamic_cast<const RCI*>(p)) return mki(static_cast<int>(*q));
  if (auto q = dynamic_cast<const RV*>(p)) return mkv(q->id());
  if (auto q = dynamic_cast<const RF*>(p)) return mkf(q->id(), q->tag_id());
  if (auto q = dynamic_cast<const VE*>(p)) { std::vector<T> c; for (size_t i = 0; i < q->size(); ++i) c.push_back(rd((*q)[i].get())); return mkvec(c); }
  if (auto q = dynamic_cast<const RB*>(p)) {
    const OI* o = q->op(); int k = -1;
    if (is_op<op_binary<op_plus<double>, IF> >(o)) k = O_PLUS; else if (is_op<op_binary<op_minus<double>, IF> >(o)) k = O_MINUS;
    else if (is_op<op_binary<op_mult<double>, IF> >(o)) k = O_MULT; else if (is_op<op_binary<op_div<double>, IF> >(o)) k = O_DIV;
    if (k < 0) { auto n = std::make_shared<N>(); n->k = 99; return n; }
    return mkb(k, rd(q->lhs()), rd(q->rhs()));
  }
  if (auto q = dynamic_cast<const RU*>(p)) {
    const OI* o = q->op(); T a = rd(q->lhs());
    if (is_op<op_unary<op_id<double>, IF> >(o)) return mku(O_ID, a); if (is_op<op_unary<op_exp<double>, IF> >(o)) return mku(O_EXP, a);
    if (is_op<op_unary<op_sin<double>, IF> >(o)) return mku(O_SIN, a); if (is_op<op_unary<op_cos<double>, IF> >(o)) return mku(O_COS, a);
    if (is_op<op_unary<op_tan<double>, IF> >(o)) return mku(O_TAN, a); if (is_op<op_unary<op_fabs<double>, IF> >(o)) return mku(O_FABS, a);
    if (is_op<op_unary<op_sqrt<double>, IF> >(o)) return mku(O_SQRT, a); if (is_op<op_unary<op_log<double>, IF> >(o)) return mku(O_LOG, a);
    if (is_op<op_unary<op_log10<double>, IF> >(o)) return mku(O_LOG10, a); if (is_op<op_unary<op_gradient<double>, IF> >(o)) return mku(O_GRAD, a);
    if (is_op<op_unary<op_divergence<double>, IF> >(o)) return mku(O_DIVG, a);
    if (auto z = dynamic_cast<const op_unary<op_partial_deriv<double>, IF>*>(o)) return mku(O_PD, a, z->op().id());
    if (auto z = dynamic_cast<const op_unary<op_rt_symbolic_integral<IF>, IF>*>(o)) return mku(O_SINT, a, z->op().interval().id());
    if (auto z = dynamic_cast<const op_unary<op_rt_integral<IF>, IF>*>(o)) return mkint(a, rd(z->op().interval().lower().get()), rd(z->op().interval().upper().get()), z->op().variable().id());
  }
  auto n = std::make_shared<N>(); n->k = 99; return n;
}
inline T rd(RE const& e) { return rd(e.get()); }
// ---------------------------------------------------------------- oracle: formal value
typedef std::vector<double> Pt;
struct Cond { bool bad = false; };       // numerically unusable point (overflow, near a pole, domain error)
struct NoVal {}; struct OutOfRange {};
inline double hash_val(std::string s, Pt const& p) { size_t h = std::hash<std::string>()(s); for (double d : p) h = h * 1000003u ^ std::hash<double>()(d); h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return ((int)(h % 41) - 20) / 8.0; }
// a smooth formal interpretation of symbols so that derivatives agree numerically is not needed: symbols and
// formal operators are only compared syntactically up to value
inline double ev(T t, Pt const& p, Cond& c, bool formal = false);
// a formal operator is a function of the (numerically sampled) function its operand denotes; the gradient of zero is zero
inline double formal_op(T t, Pt const& p, Cond& c) {
  static const Pt pts[3] = {{0.3125, 1.4375, 0.71875, 1.09375, 0.53}, {1.21875, 0.40625, 1.5625, 0.84375, 0.91}, {2.03125, 1.78125, 0.28125, 0.65625, 1.33}};
  std::string s = std::string(op_nm[t->op]) + std::to_string(t->id); bool zero = t->op == O_GRAD;
  for (auto a : t->ch) for (int i = 0; i < 3; ++i) { Cond k; double v = ev(a, pts[i], k, true); if (k.bad) c.bad = true; if (!(std::fabs(v) < 1e-9)) zero = false; char b[40]; snprintf(b, 40, ":%ld", c.bad ? 0 : std::lround(std::floor(v * 4096 + 0.3717))); s += b; }
  return zero ? 0 : hash_val(s, p);
}
inline double ev(T t, Pt const& p, Cond& c, bool formal) {
  double r = 0;
  switch (t->k) {
    case K_C: r = t->c; break; case K_L: case K_I: r = (double)t->l; break;
    case K_VAR: if (t->id >= p.size()) throw OutOfRange(); r = p[t->id]; break;
    case K_FUN: if (!formal) throw NoVal(); r = hash_val("f" + std::to_string(t->id) + "_" + std::to_string(t->tag), p); break;
    case K_VEC: throw NoVal();
    case K_UN: {
      if (t->op >= O_GRAD) { if (!formal) throw NoVal(); r = formal_op(t, p, c); break; }
      double a = ev(t->ch[0], p, c, formal);
      switch (t->op) {
        case O_ID: r = a; break; case O_EXP: if (a > 12) c.bad = true; r = std::exp(a); break; case O_SIN: r = std::sin(a); break; case O_COS: r = std::cos(a); break;
        case O_TAN: if (std::fabs(std::cos(a)) < 0.02) c.bad = true; r = std::tan(a); break; case O_FABS: r = std::fabs(a); break;
        case O_SQRT: if (a < 1e-6 && a != 0) c.bad = true; if (a < 0) c.bad = true; r = std::sqrt(a); break;
        case O_LOG: if (a < 1e-3) c.bad = true; r = std::log(a); break; case O_LOG10: if (a < 1e-3) c.bad = true; r = std::log10(a); break;
      }
      break; }
    case K_BIN: {
      if (formal && t->op == O_MULT && t->ch[0]->k == K_VEC && t->ch[1]->k == K_VEC && t->ch[0]->ch.size() == t->ch[1]->ch.size()) {
        for (size_t i = 0; i < t->ch[0]->ch.size(); ++i) r += ev(t->ch[0]->ch[i], p, c, formal) * ev(t->ch[1]->ch[i], p, c, formal);
        break;
      }
      double a = ev(t->ch[0], p, c, formal), b = ev(t->ch[1], p, c, formal);
      switch (t->op) { case O_PLUS: r = a + b; break; case O_MINUS: r = a - b; break; case O_MULT: r = a * b; break; case O_DIV: if (std::fabs(b) < 2e-3) c.bad = true; r = a / b; break; }
      break; }
    default: throw NoVal();
  }
  if (!(std::fabs(r) < 1e5)) c.bad = true;
  return r;
}
inline bool close(double a, double b) { return same_d(a, b) || std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
// kind of result of evaluating the mirror: 0 value, 1 no value, 2 variable out of range
inline bool numeric(T t) { return !any(t, [](T n) { return n->k == K_FUN || n->k == K_VEC || (n->k == K_UN && n->op >= O_GRAD); }); }
inline unsigned long maxvar(T t) { unsigned long m = t->k == K_VAR ? t->id + 1 : 0; for (auto c : t->ch) m = std::max(m, maxvar(c)); return m; }
// ---------------------------------------------------------------- generator
struct Gen { int nvar = 3, nfun = 0; bool vec = false, formalops = false, ints = true, intg = false; int uops = 9; int small = 0; std::vector<T> pool; };
// a minority of the cases use unusual data: constants that print alike, very small and large ones, identifiers beyond one, two and four bytes, long vectors
static bool exotic = false;
#ifndef PROP
#define PROP 0
#endif
inline unsigned long xid(Rng& r, unsigned long id) {
  static const unsigned long add[] = {256, 65536, 2147483648ul, 4294967296ul, 12884902144ul, 9223372036854775808ul};
  const bool structural = PROP == 2 || PROP == 4 || PROP == 5 || PROP == 10 || PROP == 11 || PROP == 12 || PROP == 14 || PROP == 25 || PROP == 26 || PROP == 27 || PROP == 28;
  return exotic && structural && r.chance(40) ? id + add[r.below(6)] : id;
}
inline double xconst(Rng& r) { static const double c[] = {12345.67, 12345.72, 100.0004, 100.0001, 1e-9, 1.5e-7, 3e-5, 1e-6, -1e-6, 1.000001, 0.999999, 1234567, 16777217, 3e9, 2.000003, 1.999998, 0.1, 1.0 / 3}; return c[r.below(18)]; }
// the same tree with some constants (identifiers) replaced by nearby ones
inline T twin(Rng& r, T t) {
  if (t->k == K_C) return r.chance(60) ? mkc(t->c * (1 + 3e-6)) : t;
  if (t->ch.empty()) return t;
  auto n = std::make_shared<N>(*t); for (auto& c : n->ch) c = twin(r, c); return n;
}
inline T gen_leaf(Rng& r, Gen const& g) {
  int k = r.below(g.nfun ? 12 : 9);
  if (k < 4) return mkv(xid(r, r.below(g.nvar)));
  if (exotic && k < 9 && r.chance(50)) return mkc(xconst(r));
  if (k < 9) {
    if (r.chance(40)) return r.chance(50) || !g.ints ? mkc(r.chance(60) ? r.below(3) - 1 : r.chance(50) ? 1 : 0) : r.chance(50) ? mkl(r.below(3) - 1) : mki(r.below(3) - 1);
    if (!g.ints || r.chance(70)) return mkc((r.below(25) - 12) / 4.0);
    return r.chance(50) ? mkl(r.below(9) - 4) : mki(r.below(9) - 4);
  }
  { unsigned long id = xid(r, r.below(g.nfun)); return mkf(id, r.below(2)); }
}
inline T gen(Rng& r, Gen const& g, int depth);
// a long chain of mild operations around a small expression: deep recursion, many simplification passes
inline T gen_chain(Rng& r, Gen const& g) {
  T t = gen(r, g, 1); int n = r.chance(10) ? 70 + r.below(80) : 8 + r.below(40); bool only1 = r.chance(50);
  for (int i = 0; i < n; ++i) { T c = mkc((r.below(17) - 8) / 4.0), o = mkc(1), z = mkc(0);
    switch (r.below(only1 ? 13 : 17)) { case 0: t = mkb(O_PLUS, t, o); break; case 1: t = mkb(O_PLUS, o, t); break; case 2: t = mkb(O_MINUS, t, o); break; case 3: t = mkb(O_MULT, t, o); break; case 4: t = mkb(O_MULT, o, t); break; case 5: t = mkb(O_PLUS, t, z); break; case 6: t = mkb(O_PLUS, z, t); break;
      case 7: t = mkb(O_MINUS, t, z); break; case 8: t = mkb(O_DIV, t, o); break; case 9: t = mkb(O_MULT, t, mkv(r.below(g.nvar))); t = mkb(O_MULT, t, mkc(0.25)); break; case 10: t = mkb(O_MULT, z, t); break; case 11: t = mkb(O_PLUS, mkb(O_MULT, t, z), o); break; case 12: t = mkb(O_MULT, t, mkc(0.5)); break;
      case 13: t = mku(O_SIN, t); break; case 14: t = mku(O_COS, t); break; case 15: t = mkb(O_PLUS, t, c); break; case 16: t = mkb(O_MINUS, c, t); break; } }
  return t;
}
inline T gen(Rng& r, Gen const& g, int depth) {
  static int lvl = 0; struct Lv { Lv() { ++lvl; } ~Lv() { --lvl; } } in_call;
  if (lvl == 1 && depth >= 2 && r.chance(2)) return gen_chain(r, g);
  if (!g.pool.empty() && r.chance(25)) return g.pool[r.below((int)g.pool.size())];
  if (depth <= 0 || r.chance(12)) return gen_leaf(r, g);
  int k = r.below(100);
  if (exotic && k < 12) { T a = gen(r, g, depth - 1), b = twin(r, a); return mkb(r.below(4), a, b); }
  if (k < 60) return mkb(r.below(4), gen(r, g, depth - 1), gen(r, g, depth - 1));
  if (k < 80 || !(g.formalops || g.vec || g.intg)) return mku(O_ID + r.below(g.uops), gen(r, g, depth - 1));
  if (g.vec && r.chance(30)) { std::vector<T> c; int n = exotic && lvl == 1 && r.chance(8) ? (r.chance(70) ? 255 + r.below(8) : 300 + r.below(800)) : 1 + r.below(3); for (int i = 0; i < n; ++i) c.push_back(gen(r, g, n > 9 ? 0 : depth - 2)); return mkvec(c); }
  if (g.intg && r.chance(30)) return mkint(gen(r, g, depth - 1), r.chance(50) ? mkc(r.below(3) - 1) : gen(r, g, 1), r.chance(50) ? mkc(r.below(3)) : gen(r, g, 1), xid(r, r.below(g.nvar)));
  if (!g.formalops) return mku(O_ID + r.below(g.uops), gen(r, g, depth - 1));
  int o = O_GRAD + r.below(4); return mku(o, gen(r, g, depth - 1), o >= O_PD ? xid(r, r.below(g.nvar)) : 0);
}
inline Pt gen_pt(Rng& r, int n) { Pt p; for (int i = 0; i < n; ++i) p.push_back(r.coord()); return p; }
inline std::string show(Pt const& p) { std::string s = "("; for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + num(p[i]); return s + ")"; }
// evaluates the mirror; status 0 value, 1 exception, 2 index exception possible, 3 unusable point
inline int oracle(T t, Pt const& p, double& v, bool formal = false) {
  Cond c; bool oor = maxvar(t) > p.size(); bool nv = !formal && !numeric(t);
  if (oor) return nv ? 4 : 2; if (nv) return 1;
  try { v = ev(t, p, c, formal); } catch (...) { return 1; }
  return c.bad ? 3 : 0;
}
// ---------------------------------------------------------------- objects with a past: used, then assigned another value
static std::vector<Pt> warm_pts; static std::vector<double> warm_xs;
inline T sibling(T t, int h) {
  if (h % 4 == 1) return t->k == K_UN ? mku(O_EXP, mkc(2)) : mkb(O_PLUS, mkc(2), mkc(3));
  if (h % 4 == 2) return t->k == K_UN ? mku(O_SIN, mkv(1)) : mkb(O_MINUS, mkb(O_MULT, mkv(0), mkc(1)), mkv(1));
  if (h % 4 == 3) return t;
  switch (t->k) { case K_C: return mkc(t->c + 1); case K_L: return mkl(t->l + 1); case K_I: return mki(t->l - 1); case K_VAR: return mkv(t->id ? t->id - 1 : 1); case K_FUN: return mkf(t->id + 1, t->tag); default: break; }
  auto n = std::make_shared<N>(*t); for (auto& c : n->ch) c = sibling(c, h); return n;
}
inline void warm(const IF* o, T t) {
  if (any(t, [](T n) { return n->k == K_VEC; })) return;
  auto q = [](std::function<void()> f) { try { f(); } catch (...) {} };
  static const double xs[] = {0, 1, 2, -2, 3, 0.5}; RV x0(0);
  for (auto& p : warm_pts) q([&] { o->eval(p); }); for (double x : warm_xs) q([&] { o->eval(x); }); for (double x : xs) q([&] { o->eval(x); });
  q([&] { o->eval(Pt{1, 2, 3}); }); q([&] { o->eval(Pt()); }); q([&] { o->unwrap(); }); q([&] { o->is_constant(); o->is_unary(); });
  q([&] { o->deep_str(); o->shallow_str(); }); q([&] { o->deep_equal(o); o->deep_equal(&x0); o->shallow_equal(&x0); }); q([&] { o->can_simplify(); });
  if (nodes(t) < 12) { q([&] { delete o->simplify(); }); q([&] { delete o->diff(&x0); }); q([&] { RC c(1); delete o->substitute(&x0, &c); }); q([&] { delete o->clone(); }); }
}
inline IF* past(T t, int h) {
  T s = sibling(t, h); RE a(build(s)), b(build(t));
  switch (t->k) {
    case K_C: { RC* o = new RC(t->c + 1); warm(o, t); *o = RC(t->c); return o; }
    case K_VAR: { RV* o = new RV(t->id + 1); warm(o, t); *o = RV(t->id); return o; }
    case K_FUN: { RF* o = new RF(t->id + 1, t->tag); warm(o, t); *o = RF(t->id, t->tag); return o; }
    case K_BIN: if (s->k == K_BIN) { RB* o = new RB(dynamic_cast<RB const&>(*a.get())); warm(o, s); *o = dynamic_cast<RB const&>(*b.get()); return o; } break;
    case K_UN: if (s->k == K_UN) { RU* o = new RU(dynamic_cast<RU const&>(*a.get())); warm(o, s); *o = dynamic_cast<RU const&>(*b.get()); return o; } break;
    case K_VEC: if (s->k == K_VEC && s->ch.size() == t->ch.size()) { VE* o = new VE(dynamic_cast<VE const&>(*a.get())); for (size_t i = 0; i < t->ch.size(); ++i) (*o)[i] = RE(build(t->ch[i])); return o; } break;
    default: break;
  }
  return b.get()->clone();
}
// every third expression handed to a test has been something else before
inline RE mk(T t) {
  int h = (int)(case_no % 12); if (h > 3) return RE(build(t));
  if (case_no % 24 < 12) return RE(past(t, h));
  RE e(build(sibling(t, h))); for (auto& p : warm_pts) try { e(p); } catch (...) {} for (double x : warm_xs) try { e(x); } catch (...) {} warm(e.get(), t); e = RE(build(t)); return e;
}
void run_case(Rng& r);
int harness_main(int argc, char** argv) {
  unsigned long seed = argc > 1 ? strtoul(argv[1], 0, 10) : 1; long n = argc > 2 ? atol(argv[2]) : 2000; long only = argc > 3 ? atol(argv[3]) : -1; double secs = argc > 4 ? atof(argv[4]) : 20;
  init_signals(); the_seed = seed; struct timeval a, b; gettimeofday(&a, 0);
  for (long i = 0; i < n && n_fail < 12; ++i) {
    if (only >= 0 && i != only) continue;
    case_no = i; exotic = i % 7 == 5; Rng r(seed * 1000003ul + i); run_case(r);
    if (i % 64 == 0) { gettimeofday(&b, 0); if (b.tv_sec - a.tv_sec > secs) break; }
  }
  printf("CASES\t%ld\t%zu\n", n_cases, seen_cases.size());
  return n_fail ? 1 : 0;
}

// f called with the compile-time variable of this identifier
static const unsigned long cvids[] = {0, 1, 2, 3, 4, 5, 7, 9, 12, 40};
static unsigned long gen_cvid(Rng& r) { return cvids[r.below(10)]; }
template <unsigned long n> unsigned long cvid(vm::ct_variable<n> const&) { return n; }
template <typename F> void with_cv(unsigned long id, F f) {
  switch (id) { case 0: f(vm::ct_variable<0>()); break; case 1: f(vm::ct_variable<1>()); break; case 2: f(vm::ct_variable<2>()); break; case 3: f(vm::ct_variable<3>()); break; case 4: f(vm::ct_variable<4>()); break;
    case 5: f(vm::ct_variable<5>()); break; case 7: f(vm::ct_variable<7>()); break; case 9: f(vm::ct_variable<9>()); break; case 12: f(vm::ct_variable<12>()); break; case 40: f(vm::ct_variable<40>()); break; default: break; }
}
