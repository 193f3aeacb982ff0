#include "common.hpp"
struct P3 { double d[8]; size_t n; size_t size() const { return n; } double operator[](size_t i) const { return d[i]; } };
static P3 p3(Pt const& p) { P3 q; q.n = p.size(); for (size_t i = 0; i < p.size(); ++i) q.d[i] = p[i]; return q; }
// runs f; 0 value, 1 index exception, 2 other exception
template <typename F> int attempt(F f, double& v) {
  try { v = f(); return 0; } catch (vm::variable_index_out_of_bounds_exception const&) { return 1; } catch (std::exception const&) { return 2; } catch (const char*) { return 2; } catch (...) { return 2; }
}
static RB const& asB(RE const& e) { return dynamic_cast<RB const&>(*e.get()); }
static RU const& asU(RE const& e) { return dynamic_cast<RU const&>(*e.get()); }
static RV const& asV(RE const& e) { return dynamic_cast<RV const&>(*e.get()); }
static void same_value(const char* key, T got, T want, Rng& r, bool formal, int npt = 6, int nv = 4) {
  for (int i = 0; i < npt; ++i) {
    Pt p = gen_pt(r, nv); double a, b; int x = oracle(want, p, b, formal); if (x != 0) continue;
    int y = oracle(got, p, a, formal);
    if (y == 3) continue;
    if (y != 0) { fail(key, std::string("result ") + show(got) + " has no value at " + show(p) + ", expected " + num(b)); return; }
    if (!close(a, b)) { fail(key, "result " + show(got) + " has value " + num(a) + " at " + show(p) + ", expected " + num(b)); return; }
  }
}
#if PROP == 1 || PROP == 2
void check(const char* what, T t, Pt const& p, int st, double v) {
  double w; int x = oracle(t, p, w);
  if (x == 2 && st != 1) { fail(std::string("out of range not reported: ") + what, st == 0 ? "returned " + num(v) : "another exception"); return; }
  if (x != 2 && x != 4 && st == 1) { fail(std::string("index exception without an out-of-range variable: ") + what, ""); return; }
  if (x == 4 && st == 0) { fail(std::string("no exception: ") + what, ""); return; }
#if PROP == 1
  if (x == 1 && st != 2) { fail(std::string("number for an expression without numeric value: ") + what, num(v)); return; }
  if (x == 0 && st != 0) { fail(std::string("exception for an expression with a value: ") + what, ""); return; }
  if (x == 0 && !close(v, w)) fail(std::string("wrong value: ") + what, "got " + num(v) + " expected " + num(w));
#endif
}
#if PROP == 1
// single operations at extreme arguments
static void extremes(Rng& r) {
  static const double s[] = {0, 1e-300, 1e-150, 1e-17, 2e-9, 1e-5, 9e-4, 0.015625, 0.7, 1, 1.5707963, 3.1415926535897931, 10, 25.5, 100, 705, -705, 709.5, 1000, 4097, 16777217, 1e9, 2147483649.0, 1e15, 1e20, 1e150, 1e300};
  double a = s[r.below(27)] * (r.chance(40) ? -1 : 1), b = s[r.below(27)] * (r.chance(40) ? -1 : 1); if (r.chance(30)) a *= 1 + r.below(1000) / 1024.0;
  begin_case("operations at " + num(a) + " and " + num(b)); Pt p{a, b}; T x = mkv(0), y = r.chance(50) ? mkv(1) : mkc(b);
  auto ck = [&](T t, double w) {
    if (!(w == 0 || (std::fabs(w) > 1e-290 && std::fabs(w) < 1.7e308))) return; RE e(build(t)); double v = 0;
    if (attempt([&] { return e.get()->eval(p); }, v)) { fail("exception for an expression with a value: extreme argument", show(t)); return; }
    if (!(std::fabs(v - w) <= 1e-9 * std::fabs(w))) fail("wrong value: extreme argument", show(t) + ": got " + num(v) + " expected " + num(w)); };
  ck(mkb(O_PLUS, x, y), a + b == 0 || std::fabs(a + b) < 1e-6 * std::fabs(a) ? NAN : a + b); ck(mkb(O_MINUS, x, y), std::fabs(a - b) < 1e-6 * std::fabs(a) ? NAN : a - b); ck(mkb(O_MULT, x, y), a * b); if (std::fabs(b) > 1e-160 && std::fabs(b) < 1e160) ck(mkb(O_DIV, x, y), a / b);
  ck(mku(O_ID, x), a); ck(mku(O_EXP, x), std::exp(a)); ck(mku(O_FABS, x), std::fabs(a)); if (a >= 0) ck(mku(O_SQRT, x), std::sqrt(a)); if (std::fabs(a) < 1e5) { ck(mku(O_SIN, x), std::fabs(std::sin(a)) < 1e-6 && std::fabs(a) > 1 ? NAN : std::sin(a)); ck(mku(O_COS, x), std::fabs(std::cos(a)) < 1e-6 ? NAN : std::cos(a)); if (std::fabs(std::cos(a)) > 0.01 && (std::fabs(std::sin(a)) > 0.01 || std::fabs(a) < 1)) ck(mku(O_TAN, x), std::tan(a)); }
  if (a > 0 && std::fabs(a - 1) > 0.01) { ck(mku(O_LOG, x), std::log(a)); ck(mku(O_LOG10, x), std::log10(a)); }
}
#endif
void run_case(Rng& r) {
#if PROP == 1
  if (case_no % 9 == 4) { extremes(r); return; }
#endif
  Gen g; g.nvar = 1 + r.below(4); if (r.chance(12)) { g.nfun = 2; g.formalops = true; g.vec = true; g.intg = true; }
  T t = gen(r, g, r.below(5)); Pt p = gen_pt(r, PROP == 2 ? 1 + r.below(4) : r.chance(85) ? g.nvar : 1 + r.below(3));
  if (PROP == 2 && r.chance(3)) p.clear();
  begin_case("eval " + show(t) + " at " + show(p));
  double x = r.coord(); warm_pts = {p}; warm_xs = {x};
  RE e = mk(t); double v = 0; int s;
  s = attempt([&] { return e.get()->eval(p); }, v); check("eval(vector)", t, p, s, v);
  s = attempt([&] { return e(p); }, v); check("rt_expr(vector)", t, p, s, v);
  if (!p.empty()) { s = attempt([&] { return e(p3(p)); }, v); check("rt_expr(point type)", t, p, s, v);
    s = attempt([&] { return vm::eval(e, p); }, v); check("eval(rt_expr, vector)", t, p, s, v); }
  Pt q{x};
  s = attempt([&] { return e.get()->eval(x); }, v); check("eval(number)", t, q, s, v);
  s = attempt([&] { return e(x); }, v); check("rt_expr(number)", t, q, s, v);
  s = attempt([&] { return e(RC(x)); }, v); check("rt_expr(rt_constant)", t, q, s, v);
  s = attempt([&] { return e(RCL(-2)); }, v); check("rt_expr(rt_constant<long>)", t, Pt{-2}, s, v);
  s = attempt([&] { return e(vm::ct_constant<3>()); }, v); check("rt_expr(ct_constant)", t, Pt{3}, s, v);
  double a = r.coord(), b = r.coord(), c = r.coord();
  s = attempt([&] { return e(vm::ct_vector_1<double>(a)); }, v); check("rt_expr(ct_vector_1)", t, Pt{a}, s, v);
  s = attempt([&] { return e(vm::ct_vector_2<double, double>(a, b)); }, v); check("rt_expr(ct_vector_2)", t, Pt{a, b}, s, v);
  s = attempt([&] { return e(vm::ct_vector_3<double, double, double>(a, b, c)); }, v); check("rt_expr(ct_vector_3)", t, Pt{a, b, c}, s, v);
  s = attempt([&] { return vm::eval(e, x); }, v); check("eval(rt_expr, number)", t, q, s, v);
  if (t->k == K_BIN) { RB const& o = asB(e);
    s = attempt([&] { return o(p); }, v); check("rt_binary_expr(vector)", t, p, s, v);
    s = attempt([&] { return o(p3(p)); }, v); check("rt_binary_expr(point type)", t, p, s, v);
    s = attempt([&] { return o(x); }, v); check("rt_binary_expr(number)", t, q, s, v);
    s = attempt([&] { return o(RC(x)); }, v); check("rt_binary_expr(rt_constant)", t, q, s, v);
    s = attempt([&] { return o(vm::ct_constant<3>()); }, v); check("rt_binary_expr(ct_constant)", t, Pt{3}, s, v);
    s = attempt([&] { return o(vm::ct_vector_1<double>(a)); }, v); check("rt_binary_expr(ct_vector_1)", t, Pt{a}, s, v);
    s = attempt([&] { return o(vm::ct_vector_2<double, double>(a, b)); }, v); check("rt_binary_expr(ct_vector_2)", t, Pt{a, b}, s, v);
    s = attempt([&] { return o(vm::ct_vector_3<double, double, double>(a, b, c)); }, v); check("rt_binary_expr(ct_vector_3)", t, Pt{a, b, c}, s, v);
    s = attempt([&] { return vm::eval(o, p); }, v); check("eval(rt_binary_expr, vector)", t, p, s, v); }
  if (t->k == K_UN) { RU const& o = asU(e);
    s = attempt([&] { return o(p); }, v); check("rt_unary_expr(vector)", t, p, s, v);
    s = attempt([&] { return o(p3(p)); }, v); check("rt_unary_expr(point type)", t, p, s, v);
    s = attempt([&] { return o(x); }, v); check("rt_unary_expr(number)", t, q, s, v);
    s = attempt([&] { return o(vm::ct_vector_2<double, double>(a, b)); }, v); check("rt_unary_expr(ct_vector_2)", t, Pt{a, b}, s, v);
    s = attempt([&] { return o(vm::ct_vector_3<double, double, double>(a, b, c)); }, v); check("rt_unary_expr(ct_vector_3)", t, Pt{a, b, c}, s, v);
    s = attempt([&] { return vm::eval(o, p); }, v); check("eval(rt_unary_expr, vector)", t, p, s, v); }
  if (t->k == K_VAR) { RV const& o = asV(e);
    s = attempt([&] { return o(p); }, v); check("rt_variable(vector)", t, p, s, v);
    s = attempt([&] { return vm::eval(o, p); }, v); check("eval(rt_variable, vector)", t, p, s, v);
    s = attempt([&] { return o(RC(x)); }, v); check("rt_variable(rt_constant)", t, q, s, v);
    s = attempt([&] { return o(vm::ct_constant<3>()); }, v); check("rt_variable(ct_constant)", t, Pt{3}, s, v);
    if (t->id == 0) { s = attempt([&] { return o(x); }, v); check("rt_variable(number)", t, q, s, v); } }
}
#endif
#if PROP == 4 || PROP == 5
static T subst(T t, std::vector<T> const& s, std::vector<T> const& rp) {
  for (size_t i = 0; i < s.size(); ++i) if (eq(t, s[i])) return rp[i];
  if (t->ch.empty()) return t;
  auto n = std::make_shared<N>(*t); size_t m = t->k == K_UN ? 1 : t->ch.size(); for (size_t i = 0; i < m; ++i) n->ch[i] = subst(t->ch[i], s, rp); return n;
}
static void pick(Rng& r, T t, T& out, int& n) { if (r.below(++n) == 0) out = t; if (t->k != K_UN) for (auto c : t->ch) pick(r, c, out, n); else pick(r, t->ch[0], out, n); }
static T pick(Rng& r, T t) { T o; int n = 0; pick(r, t, o, n); return o; }
void run_case(Rng& r) {
  Gen g; g.nvar = 3; g.nfun = r.chance(40) ? 2 : 0; g.formalops = g.vec = g.nfun; g.intg = g.nfun && r.chance(40);
  Gen gs = g; T seed = gen(r, gs, 2); g.pool = {seed, mkv(0), mkv(1)}; T t = gen(r, g, 1 + r.below(5));
  int n = PROP == 5 ? r.below(4) : 1; std::vector<T> s, rp;
  for (int i = 0; i < n; ++i) { s.push_back(exotic && r.chance(50) ? twin(r, pick(r, t)) : r.chance(60) ? pick(r, t) : r.chance(50) ? seed : gen(r, gs, 1)); rp.push_back(r.chance(30) && i ? s[i - 1] : r.chance(25) ? s[i] : gen(r, gs, r.below(3))); }
  std::string d = "substitute"; for (int i = 0; i < n; ++i) d += " {" + show(s[i]) + " -> " + show(rp[i]) + "}"; begin_case(d + " in " + show(t));
  RE e = mk(t); T want = subst(t, s, rp); std::vector<RE> S, R; for (int i = 0; i < n; ++i) { S.push_back(mk(s[i])); R.push_back(mk(rp[i])); }
#if PROP == 4
  { RE o(e.get()->substitute(S[0].get(), R[0].get())); if (!eq(rd(o), want)) fail("wrong substitution result", "got " + show(rd(o)) + " expected " + show(want)); }
#endif
  { std::vector<const IF*> sp, rq; for (int i = 0; i < n; ++i) { sp.push_back(S[i].get()); rq.push_back(R[i].get()); }
    RE o(e.get()->substitute(sp, rq)); if (PROP == 5 && !eq(rd(o), want)) fail("wrong substitution result", "got " + show(rd(o)) + " expected " + show(want)); }
  bool form = !g.intg;
  auto front = [&](const char* w, RE const& o) { if (form) same_value(w, rd(o), want, r, true, 3); if (o.get()->can_simplify()) fail(std::string(w) + ": result not simplified", show(rd(o))); };
  if (!any(t, [](T n) { return n->k == K_VEC; }) && !any(rp.empty() ? t : rp[0], [](T n) { return n->k == K_VEC; })) {
#if PROP == 5
    front("substitute(list, list, rt_expr)", vm::substitute(S, R, e));
#else
    front("substitute(rt_expr, rt_expr, rt_expr)", vm::substitute(S[0], R[0], e));
    if (s[0]->k == K_VAR) { RV v(s[0]->id);
      if (rp[0]->k == K_C) front("substitute(rt_variable, number, rt_expr)", vm::substitute(v, rp[0]->c, e)); }
    if (s[0]->k == K_FUN) { RF v(s[0]->id, s[0]->tag); front("substitute(rt_function_symbol, rt_expr, rt_expr)", vm::substitute(v, R[0], e)); }
    if (s[0]->k == K_UN) { RU const& u = asU(S[0]); front("substitute(rt_unary_expr, rt_expr, rt_expr)", vm::substitute(u, R[0], e)); if (rp[0]->k == K_VAR) front("substitute(rt_unary_expr, rt_variable, rt_expr)", vm::substitute(u, asV(R[0]), e)); }
    if (s[0]->k == K_BIN && rp[0]->k == K_VAR) front("substitute(rt_binary_expr, rt_variable, rt_expr)", vm::substitute(asB(S[0]), asV(R[0]), e));
#endif
  }
  if (!eq(rd(e), t)) fail("original modified", show(rd(e)));
  for (int i = 0; i < n; ++i) if (!eq(rd(S[i]), s[i]) || !eq(rd(R[i]), rp[i])) fail("search expression or replacement modified", "");
#if PROP == 4
  { // symbolic intervals
    Gen h; h.nvar = 2; h.nfun = 1; h.intg = r.chance(40); unsigned long big = r.chance(25) ? 256 : 0, sid = r.below(3) + (r.chance(30) ? big : 0), vid = xid(r, r.below(3)); std::function<T(int)> gs = [&](int d) -> T { if (d <= 0) return gen(r, h, 1); int c = r.below(10); if (c < 4) return mku(O_SINT, gs(d - 1), r.below(3) + (r.chance(30) ? big : 0)); if (c < 5) return mku(r.chance(50) ? O_SIN : O_GRAD, gs(d - 1)); if (c < 6) return mku(O_PD, gs(d - 1), sid); return mkb(r.below(4), gs(d - 1), gs(d - 1)); };
    T q = gs(3), lo = gen(r, h, 1), hi = gen(r, h, 1); RE qe = mk(q); RE L0 = mk(lo), H0 = mk(hi);
    std::function<T(T)> f = [&](T n) -> T { if (n->k == K_UN && n->op == O_SINT && n->id == sid) return mkint(n->ch[0], lo, hi, vid); if (n->ch.empty()) return n; auto m = std::make_shared<N>(*n); m->ch[0] = f(n->ch[0]); if (n->k == K_BIN) m->ch[1] = f(n->ch[1]); return m; };
    begin_case("substitute symbolic interval " + std::to_string(sid) + " by [" + show(lo) + ", " + show(hi) + "] in x" + std::to_string(vid) + " in " + show(q));
    RE o = vm::substitute(SI(sid), std::make_pair(RI(L0, H0), RV(vid)), qe); T w = f(q), w2 = rd(o);
    if (!eq(w2, w)) same_value("wrong expression after interval substitution", w2, w, r, true, 4);
    std::function<int(T, int, unsigned long)> cnt = [&](T n, int op, unsigned long id) -> int { int c = n->k == K_UN && n->op == op && n->id == id; for (auto x : n->ch) c += cnt(x, op, id); return c; }; if (!any(w, [&](T n) { return n->k == K_UN && n->op == O_SINT && n->id == sid; }) && cnt(w2, O_SINT, sid)) fail("integral over the replaced interval left", "got " + show(w2));
    if (!eq(rd(qe), q)) fail("original modified", show(rd(qe)));
  }
#endif
}
#endif
#if PROP == 6 || PROP == 7
static int passes(RE& e) { int n = 0; while (e.get()->can_simplify()) { int before = nodes(rd(e)); (void)before; e = RE(e.get()->simplify()); if (++n > 200) return n; } return n; }
static bool reducible(T t) {   // a simplification the statement promises is still possible
  if (t->k == K_BIN) { T l = t->ch[0], q = t->ch[1]; auto z = [](T x) { return is_leaf_const(x) && leaf_val(x) == 0; }; auto o = [](T x) { return is_leaf_const(x) && leaf_val(x) == 1; };
    if (is_const(t)) return true; if (t->op == O_PLUS && (z(l) || z(q))) return true; if (t->op == O_MINUS && z(q)) return true;
    if (t->op == O_MULT && (z(l) || z(q) || o(l) || o(q))) return true; if (t->op == O_DIV && o(q)) return true; }
  if (t->k == K_VEC) return false;
  for (size_t i = 0; i < (t->k == K_UN ? 1 : t->ch.size()); ++i) if (reducible(t->ch[i])) return true;
  return false;
}
void run_case(Rng& r) {
  Gen g; g.nvar = 2; g.nfun = r.chance(30) ? 2 : 0; g.formalops = false; T t = gen(r, g, 1 + r.below(5));
  if (r.chance(10)) { std::vector<T> a, b; int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { a.push_back(gen(r, g, 1)); b.push_back(gen(r, g, 1)); } t = mkb(r.below(4), mkb(O_MULT, mkvec(a), mkvec(b)), t); }
  begin_case("simplify " + show(t)); RE e = mk(t);
  bool cs = e.get()->can_simplify();
  RE one(e.get()->simplify()); T t1 = rd(one);
  if (PROP == 6) same_value("one pass changes the value", t1, t, r, true);
  RE full = vm::simplify(e); T tf = rd(full);
  if (PROP == 6) { same_value("simplify changes the value", tf, t, r, true); if (!eq(rd(e), t)) fail("simplify modifies its argument", show(rd(e))); }
  RE inp = mk(t); vm::inplace_simplify(inp); if (PROP == 6) same_value("inplace_simplify changes the value", rd(inp), t, r, true);
  if (t->k == K_BIN) { RE b = vm::simplify(asB(e)); if (PROP == 6) same_value("simplify(rt_binary_expr)", rd(b), t, r, true); if (b.get()->can_simplify()) fail("simplify(rt_binary_expr) leaves work", show(rd(b))); }
  if (t->k == K_UN) { RE b = vm::simplify(asU(e)); if (PROP == 6) same_value("simplify(rt_unary_expr)", rd(b), t, r, true); if (b.get()->can_simplify()) fail("simplify(rt_unary_expr) leaves work", show(rd(b))); }
#if PROP == 6
  { Pt p = gen_pt(r, 2); double v, w; bool a = attempt([&] { return e.get()->eval(p); }, v) == 0, b = attempt([&] { return full.get()->eval(p); }, w) == 0; if (a && !b) fail("simplified expression is not evaluable", show(tf)); }
#else
  if (full.get()->can_simplify() || inp.get()->can_simplify()) fail("simplified expression can be simplified", show(tf));
  if (reducible(tf)) fail("not fully simplified", show(tf));
  if (reducible(t) && !cs) fail("can_simplify is false on a simplifiable expression", "");
  RE z = mk(t); if (passes(z) > 200) fail("simplification does not terminate", "");
  if (is_const(t) && !is_leaf_const(tf)) fail("constants do not collapse", show(tf));
#endif
}
#endif
#if PROP == 8 || PROP == 9
// independent derivative (value) of the mirror with respect to the leaf x
static double dv(T t, T x, Pt const& p, Cond& c) {
  if (eq(t, x)) return 1;
  switch (t->k) {
    case K_C: case K_L: case K_I: case K_VAR: case K_FUN: return 0;
    case K_UN: { double a = ev(t->ch[0], p, c, true), d = dv(t->ch[0], x, p, c), f = 0;
      switch (t->op) { case O_ID: f = 1; break; case O_EXP: f = std::exp(a); break; case O_SIN: f = std::cos(a); break; case O_COS: f = -std::sin(a); break;
        case O_TAN: f = 1 / (std::cos(a) * std::cos(a)); break; case O_SQRT: if (a < 1e-3) c.bad = true; f = 0.5 / std::sqrt(a); break; case O_LOG: f = 1 / a; break; case O_LOG10: f = 1 / (a * std::log(10.0)); break; default: c.bad = true; }
      return f * d; }
    case K_BIN: { double u = ev(t->ch[0], p, c, true), v = ev(t->ch[1], p, c, true), du = dv(t->ch[0], x, p, c), dw = dv(t->ch[1], x, p, c);
      switch (t->op) { case O_PLUS: return du + dw; case O_MINUS: return du - dw; case O_MULT: return du * v + u * dw; default: return (du * v - u * dw) / (v * v); } }
    default: c.bad = true; return 0;
  }
}
static bool rule(T t, T x) {   // a rule exists
  if (t->k == K_FUN) return x->k == K_FUN;
  if (t->k == K_UN) { if (t->op == O_GRAD) return x->k == K_FUN && rule(t->ch[0], x); if (t->op == O_FABS || t->op >= O_DIVG) return false; return rule(t->ch[0], x); }
  for (auto c : t->ch) if (!rule(c, x)) return false; return true;
}
static void cmp(const char* w, T d, T t, T x, Rng& r) {
  for (int i = 0; i < 5; ++i) { Pt p = gen_pt(r, 3); Cond c; double want, got; if (oracle(t, p, got, true)) continue; want = dv(t, x, p, c); if (c.bad || !(std::fabs(want) < 1e4)) continue;
    int y = oracle(d, p, got, true); if (y == 3) continue; if (y) { fail(w, "derivative " + show(d) + " has no value at " + show(p)); return; }
    if (std::fabs(got - want) > 1e-6 * (1 + std::fabs(got) + std::fabs(want))) { fail(w, "derivative " + show(d) + " has value " + num(got) + " at " + show(p) + ", expected " + num(want)); return; } }
}
template <typename F> bool thrown(F f) { try { f(); return false; } catch (...) { return true; } }
void run_case(Rng& r) {
  Gen g; g.nvar = 3; g.nfun = PROP == 9 || r.chance(15) ? 2 : 0; g.uops = 9; T t;
  do { t = gen(r, g, 1 + r.below(4)); } while (r.chance(85) && any(t, [](T n) { return n->k == K_UN && n->op == O_FABS; }));
  if (PROP == 9 && r.chance(25)) { T lin = mkf(r.below(2), r.below(2)); if (r.chance(50)) lin = mkb(O_MULT, mkc(2), lin); else if (r.chance(30)) lin = mkb(O_PLUS, lin, mkv(0)); t = mkb(r.below(3), mku(O_GRAD, lin), t); }
  T x = PROP == 9 ? mkf(r.below(2), r.below(2)) : mkv(r.chance(15) ? gen_cvid(r) : r.below(3));
  begin_case("d/d" + show(x) + " of " + show(t)); RE e = mk(t); RE xe = mk(x); bool ok = rule(t, x);
  bool hasgrad = any(t, [](T n) { return n->k == K_UN && n->op == O_GRAD; });
  IF* q = 0; bool th = thrown([&] { q = e.get()->diff(xe.get()); }); RE d; if (q) d = RE(q);
  if (th == ok) { fail(ok ? "no derivative although a rule exists" : "derivative without a rule", q ? show(rd(d)) : ""); return; }
  auto both = [&](const char* w, T D) {
    if (!hasgrad) { cmp(w, D, t, x, r); return; }
    // gradient of something independent of the symbol contributes zero: t = grad(g) op s
    T gg = t->ch[0]->ch[0]; bool dep = any(gg, [&](T n) { return eq(n, x); });
    if (!dep && t->op != O_MULT) { for (int i = 0; i < 3; ++i) { Pt p = gen_pt(r, 3); Cond c; double want, got; if (oracle(t, p, got, true)) continue; want = dv(t->ch[1], x, p, c) * (t->op == O_MINUS ? -1 : 1); if (c.bad || oracle(D, p, got, true)) continue; if (std::fabs(got - want) > 1e-6 * (1 + std::fabs(want))) { fail(w, "got " + show(D)); return; } } }
  };
  if (q) both("diff", rd(d));
  auto fr = [&](const char* w, std::function<RE()> f) { RE o; if (thrown([&] { o = f(); }) == ok) { fail(std::string(w) + (ok ? ": no derivative although a rule exists" : ": derivative without a rule"), ""); return; } if (ok) { both(w, rd(o)); if (o.get()->can_simplify()) fail(std::string(w) + ": not simplified", show(rd(o))); } };
#if PROP == 8
  RV v(x->id);
  fr("diff(rt_expr, rt_variable)", [&] { return vm::diff(e, v); });
  if (t->k == K_BIN) fr("diff(rt_binary_expr, rt_variable)", [&] { return vm::diff(asB(e), v); });
  if (t->k == K_UN) fr("diff(rt_unary_expr, rt_variable)", [&] { return vm::diff(asU(e), v); });
  if (t->k == K_C) fr("diff(rt_constant, rt_variable)", [&] { return RE(vm::diff(RC(t->c), v)); });
  with_cv(x->id, [&](auto cv) { fr("diff(rt_expr, ct_variable)", [&] { return vm::diff(e, cv); }); if (t->k == K_BIN) fr("diff(rt_binary_expr, ct_variable)", [&] { return vm::diff(asB(e), cv); }); if (t->k == K_UN) fr("diff(rt_unary_expr, ct_variable)", [&] { return vm::diff(asU(e), cv); }); });
#else
  RF v(x->id, x->tag);
  fr("diff(rt_expr, rt_function_symbol)", [&] { return vm::diff(e, v); });
  if (t->k == K_BIN) fr("diff(rt_binary_expr, rt_function_symbol)", [&] { return vm::diff(asB(e), v); });
  if (t->k == K_UN) fr("diff(rt_unary_expr, rt_function_symbol)", [&] { return vm::diff(asU(e), v); });
  if (t->k == K_FUN) { RF f(t->id, t->tag); fr("diff(rt_function_symbol, rt_function_symbol)", [&] { return vm::diff(f, v); });
    unsigned long i = r.below(3); RE o = vm::diff(f, RV(i)); if (!eq(rd(o), mku(O_PD, t, i))) fail("diff(rt_function_symbol, rt_variable)", show(rd(o)));
    with_cv(gen_cvid(r), [&](auto cv) { RE o2 = vm::diff(f, cv); if (!eq(rd(o2), mku(O_PD, t, cvid(cv)))) fail("diff(rt_function_symbol, ct_variable)", show(rd(o2))); }); }
#endif
}
#endif
#if PROP == 10
static unsigned long step(Rng& r) { static const unsigned long s[] = {256, 65536, 2147483648ul, 4294967296ul}; return r.chance(60) ? 1 : s[r.below(4)]; }
static T mutate(Rng& r, T t, Gen const& g, int down = 65) {
  auto n = std::make_shared<N>(*t);
  if (!t->ch.empty() && r.chance(down)) { int i = r.below((int)t->ch.size()); n->ch[i] = mutate(r, t->ch[i], g, down); return n; }
  switch (t->k) { case K_C: if (r.chance(30)) return mkl((long)t->c); if (r.chance(25)) n->c = n->c == 0 ? 1e-305 : r.chance(50) ? std::nextafter(n->c, 1e300) : n->c * (1 + 3e-7); else n->c += r.chance(50) ? 1 : 0.25; break; case K_L: if (r.chance(30)) return mkc(t->l); n->l += r.chance(30) ? 4294967296L : 1; break; case K_I: if (r.chance(30)) return mkl(t->l); n->l += 1; break;
    case K_VAR: if (r.chance(20)) return mkf(t->id, 0); n->id += step(r); break; case K_FUN: if (r.chance(50)) n->id += step(r); else n->tag ^= 1; break;
    case K_BIN: if (r.chance(30)) std::swap(n->ch[0], n->ch[1]); else n->op = r.below(4); break;
    case K_UN: if (t->op == O_PD || t->op == O_SINT || t->op == O_INT) n->id += step(r); else n->op = O_ID + r.below(11); break;
    case K_VEC: if (r.chance(50)) n->ch.push_back(mkc(0)); else if (n->ch.size() > 1) n->ch.pop_back(); else n->ch[0] = mkv(7); break; }
  return n;
}
void run_case(Rng& r) {
  Gen g; g.nvar = 2; g.nfun = 2; g.formalops = g.vec = g.intg = true; T a = gen(r, g, r.below(5)), b = r.chance(35) ? a : r.chance(80) ? mutate(r, a, g, r.chance(40) ? 100 : 65) : gen(r, g, 2);
  if (r.chance(3)) { a = gen_chain(r, g); b = r.chance(30) ? a : mutate(r, a, g, 97 + r.below(4)); }
  begin_case("deep_equal " + show(a) + " and " + show(b)); RE x = mk(a), y = mk(b); bool w = eq(a, b);
  if (x.get()->deep_equal(y.get()) != w || y.get()->deep_equal(x.get()) != w) fail("deep_equal", w ? "false for equal trees" : "true for different trees");
  if (!x.get()->deep_equal(x.get())) fail("not reflexive", "");
  bool sh = a->k == b->k; if (x.get()->shallow_equal(y.get()) != sh || y.get()->shallow_equal(x.get()) != sh) fail("shallow_equal", sh ? "false for the same kind" : "true for different kinds");
  if (a->k == K_UN && b->k == K_UN) { auto p = std::make_shared<N>(*a), q = std::make_shared<N>(*b); p->ch[0] = q->ch[0] = mkc(0); if (asU(x).op()->equal(asU(y).op()) != eq(p, q)) fail("operator equality", ""); }
}
#endif
#if PROP == 11 || PROP == 12
static void ops12(Rng& r, T t, T u);
// an object must answer every query as a newly built one of the same tree does, whatever it has been before
static void agree(const char* w, const IF* o, T t, bool heavy = true) {
  RE f(build(t)); std::string k = std::string(w) + ": answers differently from the original: ";
  if (!o->deep_equal(f.get()) || !f.get()->deep_equal(o)) fail(k + "deep_equal", show(t));
  if (o->is_constant() != f.get()->is_constant()) fail(k + "is_constant", show(t));
  if (o->deep_str() != f.get()->deep_str() || o->is_unary() != f.get()->is_unary()) fail(k + "deep_str", o->deep_str());
  auto cmp = [&](const char* q, std::function<double(const IF*)> h) { double a = 0, b = 0; int x = attempt([&] { return h(o); }, a), y = attempt([&] { return h(f.get()); }, b); if (x != y || (x == 0 && !same_d(a, b))) fail(k + q, num(a) + " instead of " + num(b)); };
  if (any(t, [](T n) { return n->k == K_VEC; })) return;
  for (auto& p : warm_pts) cmp("eval(vector)", [&](const IF* e) { return e->eval(p); }); for (double x : warm_xs) cmp("eval(number)", [&](const IF* e) { return e->eval(x); });
  cmp("unwrap", [](const IF* e) { return e->unwrap(); }); cmp("can_simplify", [](const IF* e) { return e->can_simplify() ? 1.0 : 0.0; });
  if (!heavy || nodes(t) > 14) return;
  auto ct = [&](const char* q, std::function<IF*(const IF*)> h) { T a, b; int x = 0, y = 0; try { RE z(h(o)); a = rd(z); } catch (...) { x = 1; } try { RE z(h(f.get())); b = rd(z); } catch (...) { y = 1; } if (x != y || (!x && !eq(a, b))) fail(k + q, x ? "exception" : show(a)); };
  RV v(0); RC c(2); ct("simplify", [](const IF* e) { return e->simplify(); }); ct("diff", [&](const IF* e) { return e->diff(&v); }); ct("substitute", [&](const IF* e) { return e->substitute(&v, &c); }); ct("clone", [](const IF* e) { return e->clone(); });
}
void run_case(Rng& r) {
  Gen g; g.nvar = 2; g.nfun = 2; g.formalops = g.vec = g.intg = true; T t = gen(r, g, 1 + r.below(4)), u = gen(r, g, r.below(3));
#if PROP == 11
  begin_case("copy " + show(t) + " over " + show(u)); warm_pts = {gen_pt(r, 2), gen_pt(r, 1)}; warm_xs = {r.coord()};
  auto is = [&](const char* w, RE const& o, T want) { if (!eq(rd(o), want)) fail(w, "got " + show(rd(o)) + " expected " + show(want)); else agree(w, o.get(), want, strstr(w, "used") != 0); };
  { RE o(past(t, (int)r.below(4))); if (!eq(rd(o), t)) fail("assignment over a used object", "got " + show(rd(o)) + " expected " + show(t)); else agree("assignment over a used object", o.get(), t); }
  { T s = sibling(t, (int)r.below(4)); RE o(build(s)), b(build(t)); warm(o.get(), s); o = b; is("rt_expr assignment over a used object", o, t); warm(o.get(), t); RE o2(o); is("copy of a used object", o2, t); o = RE(build(s)); is("rt_expr assignment over a used object", o, s); is("copy of a used object", o2, t); }
  RE* e = new RE(build(t)); RE c1(*e), c2(e->get()->clone()), c3(build(u)), c4; c3 = *e; c4 = *e; RE empty; RE c5(build(u)); 
  is("source modified", *e, t); delete e; is("copy constructor", c1, t); is("clone", c2, t); is("assignment", c3, t); is("assignment to an empty expression", c4, t);
  c5 = empty; if (c5.get()) fail("assignment of an empty expression", "");
  c1 = c1; is("self assignment", c1, t);
  { RE d(build(u)); if (t->k == K_BIN) { RB* b = new RB(asB(c1)); RB b2(*b); RE x(*b), y(build(u)); y = *b; delete b; is("rt_expr(rt_binary_expr)", x, t); is("rt_expr = rt_binary_expr", y, t); is("rt_binary_expr copy", RE(b2), t); RB b3 = b2; b3 = asB(c2); is("rt_binary_expr assignment", RE(b3), t); }
    if (t->k == K_UN) { RU* b = new RU(asU(c1)); RU b2(*b); RE x(*b); delete b; is("rt_expr(rt_unary_expr)", x, t); is("rt_unary_expr copy", RE(b2), t); RU b3(build(u), build_op(mku(O_SIN, mkc(0)))); b3 = asU(c2); is("rt_unary_expr assignment", RE(b3), t);
      RU b4(asU(c2)); if (t->ch[0]->k == K_UN) { b4 = dynamic_cast<RU const&>(*b4.lhs()); is("rt_unary_expr assigned its own operand", RE(b4), t->ch[0]); } }
    if (t->k == K_BIN) { RB b(asB(c1)); if (t->ch[0]->k == K_BIN) { b = dynamic_cast<RB const&>(*b.lhs()); is("rt_binary_expr assigned its own operand", RE(b), t->ch[0]); } }
    if (t->k == K_VEC) { VE b(dynamic_cast<VE const&>(*c1.get())); RE x(b), y(build(u)); y = b; is("rt_expr(rt_vector_expr)", x, t); is("rt_expr = rt_vector_expr", y, t); VE b2(1); b2 = b; is("rt_vector_expr assignment", RE(b2), t); }
    if (t->k == K_BIN) { d = c1; d = RE(dynamic_cast<RB const&>(*d.get()).lhs()->clone()); is("assigned part of itself", d, t->ch[0]); } }
  double k = exotic ? xconst(r) : r.coord(); { RE x(k), y(build(u)); y = k; is("rt_expr(number)", x, mkc(k)); is("rt_expr = number", y, mkc(k)); }
  { RC c(k); RE x(c), y(build(u)); y = c; is("rt_expr(rt_constant)", x, mkc(k)); is("rt_expr = rt_constant", y, mkc(k)); }
  { RV c(r.below(3)); vm::ct_constant<5> c5_; RE y(build(u)), z(c5_), w(build(u)); y = c; is("rt_expr = rt_variable", y, mkv(c.id())); RE x(c.clone()); is("rt_variable clone", x, mkv(c.id())); w = vm::ct_variable<2>(); is("rt_expr = ct_variable", w, mkv(2)); is("rt_expr(ct_constant)", z, mkc(5)); w = vm::ct_constant<-4>(); is("rt_expr = ct_constant", w, mkc(-4)); }
  { RF c((unsigned long)r.below(3), (unsigned long)r.below(2)); RE x(c), y(build(u)); y = c; is("rt_expr(rt_function_symbol)", x, mkf(c.id(), c.tag_id())); is("rt_expr = rt_function_symbol", y, mkf(c.id(), c.tag_id())); }
  { RB b(asB(RE(build(mkb(O_PLUS, t, u))))); RB b2(asB(RE(build(mkb(O_MULT, u, t))))); b = b2; is("rt_binary_expr = rt_binary_expr", RE(b), mkb(O_MULT, u, t)); }
  { RB b(asB(RE(build(mkb(O_PLUS, t, u))))); b = RC(k); Pt p = gen_pt(r, 2); double v = 0; if (attempt([&] { return b.eval(p); }, v) || v != k) fail("rt_binary_expr = rt_constant", "value " + num(v)); }
#else
  begin_case("operations on " + show(t) + " and " + show(u)); ops12(r, t, u);
#endif
}
#if PROP == 12
struct Tr : vm::rt_traversal_interface<IF> { mutable int n = 0; int lim; Tr(int l) : lim(l) {} void operator()(IF const*) const { ++n; } bool step_into(IF const*) const { return n < lim; } };
struct Ma : vm::rt_manipulation_interface<IF> { int k; Ma(int q) : k(q) {} IF* operator()(IF const* e) const { return k == K_VAR && dynamic_cast<RV const*>(e) ? new RC(1) : e->clone(); } bool modifies(IF const* e) const { return k == K_BIN ? dynamic_cast<RB const*>(e) != 0 : k == K_UN ? dynamic_cast<RU const*>(e) != 0 : false; } };
template <typename F> void bal(const char* w, F f) { long a; bool ok = true; for (int i = 0; i < 2; ++i) { a = live_allocs; try { f(); } catch (...) { ok = false; } if (!ok) return; } if (live_allocs != a) fail(std::string("leak: ") + w, num((double)(live_allocs - a)) + " allocations not released"); }
static bool hasvecprod(T t) { return any(t, [](T n) { return n->k == K_VEC; }); }
static void ops12(Rng& r, T t, T u) {
  RE e(build(t)), f(build(u)); Pt p = gen_pt(r, 3); RV x(0); RF fs(0ul, 0ul); T pt; int n = 0;
  bal("build", [&] { RE a(build(t)); }); bal("clone", [&] { RE a(e.get()->clone()); }); bal("copy", [&] { RE a(e), b; b = a; b = f; b = b; });
  bal("eval", [&] { e.get()->eval(p); }); bal("eval number", [&] { e.get()->eval(0.5); }); bal("unwrap", [&] { e.get()->unwrap(); });
  bal("is_constant", [&] { e.get()->is_constant(); }); bal("deep_equal", [&] { e.get()->deep_equal(f.get()); f.get()->deep_equal(e.get()); e.get()->shallow_equal(f.get()); e.get()->deep_equal(e.get()); });
  bal("strings", [&] { e.get()->deep_str(); e.get()->shallow_str(); });
  bal("substitute", [&] { RE a(e.get()->substitute(f.get(), e.get())); RE b(e.get()->substitute(&x, f.get())); });
  bal("substitute list", [&] { std::vector<const IF*> s{f.get(), &x}, q{e.get(), f.get()}; RE a(e.get()->substitute(s, q)); });
  if (!hasvecprod(t)) { bal("can_simplify", [&] { e.get()->can_simplify(); }); bal("simplify", [&] { RE a(e.get()->simplify()); }); bal("simplify completely", [&] { RE a = vm::simplify(e); RE b(e); vm::inplace_simplify(b); });
    bal("diff", [&] { RE a(e.get()->diff(&x)); }); bal("diff simplified", [&] { RE a = vm::diff(e, x); }); bal("diff symbol", [&] { RE a(e.get()->diff(&fs)); }); }
  bal("traversal", [&] { Tr* k = new Tr(3); vm::rt_traversal_wrapper<IF> w(k); e.get()->recursive_traversal(w); });
  int mk_ = r.below(4) == 0 ? K_BIN : r.chance(50) ? K_UN : K_VAR;
  bal("manipulation", [&] { Ma* k = new Ma(mk_); vm::rt_manipulation_wrapper<IF> w(k); RE a(e.get()->recursive_manipulation(w)); });
  bal("operators", [&] { RE a = e + f; RE b = e - f; RE c = e * f; RE d = e / f; RE g = a * 2.0; RE h = 3.0 - b; RE k = x + c; RE l = d / x; });
  bal("equation", [&] { RQ q(e, f), q2(q); q = q2; RQ q3; q3 = q; RI i(e, f), i2(i); i = i2; });
  bal("integral", [&] { RE a = vm::integral(RI(e, f), e, x); RE b(a.get()->clone()); RE c = vm::integral(SI(2), e); });
  bal("vector", [&] { VE v(2); v[0] = e; v[1] = f; VE w(v); VE s = v + w; VE d = v - w; RE q = v * w; w = s; VE m = v * 2.0; RE c(m); RE c2(c.get()->clone()); c.get()->deep_equal(c2.get()); });
  if (!eq(rd(e), t) || !eq(rd(f), u)) fail("an operation modified its input", show(rd(e)));
}
#endif
#endif
#if PROP == 13
void run_case(Rng& r) {
  Gen g; g.nvar = r.chance(50) ? 1 : 3; g.nfun = r.chance(20) ? 1 : 0; g.formalops = g.vec = g.nfun; T t = gen(r, g, r.below(4));
  if (r.chance(50)) { std::function<T(int)> gc = [&](int d) -> T { if (d <= 0 || r.chance(20)) return r.chance(60) ? mkc(r.coord()) : r.chance(50) ? mkl(r.below(9) - 4) : mki(r.below(9) - 4); T k = mkb(r.below(4), gc(d - 1), gc(d - 1)); return r.chance(20) ? mku(O_ID + r.below(5), k) : k; }; t = gc(4); }
  begin_case("constant? " + show(t)); RE e = mk(t); bool c = is_const(t); double v, w = 0;
  if (e.get()->is_constant() != c) fail("is_constant", c ? "false for an arithmetic combination of constants" : "true for something that is not a combination of constants");
  int s = attempt([&] { return e.get()->unwrap(); }, v); bool hv = any(t, [](T n) { return n->k == K_VAR; });
  if (hv && s == 0) fail("unwrap of an expression with a variable returns a number", num(v));
  if (!hv && numeric(t)) { if (s) fail("unwrap of a variable-free numeric expression raises", ""); else { int x = oracle(t, Pt{}, w); if (x == 0 && !close(v, w)) fail("unwrap", "got " + num(v) + " expected " + num(w)); } }
}
#endif
#if PROP == 14
static bool pr(T t, int k) { switch (k % 5) { case 0: return false; case 1: return t->k == K_BIN && t->op == O_MULT; case 2: return t->k == K_UN; case 3: return std::hash<std::string>()(show(t)) % 3 == 0; default: return t->k == K_BIN && t->ch[0]->k == K_BIN; } }
static T fm(T t, int k) { return k % 3 == 0 ? t : k % 3 == 1 ? mkc(7) : mku(O_SIN, t); }
struct Ma : vm::rt_manipulation_interface<IF> { int k, m; std::vector<std::string>* log; Ma(int a, int b, std::vector<std::string>* l) : k(a), m(b), log(l) {} IF* operator()(IF const* e) const { log->push_back(show(rd(e))); return build(fm(rd(e), m)); } bool modifies(IF const* e) const { return pr(rd(e), k); } };
struct Tr : vm::rt_traversal_interface<IF> { int k; std::vector<std::string>* log; Tr(int a, std::vector<std::string>* l) : k(a), log(l) {} void operator()(IF const* e) const { log->push_back(show(rd(e))); } bool step_into(IF const* e) const { return !pr(rd(e), k); } };
struct Md : vm::rt_manipulation_interface<IF> {};
struct Td : vm::rt_traversal_interface<IF> { std::vector<std::string>* log; explicit Td(std::vector<std::string>* l) : log(l) {} void operator()(IF const* e) const { log->push_back(show(rd(e))); } };
template <typename X> struct Cb { std::vector<IF const*>* l; void operator()(X const& x) const { l->push_back(&x); } };
template <typename X> void castable(IF const* e, bool is) {
  std::vector<IF const*> l; Cb<X> c = {&l}; bool b = vm::callback_if_castable<X>::apply(e, c);
  if (b != is) fail("callback_if_castable result", is ? "false for a node of the class" : "true for another node");
  if (l.size() != (is ? 1u : 0u) || (is && l[0] != e)) fail("callback_if_castable calls", std::to_string(l.size()) + " calls");
}
static T manip(T t, int k, int m, std::vector<std::string>& l) {
  if (t->k != K_UN && t->k != K_BIN) { l.push_back(show(t)); return fm(t, m); }
  if (pr(t, k)) { l.push_back(show(t)); return fm(t, m); }
  auto n = std::make_shared<N>(*t); n->ch[0] = manip(t->ch[0], k, m, l); if (t->k == K_BIN) n->ch[1] = manip(t->ch[1], k, m, l); return n;
}
static void trav(T t, int k, std::vector<std::string>& l) {
  if (t->k == K_UN) { l.push_back(show(t)); trav(t->ch[0], k, l); return; }
  if (t->k == K_BIN && !pr(t, k)) { trav(t->ch[0], k, l); l.push_back(show(t)); trav(t->ch[1], k, l); return; }
  l.push_back(show(t));
}
void run_case(Rng& r) {
  Gen g; g.nvar = 2; g.nfun = 2; g.formalops = g.vec = g.intg = true; T t = gen(r, g, 1 + r.below(5)); int k = r.below(5), m = r.below(3);
  begin_case("functor " + std::to_string(k) + "/" + std::to_string(m) + " on " + show(t)); RE e = mk(t); std::vector<std::string> a, b;
  T want = manip(t, k, m, b); { vm::rt_manipulation_wrapper<IF> w(new Ma(k, m, &a)); RE o(e.get()->recursive_manipulation(w)); if (!eq(rd(o), want)) fail("manipulation result", "got " + show(rd(o)) + " expected " + show(want)); std::multiset<std::string> A(a.begin(), a.end()), B(b.begin(), b.end()); if (A != B) fail("manipulation applied to the wrong nodes", ""); }
  a.clear(); b.clear(); trav(t, k, b); { vm::rt_traversal_wrapper<IF> w(new Tr(k, &a)); e.get()->recursive_traversal(w); } if (a != b) { std::string s; for (auto& z : a) s += z + "; "; fail("traversal order", "visited " + s); }
  { vm::rt_manipulation_wrapper<IF> w(new Md); RE o(e.get()->recursive_manipulation(w)); if (!eq(rd(o), t)) fail("default manipulation functor", "got " + show(rd(o))); RE o2(w(e.get())); if (!eq(rd(o2), t) || w.modifies(e.get())) fail("default manipulation functor", ""); }
  a.clear(); b.clear(); trav(t, 0, b); { vm::rt_traversal_wrapper<IF> w(new Td(&a)); e.get()->recursive_traversal(w); if (a != b) fail("default traversal functor does not visit every node", ""); if (!w.step_into(e.get())) fail("default traversal functor declines", ""); }
  IF const* p = e.get(); castable<RB>(p, t->k == K_BIN); castable<RU>(p, t->k == K_UN); castable<RV>(p, t->k == K_VAR); castable<RF>(p, t->k == K_FUN); castable<RC>(p, t->k == K_C); castable<RCL>(p, t->k == K_L); castable<RCI>(p, t->k == K_I); castable<VE>(p, t->k == K_VEC); castable<IF>(p, true);
  if (!eq(rd(e), t)) fail("original modified", "");
}
#endif
#if PROP == 15
void run_case(Rng& r) {
  Gen g; g.nvar = 2; g.nfun = r.chance(30) ? 2 : 0; int n = exotic && r.chance(12) ? 255 + r.below(8) : 1 + r.below(4); if (n > 9) exotic = false; std::vector<T> a, b; for (int i = 0; i < n; ++i) { a.push_back(gen(r, g, n > 9 ? 0 : 2)); b.push_back(gen(r, g, n > 9 ? 0 : 2)); }
  T A = mkvec(a), B = mkvec(b); T s = mkc(r.coord()); T v0 = mkv(r.below(2)); begin_case(show(A) + " with " + show(B) + " and " + show(s));
  RE ea = mk(A), eb = mk(B); VE x(dynamic_cast<VE const&>(*ea.get())), y(dynamic_cast<VE const&>(*eb.get()));
  auto cw = [&](const char* w, T got, std::function<T(int)> f) { if (got->k != K_VEC || (int)got->ch.size() != n) { fail(std::string(w) + ": length", show(got)); return; } for (int i = 0; i < n; ++i) same_value(w, got->ch[i], f(i), r, true, 2); };
  cw("vector + vector", rd(RE(x + y)), [&](int i) { return mkb(O_PLUS, a[i], b[i]); }); cw("vector - vector", rd(RE(x - y)), [&](int i) { return mkb(O_MINUS, a[i], b[i]); });
  cw("vector * number", rd(RE(x * s->c)), [&](int i) { return mkb(O_MULT, a[i], s); }); cw("number * vector", rd(RE(s->c * x)), [&](int i) { return mkb(O_MULT, s, a[i]); });
  if (s->c != 0) cw("vector / number", rd(RE(x / s->c)), [&](int i) { return mkb(O_DIV, a[i], s); });
  cw("vector * variable", rd(RE(x * RV(v0->id))), [&](int i) { return mkb(O_MULT, a[i], v0); });
  T dot = mkb(O_MULT, A, B); same_value("dot product", rd(x * y), dot, r, true, 4);
  { RE p(build(dot)); RE q(p.get()->simplify()); same_value("simplified product of vectors", rd(q), dot, r, true, 4); }
  RE sub(x.substitute(mk(v0).get(), mk(s).get())); std::function<T(T)> sf = [&](T t) -> T { if (eq(t, v0)) return s; if (t->ch.empty()) return t; auto m = std::make_shared<N>(*t); for (auto& c : m->ch) c = sf(c); return m; };
  if (!eq(rd(sub), sf(A))) fail("vector substitution", show(rd(sub)));
  if (!g.nfun && !any(A, [](T t) { return t->k == K_UN && t->op == O_FABS; })) { RE vv = mk(v0); RE d(x.diff(vv.get())); T D = rd(d); if (D->k != K_VEC || (int)D->ch.size() != n) fail("vector derivative: length", show(D)); else for (int i = 0; i < n; ++i) { RE c = mk(a[i]); RE q(c.get()->diff(vv.get())); if (!eq(rd(q), D->ch[i])) fail("vector derivative", show(D)); } }
  if (!eq(rd(RE(x)), A) || !eq(rd(RE(y)), B)) fail("operand modified", "");
}
#endif
#if PROP == 23
void run_case(Rng& r) {
  vm::numerical_quadrature q(new vm::gauss_quad_1()); unsigned long id = r.chance(70) ? r.below(3) : gen_cvid(r); double lo = r.coord(), hi = r.coord(), a = r.coord(), b = r.coord(), c = r.coord(); if (exotic) { lo = lo / 3 + 0.0001; hi = hi * 57.1 - 0.123456789; a += 0.01; }
  T v = mkv(id), poly = r.chance(50) ? mkb(O_PLUS, mkb(O_MULT, mkc(a), v), mkc(b)) : r.chance(50) ? mkb(O_MINUS, mkc(b), mkb(O_MULT, v, mkc(-a))) : mkb(O_PLUS, mkb(O_DIV, v, mkc(1 / (a == 0 ? 1 : a))), mkc(b));
  bool div0 = poly->ch[0]->k == K_BIN && poly->ch[0]->op == O_DIV; double aa = div0 && a == 0 ? 1 : a; double want = aa * (hi * hi - lo * lo) / 2 + b * (hi - lo);
  begin_case("quadrature of " + show(poly) + " over [" + num(lo) + "," + num(hi) + "] in x" + std::to_string(id));
  RE L(lo), H(hi), P = mk(poly); RI iv(L, H); RV x(id); double g = 0;
  auto ck = [&](const char* w, std::function<double()> f, double want) { if (attempt(f, g)) { fail(std::string(w) + ": exception", ""); return; } if (std::fabs(g - want) > 1e-7 * (1 + std::fabs(want))) fail(w, "got " + num(g) + " expected " + num(want)); };
  ck("interval, expression, variable", [&] { return q(iv, P, x); }, want); ck("swapped limits", [&] { return q(RI(H, L), P, x); }, -want);
  ck("integral expression", [&] { return q(vm::integral(iv, P, x)); }, want);
  with_cv(id, [&](auto cv) { ck("compile-time variable", [&] { return q(iv, P, cv); }, want); ck("integral over a compile-time variable", [&] { return q(vm::integral(iv, P, cv)); }, want); });
  ck("constant plus zero times", [&] { return q(RE(0.0) - RE(0.0)); }, 0);
  { RE I(vm::integral(iv, P, x)), Z(0.0), S(build(mkb(O_MINUS, rd(Z), rd(I)))), S2(build(mkb(O_PLUS, rd(Z), rd(I)))), S3(build(mkb(O_MINUS, rd(I), rd(Z)))), S4(build(mkb(O_PLUS, rd(I), rd(Z)))), S5(build(mkb(O_MINUS, rd(S), rd(I))));
    ck("zero minus integral", [&] { return q(S); }, -want); ck("zero plus integral", [&] { return q(S2); }, want); ck("integral minus zero", [&] { return q(S3); }, want); ck("integral plus zero", [&] { return q(S4); }, want); ck("difference of a difference", [&] { return q(S5); }, -2 * want); }
  RE L2(c), H2(c + 1); ck("sum of integrals", [&] { return q(vm::integral(iv, P, x) + vm::integral(RI(L2, H2), RE(b), x)); }, want + b);
  ck("difference of integrals", [&] { return q(vm::integral(iv, P, x) - vm::integral(RI(L2, H2), RE(b), x)); }, want - b);
  // higher degree: the rule is the midpoint value times the length
  { double m = (lo + hi) / 2; RE Q = mk(mkb(O_MULT, v, v)); ck("midpoint value", [&] { return q(iv, Q, x); }, m * m * (hi - lo)); }
  // limits given by constant expressions
  { RE A(build(mkb(O_PLUS, mkc(lo), mkc(1)))), B(build(mkb(O_MULT, mkc(hi), mkc(1)))); RI j(A, B); double l = lo + 1; ck("constant expressions as limits", [&] { return q(j, P, x); }, aa * (hi * hi - l * l) / 2 + b * (hi - l)); }
  bool t = false; try { q(mk(mkv(0))); } catch (std::exception const&) { t = true; } catch (...) { t = true; } if (!t) fail("no integral: no exception", "");
  t = false; try { q(mk(mku(O_SINT, mkv(0), 0))); } catch (...) { t = true; } if (!t) fail("symbolic integral: no exception", "");
  ck("zero", [&] { return q(RE(0.0)); }, 0); vm::numerical_quadrature q2(q), q3; q3 = q; ck("copied rule", [&] { return q2(iv, P, x) ; }, want); ck("assigned rule", [&] { return q3(iv, P, x); }, want);
}
#endif
#if PROP == 24
static T gw(Rng& r, int d) {   // scalar weak-form expression
  T u = mkf(0, vm::unknown_tag<>::tag_id()), v = mkf(0, vm::test_tag<>::tag_id());
  int k = r.below(d > 0 ? 12 : 6);
  switch (k) { case 0: return u; case 1: return v; case 2: return mkc(r.coord()); case 3: return mkv(r.below(3)); case 4: return mku(O_DIVG, r.chance(50) ? u : v); case 5: case 6: return mkb(O_MULT, mku(O_GRAD, r.chance(50) ? u : v), mku(O_GRAD, r.chance(50) ? u : v));
    case 7: return mku(O_SIN, mkv(r.below(3))); default: return mkb(r.below(3), gw(r, d - 1), gw(r, d - 1)); }
}
template <int D> void one(Rng& r, T t) {
  T u = mkf(0, vm::unknown_tag<>::tag_id()), v = mkf(0, vm::test_tag<>::tag_id());
  std::function<T(T)> f = [&](T n) -> T { if (n->k == K_UN && (n->op == O_GRAD || n->op == O_DIVG)) { std::vector<T> c; for (int i = 0; i < D; ++i) c.push_back(mku(O_PD, n->ch[0], i)); if (n->op == O_GRAD) return D == 1 ? c[0] : mkvec(c); T s = c[0]; for (int i = 1; i < D; ++i) s = mkb(O_PLUS, s, c[i]); return s; }
    if (n->ch.empty()) return n; auto m = std::make_shared<N>(*n); for (auto& c : m->ch) c = f(c); return m; };
  RE e = mk(t); RE o = vm::apply_coordinate_system(vm::cartesian<D>(), e); T w = f(t); if (any(rd(o), [](T n) { return n->k == K_UN && (n->op == O_GRAD || n->op == O_DIVG); })) fail("gradient or divergence left", show(rd(o))); same_value("wrong form", rd(o), w, r, true, 3);
  if (t->k == K_BIN) { RE o2 = vm::apply_coordinate_system(vm::cartesian<D>(), asB(e)); if (!eq(rd(o2), rd(o))) fail("rt_binary_expr front end", show(rd(o2))); }
  if (t->k == K_UN) { RE o2 = vm::apply_coordinate_system(vm::cartesian<D>(), asU(e)); if (!eq(rd(o2), rd(o))) fail("rt_unary_expr front end", show(rd(o2))); }
  T t2 = gw(r, 1); RE e2 = mk(t2); RQ q = vm::apply_coordinate_system(vm::cartesian<D>(), RQ(e, e2)); if (!eq(rd(q.lhs()), rd(o))) fail("equation: left side", show(rd(q.lhs()))); same_value("equation: right side", rd(q.rhs()), f(t2), r, true, 2);
  if (!eq(rd(e), t)) fail("original modified", "");
}
void run_case(Rng& r) { T t = gw(r, 3); int d = 1 + r.below(3); begin_case("cartesian<" + std::to_string(d) + "> on " + show(t)); if (d == 1) one<1>(r, t); else if (d == 2) one<2>(r, t); else one<3>(r, t); }
#endif
#if PROP == 26
template <typename F> void typed(RE const& e, T t, F f) { if (t->k == K_VAR) f(RV(t->id)); else if (t->k == K_FUN) f(RF(t->id, t->tag)); else if (t->k == K_C) f(RC(t->c)); else if (t->k == K_UN) f(asU(e)); else if (t->k == K_BIN) f(asB(e)); }
void kinds(Rng& r) {
  Gen g; g.nvar = 2; g.nfun = 2; g.ints = false; T a = gen(r, g, 1), b = gen(r, g, 1); double k = r.coord(); begin_case("operands " + show(a) + " and " + show(b) + " and " + num(k)); RE A = mk(a), B = mk(b);
  auto is = [&](const char* w, RE const& l, RE const& h, T x, T y) { if (!eq(rd(l), x) || !eq(rd(h), y)) fail(w, "got " + show(rd(l)) + " and " + show(rd(h))); };
  auto q = [&](const char* w, RQ const& o, T x, T y) { is(w, o.lhs(), o.rhs(), x, y); }; auto i = [&](const char* w, RI const& o, T x, T y) { is(w, o.lower(), o.upper(), x, y); };
  typed(A, a, [&](auto const& x) {
    q("equation of operand and wrapper", vm::make_equation(x, B), a, b); i("interval of operand and wrapper", vm::make_interval(x, B), a, b); q("equation of operand and number", vm::make_equation(x, k), a, mkc(k)); i("interval of operand and number", vm::make_interval(x, k), a, mkc(k));
    q("equation of wrapper and operand", vm::make_equation(B, x), b, a); i("interval of wrapper and operand", vm::make_interval(B, x), b, a); if (a->k != K_FUN) { typedef typename std::decay<decltype(x)>::type X; if constexpr (!std::is_same<X, RF>::value && !std::is_same<X, RC>::value) { q("equation of number and operand", vm::make_equation(k, x), mkc(k), a); i("interval of number and operand", vm::make_interval(k, x), mkc(k), a); } }
    typed(B, b, [&](auto const& y) { q("equation of operands", vm::make_equation(x, y), a, b); i("interval of operands", vm::make_interval(x, y), a, b); });
    with_cv(gen_cvid(r), [&](auto cv) { q("equation of compile-time variable", vm::make_equation(cv, x), mkv(cvid(cv)), a); q("equation to compile-time variable", vm::make_equation(x, cv), a, mkv(cvid(cv))); i("interval to compile-time variable", vm::make_interval(x, cv), a, mkv(cvid(cv))); });
  });
}
template <typename A, typename B> void ct_pair(A const& a, B const& b) {
  if (!std::is_same<decltype(vm::make_equation(a, b)), vm::ct_equation<A, B> >::value) fail("compile-time equation: sides", __PRETTY_FUNCTION__);
  if (!std::is_same<decltype(vm::make_interval(a, b)), vm::ct_interval<A, B> >::value) fail("compile-time interval: limits", __PRETTY_FUNCTION__);
}
template <typename A> void ct_pairs(A const& a) { vm::ct_variable<1> x; vm::ct_variable<2> y; vm::ct_constant<3> c; ct_pair(a, x); ct_pair(a, c); ct_pair(a, vm::ct_function_symbol<vm::test_tag<2> >()); ct_pair(a, x - y); ct_pair(a, y * c); }
static void ct_sides() {
  begin_case("compile-time equations and intervals"); vm::ct_variable<0> x; vm::ct_variable<2> y; vm::ct_constant<5> c;
  ct_pairs(x); ct_pairs(c); ct_pairs(vm::ct_function_symbol<vm::unknown_tag<1> >()); ct_pairs(x + y); ct_pairs(c / y);
}
void run_case(Rng& r) {
  if (case_no == 0) return ct_sides();
  if (r.chance(50)) return kinds(r);
  Gen g; g.nvar = 2; g.nfun = 2; T a = gen(r, g, 2), b = gen(r, g, 2); double k = exotic ? xconst(r) : r.coord(); begin_case("sides " + show(a) + " and " + show(b));
  auto is = [&](const char* w, RE const& l, RE const& h, T x, T y) { if (!eq(rd(l), x) || !eq(rd(h), y)) fail(w, "got " + show(rd(l)) + " and " + show(rd(h))); };
  RE* A = new RE(build(a)); RE* B = new RE(build(b)); RQ q(*A, *B); RI i(*A, *B); RQ m = vm::make_equation(*A, *B); RI n = vm::make_interval(*A, *B); RQ s1 = vm::make_equation(k, *B), s2 = vm::make_equation(*A, k); RI j1 = vm::make_interval(k, *B), j2 = vm::make_interval(*A, k), j3 = vm::make_interval(k, k + 1);
  is("source modified", *A, *B, a, b); delete A; delete B;
  is("equation", q.lhs(), q.rhs(), a, b); is("interval", i.lower(), i.upper(), a, b); is("make_equation", m.lhs(), m.rhs(), a, b); is("make_interval", n.lower(), n.upper(), a, b);
  is("make_equation(number, expr)", s1.lhs(), s1.rhs(), mkc(k), b); is("make_equation(expr, number)", s2.lhs(), s2.rhs(), a, mkc(k)); is("make_interval(number, expr)", j1.lower(), j1.upper(), mkc(k), b); is("make_interval(expr, number)", j2.lower(), j2.upper(), a, mkc(k)); is("make_interval(number, number)", j3.lower(), j3.upper(), mkc(k), mkc(k + 1));
  RQ q2(q), q3; q3 = q; RI i2(i), i3; i3 = i; is("equation copy", q2.lhs(), q2.rhs(), a, b); is("equation assignment", q3.lhs(), q3.rhs(), a, b); is("interval copy", i2.lower(), i2.upper(), a, b); is("interval assignment", i3.lower(), i3.upper(), a, b); q2 = m; i2 = n; i2 = i2; is("second assignment", q2.lhs(), q2.rhs(), a, b); is("self assignment", i2.lower(), i2.upper(), a, b);
  RI d; is("default interval", d.lower(), d.upper(), mkc(0), mkc(1));
}
#endif
#if PROP == 25
#include "viennamath/manipulation/latex.hpp"
// an independent reader of the LaTeX text: ordinary precedence, function application binds tightest
struct Rd {
  std::string s; size_t i = 0; std::vector<std::pair<std::string, T> > names;
  struct Bad { std::string why; };
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; if (s.compare(i, 2, "\\:") == 0 && false) i += 2; }
  bool at(const char* w) { ws(); size_t n = strlen(w); if (s.compare(i, n, w) != 0) return false; if (w[0] == '\\' && isalpha((unsigned char)w[n - 1]) && i + n < s.size() && isalpha((unsigned char)s[i + n])) return false; return true; }
  bool opt(const char* w) { if (!at(w)) return false; i += strlen(w); return true; }
  void need(const char* w) { if (!opt(w)) throw Bad{std::string("expected ") + w + " at position " + std::to_string(i)}; }
  unsigned long idx() { need("_"); bool b = opt("{"); ws(); size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j; if (j == i) throw Bad{"index"}; unsigned long v = strtoul(s.c_str() + i, 0, 10); i = j; if (b) need("}"); return v; }
  T sum() { T a = prod(); for (;;) { if (opt("+")) a = mkb(O_PLUS, a, prod()); else if (at("-")) { ++i; a = mkb(O_MINUS, a, prod()); } else return a; } }
  T prod() { T a = fac(); while (opt("\\cdot")) a = mkb(O_MULT, a, fac()); return a; }
  T fac() {
    for (auto& n : names) if (at(n.first.c_str())) { i += n.first.size(); return n.second; }
    ws(); if (i >= s.size()) throw Bad{"operand missing"};
    if (isdigit((unsigned char)s[i]) || (s[i] == '-' && i + 1 < s.size() && (isdigit((unsigned char)s[i + 1]) || s[i + 1] == '.'))) { const char* b = s.c_str() + i; char* e; double v = strtod(b, &e); i += e - b; return mkc(v); }
    if (opt("\\left(")) { T a = sum(); need("\\right)"); return a; }
    if (opt("\\left|")) { T a = sum(); need("\\right|"); return mku(O_FABS, a); }
    if (opt("(")) { T a = sum(); need(")"); return a; }
    if (opt("\\frac")) {
      need("{"); size_t k = i; if (opt("\\partial")) { T a = fac(); need("}"); need("{"); need("\\partial"); T v = fac(); need("}"); if (v->k != K_VAR) throw Bad{"partial derivative by a non-variable"}; return mku(O_PD, a, v->id); }
      i = k; T a = sum(); need("}"); need("{"); T b = sum(); need("}"); return mkb(O_DIV, a, b); }
    if (opt("\\sqrt")) { need("{"); T a = sum(); need("}"); return mku(O_SQRT, a); }
    if (opt("\\nabla")) { if (opt("\\cdot")) return mku(O_DIVG, fac()); return mku(O_GRAD, fac()); }
    static const std::pair<const char*, int> fn[] = {{"\\exp", O_EXP}, {"\\sin", O_SIN}, {"\\cos", O_COS}, {"\\tan", O_TAN}, {"\\ln", O_LOG}, {"\\log", O_LOG10}};
    for (auto& f : fn) if (opt(f.first)) return mku(f.second, fac());
    if (opt("\\int")) {
      need("_"); need("{"); T lo, hi; unsigned long id = 0; bool sy = false;
      if (opt("\\Omega")) { sy = true; id = idx(); } else { need("["); lo = sum(); need(";"); hi = sum(); need("]"); }
      need("}"); T a = sum(); need("\\:"); need("\\mathrm{d}");
      if (sy) { need("\\Omega"); return mku(O_SINT, a, id); }
      T v = fac(); if (v->k != K_VAR) throw Bad{"integration over a non-variable"}; return mkint(a, lo, hi, v->id); }
    if (opt("x")) return mkv(idx());
    if (opt("u")) { unsigned long k = idx(); return mkf(k, vm::unknown_tag<>::tag_id()); }
    if (opt("v")) { unsigned long k = idx(); return mkf(k, vm::test_tag<>::tag_id()); }
    throw Bad{"unreadable at position " + std::to_string(i)};
  }
  T all() { T a = sum(); ws(); if (i != s.size()) throw Bad{"trailing text at position " + std::to_string(i)}; return a; }
};
// sums and products up to associativity, the identity operator dropped
static std::string canon(T t);
static void terms(T t, bool neg, std::vector<std::string>& v) {
  if (t->k == K_UN && t->op == O_ID) return terms(t->ch[0], neg, v);
  if (t->k == K_BIN && (t->op == O_PLUS || t->op == O_MINUS)) { terms(t->ch[0], neg, v); return terms(t->ch[1], neg ^ (t->op == O_MINUS), v); }
  v.push_back((neg ? "-" : "+") + canon(t));
}
static void facs(T t, std::vector<std::string>& v) {
  if (t->k == K_UN && t->op == O_ID) return facs(t->ch[0], v);
  if (t->k == K_BIN && t->op == O_MULT) { facs(t->ch[0], v); return facs(t->ch[1], v); }
  v.push_back(canon(t));
}
static std::string canon(T t) {
  if (t->k == K_UN && t->op == O_ID) return canon(t->ch[0]);
  std::string s = "{"; std::vector<std::string> v;
  if (t->k == K_BIN && t->op != O_DIV) { if (t->op == O_MULT) { facs(t, v); s += "*"; } else terms(t, false, v); for (auto& x : v) s += " " + x; return s + "}"; }
  if (t->k == K_C) return show(mkc(six(t->c))); if (t->ch.empty()) return show(t);
  s += op_nm[t->op] + std::to_string(t->op >= O_PD && t->op <= O_INT && t->k == K_UN ? t->id : 0); for (auto c : t->ch) s += "," + canon(c); return s + "}";
}
static T scal(Rng& r, Gen const& g, int d) { T t = gen(r, g, d); return t; }
static bool wide = false;
static T tags(T t) { auto m = std::make_shared<N>(*t); if (t->k == K_FUN) m->tag = t->tag ? vm::test_tag<>::tag_id() : vm::unknown_tag<>::tag_id(); if (wide && m->id && (t->k == K_VAR || t->k == K_FUN || t->k == K_UN)) m->id = m->id * 1234 - 1222; for (auto& c : m->ch) c = tags(c); return m; }
void run_case(Rng& r) {
  Gen g; g.nvar = 3; g.nfun = r.chance(60) ? 2 : 0; g.ints = false; wide = r.chance(20); g.formalops = r.chance(50); g.intg = r.chance(40); T t = tags(scal(r, g, 3)), w = tags(scal(r, g, 1));
  if (r.chance(10)) t = mkb(O_MULT, mkc(r.chance(50) ? 1e7 : -1.5e-5), t);
  std::function<bool(T)> two = [&](T n) { return n->k == K_BIN && n->op == O_MULT && n->ch[0]->k == K_VEC; }; (void)two;
  vm::latex_translator tr; std::vector<std::pair<std::string, T> > nm;
  if (r.chance(40)) { int n = 1 + r.below(2); for (int k = 0; k < n; ++k) { unsigned long id = tags(mkv(r.below(3)))->id; std::string name = k ? "B" : r.chance(50) ? "A" : "{ca}"; tr.customize(RV(id), name); for (auto& p : nm) if (p.second->id == id) p.second = mkv(99); nm.push_back({name, mkv(id)}); } }
  size_t nv = nm.size();
  if (r.chance(40)) { int n = 1 + r.below(2); for (int k = 0; k < n; ++k) { T f = tags(mkf(r.below(2), r.below(2))); tr.customize(RF(f->id, f->tag), std::string(k ? "{cd}" : "{cc}")); for (size_t j = nv; j < nm.size(); ++j) if (eq(nm[j].second, f)) nm[j].second = mkv(98); nm.push_back({k ? "{cd}" : "{cc}", f}); } }
  std::string cs; for (auto& n : nm) cs += " " + show(n.second) + " as " + n.first;
  begin_case("text of " + show(t) + (cs.empty() ? "" : ", printing" + cs));
  auto parse = [&](std::string s, int form, T& a, T& b, std::string& why) { Rd p; p.s = s; p.names = nm; try { if (form == 0) { a = p.all(); } else if (form == 1) { a = p.fac(); p.ws(); if (p.i != s.size()) throw Rd::Bad{"not a single factor"}; } else if (form == 2) { a = p.sum(); p.need("="); b = p.all(); } else { p.need("["); a = p.sum(); p.need(";"); b = p.sum(); p.need("]"); p.ws(); if (p.i != s.size()) throw Rd::Bad{"trailing text"}; } return true; } catch (Rd::Bad const& e) { why = e.why; return false; } };
  auto must = [&](const char* what, std::string s, T want) { for (auto& n : nm) if (any(want, [&](T x) { return eq(x, n.second); }) && s.find(n.first) == std::string::npos) { fail(std::string(what) + ": customised name not used", s); return false; } return true; };
  auto ck = [&](const char* what, std::string s, int form, T want, T want2) { T a, b; std::string why; if (!parse(s, form, a, b, why)) { fail(std::string(what) + ": not readable", s + " : " + why); return; } if (canon(a) != canon(want) || (want2 && canon(b) != canon(want2))) fail(std::string(what) + ": reads differently", s + " reads as " + show(a) + (want2 ? " and " + show(b) : "")); must(what, s, want); };
  RE e = mk(t), f = mk(w);
  try {
    ck("text", tr(e), 0, t, T()); ck("text with parentheses", tr(e, true), 1, t, T());
    if (t->k == K_BIN) ck("rt_binary_expr", tr(asB(e)), 0, t, T()); if (t->k == K_UN) ck("rt_unary_expr", tr(asU(e)), 0, t, T());
    if (t->k == K_VAR) ck("rt_variable", tr(RV(t->id)), 1, t, T()); if (t->k == K_FUN) ck("rt_function_symbol", tr(RF(t->id, t->tag)), 1, t, T());
    ck("equation", tr(RQ(e, f)), 2, t, w); ck("interval", tr(RI(e, f)), 3, t, w);
    { vm::latex_translator c(tr); ck("copied translator", c(e), 0, t, T()); vm::latex_translator a; a.customize(RV(1), "Q"); a.customize(RF(1ul, 1ul), "Q"); a = c; a = *&a; ck("assigned translator", a(e), 0, t, T()); c.customize(RV(0), "Q"); c.customize(RV(1), "Q"); ck("translator whose copy is customised", tr(e), 0, t, T()); }
    if (!eq(rd(e), t)) fail("original modified", "");
  } catch (...) { fail("exception", ""); }
}
#endif
#if PROP == 27
template <typename F> static int thrown(F f) { try { f(); return 0; } catch (vm::analytic_integration_not_supported_exception const&) { return 1; } catch (vm::symbolic_integral_evaluation_not_possible_exception const&) { return 2; } catch (...) { return 3; } }
void run_case(Rng& r) {
  Gen g; g.nvar = 3; g.nfun = 2; g.formalops = r.chance(40); g.intg = r.chance(40); g.vec = r.chance(20); T t = gen(r, g, r.below(4)), lo = gen(r, g, r.below(3)), hi = gen(r, g, r.below(3));
  static const unsigned long ids[] = {0, 1, 2, 3, 17, 255, 256, 65536, 4294967296ul, ~0ul}; unsigned long v = ids[r.below(10)], s = r.chance(50) ? (unsigned long)r.below(5) : ids[r.below(10)];
  begin_case("integral of " + show(t) + " over [" + show(lo) + "," + show(hi) + "] in x" + std::to_string(v) + " and over the symbolic interval " + std::to_string(s));
  std::unique_ptr<RE> e(new RE(build(t))), l(new RE(build(lo))), h(new RE(build(hi))); std::unique_ptr<RI> iv(new RI(*l, *h)); std::unique_ptr<RV> x(new RV(v)); std::unique_ptr<SI> si(new SI(s));
  std::vector<std::pair<std::string, RE> > out; std::vector<T> want;
  auto add = [&](const char* w, RE const& o, T x) { out.push_back({w, o}); want.push_back(x); };
  T wi = mkint(t, lo, hi, v), wsym = mku(O_SINT, t, s);
  add("interval, wrapper, variable", vm::integral(*iv, *e, *x), wi); add("interval, wrapper, compile-time variable", vm::integral(*iv, *e, vm::ct_variable<0>()), mkint(t, lo, hi, 0)); with_cv(gen_cvid(r), [&](auto cv) { add("interval, wrapper, compile-time variable", vm::integral(*iv, *e, cv), mkint(t, lo, hi, cvid(cv))); });
  add("symbolic interval, wrapper", vm::integral(*si, *e), wsym);
  if (t->k == K_BIN) { with_cv(gen_cvid(r), [&](auto cv) { add("interval, rt_binary_expr, compile-time variable", vm::integral(*iv, asB(*e), cv), mkint(t, lo, hi, cvid(cv))); }); add("symbolic interval, rt_binary_expr", vm::integral(*si, asB(*e)), wsym); }
  if (t->k == K_UN) add("symbolic interval, rt_unary_expr", vm::integral(*si, asU(*e)), wsym);
  if (t->k == K_VAR) add("symbolic interval, rt_variable", vm::integral(*si, RV(t->id)), wsym);
  if (t->k == K_FUN) add("symbolic interval, rt_function_symbol", vm::integral(*si, RF(t->id, t->tag)), wsym);
  if (t->k == K_C) add("symbolic interval, constant", vm::integral(*si, RC(t->c)), wsym);
  if (t->k == K_L) add("symbolic interval, long constant", vm::integral(*si, RCL(t->l)), wsym);
  if (t->k == K_I) add("symbolic interval, int constant", vm::integral(*si, RCI((int)t->l)), wsym);
  { typedef vm::op_rt_integral<IF> O; O z(*iv, vm::ct_variable<4>()); if (z.variable().id() != 4 || !eq(rd(z.interval().lower()), lo) || !eq(rd(z.interval().upper()), hi)) fail("integral operation with a compile-time variable", std::to_string(z.variable().id())); O a(*iv, *x), b(a), c; c = a; O d(RI(RE(1.0), RE(2.0)), RV(7)); d = a; if (d.variable().id() != v || !eq(rd(d.interval().lower()), lo) || !eq(rd(d.interval().upper()), hi)) fail("assigned integral operation", ""); if (b.variable().id() != v || c.variable().id() != v || !eq(rd(b.interval().lower()), lo) || !eq(rd(c.interval().upper()), hi)) fail("copied integral operation", ""); }
  { vm::op_rt_symbolic_integral<IF> a(*si), b(a), c; c = b; if (c.interval().id() != s) fail("copied symbolic integral operation", std::to_string(c.interval().id())); }
  if (!eq(rd(*e), t) || !eq(rd(iv->lower()), lo) || !eq(rd(iv->upper()), hi) || x->id() != v || si->id() != s) fail("argument modified", "");
  e.reset(); l.reset(); h.reset(); iv.reset(); x.reset(); si.reset();                       // the expression owns what it denotes
  Pt p = gen_pt(r, 3);
  for (size_t i = 0; i < out.size(); ++i) {
    if (!eq(rd(out[i].second), want[i])) fail(out[i].first + ": wrong integral", "got " + show(rd(out[i].second)) + " expected " + show(want[i]));
    RE k(out[i].second); if (!eq(rd(k), want[i])) fail(out[i].first + ": copy", show(rd(k)));
    if (numeric(t) && maxvar(t) <= 3 && t->k != K_VEC) { Cond c; ev(t, p, c); if (!c.bad) { int w = thrown([&] { k.get()->eval(std::vector<double>(p)); }); if (w != (want[i]->op == O_INT ? 1 : 2)) fail(out[i].first + ": evaluation", std::to_string(w)); } }
  }
}
#endif
#if PROP == 28
// an independent reader of the stream text
struct Rd {
  std::string s; size_t i = 0; struct Bad { std::string why; };
  void ws() { while (i < s.size() && s[i] == ' ') ++i; }
  bool opt(const char* w) { ws(); size_t n = strlen(w); if (s.compare(i, n, w)) return false; i += n; return true; }
  void need(const char* w) { if (!opt(w)) throw Bad{std::string("expected ") + w + " at position " + std::to_string(i)}; }
  unsigned long idx() { ws(); size_t j = i; while (j < s.size() && isdigit((unsigned char)s[j])) ++j; if (j == i) throw Bad{"index"}; unsigned long v = strtoul(s.c_str() + i, 0, 10); i = j; return v; }
  T tree() {
    if (opt("(")) { T a = tree(); int o = opt("+") ? O_PLUS : opt("-") ? O_MINUS : opt("*") ? O_MULT : opt("/") ? O_DIV : -1; if (o < 0) throw Bad{"operator at position " + std::to_string(i)}; T b = tree(); need(")"); return mkb(o, a, b); }
    if (opt("constant(")) { char* e; double v = strtod(s.c_str() + i, &e); if (e == s.c_str() + i) throw Bad{"number"}; i = e - s.c_str(); need(")"); return mkc(v); }
    if (opt("variable(")) { unsigned long k = idx(); need(")"); return mkv(k); }
    if (opt("function_symbol<")) { unsigned long tag; if (opt("unknown(")) tag = vm::unknown_tag<>::tag_id(); else { need("test("); tag = vm::test_tag<>::tag_id(); } unsigned long k = idx(); need(")"); need(">"); return mkf(k, tag); }
    if (opt("[")) { unsigned long n = idx(); need("]"); need("("); std::vector<T> c; for (unsigned long k = 0; k < n; ++k) { if (k) need(","); c.push_back(wrap()); } need(")"); return mkvec(c); }
    if (opt("partial_deriv<")) { unsigned long k = idx(); need(">"); need("("); T a = tree(); need(")"); return mku(O_PD, a, k); }
    if (opt("symbolic_integral[")) { need("symbolic_interval["); unsigned long k = idx(); need("]"); need("]"); need("("); T a = tree(); need(")"); return mku(O_SINT, a, k); }
    if (opt("rt_integral[")) { T lo, hi; iv(lo, hi); need(","); T v = tree(); if (v->k != K_VAR) throw Bad{"integration over a non-variable"}; need("]"); need("("); T a = tree(); need(")"); return mkint(a, lo, hi, v->id); }
    static const std::pair<const char*, int> fn[] = {{"id(", O_ID}, {"exp(", O_EXP}, {"sin(", O_SIN}, {"cos(", O_COS}, {"tan(", O_TAN}, {"fabs(", O_FABS}, {"sqrt(", O_SQRT}, {"log(", O_LOG}, {"log10(", O_LOG10}, {"grad(", O_GRAD}, {"div(", O_DIVG}};
    for (auto& f : fn) if (opt(f.first)) { T a = tree(); need(")"); return mku(f.second, a); }
    throw Bad{"unreadable at position " + std::to_string(i)};
  }
  T wrap() { need("expr"); size_t k = i; try { need("("); T a = tree(); need(")"); return a; } catch (Bad const&) { i = k; return tree(); } }
  void iv(T& lo, T& hi) { need("interval"); need("("); lo = wrap(); need(","); hi = wrap(); need(")"); }
  void end() { ws(); if (i != s.size()) throw Bad{"trailing text at position " + std::to_string(i)}; }
};
static T printed(T t) { auto m = std::make_shared<N>(*t); if (t->k == K_L || t->k == K_I) { m->k = K_C; m->c = (double)t->l; m->tag = 7; } for (auto& c : m->ch) c = printed(c); return m; }
static bool reads(T a, T t) {   // numbers as printed: integers exactly, others to the stream's six digits
  if (t->k == K_C && a->k == K_C) return t->tag == 7 ? a->c == t->c : six(a->c) == six(t->c);
  if (a->ch.size() != t->ch.size()) return false; auto x = std::make_shared<N>(*a), y = std::make_shared<N>(*t); x->ch.clear(); y->ch.clear(); if (!eq(x, y)) return false;
  for (size_t i = 0; i < a->ch.size(); ++i) if (!reads(a->ch[i], t->ch[i])) return false; return true;
}
static bool wide = false;
static T tags(T t) { auto m = std::make_shared<N>(*t); if (t->k == K_FUN) m->tag = t->tag ? vm::test_tag<>::tag_id() : vm::unknown_tag<>::tag_id(); if (wide && m->id && (t->k == K_VAR || t->k == K_FUN || t->k == K_UN)) m->id = m->id * 12345678901234ul - 1222; if (wide && t->k == K_L) m->l *= 1234567; if (wide && t->k == K_C) m->c *= 1e9; for (auto& c : m->ch) c = tags(c); return m; }
// compile-time expressions: the leaves and operators appear in reading order, bracketed
static void in_order(const std::string& s, std::vector<std::string> w) {
  size_t at = 0; int d = 0; for (char c : s) { d += c == '[' || c == '('; d -= c == ']' || c == ')'; }
  for (auto& x : w) { size_t q = s.find(x, at); if (q == std::string::npos) { fail("text of a compile-time expression", s + " lacks " + x); return; } at = q + x.size(); }
  if (d) fail("text of a compile-time expression: brackets", s);
}
template <typename X> std::string txt(X const& x) { std::ostringstream o; o << x; return o.str(); }
static void ct_text() {
  begin_case("text of compile-time expressions"); vm::ct_variable<0> x; vm::ct_variable<12> y; vm::ct_constant<-7> c;
  in_order(txt(x), {"variable", "<", "0", ">"}); in_order(txt(y), {"variable", "<", "12", ">"}); in_order(txt(c), {"constant", "<", "-7", ">"});
  in_order(txt(x - y), {"[", "<0>", "-", "<12>", "]"}); in_order(txt(y - x), {"[", "<12>", "-", "<0>", "]"}); in_order(txt((x * c) / y), {"[", "[", "<0>", "*", "<-7>", "]", "/", "<12>", "]"});
  in_order(txt(x * (c / y)), {"[", "<0>", "*", "[", "<-7>", "/", "<12>", "]", "]"}); in_order(txt((x + y) - c), {"[", "[", "<0>", "+", "<12>", "]", "-", "<-7>", "]"});
  in_order(txt(vm::ct_function_symbol<vm::unknown_tag<3> >()), {"unknown", "3"}); in_order(txt(vm::ct_function_symbol<vm::test_tag<1> >()), {"test", "1"});
  in_order(txt(vm::make_equation(x, c)), {"equation", "(", "<0>", "=", "<-7>", ")"}); in_order(txt(vm::make_equation(c, x + y)), {"equation", "(", "<-7>", "=", "<0>", "+", "<12>", ")"});
  in_order(txt(vm::make_interval(c, x)), {"interval", "(", "<-7>", ",", "<0>", ")"}); in_order(txt(vm::ct_vector_3<double, double, double>(1.5, 2.5, 3.5)), {"<", "1.5", "2.5", "3.5", ">"}); in_order(txt(vm::ct_vector_2<double, double>(1.5, 2.5)), {"<", "1.5", "2.5", ">"});
}
void run_case(Rng& r) {
  if (case_no == 0) return ct_text();
  Gen g; g.nvar = 3; g.nfun = r.chance(60) ? 2 : 0; wide = r.chance(20); g.formalops = r.chance(50); g.intg = r.chance(40); g.vec = r.chance(30); T t = tags(gen(r, g, r.below(5))), w = tags(gen(r, g, r.below(3)));
  begin_case("text of " + show(t)); RE e(build(t)), f(build(w)); T pt = printed(t), pw = printed(w);
  auto text = [&](auto const& x) { std::ostringstream o; o << x; return o.str(); };
  auto ck = [&](const char* what, std::string s, std::function<T(Rd&)> p) { Rd q; q.s = s; T a; try { a = p(q); q.end(); } catch (Rd::Bad const& b) { fail(std::string(what) + ": not readable", s + " : " + b.why); return; } if (!reads(a, pt)) fail(std::string(what) + ": reads differently", s + " reads as " + show(a)); };
  auto tree = [](Rd& q) { return q.tree(); };
  ck("deep_str", e.get()->deep_str(), tree); ck("wrapper", text(e), [](Rd& q) { return q.wrap(); });
  if (t->k == K_BIN) ck("rt_binary_expr", text(asB(e)), [](Rd& q) { q.need("expr"); return q.tree(); });
  if (t->k == K_UN) ck("rt_unary_expr", text(asU(e)), [](Rd& q) { q.need("unary"); return q.tree(); });
  if (t->k == K_VEC) ck("rt_vector_expr", text(dynamic_cast<VE const&>(*e.get())), tree);
  if (t->k == K_VAR) ck("rt_variable", text(RV(t->id)), tree); if (t->k == K_FUN) ck("rt_function_symbol", text(RF(t->id, t->tag)), tree);
  if (t->k == K_C) ck("constant", text(RC(t->c)), tree); if (t->k == K_L) ck("long constant", text(RCL(t->l)), tree); if (t->k == K_I) ck("int constant", text(RCI((int)t->l)), tree);
  auto second = [&](Rd& q, T b) { if (!reads(b, pw)) throw Rd::Bad{"the right side reads as " + show(b)}; };
  ck("equation", text(RQ(e, f)), [&](Rd& q) { q.need("equation"); q.need("("); T a = q.wrap(); q.need("="); T b = q.wrap(); q.need(")"); second(q, b); return a; });
  ck("interval", text(RI(e, f)), [&](Rd& q) { T a, b; q.iv(a, b); second(q, b); return a; });
  if (!eq(rd(e), t)) fail("original modified", "");
}
#endif
int main(int c, char** v) { return harness_main(c, v); }
