// operands and oracles for the operator (P03) and conversion (P22) lines
static double gen_num(Rng& r) { static const double s[] = {0, 1, -1, 2, -2, 0.5, 3, -0.25, 7, 1e6}; return r.chance(70) ? s[r.below(10)] : r.coord(); }
static long gen_long(Rng& r) { static const long s[] = {0, 1, -1, 2, -2, 3, 7, -9, 5000000000L, -5000000001L, 2147483648L}; return s[r.below(11)]; }
static int gen_int(Rng& r) { static const int s[] = {0, 1, -1, 2, -2, 3, 7, -9, 100000, -54321}; return s[r.below(10)]; }
static T gen_op(Rng& r) { Gen g; g.nvar = 3; g.nfun = 2; g.formalops = r.chance(30); g.uops = 9; return gen(r, g, r.below(4)); }
#define SUBT(N, X) struct N { T t; RE e; X const& o; N(Rng& r) : t(make(r)), e(mk(t)), o(dynamic_cast<X const&>(*e.get())) {} T now() { return rd(&o); } static T make(Rng& r); };
struct OE { T t; RE o; OE(Rng& r) : t(gen_op(r)), o(mk(t)) {} T now() { return rd(o); } };
SUBT(OB, RB) T OB::make(Rng& r) { return mkb(r.below(4), gen_op(r), gen_op(r)); }
SUBT(OU, RU) T OU::make(Rng& r) { return mku(O_ID + r.below(9), gen_op(r)); }
SUBT(OV, RV) T OV::make(Rng& r) { return mkv(r.below(4)); }
SUBT(OF, RF) T OF::make(Rng& r) { return mkf(r.below(3), r.below(2)); }
SUBT(OC, RC) T OC::make(Rng& r) { return mkc(gen_num(r)); }
SUBT(OCL, RCL) T OCL::make(Rng& r) { return mkl(gen_long(r)); }
SUBT(OCI, RCI) T OCI::make(Rng& r) { return mki(gen_int(r)); }
struct Od { double o; T t; Od(Rng& r) : o(gen_num(r)), t(mkc(o)) {} T now() { return t; } };
struct Ol { long o; T t; Ol(Rng& r) : o(gen_long(r)), t(mkl(o)) {} T now() { return t; } };
struct Oi { int o; T t; Oi(Rng& r) : o(gen_int(r)), t(mki(o)) {} T now() { return t; } };
template <typename O> void same_opnd(const char* w, O& o) { if (!eq(o.now(), o.t)) fail(std::string("operand changed: ") + w, "now " + show(o.now())); }
static long double lv(T t) { return t->k == K_C ? (long double)t->c : (long double)t->l; }
static bool leafis(T x, T a) {        // x is a constant leaf with the value of the number a
  if (!is_leaf_const(a)) return eq(x, a);
  if (!is_leaf_const(x)) return false;
  return x->k == K_C ? x->c == (double)lv(a) : (long double)x->l == lv(a);
}
// runtime operands: the operation on the operands in their order, or the folded constant
static void str(const char* w, T R, int op, T a, T b, int lim) {
  if (R->k == K_BIN && R->op == op && leafis(R->ch[0], a) && leafis(R->ch[1], b)) return;
  if (is_leaf_const(a) && is_leaf_const(b)) {
    long double x = lv(a), y = lv(b), z = op == O_PLUS ? x + y : op == O_MINUS ? x - y : op == O_MULT ? x * y : x / y;
    if (op == O_DIV && y == 0) return;
    if (std::fabs((double)z) >= std::ldexp(1.0, lim)) return;                        // not representable
    if (is_leaf_const(R) && close((double)lv(R), (double)z) && (R->k == K_C || lv(R) == z)) return;
  }
  fail(std::string("not the operation written: ") + w, "gave " + show(R));
}
// compile-time operands: the value of the operation
static void sem(Rng& r, const char* w, T R, int op, T a, T b) { same_value(w, R, mkb(op, a, b), r, true, 6, 4); }
template <typename F> void val(Rng& r, const char* w, T want, F f) {
  for (int i = 0; i < 4; ++i) {
    Pt p = gen_pt(r, i == 0 ? 6 : i == 1 ? 1 + r.below(6) : 4 + r.below(3)); double v = 0, x; int s = attempt([&] { return f(p3(p)); }, v), o = oracle(want, p, x);
    if (o == 3) continue;
    if (PROP == 3 && o != 0) continue;
    if (o == 2 && s != 1) fail(std::string("out of range not reported: ") + w, s ? "another exception at " + show(p) : "returned " + num(v) + " at " + show(p));
    if (o == 0 && s) fail(std::string("exception where there is a value: ") + w, "at " + show(p));
    if (o == 0 && !s && !close(v, x)) fail(std::string("wrong value: ") + w, "got " + num(v) + " expected " + num(x) + " at " + show(p));
  }
}
static void tre(const char* w, T R, T m) { if (!eq(R, m)) fail(std::string("not the same tree: ") + w, "gave " + show(R)); }
