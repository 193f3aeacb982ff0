// Accessors: executed symbolically on a probe object to learn where the
// parts of each library object live.  They use only the public interface.
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/runtime/integral.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
namespace vm = viennamath;
typedef vm::default_interface_type IF;
typedef vm::op_interface<IF> OI;
typedef vm::rt_expr<> RE; typedef vm::rt_binary_expr<> RB; typedef vm::rt_unary_expr<> RU;
typedef vm::rt_variable<> RV; typedef vm::rt_constant<> RC; typedef vm::rt_constant<long> RCL; typedef vm::rt_constant<int> RCI;
typedef vm::rt_function_symbol<> RF; typedef vm::rt_vector_expr<> VE; typedef vm::rt_interval<> RI; typedef vm::rt_equation<> RQ;
typedef vm::rt_symbolic_interval<> SI;
typedef vm::op_unary<vm::op_partial_deriv<double>, IF> OPD;
typedef vm::op_unary<vm::op_rt_integral<IF>, IF> OINT;
typedef vm::op_unary<vm::op_rt_symbolic_integral<IF>, IF> OSI;
extern "C" {
double acc__Const__0(RC const* p) { return static_cast<double>(*p); }
long acc__ConstL__0(RCL const* p) { return static_cast<long>(*p); }
int acc__ConstI__0(RCI const* p) { return static_cast<int>(*p); }
unsigned long acc__Var__0(RV const* p) { return p->id(); }
unsigned long acc__Fun__0(RF const* p) { return p->id(); }
unsigned long acc__Fun__1(RF const* p) { return p->tag_id(); }
OI const* acc__Un__0(RU const* p) { return p->op(); }
IF const* acc__Un__1(RU const* p) { return p->lhs(); }
OI const* acc__Bin__0(RB const* p) { return p->op(); }
IF const* acc__Bin__1(RB const* p) { return p->lhs(); }
IF const* acc__Bin__2(RB const* p) { return p->rhs(); }
unsigned long acc__PD__0(OPD const* p) { return p->op().id(); }
unsigned long acc__SINT__0(OSI const* p) { return p->op().interval().id(); }
IF const* acc__INT__0(OINT const* p) { return p->op().interval().lower().get(); }
IF const* acc__INT__1(OINT const* p) { return p->op().interval().upper().get(); }
RV const* acc__INT__2(OINT const* p) { return &p->op().variable(); }
IF const* acc__expr__0(RE const* p) { return p->get(); }
IF const* acc__ivl__0(RI const* p) { return p->lower().get(); }
IF const* acc__ivl__1(RI const* p) { return p->upper().get(); }
IF const* acc__eqn__0(RQ const* p) { return p->lhs().get(); }
IF const* acc__eqn__1(RQ const* p) { return p->rhs().get(); }
unsigned long acc__sivl__0(SI const* p) { return p->id(); }
}
// objects of every class, so that their virtual methods are generated
IF* inst__Const(double d) { return new RC(d); }
IF* inst__ConstL(long d) { return new RCL(d); }
IF* inst__ConstI(int d) { return new RCI(d); }
IF* inst__Var(unsigned long i) { return new RV(i); }
IF* inst__Fun(unsigned long i, unsigned long t) { return new RF(i, t); }
IF* inst__Bin(IF* a, OI* o, IF* b) { return new RB(a, o, b); }
IF* inst__Un(IF* a, OI* o) { return new RU(a, o); }
IF* inst__Vec(unsigned long n) { return new VE(n); }
template <template <typename> class T> OI* inst_b() { return new vm::op_binary<T<double>, IF>(); }
template <template <typename> class T> OI* inst_u() { return new vm::op_unary<T<double>, IF>(); }
OI* inst__ops(int k) {
  switch (k) {
    case 0: return inst_b<vm::op_plus>(); case 1: return inst_b<vm::op_minus>(); case 2: return inst_b<vm::op_mult>(); case 3: return inst_b<vm::op_div>();
    case 4: return inst_u<vm::op_id>(); case 5: return inst_u<vm::op_exp>(); case 6: return inst_u<vm::op_sin>(); case 7: return inst_u<vm::op_cos>();
    case 8: return inst_u<vm::op_tan>(); case 9: return inst_u<vm::op_fabs>(); case 10: return inst_u<vm::op_sqrt>(); case 11: return inst_u<vm::op_log>();
    case 12: return inst_u<vm::op_log10>(); case 13: return inst_u<vm::op_gradient>(); case 14: return inst_u<vm::op_divergence>();
    case 15: return new OPD(vm::op_partial_deriv<double>(0)); case 16: return new OSI(vm::op_rt_symbolic_integral<IF>(SI(0)));
    default: return new OINT(vm::op_rt_integral<IF>(RI(), RV(0)));
  }
}
struct UT : vm::rt_traversal_interface<IF> { void operator()(IF const*) const {} };
struct UM : vm::rt_manipulation_interface<IF> {};
void inst__trav(IF const* e) { vm::rt_traversal_wrapper<IF> w(new UT); e->recursive_traversal(w); }
IF* inst__mani(IF const* e) { vm::rt_manipulation_wrapper<IF> w(new UM); return e->recursive_manipulation(w); }
