#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <vector>
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/runtime/integral.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/runtime/interval.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"
namespace vm = viennamath;
typedef vm::default_interface_type IF; typedef vm::rt_expr<> RE; typedef vm::rt_binary_expr<> RB; typedef vm::rt_unary_expr<> RU; typedef vm::rt_variable<> RV;
typedef vm::rt_constant<> RC; typedef vm::rt_function_symbol<> RF; typedef vm::rt_vector_expr<> VE; typedef vm::rt_interval<> RI; typedef vm::rt_equation<> RQ;
static int bad = 0;
static void want(bool c, const char* what) { if (!c) { std::printf("FAILED: %s\n", what); bad = 1; } }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static std::vector<double> pt(double a, double b = 0, double c = 0) { std::vector<double> v(3); v[0] = a; v[1] = b; v[2] = c; return v; }
