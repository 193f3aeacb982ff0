import json
R='viennamath/runtime/'; M='viennamath/manipulation/'; C='viennamath/compiletime/'
def p(id,title,stmt,over,qtext,why,files,mech,observe=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or []))
I=['inputs']
T='The tests evaluate a fixed list of hand-written expressions at a few points; '
L=[
p('P01','Evaluation is the mathematical value of the expression',
  'Evaluating a runtime expression at a point yields, for every expression tree and every point, the value obtained by replacing each variable by the coordinate of its index and applying the ordinary arithmetic meaning of +, -, *, / and of the elementary functions exp, sin, cos, tan, fabs, sqrt, log, log10 and identity. Evaluating at a single number is the same as evaluating at the one-component point holding that number. An expression containing a part without a numeric value (function symbol, vector, gradient, divergence, partial derivative, integral) raises an exception and never yields a number.',
  I,'all expression trees of any depth and operator mix, all point vectors of any length',
  T+'nothing shows the value is right for an arbitrary tree and point.',
  [R+'binary_expr.hpp',R+'unary_expr.hpp',R+'variable.hpp',R+'constant.hpp',C+'binary_op_tags.hpp',C+'unary_op_tags.hpp',R+'binary_operators.hpp',R+'unary_operators.hpp',R+'expr.hpp'],
  [('eval overrides',R+'*_expr.hpp, variable.hpp, constant.hpp, function_symbol.hpp'),('operator tags apply()',C+'binary_op_tags.hpp, unary_op_tags.hpp'),('operator() front ends',R+'expr.hpp, binary_expr.hpp, unary_expr.hpp')],['rt_expr::operator()','eval']),
p('P02','Out-of-range variables raise the index exception, never read out of bounds',
  'Evaluating any runtime expression made of numbers, variables and numeric operators at a point raises the variable-index exception exactly when some variable in it has an index not smaller than the number of components of the point. The point is never read outside its bounds. Evaluating a runtime or compile-time variable directly, with a vector or a runtime or compile-time constant, obeys the same rule.',
  I,'all expression trees, all variable indices, all point lengths including zero',
  'The tests never evaluate at a point that is too short, so neither the check nor its boundary is exercised.',
  [R+'variable.hpp','viennamath/exception.hpp',R+'expr.hpp'],[('index comparison before access',R+'variable.hpp eval / operator()')],['exceptions thrown by eval']),
p('P03','Operators build the tree for the mathematical operation written',
  'Combining any two operands (runtime expression, binary or unary expression, variable, function symbol, constant, plain number, compile-time constant, variable or expression) with + or -, or with * or /, yields an expression or constant that denotes exactly that operation on those operands in that order. Folding of two constants gives the exact result of the operation on their values where that result is representable. Applying an elementary function, gradient or divergence to an operand yields the unary expression of exactly that function of that operand. The operands are left unchanged.',
  I,'all operand type pairs the overload set accepts, all operand values and sub-expressions, all four operators',
  'There are over five hundred operand-type and operator combinations, each with its own overload; the tests use a few dozen.',
  [R+'operations/rt_rt.hpp',R+'operations/constant.hpp',R+'operations/function_symbol.hpp',C+'operations/ct_expr.hpp',C+'operations/ct_variable.hpp',C+'operations/ct_constant.hpp',C+'operations/ct_ct.hpp','viennamath/expression.hpp'],
  [('operator overloads',R+'operations/*.hpp, '+C+'operations/*.hpp')],['structure of the returned expression']),
p('P04','Substitution replaces exactly the matching sub-expressions',
  'Substituting a replacement for a search expression in a runtime expression returns the expression in which every sub-expression structurally equal to the search expression (outermost first) is replaced by a copy of the replacement and nothing else is changed. Substituting a variable by an expression therefore evaluates to the original evaluated at the point whose coordinate is the value of that expression. Substituting a symbolic interval by an interval and a variable turns exactly the integrals over that symbolic interval into integrals over the given interval and variable. Search expression, replacement and original are left unmodified.',
  I,'all expressions, search expressions and replacements of any type and depth',
  T+'substitution of arbitrary sub-trees in arbitrary trees is not enumerable.',
  [R+'binary_expr.hpp',R+'unary_expr.hpp',R+'variable.hpp',R+'constant.hpp',R+'function_symbol.hpp',R+'vector_expr.hpp',M+'substitute.hpp'],
  [('substitute overrides',R+'*.hpp'),('free function substitute',M+'substitute.hpp')],['substitute']),
p('P05','Simultaneous substitution is parallel and first-match',
  'Substituting a list of search expressions by a list of replacements of the same length replaces every sub-expression equal to some search expression by the replacement at the position of the first equal search expression. The replacements happen in one parallel pass, so inserted replacements are not searched again. Everything else is unchanged.',
  I,'all expressions and all search/replacement lists of any length, including duplicate and overlapping search expressions',
  'The tests use one or two fixed substitution lists without overlaps.',
  [R+'binary_expr.hpp',R+'unary_expr.hpp',R+'variable.hpp',R+'constant.hpp',R+'function_symbol.hpp',R+'vector_expr.hpp',M+'substitute.hpp'],
  [('vector substitute overrides',R+'*.hpp')],['substitute with lists']),
p('P06','Runtime simplification never changes the value',
  'Simplifying a runtime expression, one pass or to completion, in place or into a copy, yields an expression that evaluates to the same value at every point at which the original is defined. It is evaluable wherever the original is. The copying form leaves the original unmodified.',
  I,'all expressions and all points at which divisions have nonzero denominators and functions are inside their domain',
  T+'a rewrite rule that is wrong only for one operand shape or value is not sampled.',
  [M+'detail/binary_operations.hpp',M+'simplify.hpp',R+'binary_expr.hpp',R+'unary_expr.hpp'],
  [('simplification rules per operator',M+'detail/binary_operations.hpp'),('simplify overrides',R+'binary_expr.hpp, unary_expr.hpp'),('fixpoint loop',M+'simplify.hpp')],['simplify','inplace_simplify']),
p('P07','Simplification to completion terminates and leaves nothing to simplify',
  'Each simplification pass on an expression that reports itself as simplifiable makes it strictly smaller, so simplifying to completion always terminates. The result no longer reports itself as simplifiable. An arithmetic combination of constants collapses to a single constant, and adding zero, multiplying by zero or one, and dividing by one disappear.',
  I,'all expression trees, any nesting depth',
  'Termination and exhaustiveness of a rewriting loop are claims over all trees; tests run a few.',
  [M+'detail/binary_operations.hpp',M+'simplify.hpp',R+'binary_expr.hpp',R+'unary_expr.hpp'],
  [('can_simplify / simplify pairing',M+'detail/binary_operations.hpp'),('while loop',M+'simplify.hpp')],['simplify','can_simplify']),
p('P08','Differentiation returns the analytic derivative',
  'Differentiating a runtime expression built from constants, variables, arithmetic and the elementary functions with respect to a variable returns an expression whose value at every point where the derivative exists is the analytic partial derivative there. Where no derivative rule exists (absolute value, function symbols inside a variable derivative) an exception is raised instead of a wrong expression. The convenience front ends that simplify the result preserve its value.',
  I,'all expression trees, all differentiation variables, all points in the domain of differentiability',
  T+'the sum, product, quotient and chain rules are used at fixed shapes only.',
  [M+'detail/unary_operations.hpp',M+'detail/binary_operations.hpp',M+'diff.hpp',R+'binary_expr.hpp',R+'unary_expr.hpp',R+'variable.hpp',R+'constant.hpp'],
  [('derivative rules per operator',M+'detail/unary_operations.hpp'),('diff overrides',R+'*.hpp')],['diff']),
p('P09','Derivatives of and with respect to function symbols',
  'Differentiating with respect to a function symbol treats the expression as a polynomial in that symbol: the symbol itself (same number and same family) gives one, any other symbol and every constant or variable gives zero, and sums, products and quotients follow the usual rules, the gradient of something independent of the symbol giving zero. Differentiating a function symbol with respect to a variable through the free function yields the partial-derivative expression of that symbol for that variable.',
  I,'all expressions containing function symbols, all symbol numbers and families',
  'The tests do not differentiate with respect to a symbol of the same number but another family, nor through gradients.',
  [R+'function_symbol.hpp',M+'diff.hpp',M+'detail/unary_operations.hpp'],[('symbol comparison in diff',R+'function_symbol.hpp'),('free diff overloads',M+'diff.hpp')],['diff']),
p('P10','Structural equality is exact',
  'The deep equality of two runtime expressions is true exactly when they are the same tree: same node kinds, same operators including the parameters of parametrised operators, same constant values, same variable and symbol numbers, same vector lengths and components. It is therefore reflexive, symmetric and transitive and never reads outside either expression. Shallow equality is true exactly when the two root nodes are of the same kind.',
  I,'all pairs of expressions',
  'The property is about all pairs; tests compare a few equal and unequal ones.',
  [R+'binary_expr.hpp',R+'unary_expr.hpp',R+'vector_expr.hpp',R+'variable.hpp',R+'constant.hpp',R+'function_symbol.hpp',R+'unary_operators.hpp',R+'binary_operators.hpp',R+'integral.hpp',C+'unary_op_tags.hpp'],
  [('deep_equal overrides',R+'*.hpp'),('operator equality',R+'unary_operators.hpp, binary_operators.hpp')],['deep_equal','shallow_equal']),
p('P11','Copies are faithful and independent',
  'Cloning, copy-constructing, assigning or converting a runtime expression into another runtime wrapper gives an expression structurally equal to the source, sharing no part with it. Assignment replaces the previous content completely, and the source is unmodified.',
  I,'all expressions, all wrapper conversions',
  'Tests copy a few expressions and never check independence of the parts.',
  [R+'expr.hpp',R+'binary_expr.hpp',R+'unary_expr.hpp',R+'vector_expr.hpp',R+'constant.hpp',R+'variable.hpp',R+'function_symbol.hpp',R+'unary_operators.hpp',R+'binary_operators.hpp'],
  [('clone overrides',R+'*.hpp'),('copy constructors and assignments',R+'expr.hpp, binary_expr.hpp, unary_expr.hpp')],['clone','operator=']),
p('P12','Every node is owned once: no leak, double free or use after free',
  'Each operation that returns normally (evaluation, copying, comparison, substitution, simplification, differentiation, traversal, operator combination, destruction) leaves every expression node either freed or owned by exactly one expression that the caller can reach. No operation reads a freed node or frees a node twice. Expressions passed for reading are neither modified nor freed.',
  I,'all expressions and all operations of the runtime part',
  'Leaks and aliasing do not change the values the tests compare.',
  [R+'expr.hpp',R+'binary_expr.hpp',R+'unary_expr.hpp',R+'vector_expr.hpp',M+'detail/binary_operations.hpp',M+'detail/unary_operations.hpp',M+'simplify.hpp',M+'substitute.hpp'],
  [('owning pointers of the nodes',R+'expr.hpp, binary_expr.hpp, unary_expr.hpp'),('raw owning results of clone/simplify/diff/substitute',R+'*.hpp, '+M+'detail/*.hpp')],['heap']),
p('P13','Constant detection is sound and unwrapping gives the value',
  'An expression reported as constant contains no variable, unwraps without an exception, and unwraps to the value it evaluates to at every point. Numbers are reported constant and an arithmetic combination is reported constant exactly when both operands are. Unwrapping an expression that contains a variable raises an exception.',
  I,'all expressions',
  T+'constant detection over arbitrary trees is not settled by them.',
  [R+'binary_expr.hpp',R+'unary_expr.hpp',R+'constant.hpp',R+'variable.hpp'],[('is_constant / unwrap overrides',R+'*.hpp')],['is_constant','unwrap']),
p('P14','Manipulation and traversal functors visit the right nodes',
  'A manipulation functor is applied exactly to the outermost sub-expressions it declares to modify, plus the leaves reached, and every other node is rebuilt identically around the results. A traversal functor is called exactly once for every node that is reached: left operand, node, right operand for binary expressions, node before operand for unary ones. Descent stops below a binary node for which the functor declines to step in. A functor that does not say otherwise modifies nothing, returns what it is given and steps in everywhere; a callback by class is called once, with the node, exactly when the node is of that class.',
  I,'all expressions and all functors',
  'The tests use a couple of functors on fixed expressions.',
  [R+'binary_expr.hpp',R+'unary_expr.hpp',R+'expression_interface.hpp',R+'functor_wrapper.hpp'],[('recursive_manipulation / recursive_traversal',R+'binary_expr.hpp, unary_expr.hpp, expression_interface.hpp')],['recursive_manipulation','recursive_traversal']),
p('P15','Vector expressions act component-wise and the product is the dot product',
  'Adding and subtracting vector expressions, scaling one by a scalar or dividing it by a scalar act on each component and keep the length. Substitution and differentiation of a vector expression act on each component. The product of two vector expressions of equal length denotes the sum of the products of their corresponding components, both when multiplied directly and when a product of two vector nodes is simplified.',
  I,'all vector lengths and component expressions',
  'The tests use vectors of length two or three with fixed components.',
  [R+'vector_expr.hpp',M+'detail/binary_operations.hpp'],[('component loops',R+'vector_expr.hpp'),('vector product in simplification',M+'detail/binary_operations.hpp')],['vector operators']),
p('P16','Compile-time simplification preserves the value',
  'Compile-time simplification maps every compile-time expression it accepts (compiles) to one with the same value at every point at which the original is defined. Folding of compile-time constants gives the exact result, including for values beyond the range of a 32-bit integer. A quotient of constants is only folded when the result is exact.',
  ['inputs','programs'],'all compile-time expression types, all constant values, all points in the domain',
  'Every compile-time expression is a type of its own; tests instantiate a few.',
  [M+'simplify.hpp'],[('rewrite rules as template specialisations',M+'simplify.hpp')],['result type of simplify']),
p('P17','Compile-time differentiation returns the analytic derivative',
  'Differentiating a compile-time expression with respect to a compile-time variable gives an expression type whose value is the analytic partial derivative at every point at which the expression is defined.',
  ['inputs','programs'],'all compile-time expression types built from constants, variables and the four operators, all variables, all points',
  'Every compile-time expression is a type of its own; tests instantiate a few.',
  [M+'diff.hpp'],[('derivative rules as template specialisations',M+'diff.hpp')],['result type of diff']),
p('P18','Compile-time expansion preserves the value',
  'Expanding a compile-time expression gives an expression with the same value at every point at which the original is defined.',
  ['inputs','programs'],'all compile-time expression types, all points',
  'Every compile-time expression is a type of its own; tests instantiate a few.',
  [M+'expand.hpp'],[('distribution rules as template specialisations',M+'expand.hpp')],['result type of expand']),
p('P19','Coefficient extraction and term dropping are exact',
  'For an expression that is a sum of products, extracting the coefficient of a variable or function symbol and dropping the terms that depend on it decompose the expression: dropped part plus coefficient times symbol has the same value as the original whenever the original is linear in that symbol (it occurs at most once in each product and not in denominators). Expressions that do not contain the symbol have coefficient zero and are kept by dropping; dropping gives the value the expression has with the symbol set to zero.',
  ['inputs','programs'],'all compile-time expression types the operations accept',
  'Every compile-time expression is a type of its own; tests instantiate a few.',
  [M+'coefficient.hpp',M+'drop_dependent_terms.hpp'],[('rules as template specialisations',M+'coefficient.hpp, drop_dependent_terms.hpp')],['result types']),
p('P20','Compile-time polynomial integration is the exact integral',
  'Integrating a compile-time polynomial in a variable between compile-time limits gives an expression with the value of the exact definite integral, whenever the library accepts the integrand. Other variables in the integrand (also in denominators) count as constants; the limits may be any compile-time expressions.',
  ['inputs','programs'],'all compile-time polynomials and limits',
  'Every compile-time expression is a type of its own; tests instantiate a few.',
  [M+'integrate.hpp'],[('integration rules as template specialisations',M+'integrate.hpp')],['integrate']),
p('P21','Compile-time substitution and evaluation are exact',
  'Substituting in a compile-time expression replaces exactly the sub-expressions identical to the search expression. Evaluating a compile-time expression at a compile-time point gives the value of the expression at that point.',
  ['inputs','programs'],'all compile-time expression types, search and replacement types, all compile-time points',
  'Every compile-time expression is a type of its own; tests instantiate a few.',
  [M+'substitute.hpp',M+'eval.hpp'],[('rules as template specialisations',M+'substitute.hpp, eval.hpp')],['result types']),
p('P22','Compile-time expressions keep their meaning when converted to runtime',
  'Converting a compile-time constant, variable, binary expression or any nesting of them into a runtime expression gives the runtime tree with the same operators, the same operand order and the same leaf values. Evaluating a compile-time expression directly at a runtime point gives the same value as evaluating the converted one.',
  ['inputs','programs'],'all nestings of compile-time constants, variables and binary operators',
  'There is one conversion overload per operand kind pair; tests convert a few nestings.',
  [R+'binary_expr.hpp',R+'expr.hpp',C+'ct_binary_expr.hpp',C+'ct_variable.hpp',C+'ct_constant.hpp'],[('converting constructors',R+'binary_expr.hpp, expr.hpp'),('compile-time operator()',C+'ct_binary_expr.hpp, ct_variable.hpp')],['conversion to runtime expression']),
p('P23','Numerical quadrature is exact for polynomials up to its order',
  'A Gauss quadrature rule of a given order on any finite interval integrates every polynomial up to its degree of exactness (1 for the one-point rule) exactly up to rounding, and a quadrature of an integral expression evaluates the integrand at the mapped nodes of that integral\'s own variable and limits. Swapping the limits flips the sign.',
  I,'all intervals, all integrands, all polynomial degrees up to the rule\'s exactness',
  'The tests integrate a few monomials on one interval.',
  [R+'numerical_quadrature.hpp',R+'integral.hpp',R+'interval.hpp'],[('Gauss rules',R+'numerical_quadrature.hpp')],['quadrature result']),
p('P24','Coordinate-system application keeps the weak form equivalent',
  'Applying a coordinate system to an expression replaces every gradient and divergence by the vector of partial derivatives of that coordinate system with the right dimension and variable order, and leaves all other parts of the expression unchanged.',
  I,'all expressions, all provided coordinate systems',
  'No test applies a coordinate system to nested expressions.',
  [M+'apply_coordinate_system.hpp'],[('coordinate system functors',M+'apply_coordinate_system.hpp')],['apply_coordinate_system']),
p('P25','LaTeX output preserves the grouping of the expression',
  'The LaTeX text of an expression of floating-point constants, variables, function symbols and operators, read with ordinary mathematical precedence (function application binds tightest, then products, then sums, fractions and roots delimited by their braces), is again that expression (sums and products up to associativity, the identity operator left out, numbers to the printing precision of the stream). A text asked for with parentheses is a single factor. A variable or function symbol with a customised name is printed by that name and everything else as before, also by copies of the translator; equations and intervals print both sides in order.',
  I,'all expressions, all customised symbols',
  'Tests do not parse the output back.',
  [M+'latex.hpp'],[('latex translators',M+'latex.hpp')],['latex text']),
p('P26','Equations and intervals keep their two sides',
  'An equation holds copies of exactly the left and right expressions it was built from, in that order, after construction, copying and assignment from any accepted operand kinds. An interval keeps exactly the lower and upper limits it was built from, in that order, after construction, copying and assignment. A compile-time equation or interval made from two compile-time operands has exactly these two as its sides, in order.',
  I,'all operand kinds and expressions',
  'Tests build few equations and intervals and never assign them.',
  [R+'equation.hpp',R+'interval.hpp',C+'ct_equation.hpp',C+'ct_interval.hpp'],[('constructors and assignments',R+'equation.hpp, interval.hpp')],['lhs/rhs, lower/upper']),
p('P27','Integral expressions denote exactly the integral written',
  'Building an integral of an expression, over an interval in a variable or over a symbolic interval, gives an expression holding copies of exactly that integrand, those two limits in that order and that variable (or that symbolic interval), for every accepted kind of integrand and variable; it keeps them under copying and assignment and after the arguments are gone, and the arguments are unchanged. Evaluating an integral expression raises an exception, since it has no numeric value of its own.',
  I,'all integrands, limits, variables and symbolic intervals of every accepted operand kind',
  'There is one overload per operand kind; tests build few integrals.',
  [R+'integral.hpp',R+'symbolic_interval.hpp',R+'interval.hpp'],[('integral generator functions and operations',R+'integral.hpp, symbolic_interval.hpp')],['structure of the integral expression']),
p('P28','The printed form names the whole tree',
  'The text written to a stream for an expression (and its deep_str) is fully bracketed and names every node: reading it back gives the same tree, with the same operators, operand order, variable numbers, function symbols (unknown and test family), integration limits and integration variables, vector components in order, and constants to the printing precision of the stream. Equations and intervals print both sides in order. Compile-time constants, variables, function symbols, binary expressions, equations, intervals and vectors print likewise. Printing does not change the expression.',
  I,'all expressions, equations and intervals whose function symbols are of the unknown or test family',
  'Tests print expressions but never check the text.',
  [R+'expr.hpp',R+'binary_expr.hpp',R+'unary_expr.hpp',R+'binary_operators.hpp',R+'unary_operators.hpp',R+'constant.hpp',R+'variable.hpp',R+'function_symbol.hpp',R+'vector_expr.hpp',R+'integral.hpp',R+'interval.hpp',R+'symbolic_interval.hpp',R+'equation.hpp'],[('deep_str and stream operators',R+'*.hpp')],['stream text']),
]
if __name__=='__main__':
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    with open('/verif/properties.jsonl','w') as f:
        for x in L:
            jsonschema.validate(x,s); f.write(json.dumps(x)+'\n')
