import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe or [],"hook_needed":None}})
R='viennamath/runtime/'; M='viennamath/manipulation/'; T='viennamath/compiletime/'
p("C01","Evaluating a runtime expression gives the value of the formula",
 "Evaluating a runtime expression built with the operators + - * / and the functions exp, sin, cos, tan, fabs, sqrt, log, log10 gives the value that ordinary double arithmetic on the operand values gives, for every point, every nesting and every combination of operand types the operators and functions accept (numbers, constants, variables, unary, binary and general expressions). The result is the same for every evaluation route (call operator and free function; scalar, standard-vector, plain vector and compile-time-vector arguments), and evaluation never changes the expression.",
 ["inputs","programs"],"all expression trees, all operand-type combinations of the operators and functions, all points, all evaluation routes",
 "The tests evaluate about a dozen fixed formulas at one point each; the property quantifies over all trees, operand types and points.",
 [R+'expr.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'variable.hpp',R+'constant.hpp',R+'operations/rt_rt.hpp',R+'operations/constant.hpp',R+'unary_operators.hpp',R+'binary_operators.hpp',T+'binary_op_tags.hpp',T+'unary_op_tags.hpp',M+'eval.hpp',M+'detail/unary_operations.hpp',M+'detail/binary_operations.hpp'],
 [("operator and function overloads build the tree",R+"operations/rt_rt.hpp, "+R+"unary_operators.hpp"),("eval virtuals apply the operation tags to the operand values",R+"binary_expr.hpp, "+R+"unary_expr.hpp")],["viennamath::eval","rt_expr::operator()"])
p("C02","What cannot be evaluated is rejected, never guessed",
 "Evaluating an expression throws variable_index_out_of_bounds_exception when it contains a variable whose index is not covered by the supplied point (a single number covers index 0 only), and throws an exception when it contains a function symbol, a vector or one of the formal operations gradient, divergence and partial derivative, no matter where in the expression this part is located and what surrounds it. An expression that contains none of these evaluates without an exception, and every exception of the library carries a readable message which remains valid for as long as the exception exists.",
 ["inputs"],"all expression trees with an unevaluable part at any position, all point sizes, all evaluation routes",
 "The tests never evaluate an expression with an index out of range or a formal part; the property quantifies over the position of that part and the size of the point.",
 [R+'variable.hpp',R+'function_symbol.hpp',R+'vector_expr.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp','viennamath/exception.hpp',T+'unary_op_tags.hpp',M+'eval.hpp'],
 [("bounds check in the evaluation of a variable",R+"variable.hpp"),("throwing eval of symbols and formal operations",R+"function_symbol.hpp, "+T+"unary_op_tags.hpp"),("exception classes",'viennamath/exception.hpp')])
p("C03","Expressions behave as independent values and own their memory",
 "Copying, assigning (including self-assignment and assignment of a part of itself), storing in a vector expression or interval, and combining expressions with operators and manipulation functions yields independent values: changing or destroying one object never changes another, and no operation changes its arguments. Any history of such operations is free of invalid memory accesses and (unless an operation ended with an exception) gives back all memory once all objects are destroyed.",
 ["histories"],"all histories of construction, copy, assignment, combination, manipulation and destruction",
 "The tests run a few straight-line programs and never compare objects after later operations or look at memory; the property is about every history.",
 [R+'expr.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'vector_expr.hpp',R+'interval.hpp',R+'equation.hpp',R+'op_interface.hpp',R+'expression_interface.hpp'],
 [("deep copies through clone()",R+"expr.hpp, "+R+"unary_expr.hpp, "+R+"binary_expr.hpp"),("owning smart pointers",R+"expr.hpp")])
p("C04","deep_equal is exactly structural equality",
 "Two runtime expressions compare deep_equal exactly if they are the same tree: same operations in the same places with the same constants (of the same type), variable indices, function symbols (index and kind), vector entries, partial-derivative indices, and integration bounds and variables. The comparison is reflexive and symmetric, and a difference anywhere in the tree is noticed.",
 ["inputs"],"all pairs of expression trees, in particular trees that differ in one place",
 "The tests compare only a handful of small trees; the property must hold for every pair, including pairs differing deep inside or only in an attribute of an operation.",
 [R+'expr.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'constant.hpp',R+'variable.hpp',R+'function_symbol.hpp',R+'vector_expr.hpp',R+'op_interface.hpp',R+'unary_operators.hpp',R+'binary_operators.hpp',R+'integral.hpp'],
 [("deep_equal virtuals",R+"*.hpp"),("equal of the operation wrappers",R+"unary_operators.hpp, "+R+"binary_operators.hpp")])
p("C05","Simplification preserves the value of an expression",
 "Simplifying a runtime expression never changes its meaning: wherever the original has a value, the simplified expression has the same value up to rounding, for every entry point (simplify, inplace_simplify, a single step) and also below functions, formal operators and integrals. The copying forms leave their argument unchanged.",
 ["inputs"],"all expression trees, all points where the original is defined, all entry points",
 "The tests simplify a few fixed trees and compare text; the property must hold for every tree and point.",
 [M+'simplify.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'constant.hpp',R+'expr.hpp',R+'vector_expr.hpp'],
 [("bottom-up simplification rules per operation",R+"binary_expr.hpp, "+R+"unary_expr.hpp"),("fixed-point loop",M+"simplify.hpp")])
p("C06","Simplification is complete, idempotent and never enlarges",
 "Simplification of a runtime expression always terminates with an expression that is not simplifiable any more, that equals its own simplification and that has no more nodes than the original. Outside the entries of vectors and the bounds of integrals it contains none of the trivial operations x+0, 0+x, x-0, 0-x, x*0, 0*x, x*1, 1*x, 0/x, x/1 and no operation on two constants; an expression reported as not simplifiable is left as it is.",
 ["inputs"],"all expression trees whose constants stay finite",
 "The tests check the printed result of a few fixed trees; normal forms of arbitrary trees are out of their reach.",
 [M+'simplify.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'expr.hpp'],
 [("can_simplify/simplify virtuals",R+"binary_expr.hpp, "+R+"unary_expr.hpp"),("fixed-point loop",M+"simplify.hpp")])
p("C07","Substituting one item replaces every occurrence and nothing else",
 "Substituting a variable, function symbol, unary, binary or general expression by a number, constant or any expression replaces every occurrence of the searched item outside integration bounds (the outermost ones where occurrences overlap; replacements are not searched again) and changes nothing else, apart from simplification of the result. All overloads agree, and neither the searched item, the replacement nor the expression worked on are changed.",
 ["inputs"],"all expressions, searched items present or absent, replacements that may contain the searched item, all overloads",
 "The tests substitute in two or three fixed expressions; the property quantifies over all trees, positions and replacements.",
 [M+'substitute.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'variable.hpp',R+'constant.hpp',R+'function_symbol.hpp',R+'expr.hpp'],
 [("substitute virtuals compare with deep_equal, then descend",R+"unary_expr.hpp, "+R+"binary_expr.hpp, "+R+"variable.hpp")])
p("C08","Simultaneous substitution replaces all items at once",
 "Substituting a list of items by a list of replacements replaces every occurrence of every item at the same time: replacements are not searched again (so that swapping variables works), the outermost occurrence wins where occurrences overlap, the earlier entry wins where an item occurs twice in the list, and nothing else changes apart from simplification of the result. A list with one entry acts like the single substitution.",
 ["inputs"],"all expressions and all lists of items and replacements, including permutations and overlapping items",
 "The tests contain at most one fixed list; the property quantifies over all lists and trees.",
 [M+'substitute.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'variable.hpp',R+'function_symbol.hpp',R+'constant.hpp'],
 [("vector overloads of the substitute virtuals",R+"*.hpp"),("free functions for std::vector",M+"substitute.hpp")])
p("C09","Differentiation by a variable gives the derivative",
 "Differentiating a runtime expression by a variable, once or repeatedly, gives an expression whose value is the exact derivative of the original at every point where both are defined, for all operations and functions including quotients and nested functions; other variables and constants count as constants, and all overloads (expression types, runtime and compile-time variable) agree. A function symbol by itself differentiates to its formal partial-derivative node. Expressions that cannot be differentiated (those with fabs, a function symbol, gradient, divergence, partial derivative or integral inside) throw instead of giving a wrong result, and the argument stays unchanged.",
 ["inputs"],"all expressions, all variables, all orders, all points",
 "The tests differentiate a few fixed expressions once or twice at one point; the property quantifies over all trees and points.",
 [M+'diff.hpp',M+'detail/unary_operations.hpp',M+'detail/binary_operations.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'variable.hpp',R+'function_symbol.hpp'],
 [("derivative rules per operation",M+"detail/unary_operations.hpp, "+M+"detail/binary_operations.hpp")])
p("C10","Differentiation by a function symbol gives the Gateaux derivative",
 "Differentiating an expression by a function symbol gives the derivative with respect to that symbol (matching index and kind; all other symbols, variables and constants are independent of it), exact at every point where both are defined, including linear formal operators for which the gradient of f differentiates to the gradient of the derivative of f. The derivative of an expression without the symbol is zero, and parts that cannot be differentiated (fabs, divergence, partial derivatives, integrals) throw.",
 ["inputs"],"all expressions over function symbols, variables and formal operators",
 "The tests differentiate two fixed expressions by function symbols.",
 [M+'diff.hpp',M+'detail/unary_operations.hpp',M+'detail/binary_operations.hpp',R+'function_symbol.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp'],
 [("diff virtuals with a function symbol as differentiation variable",R+"*.hpp"),("gradient rule",M+"detail/unary_operations.hpp")])
p("C11","Numerical quadrature applies the rule to every integral",
 "A numerical quadrature hands exactly the integrand, the bounds and the integration variable of an integral to its rule, is linear over sums and differences of integrals, and treats zero as zero; expressions without integral, and symbolic integrals, are rejected with an exception. The one-point Gauss rule returns the interval length times the integrand at the midpoint for every integration variable and all constant bounds, hence is exact for integrands linear in the integration variable and changes sign when the bounds are swapped; an integrand that depends on another variable is rejected with an exception.",
 ["inputs"],"all integrands, bounds, integration variables, sums and differences of integrals, user-defined rules",
 "No existing test exercises more than one or two fixed integrals.",
 [R+'numerical_quadrature.hpp',R+'integral.hpp',R+'interval.hpp'],
 [("numerical_quadrature::operator() descends into sums",R+"numerical_quadrature.hpp"),("rt_gauss_quad_1",R+"numerical_quadrature.hpp")])
p("C12","Vector expressions hold, add up and multiply their entries",
 "A vector expression returns at each index exactly the expression last stored there, keeps its size, and entries stored, copied or assigned are independent copies. The product of two vector expressions of the same size simplifies to their inner product with the entries in the right positions, and equality, substitution and printing of expressions with vectors respect every entry.",
 ["inputs","histories"],"all sizes, entries and histories of stores",
 "No existing test uses more than two or three fixed entries.",
 [R+'vector_expr.hpp',R+'binary_expr.hpp',M+'simplify.hpp'],
 [("storage of entries and inner product",R+"vector_expr.hpp, "+R+"binary_expr.hpp")])
p("C13","Differential operators take the right form in coordinates",
 "Applying Cartesian coordinates of dimension 1, 2 or 3 to an expression or equation replaces each gradient of the unknown and of the test function (the function symbols with index 0) by the vector of the partial derivatives in the coordinate directions (the plain partial derivative in one dimension) and each divergence of these functions by the sum of their partial derivatives, and leaves everything else, in particular operators on other symbols, unchanged up to simplification. Products of two such gradients become the sum of the products of the partial derivatives.",
 ["inputs"],"all expressions made of gradients, divergences, Laplacians, products and sums with coefficients, over these and other function symbols, all three dimensions",
 "No existing test applies a coordinate system.",
 [M+'apply_coordinate_system.hpp',M+'detail/unary_operations.hpp',R+'vector_expr.hpp'],
 [("replacement lists per dimension",M+"apply_coordinate_system.hpp")])
p("C14","LaTeX output denotes the expression",
 "The LaTeX text for a runtime expression or equation, parsed by the usual rules of mathematical notation, denotes exactly the translated expression: operators, operand order, grouping by parentheses and fractions, functions, constants (to six digits), variables, function symbols with their index and kind, differential operators, integrals with bounds and variable, and symbolic integrals. All overloads of the translator agree, and braces and left/right pairs are balanced.",
 ["inputs"],"all expression trees without vectors",
 "The tests only print LaTeX and compare nothing; grouping errors show only in particular nestings.",
 [M+'latex.hpp'],[("recursive translation with parentheses",M+"latex.hpp")])
p("C15","LaTeX customizations act precisely and survive copying",
 "Text registered with a LaTeX translator for a variable or function symbol appears at every occurrence of that item and nowhere else, the last registration counts, and all other items keep their default text. Copies and assignments of a translator behave like the original at that time and are independent of it afterwards.",
 ["histories"],"all histories of customization, copy, assignment and translation",
 "No existing test customizes a translator.",
 [M+'latex.hpp'],[("customization lists and processor copies",M+"latex.hpp")])
p("C16","Traversal visits every node, manipulation replaces exactly what matches",
 "A recursive traversal calls the visitor once for every node of the tree (except vector entries and integration bounds): children of binary nodes between and in the order left, node, right, functions before their argument, and below a binary node that the visitor declines to step into only the node itself. A recursive manipulation offers nodes from the root downwards, replaces exactly those accepted by the functor by what the functor returns without descending into them, keeps everything else, and does not change its argument; leaves are passed to the functor in any case, so that one which accepts no node by itself works on exactly the leaves.",
 ["inputs"],"all trees and all visitor decisions",
 "No existing test uses custom visitors on more than one tree.",
 [R+'functor_wrapper.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'expression_interface.hpp',R+'expr.hpp'],
 [("recursive_traversal / recursive_manipulation virtuals",R+"unary_expr.hpp, "+R+"binary_expr.hpp"),("functor wrappers",R+"functor_wrapper.hpp")])
p("C17","Symbolic integrals are resolved by the ID of their interval",
 "Substituting a symbolic interval by a concrete interval and variable turns exactly the symbolic integrals over the interval with that ID into integrals of the same integrand over these bounds and this variable, anywhere in an expression (outside vector entries and the bounds of other integrals; the outermost one where integrals over the same interval are nested); symbolic integrals over other intervals and everything else stay as they are.",
 ["inputs"],"all expressions with several symbolic integrals with equal and different IDs",
 "No existing test has more than one symbolic interval.",
 [R+'integral.hpp',R+'symbolic_interval.hpp',M+'substitute.hpp',R+'interval.hpp'],
 [("recursive manipulation which compares interval IDs",R+"integral.hpp, "+M+"substitute.hpp")])
p("C18","The text form identifies the expression",
 "The text that describes an expression (deep_str, and the stream output of every runtime type, equations and intervals) can be read back to exactly the same tree, up to constants with more than six digits; in particular two different expressions never print the same, and operand order and grouping are visible.",
 ["inputs"],"all expression trees with constants of at most six significant digits",
 "The tests print expressions without looking at the output.",
 [R+'expr.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'constant.hpp',R+'variable.hpp',R+'function_symbol.hpp',R+'vector_expr.hpp',R+'integral.hpp',R+'interval.hpp',R+'equation.hpp'],
 [("deep_str virtuals and stream operators",R+"*.hpp")])
p("C19","Compile-time expressions evaluate like ordinary arithmetic",
 "A compile-time expression built from integer constants, variables and the four operations, with operators or as a type, evaluates at every point to the value of ordinary arithmetic on its formula, and equal to the runtime expression of the same formula, with compile-time vectors and standard vectors as points. Operators on compile-time objects form the formula written (up to an equivalent simplification).",
 ["programs","inputs"],"all compile-time expression types and points",
 "The tests contain about ten fixed types; each new type is a new program.",
 [T+'ct_constant.hpp',T+'ct_variable.hpp',T+'ct_binary_expr.hpp',T+'ct_vector.hpp',T+'operations/ct_ct.hpp',T+'operations/ct_constant.hpp',T+'operations/ct_variable.hpp',T+'operations/ct_expr.hpp',M+'eval.hpp'],
 [("operator overloads on types",T+"operations/*.hpp"),("eval",M+"eval.hpp, "+T+"ct_binary_expr.hpp")])
p("C20","Compile-time simplification preserves the exact value",
 "Simplifying a compile-time expression type always compiles and gives a type with exactly the same rational value at every point where the original is defined, including exact rational arithmetic on constants without overflow or truncation for moderate numbers. Sums with zero, products with zero and one, and operations on two integer constants are reduced, and simplifying again changes nothing.",
 ["programs"],"all compile-time expression types whose constants stay within 64 bit",
 "Each type is a new program; the tests have a handful.",
 [M+'simplify.hpp',T+'ct_binary_expr.hpp',T+'ct_constant.hpp'],[("partial specialisations of the simplifier",M+"simplify.hpp")])
p("C21","Compile-time substitution replaces every occurrence of the searched item",
 "Substituting a compile-time variable, constant, function symbol or subexpression by any compile-time expression replaces every occurrence of that item (the outermost where they are nested) and nothing else, so that for a variable the result evaluates exactly like the original at the point where the variable takes the value of the replacement.",
 ["programs"],"all compile-time expression types, variables and replacements",
 "Each type is a new program; the tests have one or two.",
 [M+'substitute.hpp'],[("recursive partial specialisations",M+"substitute.hpp")])
p("C22","Compile-time differentiation gives the exact derivative",
 "Differentiating a compile-time expression by a compile-time variable, once or repeatedly, always compiles and gives a type whose value is exactly the derivative at every point where it is defined, for sums, differences, products and quotients of any nesting.",
 ["programs"],"all compile-time expression types and variables",
 "Each type is a new program; the tests have a handful.",
 [M+'diff.hpp',M+'simplify.hpp'],[("product and quotient rule specialisations",M+"diff.hpp")])
p("C23","Compile-time expansion preserves the value and leaves no brackets",
 "Expanding a compile-time polynomial preserves its exact value at every point, and the result contains no product with a sum or difference as a factor.",
 ["programs"],"all compile-time polynomial types",
 "Each type is a new program; the tests have a handful.",
 [M+'expand.hpp'],[("recursive expansion of products of sums",M+"expand.hpp")])
p("C24","Coefficients and remainders recombine to the original",
 "For a compile-time expression e that is polynomial in a variable or function symbol x, the coefficient of x plus everything dropped recombine: e equals x times the coefficient of x in e plus e with the terms depending on x dropped, exactly at every point.",
 ["programs"],"all compile-time polynomial types",
 "Each type is a new program; the tests have a handful.",
 [M+'coefficient.hpp',M+'drop_dependent_terms.hpp'],[("recursive specialisations",M+"coefficient.hpp, "+M+"drop_dependent_terms.hpp")])
p("C25","Compile-time integration gives the exact integral",
 "Analytic integration of a compile-time polynomial over an interval with respect to a variable gives exactly the definite integral, with constants and other variables treated as constants, and with bounds that are constants or expressions in other variables.",
 ["programs"],"all compile-time polynomial types, bounds and integration variables",
 "Each type is a new program; the tests integrate a handful of polynomials.",
 [M+'integrate.hpp',M+'expand.hpp',M+'coefficient.hpp',M+'drop_dependent_terms.hpp'],[("reduction to powers of the integration variable",M+"integrate.hpp")])
p("C26","Mixed compile-time and runtime expressions keep their meaning",
 "Converting compile-time constants, variables and expressions to runtime expressions, and combining them with runtime operands or with numbers by + - * / and the functions (exp, sin, cos, tan, fabs, sqrt, log, log10), keeps the formula: the resulting expression evaluates to the value of ordinary arithmetic on the operands at every point, for every combination of operand kinds on either side, including the values of runtime constants inside compile-time expressions.",
 ["programs","inputs"],"all mixed operand kinds, nestings and points",
 "Each combination is a new program; the tests have a handful.",
 [R+'expr.hpp',R+'binary_expr.hpp',R+'unary_expr.hpp',R+'constant.hpp',T+'ct_binary_expr.hpp',T+'operations/ct_expr.hpp',T+'operations/ct_constant.hpp',R+'operations/constant.hpp',R+'operations/rt_rt.hpp'],
 [("conversion constructors",R+"expr.hpp, "+R+"binary_expr.hpp"),("mixed operators",R+"operations/*.hpp, "+T+"operations/*.hpp")])
p("C27","Equations and intervals keep exactly their two sides",
 "An equation holds exactly the left and right hand side it was made from, and an interval its lower and upper bound, for all argument types of the constructors and of make_equation and make_interval; copies and assignments are independent and equal to the original, and the printed form shows both parts in this order. Integrals made from an interval, an integrand and a variable hold exactly these three.",
 ["inputs","histories"],"all sides, bounds and argument types, histories of copies and assignments",
 "The tests build a handful of equations and intervals and check little of their content.",
 [R+'equation.hpp',R+'interval.hpp',R+'integral.hpp'],[("constructors and make functions",R+"equation.hpp, "+R+"interval.hpp")])
p("C28","Compile-time objects hold and print exactly their parts",
 "The stream output of compile-time constants, variables, function symbols, expressions, vectors, intervals and equations shows every part in its place, so that it can be read back and different compile-time types never print the same. A compile-time vector, also a copied or a stored one, has the size and returns at each index the entry it was made from, and make_interval and make_equation give the interval or equation of their two arguments in the order given, for all kinds of compile-time operands.",
 ["programs"],"all compile-time operand types and vector entries",
 "Each type is a new program; the tests print a handful of objects and check nothing of the output.",
 [T+'ct_vector.hpp',T+'ct_interval.hpp',T+'ct_equation.hpp',T+'ct_binary_expr.hpp',T+'ct_function_symbol.hpp',T+'ct_constant.hpp',T+'ct_variable.hpp'],
 [("operator<< overloads",T+"*.hpp"),("make_vector, make_interval, make_equation",T+"ct_vector.hpp, "+T+"ct_interval.hpp, "+T+"ct_equation.hpp")])
p("C29","Queries of nodes and operations agree with what they hold",
 "For every node of every runtime expression: is_unary is false exactly for binary expressions; is_constant is true for constants and arithmetic on them and never for anything that contains a variable, function symbol, vector, integral or formal operator; unwrap returns the value of an expression of constants and throws for anything else; shallow_equal holds exactly between nodes of the same type and follows from deep_equal; the short text names the type. The operation of a node has the right name, arity and result, rejects the wrong number of operands, equals its copies and exactly the operations of the same kind (for partial derivatives and integrals also the same variable, interval or bounds).",
 ["inputs"],"all expressions, pairs of nodes and operations",
 "The tests do not use most of these queries.",
 [R+'expression_interface.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'op_interface.hpp',R+'unary_operators.hpp',R+'binary_operators.hpp',R+'integral.hpp',R+'constant.hpp',R+'variable.hpp',R+'function_symbol.hpp',R+'vector_expr.hpp',T+'unary_op_tags.hpp',T+'binary_op_tags.hpp'],
 [("virtual queries",R+"*.hpp"),("op_unary and op_binary",R+"unary_operators.hpp, "+R+"binary_operators.hpp")])
p("C30","Expressions are built exactly as written",
 "Writing an expression with the operators + - * /, the functions exp, sin, cos, tan, fabs, sqrt, log, log10, grad, div and laplace, and the constructors, conversions and assignments of the runtime types gives exactly the tree that is written: this operation at the root and copies of the operands below it in the order given, for every combination of operand types the library accepts (numbers, constants, variables, function symbols, unary, binary, vector and general expressions, compile-time constants and variables). Sums and differences of two vectors, and products and quotients of a vector with anything else, are formed entry by entry, and the product of two vectors is their inner product. The operands stay as they were. A number or constant assigned to a unary or binary expression has the value of that constant.",
 ["programs","inputs"],"all expressions over all node types and all combinations of operand types",
 "Each combination of operand types is an overload of its own; the tests use few of them and mostly look at values, which function symbols, vectors and formal operators do not have.",
 [R+'operations/rt_rt.hpp',R+'operations/constant.hpp',R+'operations/function_symbol.hpp',R+'expr.hpp',R+'unary_expr.hpp',R+'binary_expr.hpp',R+'vector_expr.hpp',R+'function_symbol.hpp','viennamath/manipulation/detail/unary_operations.hpp'],
 [("operator and function overloads",R+"operations/*.hpp, viennamath/manipulation/detail/unary_operations.hpp"),("constructors and assignments",R+"expr.hpp, "+R+"unary_expr.hpp, "+R+"binary_expr.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
