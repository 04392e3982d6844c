"""The properties and how each is checked: the single source of properties.jsonl and MANIFEST.json
(python3 vlib/gen.py writes both)."""

FT = "core/include/bertini2/function_tree/"
SY = "core/include/bertini2/system/"
TECH = "runtime monitoring: real library under generated workloads, judged online by an independent reference-model oracle"

PROPS = {}


def P(id, **k):
    k.setdefault("level", "exploration")
    k.setdefault("require", [])
    k.setdefault("over", ["inputs"])
    k.setdefault("technique", TECH)
    k.setdefault("assumptions", [])
    PROPS[id] = k


MODEL_TRUST = ("The oracle is the harness's own expression tree, evaluated at 120 digits with MPFR/MPC (which the library "
               "also uses) with a running rounding-error bound; points on branch cuts, at poles or beyond overflow are counted as inconclusive and not judged.")

P("E01", harness="h_expr", title="Expressions evaluate to what they denote",
  statement="Evaluating an expression at values of its variables gives the value of the mathematical expression the user wrote, in double precision and at every multiple precision, up to rounding at that precision: sums, differences, products, quotients, negations, integer and general powers, square root, exponential, logarithm, the trigonometric functions and their inverses, numbers, pi, e, i, variables and named functions. It does so however the expression was built (operators, compound assignment, factory functions), however subexpressions are shared, and again after the variables or the precision have changed.",
  text="every expression over the whole operator set, every way of constructing it, every point away from poles and branch cuts, every precision",
  why="The unit tests evaluate a few dozen fixed expressions at fixed points; operand counts, sign patterns, shared subexpressions, repeated evaluation and mixed precisions are an unbounded product.",
  files=[FT + "operators/arithmetic.hpp", FT + "operators/trig.hpp", FT + "node.hpp", FT + "symbols/number.hpp", "core/src/function_tree/operators/arithmetic.cpp", "core/src/function_tree/operators/trig.cpp"],
  mechanism=[("FreshEval_d/FreshEval_mp of each node type", "core/src/function_tree/operators/*.cpp"), ("cached values and Reset", FT + "node.hpp")],
  rule="A case is a random expression (depth to 5, shared subexpressions, named functions, all operators) evaluated repeatedly at random points, in double and several multiprecisions, after Reset and variable changes; an evaluation is one comparison with the oracle; a case counts as distinct non-trivial by the text of its expression when that has more than two nodes.",
  require=[], assumptions=[MODEL_TRUST],
  note="Held on thousands of generated expressions per run, each judged by an independent evaluation with an error bound. " + MODEL_TRUST)

P("E02", harness="h_system", title="All evaluation and differentiation methods agree",
  statement="The function values, Jacobian and time derivative of a system do not depend on whether it is evaluated by walking the function tree or by a straight line program, nor on whether it is differentiated by Jacobian nodes or by explicit derivatives, nor on which of the return-by-value, in-place and set-then-ask calls is used: all give the mathematical values, up to rounding.",
  text="every system, every pair of evaluation and differentiation method, every calling style, double and multiple precision",
  over=["inputs", "configurations"],
  why="Tests run a handful of systems mostly in the default configuration; each method is separate code and they can only be compared on arbitrary systems.",
  files=["core/include/bertini2/system/system.hpp", "core/src/system/system.cpp", "core/include/bertini2/system/straight_line_program.hpp", "core/src/system/straight_line_program.cpp"],
  mechanism=[("SLPCompiler", "core/src/system/straight_line_program.cpp"), ("switches over eval_method_ and deriv_method_", SY + "system.hpp")],
  rule="A case is a random system (1-4 functions, shared and named subexpressions, groups of all kinds, optional path variable) put through all combinations of evaluation and differentiation method and calling style; distinct by the text of the functions.",
  assumptions=[MODEL_TRUST], note="Each method is compared with the independent oracle, not only with the others. " + MODEL_TRUST)

P("E03", harness="h_expr", title="Symbolic differentiation gives the derivative",
  statement="Differentiating an expression with respect to a variable, in either of the two ways offered, gives an expression whose value is the derivative of the original at every point where both are defined, including higher and mixed derivatives, powers whose base or exponent vary, quotients, and composed special functions; constants differentiate to zero.",
  text="every expression, every variable, every point away from singularities",
  why="The unit tests differentiate fixed expressions at fixed points; the product, quotient and chain rules over arbitrary nesting and operand counts are not sampled.",
  files=["core/src/function_tree/operators/arithmetic.cpp", "core/src/function_tree/operators/trig.cpp", "core/src/function_tree/roots/jacobian.cpp", "core/src/function_tree/symbols/differential.cpp"],
  mechanism=[("Node::Differentiate", FT + "node.hpp"), ("Jacobian root node", "core/src/function_tree/roots/jacobian.cpp")],
  rule="A case is a random expression differentiated by both interfaces, evaluated at random points and compared with forward-mode differentiation of the model; second derivatives too; distinct by expression text.",
  assumptions=[MODEL_TRUST], note="Compared with forward-mode automatic differentiation of the harness's own tree. " + MODEL_TRUST)

P("E04", harness="h_expr", title="Simplification preserves value and derivatives",
  statement="Simplifying an expression, or a derivative, by the library's elimination of zeros and ones and its depth reduction, leaves its value and its derivatives at every point unchanged up to rounding, and does not change other expressions sharing its subexpressions.",
  text="every expression with any pattern of zeros, ones, negated terms, divisions, nesting and sharing",
  why="The tests simplify a small list of shapes; the rewriting mutates the tree in place, so sign and division flags and sharing multiply the shapes beyond sampling by hand.",
  files=["core/include/bertini2/function_tree/simplify.hpp", "core/src/function_tree/simplify.cpp", "core/src/function_tree/operators/arithmetic.cpp"],
  mechanism=[("EliminateZeros / EliminateOnes / ReduceDepth", "core/src/function_tree/operators/arithmetic.cpp")],
  rule="A case is a random expression salted with zeros, ones, nested sums and products with signs and divisions, simplified by each pass and by all together; distinct by expression text.",
  assumptions=[MODEL_TRUST], note=MODEL_TRUST)

P("E05", harness="h_poly", title="Degrees, polynomiality and homogeneity are reported correctly",
  statement="The degree of an expression in a variable or in a group of variables, its multidegree, and whether it is polynomial, are those given by the rules of polynomial arithmetic applied to the expression as written (a negative degree means not polynomial). An expression said to be homogeneous in a group scales by the power of its degree when the group is scaled, and every form built from monomials of equal degree is recognised as homogeneous, while a form plus a nonzero constant is not.",
  text="every expression and every choice of variable or group of variables",
  why="Tests query fixed expressions; negations, divisions, powers and products interact with groups in ways only arbitrary nesting exposes.",
  files=["core/src/function_tree/operators/arithmetic.cpp", "core/src/function_tree/operators/trig.cpp", "core/src/function_tree/symbols/variable.cpp", "core/src/function_tree/roots/function.cpp"],
  mechanism=[("Degree / MultiDegree / IsHomogeneous / IsPolynomial", FT + "node.hpp")],
  rule="A case is a random expression and a random form, with every variable and random groups queried; distinct by expression text.",
  assumptions=["Exponents that are not literal integers, and zero powers of non-polynomial expressions, are not judged."],
  note="Degrees compared with a structural degree computed on the harness's own tree; homogeneity by scaling identities at 120 digits.")

P("E06", harness="h_poly", title="Homogenization is exact",
  over=["inputs", "histories"],
  statement="Homogenizing a polynomial system multiplies each function, for each affine variable group, by the power of that group's homogenizing variable equal to the function's degree and substitutes ratios, so that each function becomes homogeneous in every group, agrees with the original function where the homogenizing variables are one, and scales by its degree when a group is scaled. Exactly one homogenizing variable per affine group is added, at the front of its group, groups already homogeneous are left alone, a second homogenization changes nothing, and it does not matter whether the system was evaluated before or how subexpressions are shared.",
  text="every polynomial system, grouping of variables, order of evaluation and homogenization",
  why="Tests homogenize a few systems without shared subexpressions and look at degrees rather than values.",
  files=["core/src/system/system.cpp", "core/src/function_tree/operators/arithmetic.cpp"],
  mechanism=[("System::Homogenize", "core/src/system/system.cpp"), ("Node::Homogenize", "core/src/function_tree/operators/arithmetic.cpp")],
  rule="A case is a random polynomial system with affine, homogeneous and ungrouped variables, homogenized (often after evaluation, often twice), compared with the model's homogenization at random points, with scaling identities; distinct by the functions and groups.",
  assumptions=[MODEL_TRUST], note=MODEL_TRUST)

P("S01", harness="h_system", title="Systems never return stale values",
  over=["histories", "inputs"],
  statement="Whatever was done to a system before (evaluating at other points or times, in double or multiple precision, in any of the calling styles, changing precision, switching evaluation or differentiation method, adding functions, variables, parameters or a path variable, reordering functions, copying, differentiating, simplifying), the values, Jacobian and time derivative it returns are those of its current functions at the point and time given last.",
  text="every history of operations on a system",
  why="Tests use a system once or twice in a straight line; stale caches need particular interleavings of modification and evaluation.",
  files=[SY + "system.hpp", "core/src/system/system.cpp", SY + "straight_line_program.hpp", "core/src/system/straight_line_program.cpp", FT + "node.hpp"],
  mechanism=[("is_differentiated_, have_ordering_, current_variable_values_, Reset", SY + "system.hpp"), ("StraightLineProgram evaluated-state flags", SY + "straight_line_program.hpp")],
  rule="A case is a random history of up to ~20 operations on one or more systems, with everything they compute compared with the model after each step; distinct by the functions and the sequence of operations.",
  assumptions=[MODEL_TRUST], note="The model carries the state of the system through the history. " + MODEL_TRUST)

P("S02", harness="h_system", title="Changing precision preserves meaning",
  over=["histories", "inputs"],
  statement="After the working precision of a system is set to any number of digits, everything it computes in multiple precision has that precision and that accuracy: constants are re-derived from what the user wrote rather than from their rounded values, so raising the precision after lowering it loses nothing, and results equal the mathematical values to the digits asked for.",
  text="every system and every sequence of precisions",
  why="Tests change precision once or twice on small systems; loss of digits appears only after down-and-up sequences on particular kinds of constants.",
  files=[FT + "symbols/number.hpp", "core/src/function_tree/symbols/number.cpp", SY + "system.hpp", SY + "straight_line_program.hpp", "core/src/system/straight_line_program.cpp"],
  mechanism=[("precision(prec) of nodes, systems, straight line programs and patches", SY + "system.hpp")],
  rule="A case is a random system taken through a random sequence of precisions from 16 to 100 digits under each evaluation method; distinct by the functions and the sequence.",
  assumptions=[MODEL_TRUST, "The default precision is set together with the precision of the system, as the library's trackers do."], note=MODEL_TRUST)

P("S03", harness=["h_system", "h_poly"], title="System algebra is exact and leaves its operands alone",
  over=["inputs", "histories"],
  statement="Adding systems, multiplying a system by an expression, concatenating systems, copying, assigning, moving and swapping give systems whose functions are the sums, products, concatenations or copies of the operands' functions, with their variables, path variable and patch; a patched and an unpatched system combine to a patched one, systems with different patches are refused; the operands still compute what they did before.",
  text="every pair of compatible systems, every order of operations and evaluations",
  why="Tests add or concatenate fresh systems once and look at the result, not at the operands or at later use.",
  files=[SY + "system.hpp", "core/src/system/system.cpp"],
  mechanism=[("operator+=, operator*=, operator+, operator*, Concatenate, swap, copy constructor", "core/src/system/system.cpp")],
  rule="A case builds systems (of any functions; or homogenized ones, none, one or both of them patched, alike or differently) and combines them in random ways, evaluating operands and results before and after; distinct by functions and operations.",
  assumptions=[MODEL_TRUST], note=MODEL_TRUST)

P("S05", harness="h_poly", title="Patches and dehomogenization",
  over=["inputs", "histories"],
  statement="Patching a homogenized system appends one random affine-linear equation per variable group, which involves only that group, does not depend on time, keeps its coefficients through changes of precision, copies and clones, and is included consistently in values and Jacobian. Rescaling a point to the patch changes each group by one factor and makes every patch equation zero; dehomogenizing gives the same affine point for every rescaling, in the user's order of variables. Patches made by hand, complex or real, behave the same, and two patches compare equal exactly if they have the same structure and coefficients.",
  text="every grouping of variables, every point, every precision sequence",
  why="Tests use one or two groups at fixed precision, mostly checking that a rescaled point satisfies the patch.",
  files=["core/include/bertini2/system/patch.hpp", SY + "system.hpp"],
  mechanism=[("Patch::EvalInPlace / JacobianInPlace / RescalePoint / Precision", "core/include/bertini2/system/patch.hpp"), ("DehomogenizePoint", SY + "system.hpp")],
  rule="A case is a random homogenized and patched system, taken through precisions, copies, clones and second patches, or a patch of its own, compared with patches of other structures; distinct by functions, groups and operations.",
  assumptions=[MODEL_TRUST, "Systems with ungrouped variables cannot be patched (the library asserts) and are not generated."], note=MODEL_TRUST)

P("S06", harness="h_poly", title="Linear slices",
  over=["inputs", "histories"],
  statement="A linear slice evaluates to its coefficient matrix times the point plus its constants, with that matrix as its Jacobian; a homogeneous slice has no constants, a real slice has real coefficients, an orthogonal slice has orthonormal rows, the dimension and number of variables are as requested, and all this survives changes of precision (within the digits available when it was made) and saving and loading.",
  text="all dimensions, kinds of slice and precision sequences",
  why="Tests make three fixed slices and check sizes.",
  files=["core/include/bertini2/system/slice.hpp", "core/src/system/slice.cpp"],
  mechanism=[("LinearSlice::Make, Eval, Jacobian, Precision", "core/include/bertini2/system/slice.hpp")],
  rule="A case is a slice of random kind and size taken through precisions and archives; distinct by kind, size and sequence.",
  note="Values are compared with the coefficients the slice itself reports; orthonormality, realness and constancy are judged directly.")

P("S07", harness="h_poly", title="Saving, loading and cloning reproduce a system, independently",
  over=["inputs", "histories", "configurations"],
  statement="A system written to a text or binary archive and read back, or cloned, in any state (evaluated or not, homogenized, patched, any method of evaluation and differentiation, any default precision at loading), has the same structure and computes the same values, Jacobian and time derivative at every precision. It shares nothing with the original: modifying or evaluating either leaves the other unchanged.",
  text="every system in every state, both archive kinds, every precision at loading",
  why="Tests save a few node types and systems and compare a value or two in double precision.",
  files=[SY + "system.hpp", "core/src/system/system.cpp", "core/include/bertini2/function_tree.hpp", SY + "straight_line_program.hpp", "core/include/bertini2/system/patch.hpp"],
  mechanism=[("serialize functions, BOOST_CLASS_EXPORT", "core/include/bertini2/function_tree.hpp"), ("Clone", "core/src/system/system.cpp")],
  rule="A case is a random system in a random state saved in one of three ways, compared with the model before and after either of the two is modified; distinct by functions and way of saving.",
  assumptions=[MODEL_TRUST], note=MODEL_TRUST)

P("S08", harness="h_start", title="Total degree and user start systems match their target",
  over=["inputs", "configurations"],
  statement="The total degree start system of a square polynomial system has as many start points as the product of the degrees, pairwise distinct, each a nonsingular zero of the start system (and of the target's patch), in double and every multiple precision; it has the target's variables, degrees and patch, is random, and survives saving and loading. A homotopy built from target and start system is the start system at one end and the target at the other, vanishing at the start points. User start systems return the given points.",
  text="every square polynomial system with one affine group, patched or not, every index and precision",
  why="Tests build a start system for two or three targets and evaluate it at a few start points.",
  files=["core/src/system/start/total_degree.cpp", "core/include/bertini2/system/start/total_degree.hpp", "core/include/bertini2/system/start/utility.hpp", "core/src/system/start/user.cpp", "core/include/bertini2/system/start_base.hpp"],
  mechanism=[("TotalDegree::GenerateStartPoint / NumStartPoints", "core/src/system/start/total_degree.cpp"), ("IndexToSubscript", "core/include/bertini2/system/start/utility.hpp"), ("User::GenerateStartPoint", "core/src/system/start/user.cpp")],
  rule="A case is a random target with its start system, all start points of which (up to a cap) are judged in double and multiple precision; distinct by target and structure.",
  assumptions=[MODEL_TRUST], note="A residual is judged against a rounding bound from the degrees and the size of the point; badly scaled points are counted as inconclusive.")

P("S09", harness="h_start", title="m-homogeneous start systems match their target",
  over=["inputs", "configurations"],
  statement="The m-homogeneous start system of a square polynomial system with several variable groups has as many start points as the multihomogeneous Bezout number, pairwise distinct, each a zero of the start system (and of the target's patch) in the system's order of variables, in double and every multiple precision; it has the target's variables, multidegrees and patch, and survives saving and loading. A homotopy to the target vanishes at the start points.",
  text="every grouping of variables into affine and homogeneous groups, every multidegree",
  why="Tests use affine groups and compare the number of points, and evaluate the points of one example.",
  files=["core/src/system/start/mhom.cpp", "core/include/bertini2/system/start/mhom.hpp"],
  mechanism=[("GenerateValidPartitions, ChooseColumnInRow, NumStartPoints, GenerateStartPointT", "core/src/system/start/mhom.cpp")],
  rule="A case is a random target with 1-3 groups; the number of start points is compared with the coefficient of the multihomogeneous generating polynomial, and the start points are judged in double and multiple precision; distinct by target.",
  assumptions=[MODEL_TRUST], note="A residual is judged against a rounding bound from the degrees and the size of the point; badly scaled points are counted as inconclusive.")

P("E07", harness="h_start", title="Products of linears behave as the polynomials they are",
  over=["inputs", "histories", "configurations"],
  statement="A product of linear factors, used as a function or inside one, has the value, partial derivatives, degrees and homogenization of the polynomial it denotes, whether evaluated through the tree, Jacobian nodes, explicit derivatives or a straight line program, in double and every multiple precision reached in any order, and after cloning.",
  text="all coefficients, groups and sequences of precisions",
  why="Tests evaluate a few fixed products at the precision they were made in.",
  files=["core/include/bertini2/function_tree/symbols/linear_product.hpp", "core/src/function_tree/linear_product.cpp"],
  mechanism=[("LinearProduct and DiffLinear: FreshEval, Differentiate, Homogenize, precision, serialize", "core/include/bertini2/function_tree/symbols/linear_product.hpp")],
  rule="A case is a random system of products of linears (explicit or random rational coefficients), evaluated, homogenized, cloned and taken through precisions; distinct by functions and sequence.",
  assumptions=[MODEL_TRUST], note=MODEL_TRUST)

IO = "core/include/bertini2/io/"
P("I01", harness="h_parse", title="The text of a system means what it says, or is rejected",
  statement="Reading the text of a system gives the system it describes: variables in their groups and order, functions, constants, parameters, implicit parameters and path variable with their names, and expressions with the usual meaning of numbers in every decimal notation, signs, operator precedence, parentheses, functions and named subexpressions, independent of whitespace and of what the names are (including names which begin with another name or a keyword). Text which is not a system (unbalanced parentheses, missing separators or operators, undeclared or repeated names, malformed numbers, trailing text) is rejected, leaving the target as it was.",
  text="every text in the language of systems, every damaged one",
  why="The grammar composes without bound: tests parse a few dozen fixed texts, in which precedence, sign and name-prefix interactions hardly occur.",
  files=[IO + "parsing/system_rules.hpp", IO + "parsing/function_rules.hpp", IO + "parsing/number_rules.hpp", IO + "parsing/system_parsers.hpp"],
  mechanism=[("SystemParser", IO + "parsing/system_rules.hpp"), ("FunctionParser", IO + "parsing/function_rules.hpp"), ("LongNum", IO + "parsing/number_rules.hpp")],
  rule="A case is a random model system printed with random whitespace, parentheses, number notations, declaration order and hostile names, parsed by either entry point; structure and values at random points are compared with the model; then up to three damaged versions must be rejected. Distinct by text.",
  require=["texts parsed", "damaged texts", "subfunctions", "function values compared"],
  assumptions=[MODEL_TRUST, "Repeated powers without parentheses (x^y^z) and repeated definitions of a function are not generated: the language does not say what they mean."],
  note="Texts are printed from the harness's own expression trees, so the meaning is known independently of the parser. " + MODEL_TRUST)

P("I02", harness="h_parse", title="Numbers survive being written and read",
  statement="A double, complex double, multiprecision real or complex number, or vector of them, written in the classic format (or a complex double in C++ form) is read back as the same number, up to rounding in the last digits of its own precision, whatever the default precision is when it is read; and text which is not one number of the kind asked for is rejected, leaving the target alone.",
  text="every finite number of every precision and magnitude, every default precision at reading time",
  why="Round trips are tested for a few numbers of ordinary size; exponents, signs, integers and precision mismatches are where text formats lose digits.",
  files=[IO + "generators.hpp", IO + "parsing/number_parsers.hpp", IO + "parsing/number_rules.hpp"],
  mechanism=[("generators::Classic / CPlusPlus", IO + "generators.hpp"), ("MpfrFloatParser, MpfrComplexParser", IO + "parsing/number_parsers.hpp")],
  rule="A case writes and reads random numbers over the whole exponent range at a random precision (16-120 digits) and default precision, plus texts which are not numbers. Distinct by the text written.",
  require=["complex doubles", "multiprecision numbers", "texts which are not numbers"],
  note="Doubles are allowed 16 units in the last place: the text library used is not correctly rounding.")

P("I03", harness="h_config", title="Input files are split and their settings take effect",
  statement="A classic input file, in any of its readable forms, with or without comments and in any letter case of its markers, is split into its settings and its input without losing or adding anything but comments. Reading settings gives every setting the text mentions the value written there, in whatever order, letter case and spacing and among whatever other settings, and leaves every setting not mentioned at its default; a setting without a readable value is rejected.",
  text="every subset, order and spelling of the settings, every form of file",
  why="There are some fifty settings read by seventeen separate grammars from one text; tests use a few fixed combinations.",
  files=[IO + "parsing/classic_utilities.hpp", IO + "parsing/settings_parsers.hpp", IO + "parsing/settings_parsers/tracking.hpp", IO + "parsing/settings_parsers/endgames.hpp", IO + "parsing/settings_parsers/algorithm.hpp"],
  mechanism=[("SplitInputFileParser, CommentStripper", IO + "parsing/classic_utilities.hpp"), ("ConfigSettingParser specializations", IO + "parsing/settings_parsers/")],
  rule="A case is a random subset of all settings with random values, shuffled, recased and spaced, in a file of a random form with comments that contain the markers and settings; every configuration structure is read from it and every field compared. Distinct by the settings text.",
  require=["settings read", "defaults kept", "files with comments", "bad settings"],
  note="Each setting at most once; values are decimal numbers (the quotient notation is rejected by the code, not misread).")

TR = "core/include/bertini2/trackers/"
P("T01", harness="h_predict", title="Every predictor follows the path to its order",
  statement="A prediction from a point on a nonsingular solution path, with any of the prediction methods offered, is off the path by an amount which shrinks with the step as the method's order promises (constant, Euler, Heun-Euler, the classical fourth order method, Fehlberg 45, Cash-Karp 45, Dormand-Prince 56, Verner 67), for every homotopy, real or complex step, in double and in multiple precision alike. The error estimate of the embedded methods shrinks with the order of their lower method and does not fall short of the error, the norms and condition number reported are those of the Jacobian at the point, and none of it depends on what the predictor was used for before: other points, methods and precisions.",
  text="every smooth homotopy, every nonsingular point, every direction and small size of step, every method, every precision and history of the predictor",
  over=["inputs", "histories"],
  why="The tests compare a few predictions of fixed small systems with stored numbers; an order is a statement about the limit of small steps for all vector fields, and table entries that happen not to matter on those systems are not exercised.",
  files=[TR + "explicit_predictors.hpp", "core/src/tracking/explicit_predictors.cpp"],
  mechanism=[("ExplicitRKPredictor::Predict, FullStep, EvalRHS, SetErrorEstimate", TR + "explicit_predictors.hpp"), ("Butcher tables", "core/src/tracking/explicit_predictors.cpp")],
  rule="A case is a random nonlinear homotopy in 1-3 variables (polynomial, or with exponential and trigonometric terms) and a point on one of its paths; one method, after a random history of other uses, predicts with steps 2^-9..2^-13 in a random complex direction at 80-100 digits; the error against the path, followed by the harness at 120 digits, must shrink at the promised rate. Distinct by homotopy and method.",
  require=["steps", "steps compared with double precision", "error estimates measured"] + ["order measured: " + n for n in ("constant", "Euler", "Heun-Euler", "RK4", "RKF45", "Cash-Karp45", "Dormand-Prince56", "Verner67")],
  assumptions=[MODEL_TRUST], note="The rate must be reached at one of the last three halvings of the step, so that an accidental cancellation at one step size does not raise an alarm. " + MODEL_TRUST)

P("T02", harness="h_predict", title="The corrector is Newton's method and reports truthfully",
  statement="Correcting a point returns the iterate Newton's method gives, and the right verdict: success exactly when, not before the least number of iterations asked for, a step shorter than the tolerance was taken; failure to converge when the allowed iterations are used up; and, in adaptive precision, a demand for more precision, by corrector and predictor alike, exactly when one of the documented criteria says that the working precision cannot support the tolerance. The norms and condition number reported are those of the last step and Jacobian. A singular Jacobian is reported as a failure by corrector and predictor.",
  text="every homotopy, starting point, tolerance, iteration limits, precision and history of the corrector",
  over=["inputs", "histories"],
  why="The tests correct a few fixed points; the verdict depends on the product of tolerance, limits, conditioning and precision.",
  files=[TR + "newton_corrector.hpp", TR + "amp_criteria.hpp"],
  mechanism=[("NewtonCorrector::Correct (three overloads)", TR + "newton_corrector.hpp"), ("CriterionB, CriterionC", TR + "amp_criteria.hpp")],
  rule="A case is a random homotopy, a corrector with a random history of precisions, and three corrections from points off the path by 10^-0.3..10^-8 with random tolerance, limits, precision settings, precision and overload, compared with exact Newton iterates at 120 digits, and three predictions whose verdict is compared with the criteria. Distinct by the whole input.",
  require=["converged", "not converged", "higher precision asked for", "higher precision asked for by B alone", "higher precision asked for by C alone", "predictor asks for precision by A alone", "predictor asks for precision by C alone", "predictions within the precision", "not converged (fixed precision)", "singular Jacobians"],
  assumptions=[MODEL_TRUST], note="Where the verdict hangs on rounding, or on the library's random estimate of the norm of the inverse, the case is counted as unclear and not judged. " + MODEL_TRUST)

P("T03", harness="h_track", title="Tracking a path ends at that path's end point",
  statement="Tracking a nonsingular, bounded solution path from a start point on it ends in success at the point where this very path arrives at the end time, within the tracking tolerance, not at another solution nor somewhere else: in double, fixed multiple and adaptive precision, with every prediction method, for every admissible choice of step sizes, factors and iteration limits, between any two real or complex times, for systems in affine and in homogenized form. Tracking back returns to the start, tracking in two legs gives what tracking in one gives, and a tracker which has tracked other paths, in this or in another system, tracks the next as a fresh one would. Refining a perturbed point returns the solution. A start point of the wrong size is refused. After adaptive tracking, the working precision, the system's and the end point's agree, or are those from before if preservation was asked for.",
  text="every homotopy with nonsingular bounded paths, every path of it, every pair of times, tracker type, method, setting, and history of the tracker",
  over=["inputs", "configurations", "histories"],
  why="The tests track a few small homotopies with default settings and compare with stored numbers; jumping to a neighbouring path depends on the homotopy, the method and the settings together.",
  files=[TR + "base_tracker.hpp", TR + "amp_tracker.hpp", TR + "fixed_precision_tracker.hpp"],
  mechanism=[("Tracker::TrackPath", TR + "base_tracker.hpp"), ("TrackerIteration, RefineImpl", TR + "amp_tracker.hpp, fixed_precision_tracker.hpp"), ("ChangePrecision", TR + "amp_tracker.hpp")],
  rule="A case is a homotopy built backwards from known, well separated solution paths (a product of moving roots in each of 1-3 variables, hidden behind a random quadratic triangular and linear change of variables), random settings, and up to three of its paths; each is tracked, and tracked again, back, in legs, over a segment of length zero, and refined. Distinct by homotopy, settings and path.",
  require=["paths: adaptive", "paths: double", "paths: multiple", "paths tracked back", "paths tracked in two legs", "points refined", "segments of length zero", "trackers given another system"] + ["predictor: " + n for n in ("constant", "Euler", "Heun-Euler", "RK4", "RKF45", "Cash-Karp45", "Dormand-Prince56", "Verner67")],
  assumptions=["Paths keep a distance of 0.5 in the hidden coordinates and move at most at speed 1.6, with steps of at most 0.1, so that a correct tracker does not jump.", MODEL_TRUST],
  note="The end point must be within ten tolerances of the path, scaled by the conditioning of the change of variables, and its rounding. " + MODEL_TRUST)

P("T04", harness="h_track", title="The trace of a tracked path obeys the step control",
  statement="Whatever happens on a path, the events a tracker announces tell a consistent story: one start, steps each made of a prediction, a correction and one outcome, one end. Time moves only on accepted steps, straight towards the end time, by the step announced; every accepted point lies on the path; a failed step moves neither time nor point and shortens the step by the failure factor (or, in adaptive precision, raises the precision). The step size starts as set (or as the last path left it, if so asked), grows by the success factor after the required number of consecutive successes and never beyond the maximum, and no step is taken at less than the minimum. Not more steps succeed than allowed; the number of steps reported is the number taken; at an accepted step the reported norm of the last Newton step is within the tolerance and the reported condition number is at least one; a path is cut off as going to infinity exactly when its point exceeds the threshold and cutting off is enabled. The verdict returned is the one the trace implies.",
  text="every homotopy, tracker type, method, step control and Newton setting, and every sequence of successes and failures that results",
  over=["inputs", "configurations", "histories"],
  why="The tests look at the result of a track, not at its course; the course depends on the interplay of failures, growth, limits and precision changes.",
  files=[TR + "base_tracker.hpp", TR + "amp_tracker.hpp", TR + "fixed_precision_tracker.hpp", TR + "events.hpp"],
  mechanism=[("Tracker::TrackPath, PreIterationCheck, CheckGoingToInfinity", TR + "base_tracker.hpp"), ("OnStepSuccess, OnStepFail", TR + "fixed_precision_tracker.hpp"), ("AdjustAMPStepSuccess, NewtonConvergenceError, AMPCriterionError", TR + "amp_tracker.hpp")],
  rule="A case tracks paths of a homotopy with known paths under settings that provoke failures (long steps, one Newton iteration, few steps allowed, high minimal step, low truncation threshold) with an observer attached; an online checker of the trace specification judges every event. Distinct by numbers of accepted and failed steps and settings.",
  require=["traces (adaptive)", "traces (double)", "traces (multiple)", "traces (homogenized)", "accepted steps", "failed steps", "step size increases", "truncated paths", "paths begun with the last step size", "precision increases"],
  assumptions=["In adaptive precision the growth of the step size is judged by bounds, since it is coupled to the choice of precision.", MODEL_TRUST],
  technique="runtime monitoring: observer on the real trackers, online checker of a trace specification over the recorded events",
  note="Judges every event of some thousand tracks per run. " + MODEL_TRUST)

P("T05", harness="h_track", title="Adaptive precision supplies the digits a path needs",
  statement="In adaptive precision, no step is accepted at a precision which the documented criteria, for the conditioning at the point, call insufficient for solving the linear systems or for the tracking tolerance; when a step asks for more precision the next one has more. So a path which runs close to a singularity, or whose tolerance is tighter than the precision it starts with, still ends in success and within the tolerance. Precision never exceeds the maximum set: a path needing more ends with the verdict that the maximum was reached, not with a crash or a false success. It decreases only after the required number of successful steps and at most as often as allowed; a singular start point is reported as such.",
  text="every path approaching a singularity to any distance, every tolerance, method, precision at the start, and maximum precision",
  over=["inputs", "configurations", "histories"],
  why="The tests track a few paths which need more than double precision and look at the end point; whether the digits suffice at each step is a statement about every step.",
  files=[TR + "amp_tracker.hpp", TR + "amp_criteria.hpp", TR + "config.hpp"],
  mechanism=[("CriterionA, CriterionB, CriterionC", TR + "amp_criteria.hpp"), ("AMPCriterionError, AdjustAMPStepSuccess, MinimizeTrackingCost, InitialRefinement, ChangePrecision", TR + "amp_tracker.hpp"), ("AMPConfigFrom", TR + "config.hpp")],
  rule="A case is a path of (Ax+c-p(t))^2 = t+d from t=1 to t=0 with |d| down to 1e-23, so that the conditioning at every step is known exactly; tolerance, method, precision, maximum precision and safety digits are random. Every accepted step's precision is compared with the criteria, and the end point with the known one. Distinct by path and settings.",
  require=["accepted steps", "higher precision necessary", "precision increases", "precision decreases", "paths which needed more precision", "paths ended by the maximum precision", "singular start points"],
  assumptions=[MODEL_TRUST], note="The criteria are judged in one variable, where the norms they use are exact; a slack of 0.3 digits is granted. " + MODEL_TRUST)
EGD = "core/include/bertini2/endgames/"
EG_WHY = "The tests run each endgame on a handful of paths to the time zero with the default settings; what a user relies on is the end point of every path, for every branching, target time, setting and arithmetic."
EG_RULE = "A case is a path y(w) + u w^(m/c) behind a linear and a triangular change of variables, w the distance to the target time, whose end point, cycle number and divergence are known exactly; one to three variables, cycle numbers to six, target times zero and other, affine and homogenized, adaptive, multiple and double precision, six predictors, sample factors 1/3 to 3/5, 3 to 5 sample points, security levels. The monitor watches the announcements of the endgame and judges the verdict, the end point, the error estimate and the sample times, in a second run with the same object too. Distinct by path and settings."
P("G01", harness="h_endgame", title="The power series endgame finds the end point of every convergent path",
  statement="Run with the power series endgame on a path which converges, to a regular or a singular point, at the time zero or any other target time, a tracker in adaptive, multiple or double precision ends in success, with an end point within the final tolerance of the true one and an error estimate below the tolerance, whatever the sample factor, the number of samples and the predictor, and a second run of the same endgame too. The error estimates announced are the distances between successive approximations. The distance of the samples to the target time shrinks by the sample factor, and no sample is taken nearer to the target than the smallest distance set. A path which diverges is not reported as convergent to a finite point; paths are cut off by norm only where the security level asks for it, and only beyond the norm set. Convergence is announced exactly when the verdict is success.",
  text="every path with a Puiseux expansion at the target time, every target time, precision mode, predictor, and endgame and security setting",
  over=["inputs", "configurations", "histories"], why=EG_WHY,
  files=[EGD + "powerseries.hpp", EGD + "base_endgame.hpp", EGD + "amp_endgame.hpp", EGD + "fixed_prec_endgame.hpp", EGD + "interpolation.hpp"],
  mechanism=[("PowerSeriesEndgame: RunImpl, AdvanceTime, ComputeCycleNumber, TransformToSPlane", EGD + "powerseries.hpp"), ("ComputeInitialSamples, RefineAllSamples", EGD + "base_endgame.hpp"), ("RefineSampleImpl", EGD + "amp_endgame.hpp")],
  rule=EG_RULE, require=["end points: regular", "end points: singular", "cycle number 1", "cycle number 2", "cycle number 3", "cycle number 6", "cycle number found", "diverging paths", "homogenized", "paths cut off at the maximal norm", "solutions at infinity", "runs: adaptive", "runs: double", "runs: multiple", "target times other than zero"],
  assumptions=[MODEL_TRUST], note="A hundred final tolerances, scaled by the size of the end point, are granted: convergence is judged by the endgame from two approximations. A singular end point in double precision may end in another verdict than success, but not in a wrong point. Homogenized cases start where the coordinates in the patch have no pole closer to the target. " + MODEL_TRUST)
P("G02", harness="h_endgame", title="The Cauchy endgame finds end point and cycle number of convergent paths",
  statement="Run with the Cauchy endgame on a path which converges, to a regular or a singular point, at the time zero or any other target time, a tracker in adaptive, multiple or double precision ends in success, with an end point within the final tolerance of the true one, an error estimate below the tolerance, and the true cycle number, whatever the sample factor, the number of samples and the predictor, and a second run of the same endgame too. The error estimates announced are the distances between successive approximations. The distance of the loops to the target time shrinks by the sample factor. A path which diverges is not reported as convergent to a finite point; paths are cut off by norm only where the security level asks for it, and only beyond the norm set. Convergence is announced exactly when the verdict is success.",
  text="every path with a Puiseux expansion at the target time, every target time, precision mode, predictor, and endgame and security setting",
  over=["inputs", "configurations", "histories"], why=EG_WHY,
  files=[EGD + "cauchy.hpp", EGD + "base_endgame.hpp", EGD + "amp_endgame.hpp", EGD + "fixed_prec_endgame.hpp"],
  mechanism=[("CauchyEndgame: RunImpl, GetIntoEGZone, InitialCauchyLoops, CircleTrack, CheckClosedLoop, ComputeCauchySamples, ComputeCauchyApproximationOfXAtT0, AdvanceTime", EGD + "cauchy.hpp"), ("ComputeInitialSamples, RefineAllSamples", EGD + "base_endgame.hpp")],
  rule=EG_RULE, require=["end points: regular", "end points: singular", "cycle number 1", "cycle number 2", "cycle number 3", "cycle number 4", "cycle number 6", "diverging paths", "homogenized", "paths cut off at the maximal norm", "solutions at infinity", "runs: adaptive", "runs: double", "runs: multiple", "target times other than zero"],
  assumptions=[MODEL_TRUST], note="A hundred final tolerances, scaled by the size of the end point, are granted: convergence is judged by the endgame from two approximations. A singular end point in double precision may end in another verdict than success, but not in a wrong point. Homogenized cases start where the coordinates in the patch have no pole closer to the target; divergence of affine systems is a recorded finding. " + MODEL_TRUST)
P("G03", harness="h_endgame", title="Hermite interpolation reproduces the polynomials its data determines",
  statement="Interpolating the values and first derivatives of a path at n distinct times, the earliest or the latest of those kept, gives at any target time the value of the one polynomial of degree below 2n with these values and derivatives, up to rounding, in double and in every multiple precision.",
  text="every polynomial of degree below 2n, every set of n distinct times, every target, either end of a longer list of samples, double and every multiple precision",
  over=["inputs", "configurations"],
  why="The tests interpolate three polynomials at fixed times and compare with loose tolerances, loose enough to hold for wrong nodes.",
  files=[EGD + "interpolation.hpp"],
  mechanism=[("HermiteInterpolateAndSolve", EGD + "interpolation.hpp")],
  rule="A case is a random polynomial vector, n from 1 to 6 of up to nine samples, geometric towards the target or anywhere, in double or 20 to 90 digits; the result is compared with the polynomial's value, within a bound on the rounding from the conditioning of the data. Where the known finding (wrong nodes) applies, the result is compared with the value those nodes give, so that any further deviation is still a violation. Distinct by description.",
  require=["interpolations exact up to rounding", "interpolations in double", "interpolations in multiple precision", "interpolations of the highest degree"],
  assumptions=[MODEL_TRUST], note="On the current tree a recorded finding holds for n of two or more; data of degree below two, and one sample, are judged against the exact value. " + MODEL_TRUST)
P("O01", harness="h_track", title="Observers see every event exactly once, and recorders record what happened",
  statement="An event is delivered exactly once, in the order of attachment, to every observer attached when it is sent, and to no other: adding an observer twice changes nothing, and observers may add and remove observers, themselves included, while being notified; one removed before its turn is not notified, one added is from the next event on. So the ready-made recorders tell the truth about a tracked path, also over several paths and when combined: the first increase of precision with its time, the least and greatest precision used, the precision at every event, and the point of every accepted step.",
  text="every sequence of attaching, detaching and notifying, also from inside a notification, and every path recorded",
  over=["histories", "inputs", "configurations"],
  why="The tests attach one or two observers before tracking and never from inside a notification, although a recorder of the library detaches itself in one.",
  files=["core/include/bertini2/detail/observable.hpp", "core/include/bertini2/detail/observer.hpp", TR + "observers.hpp", TR + "events.hpp"],
  mechanism=[("Observable: AddObserver, RemoveObserver, NotifyObservers", "core/include/bertini2/detail/observable.hpp"), ("MultiObserver", "core/include/bertini2/detail/observer.hpp"), ("FirstPrecisionRecorder, MinMaxPrecisionRecorder, PrecisionAccumulator, AMPPathAccumulator", TR + "observers.hpp")],
  rule="A case is a random history of attaching, detaching (from outside and from inside notifications) and notifying, judged against a list model; or an adaptive tracker on one to three paths with all recorders attached, compared with the trace an independent observer keeps. Distinct by history or by path and settings.",
  require=["notifications", "observers adding another", "observers removing another", "observers removing themselves", "recorded paths", "paths with an increase of precision", "paths without an increase of precision"],
  assumptions=[], technique="runtime monitoring: offline checker of exactly-once, in-order delivery over recorded events; recorders compared with an independent trace",
  note="The list model is a dozen lines. Events are delivered synchronously; there are no threads.")
ZD = "core/include/bertini2/nag_algorithms/"
P("Z01", harness="h_zerodim", title="A zero-dimensional solve finds all isolated roots, each path accounted for",
  statement="Solving a square polynomial system with the total degree or the m-homogeneous start system, in adaptive, double or multiple precision, with either endgame, accounts for every path: one result and one record for each start point, in order. Every isolated finite root is reached by exactly as many successful paths as its multiplicity, and each such end point lies within the tolerance of the root; a path reported as success ends nowhere else than at a root, finite or infinite. Paths without the steps they need are reported as failed, with no verdict of an endgame they never entered, and no result of another path. The record of a path tells its multiplicity (the number of coinciding end points), cycle number, accuracy, residual and the precision it used; the simple and the full list of solutions extracted are those of the records. Solving again gives the same answer, and the given system is left as it was.",
  text="every square polynomial system with isolated roots, every start system, tracker, endgame, tolerance and precision setting, and repeated solves",
  over=["inputs", "configurations", "histories"],
  why="The tests of this algorithm do not compile at this commit; and they solve a handful of systems. That all roots are found is a statement about every path of every system.",
  files=[ZD + "zero_dim_solve.hpp", ZD + "common/policies.hpp", ZD + "common/config.hpp", ZD + "output.hpp", ZD + "midpath_check.hpp"],
  mechanism=[("ZeroDim: Solve, TrackBeforeEG, EGBoundaryAction, TrackDuringEG, ComputeMultiplicities", ZD + "zero_dim_solve.hpp"), ("CloneGiven: PrepareTarget, FormStart, FormHomotopy", ZD + "common/policies.hpp"), ("NonsingularSolutions, AllSolutions, Classic", ZD + "output.hpp")],
  rule="A case is a system of products of linear forms (with repeated factors: multiple roots; with parallel ones: roots at infinity; over several variable groups; behind a triangular change of variables), whose roots and multiplicities are known exactly, solved with random tolerances, predictor, boundary, precision; sometimes with too few steps, sometimes twice. The monitor matches every result and record with the known roots. Distinct by system and settings.",
  require=["multiplicity 1", "multiplicity 2", "multiplicity 3", "multiplicity 4", "paths to infinity", "paths to roots", "paths with an increase of precision", "solved again", "solves with the m-homogeneous start system", "solves with the total degree start system", "solves with too few steps", "solves: adaptive", "solves: double", "solves: multiple", "results with the multiplicity of the root", "systems: change of variables", "systems: products of linear forms", "systems: repeated roots", "systems: roots at infinity", "systems: several variable groups"],
  assumptions=["Systems are moderately conditioned, so that every path can be followed at the default settings.", "In double and fixed multiple precision the paths to multiple roots may fail, but not end in a wrong point.", MODEL_TRUST],
  technique="runtime monitoring: conservation of paths and roots checked over the recorded results of real solves",
  note="Several thousand paths per run. End points at simple roots are granted a thousand final tolerances, at multiple ones 1e-6. " + MODEL_TRUST)
P("Z02", harness="h_zerodim", title="Path crossings are found, all of them, and nothing else",
  statement="The check at the endgame boundary passes exactly when no two successfully tracked paths have end points closer, relative to their size, than the tolerance set. Otherwise the paths it lists as crossed are exactly those which coincide with another, each once; a path is marked to be tracked again exactly if one of those it coincides with had a different start point. Failed paths take no part. Every check stands for itself, whatever was checked before.",
  text="every list of end points and verdicts, every tolerance, and every sequence of checks",
  over=["inputs", "histories"],
  why="No test exercises the check; whether two paths collide depends on every pair.",
  files=[ZD + "midpath_check.hpp"],
  mechanism=[("MidpathChecker: Check, GetCrossedPaths; CrossedPath: rerun", ZD + "midpath_check.hpp")],
  rule="A case is a list of up to twelve end points and start points in clusters, with distances a factor away from the tolerance on either side, some paths failed; checked one to four times with the same object on fresh data, in double and multiple precision. A pairwise recount decides. Distinct by description.",
  require=["checks passed", "checks with crossings", "crossings", "crossed paths to be tracked again", "crossed paths with the same start", "failed paths", "checks in double", "checks in multiple precision", "checks after another check"],
  assumptions=[], note="Distances within a factor of 1.5 of the tolerance, and end points at the origin, are not generated.")
P("Z03", harness="h_zerodim", title="Crossed paths are tracked again, and the stages of a solve follow their settings",
  statement="A solve first tracks each start point once, from the start time to the endgame boundary, with the tolerance set for that stage and the initial step size, however often it solved before. While the check at the boundary finds crossed paths, and for at most the number of attempts set, exactly those which crossed a path with another start point are tracked again from their start points, each attempt with a tolerance tightened once more by the factor set. What is recorded at the boundary is the verdict and the point of a path's last track. The endgame is then run for every path which got there, from that point, with the tolerance set for the endgame and the step size last used; no path which did not get there takes part.",
  text="every system, setting of tolerances, attempts, factors and boundary, and every pattern of crossings and failures, over repeated solves",
  over=["inputs", "configurations", "histories"],
  why="No test provokes a crossing; which paths are tracked again, and how, depends on the results of all of them.",
  files=[ZD + "zero_dim_solve.hpp", ZD + "midpath_check.hpp"],
  mechanism=[("ZeroDim: TrackBeforeEG, EGBoundaryAction, MidpathResolve, ShrinkMidpathTolerance, TrackDuringEG", ZD + "zero_dim_solve.hpp")],
  rule="A case solves a system with known roots two or three times with an observer on the tracker; from the second solve on, the tolerance for two paths being the same is put between two of the distances seen at the boundary, so that chosen pairs count as crossed; sometimes some paths lack steps. The trace of tracks (start, times, tolerance, step size, end) is checked against the specification, with the crossings recounted from the trace. Distinct by system and settings.",
  require=["attempts", "crossed paths tracked again", "crossings left after all attempts", "solves without crossings", "tracks in endgames", "paths which did not get to the boundary", "solves: adaptive", "solves: double", "solves: multiple"],
  assumptions=["Pairs within a thousandth of the tolerance are not judged.", MODEL_TRUST],
  technique="runtime monitoring: observer on the real solver's tracker, offline checker of the trace of tracks",
  note="Several thousand tracks per run. " + MODEL_TRUST)
P("B01", harness="h_blackbox", title="Runtime selection yields the algorithm asked for, and running it solves",
  statement="Asked at run time for a start system, a kind of tracker and an endgame, the selection yields the solver with exactly these parts, for each of the combinations; running it, through the interface common to all, solves the system given: every isolated root is reached by as many paths as its multiplicity and nothing is reported as a solution that is none. With a homotopy, start system and start points of the user's own, it is these that are used: one path for each start point given.",
  text="every combination of start system, tracker and endgame, every square polynomial system with isolated roots, every homotopy of the user's own",
  over=["inputs", "configurations"],
  why="The tests construct two of the combinations and look at none of them.",
  files=["core/include/bertini2/blackbox/switches_zerodim.hpp", "core/include/bertini2/blackbox/user_homotopy.hpp", "core/include/bertini2/blackbox/config.hpp", ZD + "common/policies.hpp"],
  mechanism=[("MakeZeroDim, ZeroDimSpecifyStart, ZeroDimSpecifyTracker, ZeroDimSpecifyEndgame", "core/include/bertini2/blackbox/switches_zerodim.hpp"), ("MakeUserHom", "core/include/bertini2/blackbox/user_homotopy.hpp"), ("RefToGiven", ZD + "common/policies.hpp")],
  rule="A case picks one of the 18 combinations and a system with known roots (for the user's homotopy: a total degree start system of our own making, with its start points); the dynamic type of the solver is compared with the one asked for, it is run through the common interface, and the results are judged as in Z01. Distinct by combination and system.",
  require=["start: total degree", "start: m-homogeneous", "start: user", "tracker: double", "tracker: multiple", "tracker: adaptive", "endgame: power series", "endgame: Cauchy", "paths to roots"],
  assumptions=["Systems are moderately conditioned.", MODEL_TRUST], note="All combinations occur in every run. " + MODEL_TRUST)

BH = "core/include/bertini2/"
P("N01", harness="h_num", title="Random numbers are random to the digits asked for",
  statement="A random number, real, complex or of modulus one, drawn or assigned, alone or in a matrix, lies where it should (the interval asked for, the square of side two about zero, the unit circle to its last digits), carries the precision asked for (the default precision if none is), and is random down to its last digits even where the default precision is lower; numbers drawn one after another differ, an interval is covered by the numbers drawn from it, and drawing leaves the default precision as it was.",
  text="every precision asked for, every default precision, every interval",
  over=["inputs", "histories"],
  why="Genericity, on which every probability-one guarantee of the solver rests, needs numbers with random digits at every precision; the tests draw a few at one precision.",
  files=[BH + "random.hpp", "core/src/basics/random.cpp", BH + "num_traits.hpp", BH + "eigen_extensions.hpp"],
  mechanism=[("RandomMp, RandomMpAssign", "core/src/basics/random.cpp"), ("RandomReal, RandomUnit, rand, rand_assign", BH + "random.hpp"), ("RandomOfUnits", BH + "eigen_extensions.hpp")],
  rule="A case is a pair of precisions (default and asked for, 16 to 700 digits, mostly about the sizes at which the generator changes) and an interval; every way to draw a number is used twice, and the monitor looks at precision, place, number of mantissa bits in use, repetition and the default precision afterwards. Distinct by precisions and interval.",
  require=["real numbers drawn", "complex numbers drawn", "unit numbers drawn", "more digits than the default", "fewer digits than the default", "numbers in intervals", "intervals seen covered", "random matrices", "integers and rationals"],
  note="Nothing is claimed about the distribution beyond coverage of the interval. The last 30 bits of a mantissa are all zero with a chance of 1e-9 per number.")

P("N02", harness="h_num", title="Numbers are kept, converted and compared faithfully",
  statement="A number saved and loaded, in text or binary, under whatever default precision, comes back with its value and its precision. Changing a number's or a matrix's precision gives every entry that precision, keeps the value when raising and rounds it when lowering; a matrix of mixed precision is recognised. A number made from a rational or from text at a precision is right to that precision whatever the default. Judging numbers as close, small, or much larger than one another, and triangular factors as free of vanishing pivots, follows the precision in use.",
  text="every value, precision and default precision",
  over=["inputs", "histories"],
  why="Adaptive precision moves every number between precisions all the time and ends in these few functions; the tests use one precision.",
  files=[BH + "mpfr_extensions.hpp", BH + "mpfr_complex.hpp", BH + "num_traits.hpp", BH + "eigen_extensions.hpp"],
  mechanism=[("serialization of numbers", BH + "mpfr_extensions.hpp"), ("Precision, PrecisionRequireUniform, IsSymmRelDiffSmall, IsSmallValue, IsLargeChange, LUPartialPivotDecompositionSuccessful", BH + "eigen_extensions.hpp"), ("NumTraits", BH + "num_traits.hpp")],
  rule="A case is a pair of numbers of random size and precision, a default precision and a precision to go to; each is saved, loaded, raised, lowered, made from a rational and from text, compared, and put into matrices, and the result compared exactly or to the last digit. Distinct by numbers and precisions.",
  require=["numbers saved and loaded", "loaded under a lower default", "precision raised", "precision lowered", "mixed matrices", "numbers from rationals", "numbers from text", "tolerances", "close numbers", "numbers apart", "triangular factors"],
  note="The thresholds for small and large are checked a few digits to either side of the documented ones.")

P("I04", harness="h_zerodim", title="The printed results of a solve are those computed",
  statement="The main and the raw text output of a solve list every path that has an end point, failed ones included, exactly once and in order, with its end point to its full precision and its time, norms, residuals, cycle number, multiplicity, precision and verdicts, the variables in their order and the systems, all readable back as what the solver holds; paths without an end point are left out. The solutions extracted in the user's coordinates are the end points dehomogenized, all of them or exactly the simple successful ones, in order, and so are they when printed. Printing and extracting leave the default precision as it was, whatever it was.",
  text="every system, arithmetic, precision and outcome of the paths",
  over=["inputs", "histories"],
  why="The tests only send the output to the terminal; nothing reads it back, and the points of one solve have different precisions and outcomes.",
  files=[ZD + "output.hpp", IO + "generators.hpp", ZD + "zero_dim_solve.hpp"],
  mechanism=[("Classic::MainData, RawData, EndPointDehom, AllSolutions, NonsingularSolutions", ZD + "output.hpp"), ("Classic::generate", IO + "generators.hpp")],
  rule="A case is a solve as for Z01, three in ten with too few steps allowed so that paths fail, followed by output and extraction under a random default precision; the harness reads the text line by line and compares it with the solver's results. Distinct by system and settings.",
  require=["results read back", "failed paths read back", "paths without a result left out", "simple solutions extracted", "end points in the user's coordinates read back"],
  note="Real quantities printed with the stream's default six digits are compared to 1e-5.")

P("E08", harness="h_expr", title="The printed form of an expression denotes that expression",
  statement="The text written for an expression, or for a derivative of one, read by the usual rules - powers before products and quotients before sums and differences, from left to right, a leading minus weaker than a power, pairs of numbers for complex numbers - denotes the same function of the variables, with every sign, quotient, exponent, named function and number as it is.",
  text="every expression over the whole operator set, however nested and built, and its derivatives",
  why="No test looks at what is printed; which parentheses are needed depends on every combination of operator and operand.",
  files=["core/src/function_tree/operators/arithmetic.cpp", "core/src/function_tree/operators/trig.cpp", "core/src/function_tree/symbols/number.cpp", "core/src/function_tree/roots/function.cpp"],
  mechanism=[("print of each node type, and the stream operator of nodes", "core/src/function_tree/operators/*.cpp")],
  rule="A case is a random expression (all operators, negative and complex numbers, nested powers, quotients and negations, named functions), printed, read by the harness's own reader, and evaluated at random points from what was read and from the expression; the same for derivatives. Distinct by text.",
  require=["texts of expressions read", "texts of derivatives read"],
  assumptions=[MODEL_TRUST], note="Numbers in floating point are printed with enough digits by the harness. " + MODEL_TRUST)
ALL_H = ["h_zerodim", "h_blackbox", "h_endgame", "h_track", "h_predict", "h_system", "h_start", "h_poly", "h_expr", "h_parse", "h_config", "h_num"]
MEM_RULE = "The cases are those of every other property - expressions, systems, start systems, texts, settings, predictors, corrector, trackers, endgames, solves, runtime selection, numbers - drawn with seeds of their own, the hostile ones (damaged texts, failing and diverging paths, changed precisions, copies, reused objects) included; a case counts once it ran to its end under the monitor. What the case's own oracle says is left to its own property here. Distinct by property and input."
MEM_FILES = ["core/include/bertini2/system/system.hpp", "core/src/system/straight_line_program.cpp", "core/include/bertini2/eigen_extensions.hpp", "core/include/bertini2/trackers/base_tracker.hpp", "core/include/bertini2/endgames/base_endgame.hpp", "core/include/bertini2/nag_algorithms/zero_dim_solve.hpp", "core/src/function_tree/linear_product.cpp", "core/include/bertini2/io/parsing/system_parsers.hpp"]
MEM_REQ = ["cases of the workload of " + k for k in ("E01", "E04", "E07", "S01", "S07", "S08", "I01", "I03", "T01", "T03", "T05", "G01", "G02", "Z01", "Z02", "B01", "O01", "N01")]
P("M01", harness=ALL_H, flavour="san", part={"quick": 0.02, "thorough": 0.5}, split={"h_zerodim": 8, "h_endgame": 8, "h_track": 8},
  title="No foreign memory touched, none lost, no undefined behaviour",
  statement="Whatever the input, the settings and the history of the objects involved, no operation of the library reads or writes outside the objects it works on, uses an object after its end, indexes a container beyond its size, dereferences a null pointer, overflows a signed integer, converts a number to an integer type which cannot hold it, or shifts out of range; nor does it end the process. What an operation allocates is released once the objects using it are gone.",
  text="every operation on every input, in every configuration, after every history of the objects involved",
  over=["inputs", "configurations", "histories"],
  why="The tests run without instrumentation, where most such errors go unnoticed, and on inputs chosen to work.",
  files=MEM_FILES,
  mechanism=[("memory of the straight line program, sample and coefficient matrices, caches of nodes", "core/src/system/straight_line_program.cpp, core/src/function_tree/linear_product.cpp")],
  rule=MEM_RULE, require=MEM_REQ, technique="sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer, with container assertions, over the workloads of all properties",
  assumptions=["The compiler's sanitizers report what they are documented to report; memory inside the multiprecision libraries, which are not instrumented, is seen through their allocations only."],
  note="Leaks are looked for after every sixth case and at the end, where the leak detector can run. Reads of uninitialised memory are M02's.")
P("M02", harness=ALL_H, valgrind=True, part={"quick": 0.002, "thorough": 0.02}, split={"h_zerodim": 6, "h_endgame": 6, "h_track": 6, "h_predict": 2, "h_config": 2, "h_num": 2},
  title="No decision or output depends on memory that was never written",
  statement="Whatever the input, the settings and the history of the objects involved, no branch taken, no address used and no byte written out by the library depends on the content of memory which nothing has been stored in: every member, setting and buffer is set before it is used.",
  text="every operation on every input, in every configuration, after every history of the objects involved",
  over=["inputs", "configurations", "histories"],
  why="A read of a forgotten member usually finds a harmless zero in a test's fresh memory; no test compares runs over different garbage.",
  files=MEM_FILES, mechanism=[("members of trackers, endgames, solvers, nodes and settings", "core/include/bertini2/trackers, core/include/bertini2/endgames, core/include/bertini2/nag_algorithms")],
  rule=MEM_RULE, require=MEM_REQ, technique="runtime monitoring: Valgrind's memcheck over the workloads of all properties",
  assumptions=["Memcheck's definedness tracking is exact for the code compiled here."],
  note="Each workload is sampled thinly, being some forty times slower under memcheck; also reports invalid accesses in the multiprecision libraries, which M01 cannot see.")
