#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a check in props.py)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

S = "src/tomsolver/"
T = {}


def P(pid, title, statement, over, text, why, files, mech, note):
    T[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files] + ["single/include/tomsolver/tomsolver.h"],
                               mechanism=[dict(name=a, where=S + b) for a, b in mech]), note=note)


P("C01", "Parsing builds the tree the expression grammar prescribes",
  "Parsing any well-formed expression text yields exactly the tree prescribed by the grammar: functions and prefix signs bind tightest, then %, then & and | (one level), then ^ (right associative), then * and /, then + and - (left associative), parentheses overriding. White space and redundant parentheses make no difference. Every node of the tree knows its parent.",
  ["inputs"], "every token sequence up to the bound and every expression with up to the bound's number of operators, operators, numbers and names symbolic",
  "The tests parse a few dozen fixed texts; precedence and associativity interact pairwise and three at a time, with unary signs in every place.",
  ["parse.cpp", "math_operator.cpp"], [("operator precedence conversion to postfix", "parse.cpp:InOrderToPostOrder"), ("tree building", "parse.cpp:BuildExpressionTree"), ("ranks and associativity", "math_operator.cpp:Rank, IsLeft2Right")],
  "bounded: token sequences of 4 tokens (thorough 5), byte strings of 3 bytes and of 2 bytes in 12 contexts (nested parentheses, long names), expressions with up to 3 binary operators (5 over one operator per precedence level), leaves and operators symbolic")
P("C02", "Parsing arbitrary text returns a tree or throws a documented error, safely",
  "For any text whatsoever, parsing either returns a non-empty, consistently linked expression or throws a parse error or a mathematical error derived from the standard runtime error. It never reads outside the text, crashes, aborts, or loops forever.",
  ["inputs"], "every byte string up to the bound, all 256 byte values",
  "Tests only feed a handful of malformed texts; the set of byte strings is unbounded and memory errors are invisible to value assertions.",
  ["parse.cpp", "parse.h", "node.cpp"], [("tokenizer", "parse.cpp:ParseToTokens"), ("error reporting", "parse.h:SingleParseError")],
  "bounded: every byte string of length <= 3 (thorough 4) and of 2 bytes in 12 contexts, also through the C string overload; each byte symbolic over 256 values; memory accesses checked by the engine")
P("C03", "Malformed expression text is always rejected",
  "Text that is not a well-formed expression - unbalanced parentheses, missing operands, adjacent operands without an operator, empty groups, misplaced functions - is never accepted: parsing throws. When one token of a well-formed expression is dropped, duplicated or replaced and the result is no longer well-formed, parsing throws.",
  ["inputs"], "every token sequence up to the bound that the grammar does not generate",
  "The tests check few malformed texts; a parser that silently accepts some malformed text gives a wrong model without any error.",
  ["parse.cpp"], [("operand/operator alternation and parenthesis balance", "parse.cpp:InOrderToPostOrder"), ("operand count check", "parse.cpp:BuildExpressionTree")],
  "bounded: token sequences of up to 4 tokens (thorough 5) over all token kinds; byte strings as for C01; single-token mutations of expressions with up to 3 operators")
P("C04", "Each word of an expression is read as the right number, function or name",
  "A word is read as a number exactly when it is a decimal literal with optional fraction and signed exponent whose value is representable (the other spellings of strtod - infinity, nan, hexadecimal - are left aside), with the value of correct decimal conversion, as a function exactly when it is one of the documented function names, and as a variable exactly when it is a legal name. Any other word is an error that reports the word's position. This holds wherever the word stands.",
  ["inputs"], "every word up to the bound over the word characters, in several contexts",
  "Tests use a few literals and names; prefixes, suffixes and near-misses of function names and literals form a large space.",
  ["parse.cpp", "node.cpp"], [("word classification", "parse.cpp:ParseToTokens/tryComfirmToken, isExponentSign, Str2Function"), ("name rule", "node.cpp:VarNameIsLegal")],
  "bounded: words of up to 3 word characters in any context, 4 over restricted alphabets, 2 behind 8, 80 and 300 fixed characters (thorough: 4-5); strtod's further spellings (infinity, nan, hexadecimal) are outside the claim")
P("C05", "An expression's value is the composition of its operators' meanings",
  "Evaluating an expression without variables returns the number obtained by applying each operator's documented meaning to its operands' values, left operand first; evaluating in place turns the expression into that single number. Evaluation that only reads leaves the expression unchanged; an expression with a variable has no value and raises a runtime error.",
  ["inputs"], "every operator tree up to the bound, every operator and every double",
  "Tests evaluate fixed expressions at fixed numbers.",
  ["node.cpp", "math_operator.cpp"], [("postfix evaluation", "node.cpp:VpaNonRecursively"), ("operator semantics", "math_operator.cpp:Calc"), ("in-place evaluation", "node.cpp:Calc")],
  "bounded: all trees with up to 2 operators (thorough 3), all operators, all finite doubles; libm functions are uninterpreted deterministic functions")
P("C06", "Invalid results raise the documented error exactly when configured to",
  "With error raising enabled (the default), evaluating an expression raises a mathematical error of the invalid-number kind exactly when some operation in it yields an infinity or a not-a-number, and leaves the expression unchanged. With it disabled evaluation never raises that error. Integer operators with a zero divisor or operands outside the integer range count as invalid and never crash.",
  ["inputs", "configurations"], "every operator tree up to the bound, every double, both configurations",
  "Tests probe a few singular points; the failing inputs of partial operators are sets of doubles.",
  ["math_operator.cpp", "config.h", "node.cpp"], [("invalid value test", "math_operator.cpp:Calc"), ("switch", "config.h:throwOnInvalidValue")],
  "bounded: all trees with 1 operator and trees with 2 operators over representative operators (thorough: all), all finite doubles")
P("C07", "Simplification never changes an expression's value",
  "For every expression and every assignment at which the original expression and all of its parts have a (finite real) value - 0^0 counts as having none - the simplified expression evaluates to the same value. Simplification leaves no variable that was not there before and keeps the tree consistently linked.",
  ["inputs"], "every operator tree up to the bound with variables, the constants 0, 1, 2, -1 and arbitrary numbers as leaves, every assignment of reals",
  "Tests simplify fixed expressions and compare text; the rewriting rules apply at every node and interact.",
  ["simplify.cpp"], [("rewriting rules", "simplify.cpp:SimplifySingleNode"), ("bottom-up traversal", "simplify.cpp:SimplifyWholeNode")],
  "bounded: trees with up to 2 operators over two variables and symbolic numbers, 3 with restricted operators (thorough all); values over the reals (exact arithmetic), transcendental functions uninterpreted with sound axioms")
P("C08", "Simplification folds a variable-free expression to its value",
  "Simplifying an expression that contains no variable and whose every operation has a finite value yields the single number that evaluating the original expression gives. Where an operation has no finite value simplification does not fail, and unless such an operation disappears as operand of a product, quotient or power with zero, evaluating the result still raises the invalid-number error.",
  ["inputs"], "every operator tree up to the bound, every double",
  "Tests fold a few fixed constants.",
  ["simplify.cpp", "math_operator.cpp"], [("constant folding", "simplify.cpp:Fold")],
  "bounded: trees with up to 2 operators, all finite doubles, bit-exact floating point")
P("C09", "The derivative's value is the true derivative",
  "Differentiating an expression with respect to a variable gives an expression whose value, wherever the original is differentiable and defined, equals the partial derivative of the original there; a power counts as differentiable where its base is positive, and with a number as exponent also wherever that power is smooth. This holds for every operator that can be differentiated, every variable, including variables that do not occur, and for all the other variables treated as constants.",
  ["inputs"], "every differentiable operator tree up to the bound, every real assignment inside the domain of differentiability",
  "Tests compare derivative texts for single operators; products, quotients and powers of operators and variables are only sampled.",
  ["diff.cpp", "simplify.cpp"], [("differentiation rules", "diff.cpp:DiffOnceOperator"), ("traversal", "diff.cpp:DiffOnce")],
  "bounded: trees with up to 2 operators with symbolic numbers, 3 over variables; checked against forward-mode (dual number) differentiation over the reals with uninterpreted transcendental functions")
P("C10", "A higher-order derivative is the repeated first derivative",
  "Asking for the i-th derivative gives an expression with the same value, wherever both have one, as taking the first derivative i times.",
  ["inputs"], "every differentiable tree up to the bound, order up to the bound",
  "The tests check one or two second derivatives as text.",
  ["diff.cpp"], [("order loop", "diff.cpp:Diff")],
  "bounded: trees with 1 operator orders 2-4 (5 and 6 over one variable), 2 operators orders 2-3; real arithmetic")
P("C11", "Differentiation fails cleanly and leaves its argument alone",
  "Differentiating an expression that contains an integer operator (&, |, %) throws a runtime error, any other expression is differentiated without any exception or crash, whatever constants it contains. The original expression is unchanged when it was passed as a named object, whether or not differentiation succeeds, and the result is independent of it.",
  ["inputs"], "every operator tree up to the bound, all operators, arbitrary constants",
  "Tests check the three integer operators at the root of one expression.",
  ["diff.cpp", "simplify.cpp"], [("unsupported operators", "diff.cpp:DiffOnceOperator"), ("copying overload", "diff.cpp:Diff")],
  "bounded: trees with 1 operator and symbolic numbers, 2 with constants, 3 with restricted operators (thorough: wider)")
P("C12", "Substitution is simultaneous, exact and independent of its arguments",
  "Substituting expressions or numbers for variables replaces every occurrence of exactly those variables, all at once - replacement text is not substituted again - and changes nothing else; all forms (one variable, lists, maps, table) agree. A named original and the replacements are unchanged, and the result shares nothing with them.",
  ["inputs"], "every tree and every set of replacements up to the bound",
  "Tests substitute numbers into a few expressions; swaps and self-referential replacements are not covered systematically.",
  ["subs.cpp", "subs.h"], [("replacement traversal", "subs.cpp:SubsInner"), ("overloads", "subs.cpp:Subs")],
  "bounded: trees with up to 2 operators, replacements with up to 1 operator for up to 3 variables, all five forms, copied and moved")
P("C13", "Operators on expressions copy named operands and consume moved ones",
  "Building expressions with operators, functions and compound assignments gives exactly the expression written: a named operand is copied and stays usable and unchanged, a moved one is left empty, results are independent of operands, and also x += x and the like work. Destroying or changing one expression never affects another.",
  ["histories"], "every history of operations up to the bound over a pool of expressions, any operator, any aliasing",
  "Tests use few fixed sequences; aliasing and ownership errors depend on the sequence.",
  ["node.h", "node.cpp", "functions.h"], [("copy or move of operands", "node.h:UnaryOperator, BinaryOperator, AssignBinaryOperator; node.cpp:CopyOrMoveTo"), ("deep copy", "node.cpp:CloneNonRecursively")],
  "bounded: histories of 2 operations (thorough 3) over 3 expression slots, all operators")
P("C14", "Structural equality means the same tree",
  "Two expressions compare equal exactly when they have the same shape, the same operators, the same variable names and numerically equal numbers in the same places. The comparison is reflexive and symmetric, also for copies.",
  ["inputs"], "every pair of trees up to the bound, operators, numbers and names symbolic",
  "Tests compare a few pairs.",
  ["node.cpp"], [("simultaneous traversal", "node.cpp:Equal")],
  "bounded: every pair of trees with up to 2 operators each (largest pair in thorough)")
P("C15", "Printing an expression and parsing it back gives the same expression",
  "For every expression, the printed text parses back without error to an expression with the same value at every assignment. Printing that gives the same text again, if the expression has no negative number in it (those are read back as a sign and a number), and from the second time on otherwise. Streaming an expression prints the same text.",
  ["inputs"], "every operator tree up to the bound, every operator, negative and positive numbers",
  "Tests print a few dozen fixed expressions; whether parentheses may be left out depends on every parent/child pair and side.",
  ["node.cpp", "parse.cpp", "config.cpp"], [("parenthesis rule", "node.cpp:ToStringNonRecursively"), ("grammar", "parse.cpp")],
  "bounded: trees with up to 3 operators from concrete symbols chosen by the solver; value equality over the reals")
P("C16", "Numbers print as the shortened 16-decimal text and never lose digits",
  "The text of a number is its 16-decimal fixed notation, or its 16-decimal scientific notation when the magnitude is at most 1e-16 or at least 1e16, from which only trailing zeros of the fraction, and the point if nothing follows it, are removed; zero prints as 0. The text parses back as a number.",
  ["inputs"], "every digit string the formatting primitive can return for a non-zero finite double",
  "Tests print a few numbers.",
  ["config.cpp"], [("trimming", "config.cpp:ToString")],
  "bounded: the C formatting primitive is replaced by its specification with symbolic digits; the trimming is decided for all digit patterns within the bound")
P("C17", "The reported variable names are exactly those that occur",
  "The set of variable names reported for an expression, or for a symbolic matrix or vector, contains exactly the names of the variables that occur in it.",
  ["inputs"], "every tree up to the bound, every name",
  "Tests check two expressions.",
  ["node.cpp", "symmat.cpp"], [("name collection", "node.cpp:GetAllVarNames; symmat.cpp:GetAllVarNames")],
  "bounded: trees with up to 3 operators over up to 8 names, vectors and matrices of up to 4 entries")
P("C18", "Exactly the legal names are accepted for variables",
  "A name is legal exactly when it is non-empty, starts with a letter or underscore and goes on with letters, digits and underscores. Creating a variable with a legal name gives a variable that prints as that name; with any other name it throws a runtime error.",
  ["inputs"], "every byte string up to the bound",
  "Tests try a few names.",
  ["node.cpp"], [("name rule", "node.cpp:VarNameIsLegal, Var")],
  "bounded: every byte string of up to 4 bytes (thorough 6), 2 bytes inside names of up to 303 characters, all 256 values per byte")
P("C19", "Matrix arithmetic follows its mathematical definition",
  "Construction, element access, rows and columns, sum, difference, negation, scalar and matrix product, transpose, row and column swaps, resizing and filling give, entry by entry, the result of the mathematical definition, for every size; operands are not changed. Rows of different length in a list are padded with zeros. The text lists the entries row by row.",
  ["inputs"], "every matrix up to the bound's size, symbolic entries",
  "Tests use a few fixed matrices, mostly square.",
  ["mat.h", "mat.cpp"], [("element layout and slices", "mat.cpp:Row, Col, Value"), ("product", "mat.cpp:operator*"), ("resize", "mat.cpp:Resize")],
  "bounded: sizes up to 3x3 (thorough 4x4), symbolic real entries; creation, transposition, rows and columns also over all doubles bit by bit")
P("C20", "Matrix reductions and comparisons follow their definition",
  "Norms (Norm2 is the sum of the squares of all entries, NormInfinity the largest and NormNegInfinity the smallest magnitude), minimum, dot product, element-wise products and quotients, the comparisons with a number and with another matrix or vector within the configured tolerance, the zero test, the all-less comparison and the row with the largest magnitude are those of the mathematical definition. Conversion to a vector works exactly for one column and throws a runtime error otherwise.",
  ["inputs", "configurations"], "every matrix up to the bound's size, symbolic entries and tolerance",
  "Tests use a few fixed matrices.",
  ["mat.cpp"], [("reductions", "mat.cpp:Norm2, NormInfinity, NormNegInfinity, Min, Dot"), ("comparisons", "mat.cpp:operator==, IsZero, AllIsLessThan")],
  "bounded: sizes up to 3x2 / vectors of 3, symbolic real entries")
P("C21", "Determinant, adjugate and inverse satisfy their defining equations",
  "The determinant equals the Leibniz sum, the adjugate times the matrix is the determinant times the identity, the inverse times the matrix is the identity in both orders, and inversion throws the singular-matrix error exactly when the determinant's magnitude is at most the tolerance. A matrix is reported positive definite exactly when all leading principal minors are positive.",
  ["inputs"], "every square matrix up to the bound's size, symbolic real entries",
  "Tests invert three fixed matrices.",
  ["mat.cpp"], [("cofactor expansion", "mat.cpp:Det, GetCofactor"), ("adjugate", "mat.cpp:Adjoint"), ("inverse", "mat.cpp:Inverse")],
  "bounded: n <= 3 (thorough 4), symbolic real entries, exact arithmetic")
P("C22", "Linear solving returns a vector that solves the system",
  "Whenever the linear solver returns, the returned vector has one entry per unknown and satisfies every equation of the system (exactly, in exact arithmetic, as long as no pivot is within the tolerance of zero without being zero); for an underdetermined system with indeterminate systems allowed it is a particular solution. The arguments of the caller are unchanged.",
  ["inputs", "configurations"], "every system up to the bound's size",
  "Tests solve a few fixed systems.",
  ["linear.cpp", "mat.cpp"], [("elimination with row pivoting", "linear.cpp:SolveLinear"), ("back substitution", "linear.cpp:SolveLinear")],
  "bounded: sizes up to 3x3 and 2x3, coefficients symbolic or enumerated small integers with symbolic right-hand sides, exact arithmetic")
P("C23", "Linear solving reports unsolvable and indeterminate systems as such",
  "More equations than unknowns are reported as over-determined; otherwise an inconsistent system is reported as singular, a square consistent one without full rank as having infinitely many solutions, and a consistent one with fewer equations than unknowns as indeterminate unless that is allowed. A solvable square system of full rank is never reported as an error. (In exact arithmetic; systems in which a pivot or a residual is within the tolerance of zero without being zero are outside the claim.)",
  ["inputs", "configurations"], "every system up to the bound's size, both settings",
  "Tests reach each error with one or two matrices.",
  ["linear.cpp"], [("rank classification", "linear.cpp:SolveLinear")],
  "bounded: sizes up to 3x3 and 2x3, 1x3, coefficients enumerated small integers, right-hand sides symbolic, exact arithmetic")
P("C24", "A variable table always agrees with itself",
  "After any sequence of constructions, copies and updates the names, the value vector, lookups by name, membership, iteration, size and printed text of a variable table describe one and the same mapping: names and value vector correspond position by position in the order of construction, iteration and text follow the order of the names. Looking up an unknown name throws. Tables compare equal exactly when they have the same names with values within the tolerance.",
  ["histories"], "every history of constructions and updates up to the bound, symbolic values",
  "Tests build two tables.",
  ["vars_table.cpp", "vars_table.h"], [("double bookkeeping", "vars_table.cpp:SetValues, constructors")],
  "bounded: tables of up to 3 names in every order, histories of up to 3 steps, symbolic values")
P("C25", "Symbolic matrix operations agree with evaluating entry by entry",
  "Building, copying, subtracting, multiplying, substituting, evaluating, converting and comparing symbolic matrices and vectors give the expressions whose values are those of the numeric operation on the evaluated operands; copies are independent. Size mismatch of a product and conversion of an entry that is not a number or of a matrix with several columns to a vector throw.",
  ["inputs"], "every symbolic matrix up to the bound's size, symbolic entries and values",
  "Tests multiply one or two fixed matrices.",
  ["symmat.cpp"], [("operations", "symmat.cpp:operator*, operator-, Subs, Calc, ToMat")],
  "bounded: sizes up to 2x3 times 3x2, entries variables or numbers or one operator, real arithmetic")
P("C26", "The Jacobian's entries are the partial derivatives",
  "Entry (i,j) of the Jacobian of a system is the derivative of the i-th equation with respect to the j-th given variable, for every number of equations and every list and order of variables. If an equation contains an operator that cannot be differentiated a runtime error is thrown; the equations are unchanged.",
  ["inputs"], "every system up to the bound, every order and number of variables",
  "Tests compute two Jacobians.",
  ["symmat.cpp", "diff.cpp"], [("row-major generation", "symmat.cpp:Jacobian")],
  "bounded: up to 3 equations and 3 variables, each equation one operator")
P("C27", "A result of the Newton solver is a solution, and the solver always stops",
  "Whenever the Newton solver returns, every equation evaluated at the returned table is within the tolerance of zero, and the table holds exactly the given variables. It gives up with an error after the configured number of iterations instead of going on forever, its argument is unchanged.",
  ["inputs", "configurations"], "every start value, tolerance and iteration limit within the bounds, for families of equations with symbolic coefficients",
  "Tests solve fixed systems that converge.",
  ["nonlinear.cpp"], [("stopping test and iteration limit", "nonlinear.cpp:SolveByNewtonRaphson")],
  "bounded: 14 families of systems of 1-2 equations; symbolic coefficients, start and tolerance over the reals with limits 0-1, chosen coefficients and starts in floating point with a symbolic tolerance with limits 2 and 8 (transcendental functions uninterpreted or concrete)")
P("C28", "A result of the damped solver is a solution, and the solver always stops",
  "Whenever the damped least-squares solver returns, every equation evaluated at the returned table is within the tolerance of zero, and the table holds exactly the given variables. It gives up with an error after the configured number of iterations instead of going on forever, its argument is unchanged.",
  ["inputs", "configurations"], "every start value, tolerance and iteration limit within the bounds, for families of equations with symbolic coefficients",
  "Tests solve fixed systems that converge.",
  ["nonlinear.cpp"], [("stopping test and iteration limit", "nonlinear.cpp:SolveByLM")],
  "bounded: 14 families of systems of 1-2 equations; symbolic coefficients and start over the reals with limits 0-1 for the easy ones, chosen coefficients and starts in floating point with a symbolic tolerance with limits 2 and 6")
P("C29", "Newton solves an affine system in one step from any start",
  "For every affine system with an invertible coefficient matrix the Newton solver returns the exact solution after one step, whatever the start values, which are taken name by name from the given table in whatever order it lists them.",
  ["inputs"], "every start vector, symbolic right-hand sides, coefficient matrices within the bound",
  "Tests start from one fixed point.",
  ["nonlinear.cpp", "linear.cpp", "symmat.cpp"], [("Newton step", "nonlinear.cpp:SolveByNewtonRaphson")],
  "bounded: 1 to 3 unknowns, integer coefficient matrices chosen by the solver, symbolic start and right-hand side up to 1e12, exact arithmetic")
P("C30", "Solving dispatches on the configuration and starts from the stated values",
  "Solving uses the configured method; with no table every variable starts at the configured initial value, with a table exactly at the table's values; an unknown method value throws a runtime error. The result is the same as calling the method directly.",
  ["inputs", "configurations"], "every initial value, every method value including invalid ones",
  "Tests use the default configuration and one other value.",
  ["nonlinear.cpp", "config.h"], [("dispatch", "nonlinear.cpp:Solve")],
  "bounded: one- and two-variable families; start values symbolic")
P("C31", "Line search stops and returns a step that meets its condition",
  "The backtracking line search returns a power of one half at which the sufficient-decrease condition holds or zero steps are left, and no larger tried power satisfies it; it stops for every function. The secant line search stops for every function within its iteration limit.",
  ["inputs"], "every scalar function value sequence within the bound",
  "Tests search along one function.",
  ["nonlinear.cpp"], [("backtracking", "nonlinear.cpp:Armijo"), ("secant", "nonlinear.cpp:FindAlpha")],
  "bounded: functions of 1-2 variables given by up to 8 arbitrary values along the direction, constant afterwards; odd values (nan, infinities) for termination")
P("C32", "Deep expressions are handled without deep recursion",
  "Parsing, copying, comparing, evaluating, printing, simplifying, substituting, listing names, differentiating, and destroying need a call depth that does not grow with the depth of the expression, so expressions of any depth are handled without exhausting the stack.",
  ["inputs"], "every operator choice along deep left-, right- and alternating chains; depths n and 2n",
  "Tests build random trees of a few thousand nodes for some operations, on one shape.",
  ["node.cpp", "parse.cpp", "simplify.cpp", "subs.cpp"], [("explicit stacks", "node.cpp:Release, Equal, CloneNonRecursively, VpaNonRecursively, ToStringNonRecursively")],
  "bounded: chains of 32 and 64 operators (16 and 32 for parsing and differentiation) leaning left, right, unary and mixed, operators chosen by the solver; the executor counts call frames, and the longer chain may need at most half a frame per additional operator more")
P("C33", "No operation leaks memory or keeps freed memory",
  "After any sequence of operations, including ones that fail with an error, all memory of the expressions, matrices and tables that no longer exist has been released exactly once.",
  ["inputs", "histories"], "every operation on every operand up to the bound, with success and with every error",
  "Tests count allocations for a few fixed operations.",
  ["node.cpp", "parse.cpp", "diff.cpp", "simplify.cpp"], [("ownership by unique pointers", "node.h:Node")],
  "bounded: each of 19 operation classes on symbolic arguments (one operator, texts of up to 2 bytes or 3 tokens, 2x2 matrices); the number of live allocations is compared before and after the second run on the same arguments")
P("C34", "Only an explicit change alters the configuration; reset restores it",
  "Resetting restores every setting to its documented default from any state. No library operation, successful or failing, changes any setting. The log level changes no result.",
  ["configurations", "histories"], "every configuration state, every operation class, success and failure",
  "Tests reset once.",
  ["config.h", "config.cpp"], [("reset", "config.cpp:Reset"), ("single instance", "config.cpp:Get")],
  "bounded: every setting symbolic for reset; each of 19 operation classes once with symbolic arguments (one operator, texts of 2 bytes or 3 tokens) and symbolic settings, the log level at 4 values for the solvers")
P("C35", "Errors carry their kind, their text and their position",
  "Every mathematical error reports the kind it was made with and the text of that kind, followed by the extra information in quotes if there is any; different kinds have different non-empty texts. Every error of parsing one word or parenthesis carries the byte offset of the offending token, and its message shows the text with a marker under that offset.",
  ["inputs"], "every kind, every extra text up to the bound, every malformed text up to the bound",
  "Tests compare few messages.",
  ["error_type.cpp", "parse.h", "parse.cpp"], [("message building", "error_type.cpp:MathError; parse.h:SingleParseError")],
  "bounded: all kinds, extra texts of up to 5 bytes, malformed texts of up to 5 bytes over operators, parentheses, white space, digits, letters and bytes above 127")


def main():
    have = [p for p in T if p in props.PROPS]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in have:
            d = {k: v for k, v in T[p].items() if k != "note"}
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/check.py setup", checks=[], not_applicable=NA)
    for p in have:
        if p in [n["property"] for n in NA]:
            continue
        m["checks"].append(dict(property=p, quick_cmd="python3 tools/check.py %s --tier quick" % p,
                                thorough_cmd="python3 tools/check.py %s --tier thorough" % p,
                                technique="symbolic execution of the library's LLVM bitcode, each branch and assertion decided by Z3, counterexamples replayed natively",
                                level="model_checking", level_note=T[p]["note"]))
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = []
if __name__ == "__main__":
    main()
