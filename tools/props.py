AI = "abstract interpretation of LLVM IR over symbolic directed-rounding terms"
TR = ("Trusts clang's -O0 lowering, the abstract semantics in sa/engine.py and the entailment rules in sa/terms.py; "
      "overflow to infinity is read over the extended reals.")
PT = "The tests sample a few dozen operand pairs; the claim is over every pair of bounds, sign combination, infinity and policy."

p("C01", "Sums and differences enclose every pointwise result",
  "For non-empty operands, in every mix of intervals and scalars (and integers that the base type represents exactly), and in every "
  "form (binary, compound, self-aliased, explicit function on two scalars), the result of addition and subtraction contains x+y, "
  "respectively x-y, for every x and y in the operands. Infinite bounds are allowed; a result is always produced and never empty.",
  ["inputs", "configurations"], "every pair of non-empty operands, every sign/infinity combination of bounds, float, double and long double, directed rounding policies",
  PT, ["arith.hpp", "arith3.hpp", "ext/integer.hpp", "rounded_arith.hpp"],
  [("operator+ / operator-", "arith.hpp"), ("compound operators", "arith.hpp"), ("add/sub on two scalars", "arith3.hpp")],
  AI + "; polynomial entailment with ghost points per sign cell",
  "Proof for all real operands per sign cell, for an opaque rounding policy (contract only) and for the default policy's code. " + TR)

p("C02", "Products enclose every pointwise product",
  "For non-empty operands, in every mix of intervals, scalars and integers and in every form (binary, compound, self-aliased, explicit "
  "function on two scalars), the product contains x*y for every x and y in the operands, where 0 times an infinite bound counts as 0. "
  "A result is always produced and is neither empty nor NaN.",
  ["inputs", "configurations"], "every pair of non-empty operands over all 13 sign classes each, float/double/long double, directed rounding policies",
  PT, ["arith.hpp", "arith3.hpp", "ext/integer.hpp", "rounded_arith.hpp"],
  [("operator* case analysis", "arith.hpp"), ("mul on two scalars", "arith3.hpp")],
  AI + "; polynomial entailment with ghost points per sign cell",
  "Proof for all real operands per pair of sign cells, opaque and default rounding policies. " + TR)

p("C03", "Quotients enclose every pointwise quotient",
  "For non-empty operands whose divisor is not exactly [0,0], in every mix of intervals, scalars and integers and in every form (binary, "
  "compound, self-aliased, explicit function on two scalars), the quotient contains x/y for every x and every nonzero y in the operands. "
  "When the divisor contains zero the result is still an enclosure (possibly with infinite bounds), never empty or NaN.",
  ["inputs", "configurations"], "every pair of non-empty operands over all sign classes, divisors touching or straddling zero included",
  PT, ["arith.hpp", "arith3.hpp", "detail/division.hpp", "ext/integer.hpp"],
  [("operator/ dispatch", "arith.hpp"), ("div_* cases", "detail/division.hpp")],
  AI + "; polynomial entailment with ghost points per sign cell",
  "Proof for all real operands per pair of sign cells, opaque and default rounding policies. " + TR)

p("C04", "Two-piece division and inverse cover every quotient",
  "The two-piece division returns a first piece, a flag and, when the flag is set, a second piece such that every quotient x/y with y nonzero lies in "
  "one of the pieces; with the flag set the first piece is non-positive and the second non-negative; the flag is set exactly when the quotient set is two intervals. "
  "The multiplicative inverse contains 1/x for every nonzero x in its operand. Finite bounds of all these are correctly rounded quotients of operand bounds.",
  ["inputs", "configurations"], "every pair of non-empty operands over all sign classes (divisor not [0,0])",
  "The tests try a few operand pairs of one type; the case tree has more leaves than they visit and the claim quantifies over all reals.",
  ["detail/division.hpp", "arith2.hpp"], [("division_part1/division_part2", "arith2.hpp"), ("div_zero_part1/part2", "detail/division.hpp"),
                                          ("multiplicative_inverse", "arith2.hpp")],
  AI + "; ghost quotient must be in one of the pieces on every path", "Proof per pair of sign cells. " + TR)

p("C05", "Arithmetic operators give the tightest representable enclosure",
  "Under a correctly rounding policy, each bound returned by +, -, * and / (for / with divisors not containing zero) is the outward rounding of the exact "
  "extreme value of the operation over the operands, and is infinite only if that extreme value is.",
  ["inputs", "configurations"], "every pair of non-empty operands, all sign classes, interval/scalar/integer mixes and compound forms",
  "An over-wide enclosure passes every inclusion test; exact bounds are compared only for a handful of values.",
  ["arith.hpp", "detail/division.hpp", "rounded_arith.hpp"], [("operator case analyses", "arith.hpp"), ("rounded operations", "rounded_arith.hpp")],
  AI + "; each bound must be the rounding term of a corner of the exact range", "Proof per pair of sign cells. " + TR)

p("C06", "Square and square root: enclosure, domain and tightness",
  "square(x) contains v*v for every v in x and is never negative; sqrt(x) contains the root of every non-negative v in x, is non-negative, ignores the negative "
  "part of x and is empty when x is strictly negative. Their bounds are the outward roundings of the exact extreme values.",
  ["inputs", "configurations"], "every non-empty operand over all sign classes and infinite bounds",
  PT, ["arith2.hpp", "rounded_arith.hpp"], [("square, sqrt", "arith2.hpp")],
  AI + "; monotone-root and polynomial entailment", "Proof per sign cell. " + TR)

p("C07", "Integer power encloses every pointwise power",
  "pow(x,n) contains v^n for every v in x (every nonzero v when n is negative) and its bounds are, up to outward rounding, exact powers of the operand bounds or 0. "
  "pow(x,0) is [1,1], even powers are non-negative, and a negative power of [0,0] is empty.",
  ["inputs", "configurations"], "every non-empty operand over all sign classes and every integer exponent (exponents are enumerated, operands are symbolic)",
  "The tests use a few exponents on two operands; repeated squaring has distinct paths for each bit pattern of the exponent and each sign class.",
  ["arith2.hpp"], [("pow, pow_dn, pow_up", "arith2.hpp")],
  AI + "; exponent as constant partition", "Proof for every operand for each enumerated exponent (quick -9..19 and 31..33; thorough -40..128 and some larger); other exponents are not covered. " + TR)

p("C08", "Nth root encloses every real root",
  "nth_root(x,n) for n >= 1 contains every real t with t^n in x (every non-negative such t for even n), is non-negative for even n and empty for an even root of a strictly negative interval. "
  "It has an infinite bound only if x has.",
  ["inputs", "configurations"], "every non-empty operand over all sign classes, root degrees enumerated, every iteration count",
  "The tests check a few operands; the interval Newton iteration runs an unbounded number of rounded steps whose correctness is a loop invariant.",
  ["arith2.hpp"], [("nth_root, root_aux, root_aux_dn, root_aux_up", "arith2.hpp")],
  AI + " with a loop invariant for the interval Newton iteration", "Proof for each enumerated degree; termination is not decided. " + TR)

p("C09", "Interval fmod encloses x - n*y for one common integer n",
  "For finite x and a strictly positive divisor y (interval or scalar), fmod(x,y) contains a - n*b for every a in x and b in y, for the single integer n that is the floor of the (downward rounded) "
  "quotient of the lower bound of x by the matching bound of y; before outward rounding, the lower bound of the result is non-negative.",
  ["inputs", "configurations"], "every finite x, every strictly positive y, the three interval/scalar overloads",
  "Only two values are tested; an off-by-one in the direction of the quotient changes the period count for rare operands only.",
  ["arith2.hpp"], [("fmod overloads", "arith.hpp")],
  AI + "; ghost points and the integer atom floor(q)", "Proof per sign cell. " + TR)

p("C10", "Monotone transcendentals enclose the image of the interval",
  "exp, sinh, cosh, tanh, asinh and atan of a non-empty interval contain f(v) for every v in it, and each bound is the correctly directed value of f at the operand bound where f is extreme "
  "(for cosh, at the bound of largest magnitude and at the bound nearest to zero, or exactly 1 when zero is inside).",
  ["inputs", "configurations"], "every non-empty operand over all sign classes and infinite bounds, given a rounding policy with correctly directed functions",
  "Tests compare a few sample points; the claim needs the right bound in the right direction for every operand.",
  ["transc.hpp"], [("exp, sinh, cosh, tanh, asinh, atan", "transc.hpp")],
  AI + " with monotonicity facts of the elementary functions", "Proof relative to the Rounding concept's contract for elementary functions. " + TR)

p("C11", "Restricted-domain functions clip correctly and enclose the image",
  "log, asin, acos, acosh and atanh of an interval contain f(v) for every v of the interval in the domain of f, are empty when the interval misses the closed domain, and use the exact limit (or an "
  "enclosing constant) where the interval reaches beyond the domain; inside the domain each bound is the correctly directed value at the matching operand bound.",
  ["inputs", "configurations"], "every operand, partitioned by the position of its bounds relative to the domain ends",
  "Tests sample inside the domain; behaviour at, across and beyond each domain end is a case analysis over all bounds.",
  ["transc.hpp"], [("log, asin, acos, acosh, atanh", "transc.hpp")],
  AI + "; bounds partitioned by the domain ends", "Proof relative to the Rounding concept's contract for elementary functions. " + TR)

p("C12", "Sine, cosine and tangent enclose the image of every interval",
  "For every finite operand, whatever its width and magnitude, cos(x), sin(x) and tan(x) contain cos(v), sin(v), respectively tan(v) (where defined) for every v in x; "
  "sin and cos lie within [-1,1] and tan is the whole line when the operand may reach a pole.",
  ["inputs", "configurations"], "every finite operand; argument reduction by any number of periods; enclosures of pi that are not exact",
  "Tests sample a few widths near zero; period reduction, the reflection by pi and the monotone pieces are a case analysis over all reals.",
  ["transc.hpp", "constants.hpp", "arith2.hpp"], [("cos, sin, tan", "transc.hpp"), ("fmod", "arith.hpp"), ("pi constants", "constants.hpp")],
  AI + " with ghost reduction integer and an irrational ghost pi", "Proof relative to the Rounding concept's contract and the pi enclosure (C37). " + TR)

p("C13", "Rounded arithmetic classes round in the stated direction",
  "In each arithmetic rounding class (to-nearest-free 'standard' and 'opposite' variants, protected and unprotected, for float, double and long double), the downward operation of +, -, *, /, sqrt, integer rounding "
  "and conversion returns the downward rounding of the exact result, the upward operation its upward rounding, and the median a value rounded to nearest; the class leaves the processor in the mode it itself requires.",
  ["inputs", "configurations", "histories"], "every operand, every class, every sequence of operations of one rounding object (the mode is an explicit state)",
  "Tests observe one bit of a few results on one platform and cannot see which operations depend on a stale mode left by an earlier one.",
  ["rounded_arith.hpp", "detail/c99_rounding_control.hpp", "detail/c99sub_rounding_control.hpp", "rounding.hpp", "hw_rounding.hpp"],
  [("rounded_arith_std", "rounded_arith.hpp"), ("rounded_arith_opp", "rounded_arith.hpp"), ("save_state", "rounding.hpp")],
  AI + "; floating-point mode as a typestate", "Proof for every operand and every entry mode the class allows. Trusts IEEE-754 and fesetround. " + TR)

p("C14", "Rounded elementary functions evaluate in the stated direction",
  "In each elementary-function rounding class, the downward variant of every function evaluates the function so that the mathematical library is in downward mode (or exploits an odd symmetry in upward mode) and the upward variant likewise upward; "
  "the exact class adds no transformation. The class leaves the processor in the mode it itself requires.",
  ["inputs", "configurations", "histories"], "every argument, the 14 functions, both directions, both classes, float/double/long double",
  "No test calls most of these; a wrong direction is invisible unless a result happens to be inexact and checked.",
  ["rounded_transc.hpp"], [("rounded_transc_std/opp/exact", "rounded_transc.hpp")],
  AI + "; mode typestate at each library call", "Proof, assuming the library function rounds according to the current mode. " + TR)

p("C15", "Every operation leaves the caller's floating-point mode unchanged",
  "For every interval operation under state-saving rounding policies (the default ones), the processor rounding mode on exit equals the one on entry, on every path, including paths that leave by an exception.",
  ["inputs", "configurations", "histories"], "every public operation, every operand, every entry mode, normal and exceptional exits, float/double/long double",
  "Tests check the mode after a few successful calls; exceptional exits and rare branches are not observed.",
  ["rounding.hpp", "arith.hpp", "arith2.hpp", "transc.hpp", "utility.hpp", "interval.hpp"],
  [("save_state", "rounding.hpp"), ("rounding objects in each operation", "arith.hpp")],
  "typestate analysis of the floating-point mode over every IR path, exceptional ones included", "Proof over every abstract path. " + TR)

p("C16", "Rounding objects are alive around every rounded operation",
  "Under any rounding policy, each rounded operation an interval function performs is made through a policy object that is alive, or through the unprotected variant while a protecting object is alive; every object created is destroyed exactly once before return, also when an exception leaves the function, and an exception that a policy throws reaches the caller.",
  ["inputs", "configurations"], "every public operation, every operand class, opaque rounding policy, normal and exceptional exits",
  "The tests' policies do not record object lifetimes; a missing guard gives right results as long as the mode happens to be right.",
  ["arith.hpp", "arith2.hpp", "transc.hpp", "utility.hpp", "policies.hpp"], [("local rounding objects", "arith.hpp"), ("unprotect", "policies.hpp")],
  "typestate analysis of opaque rounding objects over every IR path", "Proof over every abstract path of the listed operations. " + TR)

p("C17", "Rounding operations are only called inside their domain",
  "For non-empty operands, no interval operation ever passes to the rounding policy a NaN, a bound of an empty interval, a zero divisor, infinity minus infinity, zero times infinity, a negative radicand or an argument outside the closed domain of an elementary function; the functions that reduce their argument by a period or modulus (fmod, sin, cos, tan), and width, median and bisect, owe this only for bounded operands, and fmod only for a positive modulus.",
  ["inputs", "configurations"], "every public operation, every non-empty operand over all sign classes and infinite bounds",
  "Out-of-domain calls give NaN only for the specific operands that reach them; tests avoid them.",
  ["arith.hpp", "arith2.hpp", "transc.hpp", "detail/division.hpp"], [("sign guards before each rounded operation", "arith.hpp")],
  AI + "; domain preconditions of the opaque Rounding concept", "Proof over every abstract path. " + TR)

p("C18", "Scalar and integer operands behave as point intervals",
  "For every operator and function with a scalar or integer operand overload, the result equals, bound for bound, that of the interval overload applied to the corresponding one-point interval, provided the scalar is a number.",
  ["inputs", "configurations"], "every interval operand (empty ones included), every scalar, every overload",
  "Each overload has its own code; tests compare a few values of a few overloads.",
  ["arith.hpp", "utility.hpp", "ext/integer.hpp", "arith2.hpp"], [("scalar overloads", "arith.hpp"), ("integer overloads", "ext/integer.hpp")],
  AI + "; relational: both versions interpreted from one state, bounds compared as terms", "Proof per sign cell. " + TR)

p("C19", "Compound forms equal binary forms, even aliased or when throwing",
  "x op= y leaves in x the value that x op y yields, also when y is x itself or refers to one of its bounds; re-assigning an interval from its own bounds stores exactly those bounds. "
  "If a compound operation or an assignment throws, the interval keeps its previous value.",
  ["inputs", "configurations", "fault_sequences"], "every operator, every operand class, aliasing of object and bounds, throwing checking policies",
  "Aliased references and exceptional exits are not exercised by the tests.",
  ["arith.hpp", "interval.hpp"], [("compound operators", "arith.hpp"), ("assign/set", "interval.hpp")],
  AI + "; relational comparison and exception-path store analysis", "Proof per sign cell. " + TR)

p("C20", "Construction and assignment store exactly the given interval",
  "Constructing or assigning from a scalar, a pair of bounds or an interval of the same base type stores precisely those bounds; NaN or reversed bounds and empty sources give the empty interval of the target (as its checking policy defines it). "
  "The default interval is [0,0], empty() is empty, whole() is unbounded, and hull of two scalars is their ordered pair, ignoring a NaN.",
  ["inputs", "configurations"], "every order of the bounds, NaN, infinities, every checking policy",
  "Tests construct a few values per policy; the behaviour is a case analysis on order, NaN and policy.",
  ["interval.hpp"], [("constructors, assignment, assign, hull", "interval.hpp")],
  AI + "; bounds partitioned by order, NaN and emptiness", "Proof over all orderings, opaque checking policy. " + TR)

p("C21", "Conversions between base types enclose the source value",
  "Constructing or assigning an interval from a scalar, a pair of scalars or an interval of another arithmetic type yields bounds that are the outward roundings of the source values, and an empty interval from an empty or NaN source.",
  ["inputs", "configurations"], "every source value of the integer and floating types, every target floating type, the default rounding policies",
  "A wrong direction shows only for values that the target type cannot represent; tests use representable ones.",
  ["interval.hpp", "rounded_arith.hpp"], [("converting constructors", "interval.hpp"), ("conv_down/conv_up", "rounded_arith.hpp")],
  AI + "; conversion terms under the floating-point mode typestate", "Proof for every source value. " + TR)

QC = "symbolic evaluation of each comparison over the finite set of orderings of the bounds, against a quantifier oracle"
QN = "Proof: exhaustive over all weak orderings of the bounds and emptiness, with symbolic bounds (branches depend on comparisons only). " + TR
p("C22", "Default comparisons are certain or throw",
  "x < y (and <=, >, >=, ==, !=), for intervals or numbers, returns true iff the relation holds for all pairs of points, false iff it holds for none, and throws comparison_error otherwise or when an operand is empty or NaN.",
  ["inputs", "configurations"], "all weak orderings of the bounds, emptiness, NaN, mixed policies, interval/number on the right",
  "Tests use a dozen interval pairs per operator.", ["interval.hpp"], [("comparison operators", "interval.hpp")], QC, QN)
p("C23", "Certain comparisons hold iff they hold for all pairs of points",
  "In the certain-comparison namespace each operator returns true iff the relation holds between every point of the first operand and every point of the second, and throws comparison_error when an operand is empty or NaN.",
  ["inputs", "configurations"], "all weak orderings of the bounds, emptiness, NaN, interval/number on the right, mixed policies",
  "Tests use a dozen interval pairs per operator.", ["compare/certain.hpp", "detail/test_input.hpp"], [("certain operators", "compare/certain.hpp")], QC, QN)
p("C24", "Possible comparisons hold iff some pair of points satisfies them",
  "In the possible-comparison namespace each operator returns true iff the relation holds between some point of the first operand and some point of the second, and throws comparison_error when an operand is empty or NaN.",
  ["inputs", "configurations"], "all weak orderings of the bounds, emptiness, NaN, interval/number on the right, mixed policies",
  "Tests use a dozen interval pairs per operator.", ["compare/possible.hpp", "detail/test_input.hpp"], [("possible operators", "compare/possible.hpp")], QC, QN)
p("C25", "Lexicographic comparisons are the total order on bound pairs",
  "In the lexicographic namespace each operator compares (lower, upper) lexicographically, a number counting as its point interval, so that exactly one of <, ==, > holds; empty or NaN operands throw comparison_error.",
  ["inputs", "configurations"], "all weak orderings of the bounds, emptiness, NaN, interval/number on the right, mixed policies",
  "Tests use a dozen interval pairs per operator.", ["compare/lexicographic.hpp", "detail/test_input.hpp"], [("lexicographic operators", "compare/lexicographic.hpp")], QC, QN)
p("C26", "Set comparisons are set inclusion, also for empty intervals",
  "In the set namespace <, <=, >, >=, ==, != between intervals mean strict inclusion, inclusion, their converses, set equality and its negation, the empty interval included as the empty set; comparing with a number throws comparison_error.",
  ["inputs", "configurations"], "all weak orderings of the bounds, emptiness, mixed policies",
  "Tests use a dozen interval pairs per operator; mixed policies do not even instantiate.", ["compare/set.hpp", "utility.hpp"], [("set operators", "compare/set.hpp"), ("subset, proper_subset, equal", "utility.hpp")], QC, QN)
p("C27", "Three-valued comparisons are true, false or indeterminate exactly",
  "In the tribool namespace each operator is true iff the relation holds for all pairs of points, false iff for none, indeterminate otherwise, and throws comparison_error when an operand is empty or NaN.",
  ["inputs", "configurations"], "all weak orderings of the bounds, emptiness, NaN, interval/number on the right, mixed policies",
  "Tests use a dozen interval pairs per operator.", ["compare/tribool.hpp", "detail/test_input.hpp"], [("tribool operators", "compare/tribool.hpp")], QC, QN)
p("C28", "Explicit comparison functions quantify over points as named",
  "cerlt, cerle, cergt, cerge, cereq, cerne return true iff the named relation holds for all pairs of points of their non-empty operands, and poslt ... posne iff it holds for some pair, for interval/interval, interval/number and number/interval.",
  ["inputs", "configurations"], "all weak orderings of the bounds, three operand shapes, mixed policies",
  "Tests use a dozen interval pairs per function and few of the number overloads.", ["compare/explicit.hpp"], [("cer*/pos* functions", "compare/explicit.hpp")], QC, QN)
p("C29", "Set predicates agree with set semantics",
  "in, zero_in, subset, proper_subset, overlap, singleton, equal and empty return what their names say about the operands as sets of reals, where NaN scalars and empty intervals contain nothing.",
  ["inputs", "configurations"], "all weak orderings of the bounds (and of 0), emptiness, NaN, mixed policies",
  "Tests use a dozen interval pairs per predicate.", ["utility.hpp"], [("predicates", "utility.hpp")], QC, QN)
p("C30", "Intersection and hull are the exact set operations",
  "intersect returns exactly the set of common points, empty if there is none or an operand is empty; hull, of intervals and numbers in any order, returns the smallest interval containing both operands, ignoring empty or NaN ones, and is empty only if both are.",
  ["inputs", "configurations"], "all weak orderings of the bounds, emptiness, NaN, the interval and number overloads",
  "Tests use a dozen interval pairs.", ["utility.hpp", "interval.hpp"], [("intersect, hull", "utility.hpp")], QC, QN)
p("C31", "Minimum, maximum, absolute value and norm are exact pointwise images",
  "min, max and abs return exactly the set of pointwise values (minimum, maximum of points of the operands; absolute value of points), in interval and number overloads, empty if an operand is empty or NaN; norm is the largest absolute value of a point and NaN for an empty interval.",
  ["inputs", "configurations"], "all weak orderings of the bounds, their negations and 0, emptiness, NaN, overloads",
  "Tests use a dozen interval pairs.", ["utility.hpp"], [("min, max, abs, norm", "utility.hpp")], QC, QN)
p("C32", "Width, median, widen and bisect bound what they measure",
  "width is upper-lower rounded up, so at least that (0 for empty), and median is (lower+upper)/2 rounded to nearest; widen(x,v) with v >= 0 contains every point within v of x; for bounded x whose bounds do not overflow when added, median lies in x and bisect returns two intervals sharing that point whose union is x; empty operands give 0, NaN or empty results as documented.",
  ["inputs", "configurations"], "every finite operand, rounding included, emptiness",
  "Tests use values for which every operation is exact.", ["utility.hpp", "rounded_arith.hpp"], [("width, median, widen, bisect", "utility.hpp")],
  AI + "; directed-rounding terms", "Proof for finite operands whose bound sum does not overflow. " + TR)
p("C33", "Empty and invalid operands propagate to empty results",
  "Every arithmetic, elementary and algebraic interval function returns an empty interval when an operand is empty or a NaN scalar, whatever the other operand is, as does division by exactly [0,0]; no rounding operation is evaluated on the bounds of an empty interval.",
  ["inputs", "configurations"], "every operation and overload, each operand empty/NaN in turn, other operand in every sign class",
  "Tests check emptiness for few functions; a missing input test yields NaN-dependent garbage only for empty operands.",
  ["detail/test_input.hpp", "arith.hpp", "arith2.hpp", "transc.hpp", "utility.hpp"], [("test_input", "detail/test_input.hpp"), ("guards in each operation", "arith.hpp")],
  AI + "; opaque empty-interval tokens", "Proof over all operand classes, opaque checking policy and the base policy. " + TR)
p("C34", "Checking policies classify and react as documented",
  "The base policy reports empty exactly when not lower <= upper and NaN exactly for NaN, and gives infinities and an empty pair that it itself reports as empty; the no-empty policies throw (by default runtime_error) when an empty interval is created and never report emptiness, "
  "the no-nan policies never report NaN, the catch-nan policies throw (by default invalid_argument) on NaN, and the strict policy combines no-nan with no-empty. A value that the base type lacks or the policy excludes is a failed assertion. Policies without a failing input do not throw.",
  ["inputs", "configurations"], "every bound value including NaN and infinities; base types with and without infinity/NaN; the documented compositions",
  "Tests cover a few values of a few compositions.", ["checking.hpp"], [("checking_* classes", "checking.hpp")],
  AI + " of each policy function over NaN, infinite and ordered symbolic bounds", "Proof over all values. " + TR)
p("C35", "Infinite and empty results come only from the checking policy",
  "Whenever an operation has to produce an infinite or empty bound that no rounded operation yields, the value is the one the checking policy supplies; in particular a user policy's infinities and empty interval appear unchanged in results.",
  ["inputs", "configurations"], "every operation and operand class, user-defined checking policies with arbitrary infinity and empty values",
  "The tests' policies all use the IEEE values, for which the origin of a bound is invisible.",
  ["arith.hpp", "arith2.hpp", "transc.hpp", "interval.hpp", "detail/division.hpp"], [("checking::pos_inf/neg_inf/empty_*", "detail/division.hpp")],
  "taint (provenance) analysis over IR with distinguished infinity and empty tokens", "Proof over every abstract path. " + TR)
p("C36", "Each platform's mode table maps every direction to its hardware code",
  "On every supported platform, selecting downward, upward, to-nearest and toward-zero writes the control word, or calls the system interface with the constant, that the platform defines for that direction, the remaining control bits are as documented, and saving then restoring the mode writes back what was read; rounding to an integer and forcing a value out of a wider register act in the value's own precision, once per direction.",
  ["configurations"], "the rounding-control implementations for C99, x86 (GCC, MSVC, Borland), x86 fast, PowerPC, SPARC, Alpha and IA-64",
  "The tests run on one platform; the other tables are never compiled by them.",
  ["detail/c99sub_rounding_control.hpp", "detail/x86_rounding_control.hpp", "detail/x86gcc_rounding_control.hpp", "detail/msvc_rounding_control.hpp", "detail/bcc_rounding_control.hpp",
   "detail/ppc_rounding_control.hpp", "detail/sparc_rounding_control.hpp", "detail/alpha_rounding_control.hpp", "detail/ia64_rounding_control.hpp", "ext/x86_fast_rounding_control.hpp"],
  [("rounding mode tables", "detail/x86_rounding_control.hpp"), ("system interface constants", "detail/sparc_rounding_control.hpp")],
  "effects on the control register in the constant-folded IR of each platform header (against stub system headers), compared with the architecture's encoding",
  "Decides the constants and calls, not the hardware behaviour; platforms are compiled with stub system headers.", level="other")
p("C37", "Pi constants are the tightest enclosures of pi, pi/2 and 2*pi",
  "For float and double, the provided enclosures of pi, pi/2 and 2*pi are the two adjacent representable numbers around the exact value; for long double and other types they are valid enclosures.",
  ["configurations"], "every base type with a specialisation, and the generic fallback; nine constants each",
  "A one-ulp error in a constant changes no existing test result.", ["constants.hpp"], [("pi tables", "constants.hpp")],
  "constant evaluation of the accessor functions from IR, compared with a 100-digit value of pi", "Proof by exact rational comparison of the folded constants. " + TR)
p("C38", "Operations only need the documented base-type operations",
  "Interval arithmetic, elementary functions, comparisons and set operations instantiate for a base type that offers only what the documentation requires (ordering, unary minus, conversion from int) with user rounding and checking policies that offer only the documented members; "
  "the predefined rounding and checking classes ask of the base type no more than the arithmetic operators, the named std functions and the named numeric_limits members.",
  ["programs", "configurations"], "every public function template with a minimal archetype base type and minimal archetype policies",
  "Tests instantiate with rich types (built-ins, rational) for which any extra requirement is invisible.",
  ["arith.hpp", "arith2.hpp", "utility.hpp", "transc.hpp", "compare.hpp"], [("templates over T and Policies", "interval.hpp")],
  "type-level witnesses: concept archetypes compiled with the type checkers only", "Decides compilation for the listed archetypes and functions.", level="other")
p("C39", "The whole documented interface instantiates, mixed policies included",
  "Every documented function, operator, overload, policy class and numeric_limits member compiles and is defined for float, double and long double, for mixed-policy operands where documented, and yields the documented type; what the interface excludes is rejected "
  "(writing through bounds, using an interval as a number, combining different policies or base types in one operation, integers and streams without their headers). Every public header compiles alone, in any order, provides what it documents without the other function headers, and in several translation units of one program.",
  ["programs", "configurations"], "every public declaration in the headers times the base types, eleven policy combinations, language versions and header orders",
  "Templates never instantiated by a test may not compile at all.", ["interval.hpp", "utility.hpp", "compare/set.hpp", "limits.hpp", "policies.hpp", "rounding.hpp"],
  [("public declarations", "utility_fwd.hpp")],
  "type-level witnesses and compile-fail witnesses (type checkers of two compilers), linkage of every definition", "Decides compilation, result types and linkage for the listed declarations.", level="other")
p("C40", "Operations have no hidden global state besides the FP mode",
  "No interval operation reads or writes any mutable global, static or thread-local object, or calls a function that does, other than the processor's floating-point environment, so concurrent operations on distinct intervals in different threads cannot interfere.",
  ["schedules", "configurations"], "every function reachable from the public interface, on every call path",
  "Races need a particular interleaving; tests are single threaded.", ["arith.hpp", "transc.hpp", "constants.hpp", "rounding.hpp", "detail/c99sub_rounding_control.hpp"],
  [("stateless functions and const tables", "constants.hpp")],
  "effect analysis over the call graph of the compiled IR", "Decides absence of global stores and mutable globals in every function reachable from the harness entry points.")
p("C41", "Stream output writes the bounds in order or the empty mark",
  "Writing an interval to a stream writes '[', the lower bound, ',', the upper bound and ']' in this order for a non-empty interval and '[]' for an empty one, and returns the stream.",
  ["inputs", "configurations"], "every interval, empty or not", "No test writes an interval.", ["io.hpp"], [("operator<<", "io.hpp")],
  AI + "; sequence of output calls on every path", "Proof over both classes of operand. " + TR)
p("C44", "Numeric limits of an interval type are intervals of the base type's limits",
  "For an interval type, std::numeric_limits gives min, max, lowest, epsilon and denorm_min as the point intervals of the base type's values, infinity as the whole line of the "
  "checking policy, quiet and signaling NaN as an empty interval, and the base type's constants except is_iec559 (false) and round_style (indeterminate).",
  ["configurations"], "every member of the specialisation, float, double and long double, every rounding and checking policy (opaque ones included)",
  "No test includes limits.hpp; the values depend on the policies the user supplies.", ["limits.hpp"], [("numeric_limits<interval>", "limits.hpp")],
  AI + "; stored bounds compared with the format's constants and the policy's tokens", "Proof per member and policy. " + TR)
p("C46", "Rounding objects nest, and unprotected intervals compute the same",
  "A rounding object created, used and destroyed while another of the same policy is alive disturbs neither: each member of the inner and, afterwards, of the outer object gives the result it gives alone, and so does the "
  "unprotected variant inside a live object. Likewise an operation on unprotect<I>::type inside a live rounding object of I, repeated or mixed with operations on I, has the bounds of the operation on I. "
  "On leaving, also by an exception, every object is destroyed and the rounding mode is the one at entry. (Bounded operands for fmod.)",
  ["inputs", "configurations", "histories"], "every member of the rounding classes in seven nestings, every operation, conversion and elementary function over all operands, state-saving and opaque policies, float/double/long double",
  "No test nests rounding objects of its own or compares the two types; a mode left wrong by an inner object only shows in the last bit of a later result.",
  ["rounding.hpp", "policies.hpp", "rounded_arith.hpp", "rounded_transc.hpp", "arith.hpp", "arith2.hpp", "transc.hpp", "interval.hpp"],
  [("save_state, save_state_unprotected", "rounding.hpp"), ("unprotect", "policies.hpp"), ("change_rounding", "policies.hpp")],
  AI + "; equality of the terms computed by the nested variants, mode typestate, liveness of rounding objects", "Proof over every abstract path; sin, cos, tan only for mode and liveness, nth_root not included. " + TR)
p("C42", "Library elementary functions are accurate in directed mode",
  "The elementary functions of the C mathematical library return a value on the requested side of the exact result when called in a directed rounding mode.",
  ["inputs", "configurations"], "every argument", "Tests sample a few points.", ["rounded_transc.hpp"], [("calls to the C library", "rounded_transc.hpp")],
  na="The functions are in the C library, not in this codebase; whether they respect the rounding mode is a numeric fact about their implementation that no static rule over /repo can decide.")
p("C43", "Every operation ends for every operand",
  "No operand makes an operation run forever: every function of the interface returns or throws after finitely many steps. The root iteration stops because its enclosure strictly shrinks, "
  "the periodic functions call themselves only on operands that get strictly closer to zero, and powers only count their exponent down.",
  ["inputs", "configurations"], "every operand, empty, infinite or NaN included, every policy, the exponents enumerated in DESIGN.md",
  "A hang needs an unlucky operand (an enclosure that stops shrinking, a large argument, an extreme exponent); tests sample a few.",
  ["arith2.hpp", "transc.hpp", "interval.hpp", "utility.hpp", "arith.hpp"], [("nth_root, pow", "arith2.hpp"), ("cos, sin, tan", "transc.hpp")],
  AI + "; ranking arguments for the iteration and the recursion", "Proof for every operand; exponents of pow and degrees of roots are enumerated. " + TR)
p("C45", "The nth-root enclosure is a few units in the last place wide",
  "The enclosure that the interval Newton iteration of nth_root stops with is a few units in the last place wide.",
  ["inputs"], "every operand and degree", "Tests sample a few operands.", ["arith2.hpp"], [("root_aux", "arith2.hpp")],
  na="Where the iteration stalls is a numeric fact about rounding errors in the last place of each step; the abstraction (real numbers with one-sided rounding atoms) has no error bound to derive it from.")
