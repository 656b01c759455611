IN = ["inputs", "configurations"]

prop("C01", "Add and Sub return the exact sum or difference, rounded once",
 "For finite operands of any length and exponent, addition and subtraction return the exact mathematical result rounded exactly once to the context's precision in its rounding mode (unlimited precision: unrounded), with the exponent and zero sign the General Decimal Arithmetic specification prescribes. The receiver's conditions become its previous ones plus exactly those of this operation (Inexact, Rounded, Overflow, Underflow, Subnormal, Clamped).",
 IN, "all finite operands (coefficients of any length, including the 64-bit boundary), all precisions and seven rounding modes, any aliasing of receiver and operands, any previous receiver content",
 FIXED + " Operands whose digits interact only through cancellation, borrow or a far-away sticky digit are sampled by a handful of vectors.",
 ["big_ctx.go", "util.go", "internal/arith"],
 [("addition paths: 64-bit, mixed, big and far-apart operands", "big_ctx.go"), ("rounding and range check after the exact sum", "util.go")],
 "property-based testing: differential against an exact model", MODEL, ["Context.Add", "Context.Sub", "Big.Add", "Big.Sub"])

prop("C02", "Mul and FMA round the exact product, or product plus addend, only once",
 "For finite operands, multiplication returns the exact product rounded once, and fused multiply-add returns x*y+u rounded once with no rounding of the intermediate product. Exponent, zero sign and conditions follow the specification, whatever the aliasing and whatever conditions or value the receiver already held.",
 IN, "all finite operands, precisions, rounding modes and aliasing patterns; addends that cancel all or nearly all of the product",
 FIXED + " That the product is not rounded first only shows when the addend cancels its leading digits.",
 ["big_ctx.go", "internal/arith"],
 [("128-bit and big products", "big_ctx.go"), ("temporary receiver when the addend is the receiver", "big_ctx.go")],
 "property-based testing: differential against an exact model", MODEL, ["Context.Mul", "Context.FMA"])

prop("C03", "Quo is the correctly rounded quotient",
 "For finite operands and a non-zero divisor, division returns the exact quotient rounded once to the precision in the rounding mode; an exact quotient has the exponent closest to the ideal one (x's exponent minus y's), and Inexact and Rounded are raised exactly when digits were lost. At unlimited precision a terminating quotient is exact and a non-terminating one is NaN.",
 IN, "all finite operands, precisions, rounding modes, exponent ranges and aliasing patterns; exact, terminating, tie and all-nines quotients",
 FIXED + " Ties and carries of long quotients need operands constructed for them.",
 ["big_ctx.go", "util.go"],
 [("scaling so that the integer quotient has the right number of digits", "big_ctx.go"), ("rounding from the remainder", "big_ctx.go"), ("reduction toward the ideal exponent", "big_ctx.go")],
 "property-based testing: differential against an exact model", MODEL, ["Context.Quo", "Big.Quo"])

prop("C04", "QuoInt, Rem and QuoRem satisfy x = q*y + r",
 "For finite x and non-zero y whose integer quotient fits the precision, integer division truncates toward zero, the remainder has x's sign and a magnitude below |y|, and x = q*y + r holds exactly before the remainder is rounded; QuoRem returns the same pair as the two separate operations. A quotient that does not fit is NaN with DivisionImpossible.",
 IN, "all finite operands, including quotients of exactly precision and precision+1 digits, fractional remainders, and receivers that are one of the operands",
 FIXED + " QuoRem has a single test, and aliasing with an operand none.",
 ["big_ctx.go"],
 [("joint integer quotient and remainder", "big_ctx.go"), ("length check of the quotient", "big_ctx.go")],
 "property-based testing: differential against an exact model", MODEL, ["Context.QuoInt", "Context.Rem", "Context.QuoRem"])

prop("C05", "Quantize, Round, RoundToInt, Ceil, Floor and Reduce round exactly",
 "Quantize returns the value with exactly the requested scale (or NaN if it does not fit the precision), Round at most the requested number of digits, RoundToInt, Ceil and Floor an integral value, each correctly rounded in the mode in force; Reduce rounds to the precision and removes every trailing zero. Conditions are raised exactly as specified.",
 IN, "all finite values and targets: rounding away all digits, carries of all nines, ties, targets outside the exponent range",
 FIXED + " Quantize and Reduce work in place on 64-bit and big coefficients with different code.",
 ["big_ctx.go", "util.go", "big.go"],
 [("digit shifting with rounding", "big_ctx.go"), ("trailing zero removal", "big_ctx.go")],
 "property-based testing: differential against an exact model", MODEL, ["Context.Quantize", "Context.Round", "Big.Round", "Context.RoundToInt", "Context.Ceil", "Context.Floor", "Context.Reduce"])

prop("C06", "Sqrt is correctly rounded and Hypot is accurate",
 "The square root of any non-negative decimal is the exact root rounded half-even to the precision, an exact root has the ideal exponent and raises neither Inexact nor Rounded unless digits were dropped; the root of a negative number is NaN with InvalidOperation. Hypot is within 0.8 units in the last place of sqrt(p*p+q*q) in the rounding modes that round to nearest and 1.3 in the directed ones.",
 IN, "all operands, including perfect squares, their neighbours and squares of rounding ties, all precisions",
 FIXED + " Near-ties of a square root occur once in many millions of random operands.",
 ["big_ctx.go"], [("square root", "big_ctx.go"), ("sum of squares with an extra digit", "big_ctx.go")],
 "property-based testing: differential against an exact model", MODEL, ["Context.Sqrt", "Context.Hypot"])

prop("C07", "Results stay within the context's exponent range",
 "A result whose adjusted exponent would exceed the maximum overflows to infinity, or to the largest finite number where the rounding mode points toward zero; one below the minimum becomes subnormal, rounded once at the smallest exponent, or zero. Overflow, Underflow, Subnormal, Clamped, Inexact and Rounded are raised exactly as the specification says, and no result has more digits or a larger or smaller exponent than the context allows.",
 IN, "all operations, operands and contexts whose result lies around either end of the exponent range, for decimal32, decimal64, decimal128 and arbitrary ranges",
 FIXED + " Double rounding of subnormals and carries into overflow depend on operand, mode and limits together.",
 ["util.go", "big_ctx.go", "context.go"], [("range check of a result", "util.go"), ("rounding after the range check", "big_ctx.go")],
 "property-based testing: differential against an exact model", MODEL)

prop("C26", "NextPlus and NextMinus return the adjacent representable numbers",
 "NextPlus returns the smallest representable number greater than x and NextMinus the largest one smaller, for any x whether or not x itself is representable, without changing the receiver's conditions other than for signaling NaNs. For representable x each undoes the other.",
 IN, "all values around zero, powers of ten and both ends of the exponent range, in every context",
 FIXED, ["big_ctx.go", "misc/misc.go"], [("step by a number below the smallest representable one with directed rounding", "big_ctx.go")],
 "property-based testing: differential and metamorphic", MODEL, ["Context.NextPlus", "Context.NextMinus"])

prop("C08", "Conditions are sticky, stay with the receiver, and Err reports trapped ones",
 "Every operation only adds conditions to its receiver's context, never removes one and never changes an operand's; after any sequence of operations the receiver holds exactly the union of what each raised. Context.Err is nil unless a trapped condition is set, and otherwise is a Condition holding exactly the trapped ones, whose text names each of them.",
 IN + ["histories"], "all sequences of operations on one receiver, all trap masks, all 2^13 condition sets",
 FIXED + " Vectors check one operation at a time on a fresh receiver.",
 ["context.go", "big_ctx.go"], [("Conditions |= at each raise", "big_ctx.go"), ("Err", "context.go"), ("Condition.String", "context.go")],
 "property-based testing: model-based histories", MODEL, ["Context.Conditions", "Context.Err", "Condition.String"])

prop("C09", "NaN, infinity and zero operands follow the specification everywhere",
 "Every operation and elementary function with an infinite, NaN or zero operand gives the result and conditions the General Decimal Arithmetic specification defines: quiet NaNs propagate with their sign and without InvalidOperation, signaling NaNs raise it, undefined combinations are NaN with InvalidOperation or a division condition, signs of zero and infinity follow the rules. No such operand makes an operation panic.",
 IN, "all operations times all combinations of special and ordinary operands, receivers and contexts",
 FIXED + " Combinations of special values with aliasing and used receivers are not sampled.",
 ["big.go", "big_ctx.go"], [("checkNaNs and the per-operation special cases", "big_ctx.go")],
 "property-based testing: differential against a table of special values", MODEL, ["every Context method"])

prop("C10", "Cmp and CmpAbs order by numeric value",
 "For all numbers, Cmp and CmpAbs return the sign of the exact difference (of magnitudes), independent of representation, exponent distance and coefficient length, treat infinities as extremes and both zeros as equal, and modify neither operand. The order is antisymmetric and transitive, and Max, Min, MaxAbs and MinAbs return an extreme element; NaN operands never panic.",
 IN, "all pairs and triples of numbers, especially equal values with different exponents and values differing in a far digit",
 FIXED + " Order laws quantify over pairs and triples.",
 ["big.go", "misc/misc.go"], [("cmp: adjusted exponent, then scaled coefficients", "big.go")],
 "property-based testing: differential and algebraic laws", MODEL, ["Big.Cmp", "Big.CmpAbs", "Max", "Min"])

prop("C11", "CmpTotal and CmpTotalAbs implement the total order",
 "CmpTotal is a total order on all representations: -NaN < -sNaN < -Inf < finite < Inf < sNaN < NaN (payloads aside), equal values ordered by exponent (reversed for negatives), -0 below 0. It is 0 only for identical representations (or NaNs of the same kind), antisymmetric and transitive; CmpTotalAbs is the same on absolute values and neither changes its operands.",
 IN, "all pairs and triples of representations including zeros with exponents and NaNs with payloads",
 FIXED, ["big.go", "misc/misc.go"], [("ordering classes", "big.go"), ("exponent tie-break", "big.go")],
 "property-based testing: differential and algebraic laws", MODEL, ["CmpTotal", "CmpTotalAbs", "misc.CmpTotal"])

prop("C12", "Formatting and parsing round-trip exactly",
 "Any decimal written by String, %s, Scientific formatting, MarshalText or a Compose-independent text path and read back by SetString, UnmarshalText or fmt scanning with enough precision is the identical representation: sign, coefficient, exponent, infinity and NaN kind with payload. Scanning from a stream reads exactly the numbers delivered before a read error, reports that error, and takes no number it cuts short. SetString through a Context rounds exactly once.",
 IN, "all representations: any coefficient, exponents to the library limits, signed zeros, NaN payloads, and every context",
 FIXED + " The round trip couples formatter and parser over all exponents and coefficient sizes.",
 ["format.go", "scan.go", "big.go"], [("scientific and plain layout", "format.go"), ("mantissa and exponent scanner", "scan.go")],
 "property-based testing: round trip", MODEL, ["Big.String", "Big.SetString", "Big.MarshalText", "Big.UnmarshalText", "Big.Scan"])

prop("C13", "SetString accepts exactly the documented grammar",
 "SetString, UnmarshalText and Context.SetString accept every string of the numeric grammar (sign, digits with an optional point, exponent, inf/infinity, nan/snan with diagnostic digits, any letter case) with the exact value and reject every other string with ok=false or ConversionSyntax, without panicking. Exponents too large for the library give Overflow or Underflow results.",
 IN, "all byte strings; especially near-misses of the grammar, long digit strings and huge exponents",
 "Tests hold a dozen valid strings and a few invalid ones; the grammar quantifies over all strings.",
 ["scan.go", "big.go"], [("state of the scanner: sign, special, mantissa, exponent", "scan.go")],
 "property-based testing: grammar-based generation and mutation against a reference parser", MODEL, ["Big.SetString", "Context.SetString"])

prop("C14", "Format verbs, flags, width and precision give the correctly rounded text",
 "fmt verbs %s %d %e %E %f %F %g %G %v %q with every combination of flags, width and precision produce the text of x rounded once in x's rounding mode, padded as fmt specifies; any other verb prints fmt's %!verb(type=value) form, and a nil number <nil>. Formatting changes neither the number nor its conditions.",
 IN, "all numbers times all verbs, flags, widths and precisions",
 "Tests hold a small table of formats; rounding carries and padding with signs need specific combinations.",
 ["format.go", "big.go"], [("rounding before layout", "format.go"), ("padding and flags", "format.go")],
 "property-based testing: differential against a reference formatter", MODEL, ["Big.Format", "Big.String"])

prop("C15", "Conversions to and from integers and rationals are exact",
 "Int truncates towards zero exactly; Int64 and Uint64 report ok exactly when the integral part fits their type and then return it; Rat is the exact value; SetMantScale, New, SetUint64 and SetBigMantScale store exactly the given coefficient and scale; SetRat gives the correctly rounded quotient of numerator and denominator with its conditions. Arguments are left unmodified and results share no storage with the number or with the package's constants.",
 IN, "all coefficients and scales, including the limits of int64 and uint64 reached by truncation, and all receivers",
 "Tests convert a few numbers; the limits of a type are reached through many representations (fractions, trailing zeros, big coefficients).",
 ["big.go", "big_ctx.go"], [("range tests on the integral part", "big.go"), ("power-of-ten scaling shared with the power table", "internal/arith/pow.go")],
 "property-based testing: differential against exact integer and rational arithmetic", MODEL, ["Big.Int", "Big.Int64", "Big.Uint64", "Big.Rat", "Big.SetRat", "Big.SetMantScale", "Big.SetUint64", "Big.SetBigMantScale"])

prop("C16", "Conversions to and from binary floating point are correctly rounded",
 "Float64 returns the nearest float64 (ties to even, infinities and zeros beyond the range) of the exact decimal value and never claims ok for an out-of-range one nor denies it to one it stores exactly, if that has at most 53 bits and a small scale or is a power of two below 2^64; Float rounds once to the receiver's precision and mode; SetFloat64 and SetFloat store exactly the value given, sign and special values included. None of them modifies its argument.",
 IN, "all decimals, including exact and near midpoints of two floats, denormals and the ends of the range; all bit patterns of float64; big.Floats of any precision",
 "Tests sample a few floats; wrong double rounding shows only near midpoints and in the denormal range.",
 ["big.go"], [("fast paths for short coefficients and small scales", "big.go"), ("exact scaling", "big.go")],
 "property-based testing: differential against strconv and math/big on constructed midpoints", MODEL, ["Big.Float64", "Big.Float", "Big.SetFloat64", "Big.SetFloat"])

prop("C17", "Compose and Decompose are exact inverses and share no storage",
 "For every number whose exponent fits in 32 bits, Compose(Decompose(x)) yields the same sign, coefficient and exponent in any receiver, regardless of the buffer passed and of leading zero bytes; exponents that do not fit panic, unknown forms give an error, and infinities and NaNs are preserved as such. The coefficient slice is shared with neither number, and arguments are not modified.",
 IN, "all numbers, buffers of every capacity, coefficients with leading zeros, exponents at the 32 bit limits",
 "Tests round-trip a handful of values with nil buffers.",
 ["decomposer.go"], [("buffer reuse", "decomposer.go"), ("compact and big coefficients", "decomposer.go")],
 "property-based testing: round trip and differential", MODEL, ["Big.Compose", "Big.Decompose"])

prop("C21", "Exp, Log and Log10 are accurate to the last place and well-conditioned",
 "For every finite argument and precision, Exp, Log and Log10 return a value within 0.6 units in the last place of the true one in the nearest rounding modes (1.1 in directed ones), at the full precision of the context, with exactly Inexact and Rounded raised when the result is inexact; exact cases and special values follow the specification. The result depends neither on aliasing nor on the receiver's earlier content.",
 IN, "all arguments, including those near 1, 0, powers of ten and the overflow limits, and precisions from 1 to several hundred",
 "Tests check fixed vectors at a handful of precisions; accuracy must hold for every argument and precision.",
 ["big_ctx.go", "continued_frac.go"], [("argument reduction", "big_ctx.go"), ("continued fractions", "continued_frac.go")],
 "property-based testing: differential against interval-checked high-precision references", MODEL, ["Context.Exp", "Context.Log", "Context.Log10"])

prop("C22", "Pow is accurate to the last place and follows the sign rules",
 "Pow returns x**y within 0.6 units in the last place (1.1 in directed modes) for every finite base and exponent where the result is in range, integer powers of integers that fit are exact, and zeros, infinities, NaNs, negative bases and out-of-range results follow the specification, exact ones among them without Inexact. The result depends neither on aliasing nor on the receiver's earlier content.",
 IN, "all pairs of base and exponent including integral, fractional, negative and huge exponents and bases near 1",
 "Tests check fixed vectors; Pow chooses between several algorithms by operand shape.",
 ["big_ctx.go"], [("integer power by squaring", "big_ctx.go"), ("exp(y*log x)", "big_ctx.go")],
 "property-based testing: differential against interval-checked high-precision references", MODEL, ["Context.Pow"])

prop("C23", "Trigonometric functions and their inverses are accurate to the last place",
 "Sin, Cos, Tan, Asin, Acos, Atan and Atan2 return a value within 0.6 units in the last place of the true one (1.1 in directed modes) for every argument in their domain, including arguments of many digits and near multiples of pi/2; arguments outside give NaN with InvalidOperation, and the exact results (of zero, and acos 1) are not Inexact. The result depends neither on aliasing nor on the receiver's earlier content.",
 IN, "all arguments up to 20 integer digits, near multiples of pi/2, near the ends of the domains, all quadrants, precisions from 1 to several hundred",
 "Tests check fixed vectors whose arguments are short; cancellation near multiples of pi/2 needs constructed arguments.",
 ["big_ctx.go", "binary_spliting.go"], [("argument reduction modulo 2 pi", "big_ctx.go"), ("binary splitting", "binary_spliting.go")],
 "property-based testing: differential against interval-checked high-precision references", MODEL, ["Context.Sin", "Context.Cos", "Context.Tan", "Context.Asin", "Context.Acos", "Context.Atan", "Context.Atan2"])

prop("C27", "Predicates and accessors describe the number truthfully",
 "Sign, Signbit, IsInt, IsZero-style predicates, IsFinite, IsInf, IsNaN, IsNormal, IsSubnormal, Class, Precision, Scale, Payload and SameQuantum agree with the mathematical value and representation of x for every x and context, and never change it.",
 IN, "all representations: integers hidden behind trailing zeros, subnormal boundaries, NaN payloads",
 FIXED + " Predicates are evaluated on few values.",
 ["big.go", "misc/misc.go"], [("predicates on form, coefficient and exponent", "big.go")],
 "property-based testing: differential against an exact model", MODEL, ["Big.IsInt", "Big.Class", "Big.IsNormal", "Big.IsSubnormal", "Big.Precision"])

prop("C18", "Aliasing and the receiver's past never change a result",
 "Every operation gives the same value and raises the same conditions whether its receiver is new, holds any other number, or is itself one or several of the operands, and whether operands are one variable or equal copies; operands that are not the receiver are left unchanged and share no storage with the result.",
 IN + ["histories"], "all operations of the arithmetic and function API, all aliasing patterns, all previous receiver contents and conditions, small and big coefficients",
 FIXED + " Storage sharing only shows when a result is modified in place afterwards.",
 ["big_ctx.go", "util.go", "big.go"], [("special-cased receivers", "big_ctx.go"), ("pooled temporaries", "util.go")],
 "property-based testing: metamorphic relation between aliased and fresh calls", "Metamorphic: the fresh call is the oracle, so that an error common to all calls is left to C01-C09 and C21-C23. Statistical assurance.", ["Context", "Big"])

prop("C19", "Any sequence of operations on shared numbers keeps every number consistent",
 "After any sequence of arithmetic, setters, parsing, copying and queries over a pool of numbers, every number has the value, context and conditions that a model executing the same sequence predicts, and its representation is consistent: Precision, Sign, Text, Cmp and IsInt agree with its digits, and numbers not written by a step are unchanged.",
 ["histories", "inputs"], "all histories up to 24 steps over four numbers with their own contexts, mixing 64-bit and big coefficients, special values and shared receivers",
 "Tests create a new receiver for nearly every call; stale storage, precision caches and conditions need several steps to show.",
 ["big.go", "big_ctx.go", "util.go"], [("compact and inflated forms sharing one struct", "big.go"), ("cached precision", "big.go")],
 "stateful model-based property testing with shrinking", MODEL, ["Big", "Context"])

prop("C24", "Pi, E, continued fractions and binary splitting converge to the true value",
 "Pi and E are within 0.6 units in the last place (1.1 in directed modes) at every precision, Lentz and Wallis return the value of the continued fraction they are given within their rounding error, with Inexact unless it is that value, and call the generator in the documented order, and BinarySplit returns exactly the rational sum of its range while BinarySplitDynamic converges to the series' limit.",
 IN, "all precisions and rounding modes (across the switch from stored digits to series), all term functions with convergents that stay finite, all ranges and integer term functions, term functions that reuse their storage",
 "The shipped tests only exercise them through the functions built on them, which never use several of the parameters.",
 ["big_ctx.go", "const.go", "binary_spliting.go", "continued_frac.go"], [("stored constants and Chudnovsky series", "big_ctx.go"), ("ranges of one to four terms", "binary_spliting.go"), ("convergence test", "continued_frac.go")],
 "property-based testing: differential against exact rational sums and big.Float convergents", "Exact rational oracle for finite sums; error bounds derived from the recurrences for continued fractions. Statistical assurance.", ["Context.Pi", "Context.E", "Context.Lentz", "Context.Wallis", "BinarySplit", "BinarySplitDynamic"])

prop("C28", "A valid context is never rejected, an invalid one always is",
 "An operation under a context whose precision, rounding mode, operating mode or exponent limits are out of range sets its receiver to NaN with InvalidContext and changes no operand, and every context within the documented limits, including those exactly at them, is accepted and computes normally.",
 IN, "all operations, each field at and next to its limits, on a Context method and on a number's own context",
 "No shipped test uses an invalid context or one at the limits.",
 ["context.go", "big_ctx.go", "util.go"], [("validation of a context", "util.go"), ("early return of each operation", "big_ctx.go")],
 "property-based testing: predicate oracle over generated contexts", MODEL, ["Context"])

prop("C29", "Copies, sign changes and setters touch exactly what they document",
 "Copy, CopyAbs, CopyNeg, CopySign, Canonical, Set, SetSignbit, SetScale, SetInf and SetNaN transfer value, sign and special forms exactly as documented without rounding, keep the receiver's own context, never share storage with or modify their operands, whatever the aliasing; Max and Min return one of their arguments that is largest or smallest.",
 IN, "all values and forms, big and compact coefficients, dirty receivers with other contexts and conditions, all aliasing patterns",
 FIXED, ["big.go", "misc/misc.go"], [("copying between compact and inflated coefficients", "big.go")],
 "property-based testing: differential against an exact model", MODEL, ["Big.Copy", "Big.CopySign", "Big.SetScale", "Max", "Min"])

prop("C20", "Numbers may be used concurrently as operands, and results stay the same",
 "Operations on distinct receivers may run in several goroutines at once and share operands that none of them writes: there is no data race, and every result, condition and text equals that of the same call made alone. This includes the first use of lazily computed constants, the growing table of powers of ten and pooled temporaries.",
 ["schedules", "inputs"], "all sets of concurrent calls of arithmetic, functions, queries and formatting on shared read-only operands, from a process in which no table or pool has been used yet",
 "The shipped tests run operations in one goroutine, in a process whose tables and constants soon are warm.",
 ["internal/arith/pow.go", "internal/c", "big_ctx.go", "util.go", "const.go"],
 [("copy-on-write table of powers of ten", "internal/arith/pow.go"), ("pool of temporaries", "util.go"), ("lazily built constants", "big_ctx.go")],
 "property-based testing: generated concurrent calls under the race detector, against the serial results", "Each case runs in a fresh process built with -race; schedules are those the Go runtime produces, not enumerated. Statistical assurance.", ["Context", "Big"])

prop("C25", "The Go operating mode is lossless, panics on NaN and prints Go's special forms",
 "In the Go operating mode addition, subtraction, multiplication, FMA and copying are exact whatever the precision, other operations and functions give the same correctly rounded values as in the GDA mode, and an operation whose result is NaN panics with an ErrNaN that says what was undefined. Infinities and NaNs print as +Inf, -Inf and NaN.",
 IN, "all operations and functions on all operands, including undefined combinations, with any precision, rounding mode, aliasing and previous receiver content",
 "The shipped tests of the Go mode are a few panics and texts; the vector files run in the GDA mode.",
 ["context.go", "big_ctx.go", "big.go", "format.go"], [("rounding skipped in the Go mode", "big_ctx.go"), ("panic with ErrNaN", "big.go"), ("special values as text", "format.go")],
 "property-based testing: differential against an exact model", MODEL, ["Context.OperatingMode"])

prop("C30", "The PostgreSQL wrapper stores only what a DECIMAL column holds",
 "Value gives the exact text of a number with at most 131072 digits before and 16383 after the decimal point and an error otherwise, or with Round the text correctly rounded to the fraction limit; NaN is the text NaN, an infinity is an error, and a nil number is NULL or zero as configured. Scan accepts strings and byte slices of valid numbers exactly and gives an error for everything else, NULL included.",
 IN, "all values around both limits, special values, all settings of the wrapper and all source types and texts",
 "The shipped test covers a few short values; the limits are at 16383 and 131072 digits.",
 ["sql/postgres/decimal.go"], [("length of integral and fractional part", "sql/postgres/decimal.go")],
 "property-based testing: differential against an exact model", MODEL, ["Decimal.Value", "Decimal.Scan"])

prop("C32", "The math and misc packages and Big's methods equal the Context operations",
 "Every function of the math and misc packages and every arithmetic method of Big gives the same value, conditions and other results as the Context operation it stands for, under the context of its receiver, for every operand; their continued-fraction and binary-splitting helpers do so too.",
 IN, "all wrapper functions and methods on all operands, contexts, receivers and aliasing of receiver and operand",
 "Each wrapper has at most a documentation example, in the default context.",
 ["math", "misc/misc.go", "big.go"], [("delegation to the receiver's context", "big.go"), ("delegation", "misc/misc.go"), ("delegation", "math")],
 "property-based testing: differential between two entry points", "The Context operation is the oracle; whether that one is right is decided by the other properties. Statistical assurance.", ["math", "misc", "Big"])

prop("C31", "The test-vector parsers read every line as the vector format defines it",
 "Parsing a well-formed line of a .fptest or .decTest file yields a case with exactly the operation, mode, rounding, precision, exponent limits, operands, result and conditions the line states, in the order of the file, skipping comments and blank lines; directives hold until changed. An error of the reader, or a line too long to be read, is reported and never taken for the end of the file. The text of a case names its identity, data and conditions, data is classified as NaN (quiet or signaling) or infinity (with its sign) as its text says, and no line, however malformed, makes a parser panic, hang or modify its input.",
 IN, "all lines built from the formats' grammars: every operation, condition set, rounding mode and directive, quoted and bare operands, long data, special values; mutated and truncated lines",
 "The parsers have no tests of their own: the suites that use them silently run whatever they return.",
 ["suite/parser.go", "suite/suite.go", "dectest/case.go", "dectest/scanner.go"], [("field by field parser", "suite/parser.go"), ("generated state machine", "dectest/scanner.go"), ("case built from scanned fields", "dectest/case.go")],
 "property-based testing: generate a case, print it, parse it back", "The generated case is the oracle. Statistical assurance.", ["ParseCases", "suite.ParseCases", "Case.String"])

prop("C33", "A NaN's payload names what made it",
 "The payload of a NaN that an operation or function returns names the true cause, as the table of payloads in big.go defines them: the operation that had a NaN operand, the undefined combination of infinities or zeros, the limit a quantization or integer division exceeded, or the invalid field of the context. An invalid context always gives its own cause, whatever the operands; a result that is no NaN has none. Signaling operands are named like quiet ones. (Tan, and payloads of operations that the table does not list, are not claimed.)",
 IN, "all operations and elementary functions with special, zero and finite operands, receivers that hold another NaN or are operands, and every invalid field of a context",
 "The shipped vectors compare NaNs without payloads, and no test calls Payload.",
 ["big.go", "big_ctx.go", "util.go", "payload_string.go"], [("table of payloads", "big.go"), ("NaN operands", "big.go"), ("invalid contexts", "util.go"), ("text of each payload", "payload_string.go")],
 "property-based testing: differential against a table of causes", MODEL, ["Payload", "Payload.String", "Context"])
