import json
N="astro-float-num/src/"
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=[f if '/' in f and f.startswith('astro') or f.startswith('src/lib') else N+f for f in files],mechanism=[dict(name=a,where=b if b.startswith('astro') or b.startswith('src/lib') else N+b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=observe or ["public API of astro-float-num"]
    d['anchors']['hook_needed']=hook
    P.append(d)
ST=[("mantissa words","little-endian words; most significant bit set unless the number is subnormal or zero",N+"mantissa/mantissa.rs"),("e, s, inexact","exponent of the 0.1xxx form, sign, exactness flag",N+"num.rs")]
p("C01","Addition and subtraction are correctly rounded",
 "For all finite operands of any (also different) precision, sign and exponent, the sum and the difference requested with precision p and a rounding mode equal the exact mathematical result rounded once to p (rounded up to whole words) by that mode; with the mode that skips rounding the error stays below one unit in the last place. The result carries exactly the requested precision, and operands are left unchanged.",
 ["inputs"],"all finite operand pairs x precision x 7 rounding modes",
 "Tests sample random mantissas against MPFR; carries through whole words, sticky bits far below the mantissa, exact ties and cancellations at word boundaries are measure-zero events for random data.",
 ["num.rs","mantissa/mantissa.rs","common/util.rs","common/int.rs"],[("add_sub","num.rs"),("abs_add/abs_sub/round_mantissa","mantissa/mantissa.rs")],ST)
p("C02","Multiplication is correctly rounded",
 "For all finite operands of any precision the product requested with precision p and a rounding mode equals the exact product rounded once to p by that mode (error below one unit in the last place when rounding is skipped), whatever multiplication algorithm the operand sizes select. Operands are left unchanged.",
 ["inputs"],"all finite operand pairs of every size x precision x rounding mode",
 "Random tests do not reach the carry/borrow patterns inside Karatsuba, Toom-3 and FFT multiplication nor exact ties, and cover few size combinations.",
 ["num.rs","mantissa/mul.rs","mantissa/toom2.rs","mantissa/toom3.rs","mantissa/fft.rs","mantissa/mantissa.rs"],[("mul_general_case","num.rs"),("mul_unbalanced","mantissa/mul.rs"),("toom2","mantissa/toom2.rs"),("toom3","mantissa/toom3.rs"),("fft_mul","mantissa/fft.rs")],ST)
p("C03","Division and reciprocal are correctly rounded",
 "For every finite dividend and non-zero finite divisor of any precision, the quotient requested with precision p and a rounding mode equals the exact quotient rounded once to p by that mode (error below one unit in the last place when rounding is skipped), and the reciprocal equals one divided by the number. This holds for all division algorithms that operand sizes select.",
 ["inputs"],"all operand pairs of every size x precision x rounding mode",
 "Quotient-digit correction steps and exact/halfway quotients occur with probability about 2^-64 for random operands.",
 ["num.rs","mantissa/div.rs","mantissa/mantissa.rs"],[("div","num.rs"),("div_unbalanced/div_basic/div_recursive","mantissa/div.rs"),("reciprocal","num.rs")],ST)
p("C04","Remainder is exact",
 "For every finite x and non-zero finite y, the remainder is exactly |x| - |y|*trunc(|x|/|y|) with the sign of x, for any difference of exponents and any precisions. No digit of the remainder is lost or rounded.",
 ["inputs"],"all operand pairs, all exponent differences",
 "Tests check a few random pairs; large exponent differences use modular exponentiation whose reduction steps have rare branches.",
 ["num.rs","mantissa/mantissa.rs","mantissa/div.rs"],[("rem","num.rs"),("pow_mod/mul_mod/mul_mod_barrett/rem","mantissa/mantissa.rs")],ST)
p("C05","Square and cube roots are correctly rounded",
 "For every finite number in the domain (non-negative for the square root) the root requested with precision p and a rounding mode equals the exact root rounded once to p by that mode, including perfect powers, halfway neighbours and every residue of the exponent modulo 2 and 3. A negative argument of the square root gives NaN with an invalid-argument error.",
 ["inputs"],"all arguments x precision x rounding mode",
 "Perfect powers plus or minus one unit, and results next to a rounding boundary, are not reached by random testing.",
 ["ops/sqrt.rs","ops/cbrt.rs","mantissa/sqrt.rs","mantissa/cbrt.rs","mantissa/mantissa.rs"],[("sqrt","ops/sqrt.rs"),("cbrt","ops/cbrt.rs"),("sqrt_rem/cbrt_basic","mantissa/sqrt.rs")],ST)
p("C06","Full-precision operations lose nothing",
 "The full-precision sum, difference and product of any two finite numbers whose exact result is in the exponent range equal the exact mathematical result, for operands of any size and any sizes combination, and are not marked inexact when the operands are exact.",
 ["inputs"],"all operand pairs of every size",
 "Tests compare a few random sizes; algorithm thresholds, unbalanced splits and zero operands are not enumerated.",
 ["num.rs","mantissa/mantissa.rs","mantissa/mul.rs","mantissa/toom2.rs","mantissa/toom3.rs","mantissa/fft.rs","common/buf.rs"],[("add_full_prec/sub_full_prec/mul_full_prec","num.rs"),("trunc_trailing_zeroes","common/buf.rs")],ST)
p("C07","Overflow and gradual underflow at the exponent limits",
 "When the rounded result of an arithmetic operation or root exceeds the largest exponent the result is infinity of the right sign; when it is below the smallest exponent it is the correctly rounded subnormal number (or zero) for the precision and mode, with a single rounding. No wrap-around of the exponent is ever observable.",
 ["inputs"],"all operands whose result is within a few words of either exponent limit x precision x mode",
 "Random tests practically never produce exponents at the limits; existing tests check a handful of hand-picked values.",
 ["num.rs","ext.rs","mantissa/mantissa.rs","defs.rs"],[("subnormalize","num.rs"),("result_to_ext","ext.rs")],ST)
p("C08","The inexact flag tells the truth",
 "The result of an arithmetic operation, root, rounding, precision change or conversion is marked inexact exactly when bits of the exact result were lost in rounding or an operand was marked inexact (an exact zero factor makes a product exact). An unmarked result is exactly equal to the mathematical value of the operation on its operands.",
 ["inputs"],"all operands x operand flags x precision x mode",
 "Existing tests check a short list of examples; flag loss on early-return paths (zero, far-apart operands, special shortcuts) is not sampled.",
 ["num.rs","mantissa/mantissa.rs","conv.rs","ops/sqrt.rs","ops/cbrt.rs","ops/pow.rs"],[("round_mantissa","mantissa/mantissa.rs"),("set_precision_internal","num.rs")],ST)
p("C09","Comparisons form a total order on values",
 "Comparison of two non-NaN numbers agrees with the order of their mathematical values regardless of precision and representation (+0 equals -0, infinities are the extremes), comparison of magnitudes agrees with the order of absolute values, and comparisons with NaN are undefined. Equality and ordering operators, minimum, maximum, clamp and sign queries are consistent with it.",
 ["inputs"],"all pairs and triples of values including zeros, subnormals, infinities, NaN and different precisions",
 "Tests compare few pairs; they do not cover different precisions with trailing words, subnormal against normal, or signs of zero.",
 ["ext.rs","num.rs","mantissa/mantissa.rs"],[("cmp/abs_cmp/clamp/max/min/signum","ext.rs"),("cmp/abs_cmp","num.rs"),("abs_cmp","mantissa/mantissa.rs")],ST)
p("C10","Infinities, NaN and zeros follow the limits of each operation",
 "For every operation, an argument that is NaN gives NaN with the argument's error kept; an infinite or zero argument gives the value of the corresponding limit (infinity of the right sign, zero, or the finite limit) when the limit exists, and NaN otherwise. Domain errors of finite arguments give NaN reporting an invalid argument or division by zero.",
 ["inputs"],"every operation x every combination of special and representative finite arguments x mode x precision",
 "Tests enumerate part of the table with one finite representative, never crossing operand class with sign, parity, magnitude and precision.",
 ["ext.rs","num.rs","ops/pow.rs","ops/log.rs"],[("special-case arms of every operation","ext.rs"),("result_to_ext","ext.rs")])
p("C11","Integer part, fraction, floor, ceil and round are exact",
 "For every finite number, floor is the greatest integer not above it, ceil the least integer not below it, int truncates toward zero, and fract plus int restores the number; rounding to n fractional binary digits gives the value selected by the rounding mode and leaves numbers with no more digits unchanged. The integer predicate agrees with them.",
 ["inputs"],"all numbers with the binary point at every position of every word x rounding mode x n",
 "The position of the point relative to word boundaries and carry-out of the whole mantissa are hit rarely by random numbers.",
 ["num.rs","ext.rs","mantissa/mantissa.rs"],[("floor/ceil/int/fract/round/is_int","num.rs"),("mask_bits/round_mantissa","mantissa/mantissa.rs")],ST)
p("C12","Changing precision rounds correctly and only when decidable",
 "Raising the precision keeps the value; lowering it rounds the value to the requested number of bits by the mode. The conditional variant that knows the number of correct leading bits succeeds only if every value agreeing with the number to that accuracy rounds to the result it returns.",
 ["inputs"],"all numbers x new precision x mode x accuracy",
 "Rounding decisions depend on runs of equal bits around both the new precision and the accuracy position, including runs across words; tests sample some.",
 ["num.rs","mantissa/mantissa.rs","ext.rs"],[("set_precision/try_set_precision","num.rs"),("round_mantissa/set_length","mantissa/mantissa.rs")],ST)
p("C13","Construction from primitive numbers is exact",
 "Every integer of each primitive type and every finite f32 or f64 (including subnormals and signed zeros) constructed with sufficient precision has exactly the value of the source; a precision smaller than the source type needs gives the source rounded to nearest even or is rejected with NaN; infinite and NaN sources map to infinity and NaN. The conversion with a precision and a rounding mode gives the value of the source (a number, text or another number) rounded once. Constants such as maximum, minimum and smallest positive value have the extreme values they name.",
 ["inputs"],"all values of i8..u128, f32 and f64 x precision",
 "Tests cover some constants; exhaustive float bit patterns and boundary integers with every precision are not covered.",
 ["num.rs","ext.rs","mantissa/mantissa.rs"],[("from_f64/from_u64/from_i128/from_u128/from_word","num.rs"),("From impls","ext.rs"),("from_u64","mantissa/mantissa.rs")],ST)
p("C14","Parsing is total and correctly rounded",
 "Every string either denotes a number (sign, digits with an optional point, optional exponent, in radix 2, 8, 10 or 16), and is converted to the value rounded once to the requested precision by the mode, or an infinity, and gives that infinity; any other string gives NaN. Numbers beyond the exponent range become infinity, subnormal numbers or zero like results of arithmetic. No string causes a panic, a hang or a silently wrong value.",
 ["inputs"],"all strings over the number alphabet x radix x precision x mode",
 "Tests parse a few dozen strings; no enumeration of grammar corners or of decimal strings next to rounding boundaries.",
 ["parser.rs","conv.rs","ext.rs","mantissa/conv.rs"],[("parse","parser.rs"),("convert_from_radix","conv.rs"),("FromStr","ext.rs")])
p("C15","Formatting then parsing restores the number",
 "Formatting any finite number in radix 2, 8 or 16 yields text that denotes exactly the number and, parsed back with the same precision, gives the identical number including sign, exponent and precision. In radix 10 the text is the number rounded by the rounding mode to the count of significant decimal digits that its precision in bits covers, so that the value read back agrees to that many digits. The display traits agree with formatting.",
 ["inputs"],"all numbers x radix x mode",
 "Round-trip tests sample random numbers; digit-group boundaries, exponents that are not multiples of 3 or 4, and zero/extreme exponents are unsampled.",
 ["strop.rs","conv.rs","ext.rs","mantissa/conv.rs","parser.rs"],[("format","strop.rs"),("convert_to_radix","conv.rs"),("parse","parser.rs")])
p("C16","Radix conversion of digit sequences is correctly rounded and invertible",
 "Converting a sign, digit sequence and exponent in radix 2, 8, 10 or 16 yields the correctly rounded number for the precision and mode; converting a number to digits and back restores it, and every produced digit is within its radix. Invalid digits are rejected with an error rather than converted.",
 ["inputs"],"all digit sequences x exponent x radix x precision x mode",
 "Tests use random digit strings in a narrow band of sizes; the subquadratic conversion's recursion boundaries and leading/trailing zero digits are not enumerated.",
 ["conv.rs","mantissa/conv.rs","ext.rs","ops/consts/mod.rs"],[("convert_from_radix/convert_to_radix","conv.rs"),("from_dec/to_dec","mantissa/conv.rs")])
p("C17","Exponentials, powers and logarithms are correctly rounded",
 "For every argument in the domain the functions exp, ln, log2, log10, log to any base, pow and integer power return the exact mathematical value rounded once to the requested precision by the mode, including arguments whose result is exact or extremely close to a representable or halfway value. The computation terminates for all arguments.",
 ["inputs"],"all arguments x precision x rounding mode",
 "Hard-to-round arguments and exact cases have measure zero; tests compare random arguments with MPFR.",
 ["ops/pow.rs","ops/log.rs","ops/series.rs","ops/util.rs","ext.rs"],[("exp/pow/powi","ops/pow.rs"),("ln/log2/log10/log","ops/log.rs"),("try_set_precision retry loop","num.rs")])
p("C18","Trigonometric functions and inverses are correctly rounded",
 "For every argument in the domain sin, cos, tan, asin, acos and atan return the exact mathematical value rounded once to the requested precision by the mode, including tiny arguments, arguments close to multiples of pi/2 and to the ends of the domain. Arguments outside the domain give NaN.",
 ["inputs"],"all arguments x precision x rounding mode",
 "Arguments near multiples of pi/2 or hard to round are not hit by random testing.",
 ["ops/sin.rs","ops/cos.rs","ops/tan.rs","ops/asin.rs","ops/acos.rs","ops/atan.rs","ops/util.rs","ops/series.rs"],[("reduce_trig_arg/trig_arg_pi_proximity","ops/util.rs"),("series_run","ops/series.rs"),("sin/cos/tan","ops/sin.rs")])
p("C19","Hyperbolic functions and inverses are correctly rounded",
 "For every argument in the domain sinh, cosh, tanh, asinh, acosh and atanh return the exact mathematical value rounded once to the requested precision by the mode, including tiny and huge arguments and arguments next to the ends of the domain. Arguments outside the domain give NaN.",
 ["inputs"],"all arguments x precision x rounding mode",
 "Cancellation regions and saturation regions (results within one unit of 1) are unsampled.",
 ["ops/sinh.rs","ops/cosh.rs","ops/tanh.rs","ops/asinh.rs","ops/acosh.rs","ops/atanh.rs"],[("sinh/cosh/tanh/asinh/acosh/atanh","ops/sinh.rs"),("compute_small_exp","ops/util.rs")])
p("C20","Constants are correctly rounded for any request",
 "Pi, e, ln 2 and ln 10 returned for any precision and rounding mode are the exact constants rounded once to that precision by that mode, whatever was requested from the same constants cache before.",
 ["inputs","histories"],"all precisions x modes x all histories of earlier requests",
 "Tests request a few precisions in increasing order from one cache.",
 ["ops/consts/mod.rs","ops/consts/pi.rs","ops/consts/e.rs","ops/consts/ln2.rs","ops/consts/ln10.rs"],[("for_prec incremental binary splitting","ops/consts/pi.rs")],[("cache state","number of series terms summed so far and the current value",N+"ops/consts/pi.rs")])
p("C21","Results do not depend on the history of the constants cache",
 "Any function that takes the constants cache returns bit-identical results for the same arguments whatever sequence of calls used the cache before, including calls that failed; text parsing and display give the same result whatever was parsed or displayed earlier in the thread.",
 ["histories"],"all sequences of cache-using calls up to a depth, over all cache states they reach",
 "Tests use one cache in a fixed order; they never compare against a fresh cache after different histories.",
 ["ops/consts/mod.rs","ops/consts/pi.rs","ops/consts/e.rs","ops/consts/ln2.rs","ops/consts/ln10.rs","common/consts.rs","conv.rs"],[("Consts","ops/consts/mod.rs"),("tenpowers","ops/consts/mod.rs"),("thread-local TENPOWERS","common/consts.rs")],[("Consts","pi, e, ln2, ln10 and powers-of-ten caches",N+"ops/consts/mod.rs")])
p("C22","Allocation failure is reported and harmless",
 "If any single memory allocation during an operation fails, the operation returns NaN (or an error) reporting a memory allocation error, or completes with the correct result; it does not panic or abort, leaves its operands unchanged, and the constants cache remains usable and yields correct results afterwards.",
 ["fault_sequences","histories"],"every operation x every allocation of its run failing x follow-up calls",
 "No test injects allocation failures.",
 ["common/buf.rs","num.rs","ext.rs","ops/consts/mod.rs","mantissa/fft.rs","conv.rs"],[("try_reserve_exact","common/buf.rs"),("Error::MemoryAllocation propagation","defs.rs")],[("cache state","must stay consistent when an update fails half way",N+"ops/consts/mod.rs")])
p("C23","Results do not depend on stale memory or on repetition",
 "The result of every operation is a function of its arguments only: it does not depend on the previous contents of memory that the library allocates, on results of earlier unrelated operations, or on the thread that runs it.",
 ["configurations","histories"],"every operation x adversarial contents of freshly allocated memory",
 "Buffers are allocated without being cleared for speed; tests run with whatever the system allocator returns, typically zero pages.",
 ["common/buf.rs","mantissa/mantissa.rs","mantissa/fft.rs","mantissa/toom2.rs","mantissa/toom3.rs","mantissa/div.rs","mantissa/sqrt.rs"],[("WordBuf::new without initialisation","common/buf.rs")])
p("C24","No argument makes the library panic or hang",
 "Every public function returns normally for every argument: precision zero, one, non-multiples of the word size and the maximum, extreme exponents, zeros, subnormals, infinities and NaN, empty or inconsistent raw data. Unusable arguments (for example a precision beyond the limit) are reported as NaN or as an error value.",
 ["inputs"],"every public function x cross product of boundary arguments",
 "Tests use well-formed arguments with ordinary precision.",
 ["ext.rs","num.rs","conv.rs","strop.rs","mantissa/mantissa.rs"],[("p_assertion","num.rs"),("result_to_ext","ext.rs")])
p("C25","Every reachable number is in canonical form",
 "Every finite number produced by any sequence of public operations is canonical: its top mantissa bit is set unless it is zero or has the smallest exponent, zero has an all-zero mantissa and reports itself as zero, the reported bit length matches the mantissa, the mantissa length matches the requested precision, and the exponent is within limits. Queries (zero, subnormal, class, precision, exponent) agree with the mantissa.",
 ["histories","inputs"],"all operation sequences up to a depth from boundary seeds",
 "Tests check values, not representation, and only after single operations.",
 ["num.rs","ext.rs","mantissa/mantissa.rs"],[("normalization in every operation","num.rs"),("set_bit_len/update_bit_len","mantissa/mantissa.rs")],ST)
p("C26","The expression macro compensates error",
 "An expression evaluated with the expression macro is its exact value on its exact inputs, perturbed by far less than one unit in the last place of the context precision, and rounded to that precision in the context's rounding mode (with no rounding mode: within one unit), even under catastrophic cancellation of any part of the expression. Literals, strings, variables of any type and name, and constants are taken at full accuracy: a variable is exact with all its digits, whatever the context precision. Expressions whose inexact parts are mathematically equal end as well.",
 ["programs","inputs"],"all expression trees up to a depth over the macro's operators x argument patterns that cancel x precision x mode",
 "The macro crate has no tests of the repository's own code at all; the published version is linked in doc tests.",
 ["astro-float-macro/src/lib.rs","astro-float-macro/src/util.rs","macro_util.rs","ctx.rs"],[("expr! code generation","astro-float-macro/src/lib.rs"),("compute_added_err","macro_util.rs"),("FromExt","ext.rs")])
p("C27","Context settings and exponent range are honoured",
 "A context keeps and reports the precision, rounding mode and exponent range it was given, its constants have the context's precision and rounding, and an expression's result outside the context's exponent range becomes infinity or zero of the right sign. Tuples used as context behave like a context with the same settings. A context with an unusable precision makes the expression NaN, never a panic.",
 ["inputs","histories"],"all settings x operation sequences on the context x results around the range limits",
 "Only a basic context test exists.",
 ["ctx.rs","macro_util.rs","astro-float-macro/src/lib.rs"],[("Context/Contextable","ctx.rs"),("check_exponent_range","macro_util.rs")])
p("C28","Serialization keeps the value and malformed data is not a number",
 "Serializing a number writes the decimal text formatting gives (the number rounded to the significant digits its precision covers), and deserializing it yields the value of that text: sign, zero, infinity and NaN are restored, and no value changes beyond those digits. Deserializing any integer (up to 128 bits, signed or not) or finite float yields exactly that value; text yields the number it denotes rounded once to a precision sufficient for its digits; text that is no number gives NaN or an error, and data of any other type an error. Nothing panics.",
 ["inputs"],"all numbers x serialized representations, all integers and floats, all short texts and documents",
 "Tests serialize two or three numbers.",
 ["for_3rd/ser.rs","for_3rd/de.rs"],[("Serialize","for_3rd/ser.rs"),("Deserialize visitor","for_3rd/de.rs")])
p("C29","Raw parts round-trip and invalid parts are rejected",
 "Decomposing any finite number into raw parts and rebuilding it restores the identical number; parts that do not describe a canonical number give NaN with an invalid-argument error. Building from words yields the value those words and exponent denote.",
 ["inputs"],"all words x bit length x sign x exponent x flag combinations",
 "Tests rebuild a few valid numbers.",
 ["num.rs","ext.rs","mantissa/mantissa.rs"],[("as_raw_parts/from_raw_parts/from_words","num.rs")],ST)
p("C30","Mutators and copies change only what they say",
 "Negation, sign assignment, absolute value, exponent assignment, inexact-flag assignment and cloning change exactly the named attribute of the number and nothing else, for zeros, subnormals and normal numbers; assigning an exponent scales the value by the corresponding power of two, with gradual underflow and the documented limits.",
 ["inputs"],"all numbers x attribute values",
 "Tests touch one or two values per mutator.",
 ["num.rs","ext.rs"],[("set_exponent/set_sign/inv_sign/neg/abs/clone/set_inexact","num.rs")],ST)
p("C31","Random numbers stay within the requested range",
 "Whatever the random generator returns, a random normal number has the requested precision rounded up to whole words, is exact, never zero or subnormal, and its exponent lies within the requested limits (given in ascending order); both signs occur; an unusable precision gives NaN with an invalid-argument error.",
 ["inputs"],"all precisions x exponent limits x generator outputs",
 "Tests draw samples from the system generator.",
 ["num.rs","ext.rs","mantissa/mantissa.rs"],[("random_normal","num.rs")])
p("C32","Build configurations agree",
 "The library built without its standard-library, random and serialization features returns bit-identical results to the default build for every operation.",
 ["configurations","inputs"],"feature configurations x operations x arguments",
 "The test suite is run with default features only.",
 ["lib.rs","common/consts.rs","ext.rs","astro-float-num/Cargo.toml"],[("cfg(feature) branches","lib.rs")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P), max(len(d['title']) for d in P))
