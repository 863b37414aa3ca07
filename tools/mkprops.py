import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
I=["inputs"]
p("C01","NaN operands yield NaN in every operation and calling form",
"Every arithmetic, remainder, rounding, sign, root, logarithm, exponential and power operation given at least one NaN operand returns NaN, whatever the other operands are, and never panics or reports overflow or absence; the only exceptions are NaN raised to zero and one raised to NaN, which are one. This holds for methods, for operators on every mix of owned and borrowed values, for compound assignment and for in-place variants. Applying a precision/scale modifier to NaN leaves it NaN and reports no overflow.",
I,"all operand values (finite of any size, short or long stored form, NaN) in every argument position of every public operation",
"Tests sample a few NaN pairs per operation and mostly one calling form; a form or argument position that forgets the NaN test, or tests it after touching the value, passes them.",
["src/num.rs","src/ops.rs","src/var.rs"],
[("NaN guard before arithmetic","src/num.rs, each public method"),("operator forwarding","src/ops.rs"),("pow NaN cases","src/var.rs pow")])
p("C02","NaN is recognised and reported uniformly at every observation point",
"NaN is neither positive nor negative, has no scale, prints as exactly NaN in plain, both scientific and normalised text, converts to a floating NaN, and fails as an invalid value when converted to any integer type. A floating NaN converts to NaN and an infinite float is rejected as invalid. A finite value is never reported as NaN by any of these.",
I,"all numeric values and all float bit patterns; every integer and float target type; every owned, borrowed and by-reference conversion",
"Tests try NaN for a few target types; the quantifier is over about fifty trait implementations and all finite values.",
["src/num.rs","src/binary.rs","src/convert.rs","src/var.rs"],
[("flag-bit decoding","src/binary.rs"),("NaN branch of conversions","src/convert.rs"),("NaN branch of formatting","src/var.rs write, write_sci, normalize")])
p("C03","The sign of every result follows the sign rules of arithmetic",
"A nonzero sum or difference has the sign of the operand (after negation for a subtrahend) of larger magnitude, and magnitudes are added when those signs agree and subtracted larger-minus-smaller when they differ; a nonzero product or quotient is negative exactly when the operand signs differ; negation flips, absolute value clears, sign-of copies the sign. Remainder is the dividend minus the product of the divisor with the truncated quotient, in that order. No result of any operation is ever a negative zero.",
I,"all finite operands: every combination of signs, zeroness, magnitude ordering, digit count and stored form",
"The tests cover each sign combination with one or two magnitudes; the rule must hold for every digit count, weight and stored form, including branches chosen by size.",
["src/var.rs","src/num.rs"],
[("sign dispatch","src/var.rs add_common, sub_common, mul_common, div_common, div_fast_common, mod_common"),("sign updates","src/var.rs negate, abs, signum"),("zero normalisation","src/var.rs strip")])
p("C04","All comparisons agree with one total order in which NaN is greatest",
"Equality and ordering between any two values, through any comparison trait and any mix of owned, borrowed and referenced operands, are determined by one comparison: NaN equals NaN and exceeds everything else, zero equals zero whatever the scale, negatives are below zero and zero below positives, and two values of one sign are ordered by magnitude, reversed for negatives. Swapping the operands reverses the answer, and magnitude comparison never looks at display scale.",
I,"all pairs of values, all comparison trait implementations",
"About thirty trait implementations and all value pairs; tests exercise a few pairs on a few of the implementations.",
["src/ops.rs","src/num.rs","src/var.rs"],
[("comparison core","src/num.rs cmp, src/var.rs cmp_common, cmp_abs"),("trait forwarding","src/ops.rs")])
p("C05","Equal values hash equally whatever their scale, form or ownership",
"Hashing feeds the hasher only from the sign, weight and significant digits of the value, never from display scale, stored-form choice, leading or trailing zero digits or buffer layout; all zeros feed the same data and all NaNs feed the same data. Owned and borrowed values feed identical sequences.",
I,"all values and all equal pairs differing in scale, header form, padding zeros or ownership",
"Hash/equality agreement is quantified over pairs of representations; tests hash a handful of values.",
["src/num.rs"],[("hash","src/num.rs Numeric::hash"),("owned forwarding","src/num.rs Hash for NumericBuf")])
p("C06","Every operator form computes the same function with operands in order",
"For each of plus, minus, times, divide and remainder, every operator form over owned, borrowed and referenced operands, and the compound-assignment forms, returns the result of the corresponding checked operation on the same operands in the same order and panics exactly when that operation returns nothing. Compound assignment stores that result in its left operand; unary minus equals negation.",
I,"all operand pairs, all 45 binary, 15 assigning and 3 unary operator implementations",
"Tests check most forms on one symmetric-looking pair; swapped operands or a wrong delegate in one form survive for values where the results coincide.",
["src/ops.rs","src/num.rs"],[("forwarding implementations","src/ops.rs"),("checked and overflowing cores","src/num.rs")])
p("C07","Out-of-range results are reported, never wrapped into the stored header",
"Whenever an operation computes a value whose weight or scale does not fit the stored format, the operation reports it (absent result, overflow flag, error, or its documented panic) instead of storing a truncated header. A stored result always carries exactly the weight, scale, sign and digit count that were computed.",
I,"all operands and parse inputs, every public operation that can return a value",
"Range limits need values near 10^131072 or scale 16383 on every producing path; tests hit the limit for a few operations.",
["src/var.rs","src/num.rs","src/data.rs","src/parse.rs"],
[("range check","src/var.rs make_result"),("packing","src/var.rs into_numeric_buf, src/data.rs set_header")])
p("C08","Stored values are canonical: no padding zero digits, one zero form",
"Every value handed to the user by an operation that builds a new value is stored without leading or trailing zero base-10000 digits, and a zero is stored with no digits, weight zero and positive sign. Copies preserve the stored form of their source.",
I,"all inputs to all operations producing values",
"The existing tests compare printed text, which hides padding zero digits; canonical storage must hold on every producing path.",
["src/var.rs","src/num.rs","src/convert.rs","src/parse.rs"],[("strip before pack","src/var.rs strip, make_result_no_overflow")])
p("C09","Binary headers decode to exactly what was encoded",
"For every weight, scale, sign and digit count a result may have, the stored bytes decode to the same weight, scale, sign and digit count in every reader, through the short or the long form as the value allows, and the stored length equals the number of bytes exposed. This holds with either byte order of the length word.",
["inputs","configurations"],"all weights in the 16-bit range, scales 0..16383, both signs, NaN and all digit counts; both length-word configurations",
"The space is 2^31 headers per configuration; tests round-trip a few dozen, and never with the alternative length order enabled.",
["src/binary.rs","src/data.rs","src/num.rs"],
[("encoders","src/binary.rs set_header, encode_len, nan, zero; src/data.rs set_header"),("decoders","src/binary.rs sign, dscale, weight, ndigits, header_size, decode_len, as_var")],
[("length word","total bytes, shifted or byte-swapped","src/binary.rs vl_len"),("header word","form bits, sign, scale, weight","src/binary.rs NumericChoice")])
p("C10","Type modifiers pack and unpack precision and scale exactly",
"A type modifier is constructible exactly when precision is 1..1000 and scale is 0..precision; extracting it returns the same pair, omitting scale means zero, and distinct pairs have distinct values, all different from the default modifier. Rebuilding from the raw value restores the same modifier.",
I,"all pairs of 32-bit precision and scale",
"2^64 argument pairs; tests try about eight.",
["src/typmod.rs"],[("validation","src/typmod.rs new, with_precision"),("packing","src/typmod.rs new_unchecked, with_precision_unchecked, extract")])
p("C11","Applying a type modifier rounds to its scale and flags exactly true overflow",
"Applying a modifier rounds the value to the modifier's scale and returns true exactly when the rounded value needs more than precision minus scale digits before the decimal point; the default modifier changes nothing and returns false. The value is still usable afterwards in every case.",
I,"all values and all modifiers, including values whose rounding carries into a new digit and values that round to zero",
"The tests use a handful of values per modifier; the digit-count rule has to hold for all leading-digit ranges and weights.",
["src/var.rs","src/num.rs"],[("apply_typmod","src/var.rs apply_typmod, src/num.rs apply_typmod")])
p("C12","Integer conversions are exact or rejected, for every integer type",
"Converting any integer to a numeric yields its sign and magnitude with scale zero, for the smallest and largest values of each type. Converting a numeric to an integer type first rounds to a whole number and then either returns an in-range value or fails with an out-of-range error; a wrapped, saturated or sign-flipped integer is never returned and a value rounding below zero never converts to an unsigned type.",
I,"all integers of the twelve types and bool; all finite numerics into all twelve types",
"Each type has its own digit capacity, accumulation and narrowing guard; tests use a few boundary values per type.",
["src/convert.rs"],[("overflow-checked accumulation","src/convert.rs into_signed, into_unsigned"),("narrowing guards","src/convert.rs TryFrom for i8, u8, isize, usize"),("digit capacity","src/convert.rs MAX_NDIGITS")])
p("C13","Float conversions use the declared precision and flag narrowing errors",
"Converting a float formats it with six (single) or fifteen (double) significant digits and parses that text, with arguments of the types the formatting routine expects and a buffer large enough for any value. Converting a numeric to a float formats it as text and converts that text to a double; a conversion to single precision reports an out-of-range error when the finite double obtained is beyond the largest single-precision value or is nonzero but becomes zero in single precision, and otherwise returns it; the double conversion returns what the text converts to.",
I,"all floats and all finite numerics",
"Tests use mid-range values and one overflow for the narrow type.",
["src/convert.rs"],[("from_floating","src/convert.rs"),("TryFrom for f32, f64","src/convert.rs")])
p("C14","Serialized forms match what deserialization expects and reject bad bytes",
"For each kind of format (text or binary) the owned and borrowed types write the same kind of data that reading asks for: the printed text in human-readable formats, the stored bytes as a byte string in binary ones. Bytes that are not one complete well-formed stored value, or text that does not parse, are rejected with an error, so no deserialized value can make later safe calls read outside its bytes.",
["inputs","configurations"],"all values, all formats, all byte strings presented to deserialization",
"Tests round-trip valid data with two formats; malformed bytes and other formats' data models are never tried.",
["src/num.rs"],[("Serialize/Deserialize","src/num.rs, feature serde")])
p("C15","Buffers are never null, freed once, with the layout they were allocated with",
"Every digit buffer allocated by an operation is released exactly once with the same size and alignment it was allocated with, or is owned by exactly one live value. After any operation, including one that panics or reports overflow, every numeric the caller can still reach owns a valid buffer.",
["inputs","histories"],"all operations on all inputs, all return and panic exits",
"Leaks, mismatched deallocation and dangling state after a caught panic do not change printed results, so the tests cannot see them.",
["src/data.rs","src/num.rs","src/var.rs"],[("allocation and release","src/data.rs buf_alloc, buf_free, buf_copy; src/num.rs Drop"),("ownership transfer","src/num.rs as_var_owned, into_var; src/var.rs into_numeric_buf")])
p("C16","Operands behind shared references are never modified",
"No operation modifies the stored bytes of an operand it receives by shared reference or of a borrowed numeric, directly or through a temporary that shares its digits; writes go only to buffers the operation allocated or was given by value or unique reference.",
["inputs","schedules"],"all operations on all operands, alone or shared between threads",
"An aliasing write shows only if the operand is inspected afterwards, for inputs that take the copying-avoidance path.",
["src/data.rs","src/var.rs","src/num.rs"],[("copy on write","src/var.rs Cow digits, to_mut"),("pointer constness casts","src/data.rs digits_mut, as_mut_slice, set_header")])
p("C17","Headers are only accessed through properly aligned pointers",
"Every typed access to a stored value, for owned buffers at any digit offset and for borrowed byte slices produced by the library, goes through a pointer whose alignment meets the requirement of the accessed type.",
["inputs","configurations"],"all stored values at all buffer offsets, short and long form, all targets",
"On the tested platform misaligned access happens to work with the pinned compiler, so tests pass regardless.",
["src/binary.rs","src/data.rs","src/num.rs"],[("typed views over byte buffers","src/num.rs as_binary, as_bytes; src/data.rs set_header; src/binary.rs UnionField, FlexArray")])
p("C18","Result scales follow the documented scale rules",
"The scale of a sum, difference or remainder's final subtraction is the larger of the operands' scales and of a product their sum; rounding and truncation yield the requested scale limited to 0..1000; ceiling, floor, truncating division, factorial and integer conversions yield scale 0; negation, absolute value and copies keep the scale. Quotients, roots, logarithms, exponentials and non-integer powers have a scale of at least the larger operand scale (but at most 1000) and never outside 0..1000.",
I,"all finite operands and all 32-bit scale arguments",
"Scales are chosen by arithmetic on operand weights and scales over their full ranges; tests see a few dozen combinations.",
["src/var.rs","src/num.rs"],[("scale selection","src/var.rs select_div_scale, sqrt, ln, log_common, exp, power_common, round, trunc, add_abs, sub_abs, mul_common")])
p("C19","Absent results and panics occur exactly under the documented conditions",
"Division and remainder by zero give no result from checked forms and the divide-by-zero panic from operators; square root of a negative, logarithm of zero or of a negative (value or base), zero to a negative power, and a negative to a non-integer power panic with their own message before any computation, and no other argument of these functions takes those exits (a value beyond the stored range is reported as such, and the logarithm to base one is a division by zero); a negative raised to a whole power of any size has its defined result. Checked operations, comparisons, hashing and formatting have no reachable explicit panic.",
I,"all finite operands of every public operation",
"The condition must be exact on all inputs and every path; tests try one or two arguments per error.",
["src/num.rs","src/var.rs","src/ops.rs"],[("domain checks","src/num.rs sqrt; src/var.rs ln, log, pow, div_common, power_int"),("panic messages","src/num.rs constants")])
p("C20","In-place variants leave exactly what the copying variants return",
"For negation, absolute value, rounding and truncation, the in-place variant leaves the same sign, weight, scale and digits as the value returned by the copying variant of the same operation with the same argument, and panics in the same cases; a compound assignment leaves what the binary operator returns.",
I,"all values and all scale arguments",
"Pairs of independent implementations must agree on every input, including NaN, zero and values needing a carry digit.",
["src/num.rs","src/ops.rs"],[("paired implementations","src/num.rs negate_mut/negate, abs_mut/abs, round_mut/round, trunc_mut/trunc")])
p("C21","Text is accepted only if all of it is one number or NaN",
"Parsing succeeds only when the text, apart from surrounding white space, is entirely an optionally signed decimal number with optional fraction and exponent having at least one mantissa digit, or the letters NaN in any case without sign; anything left over makes it an error. Blank text is reported as empty, an exponent or value beyond range as overflow and every other failure as invalid; parsing never panics. The parsed sign is the written sign and the parsed scale is the number of fraction digits reduced by the exponent, at least zero.",
I,"all strings",
"All strings; tests hold a few dozen literals.",
["src/parse.rs","src/error.rs"],[("grammar","src/parse.rs parse_decimal, extract_exponent, extract_sign, extract_nan, from_str"),("scale and weight derivation","src/parse.rs parse_str")])
p("C22","Printed text has the sign, point and digit count the value calls for",
"Plain text starts with a minus exactly for negative values, has a decimal point exactly when the scale is positive, and is followed by exactly as many fraction digits as the scale; the digits printed are those of the value, with no superfluous zeros before the point. Scientific text uses the letter case requested and the same sign rule, has one nonzero digit before its point, and its significand times ten to its exponent is exactly the value. Owned and borrowed values print identically.",
I,"all finite values and scales",
"Every weight/scale/digit-count combination has its own padding path; tests print a few values.",
["src/var.rs","src/num.rs"],[("writers","src/var.rs write, write_sci; src/num.rs Display, LowerExp, UpperExp")])
p("C23","Error values keep their kind through every conversion",
"Each failure is reported with the kind documented for it, and converting a parse error into a conversion error maps empty and invalid text to invalid and range overflow to out-of-range; each kind prints its own message.",
I,"all error values and all conversions between them",
"Which message a given failing path yields is decided per path; tests check a few.",
["src/error.rs","src/convert.rs","src/parse.rs"],[("kind mapping","src/error.rs From impls, Display")])
p("C24","Scale and weight arithmetic cannot overflow 32-bit integers",
"For operands within the stored format's limits and any 32-bit scale argument, the intermediate weight, scale and digit-count computations of rounding, truncation, addition, subtraction, multiplication and division stay within 32 bits, so no caller-supplied scale can wrap the computation.",
I,"all finite operands, all 32-bit scale arguments",
"Overflow needs extreme arguments on specific paths; tests use small ones.",
["src/var.rs"],[("argument clamps","src/var.rs round, trunc, NUMERIC_MAX_DISPLAY_SCALE")])
p("C25","Unchecked digit accesses stay inside their buffers",
"Every digit access made without a bounds check, and every slice formed from a raw buffer, lies within the allocated buffer for every operand.",
I,"all operands of all operations",
"An out-of-bounds access by one digit rarely changes a result; it needs specific operand shapes.",
["src/var.rs","src/data.rs"],[("get_unchecked uses","src/var.rs"),("slice construction","src/data.rs digits, digits_mut, as_mut_slice; src/binary.rs as_slice")])
p("C26","Rounding, truncation, ceiling, floor and increment return the exact value",
"Rounding to a scale (limited to -1000..1000) returns the multiple of the corresponding power of ten nearest to the value, halves away from zero; truncation returns the multiple nearest to it towards zero; ceiling returns the least integer not below the value, floor the greatest integer not above it; increment returns the value plus one. The in-place forms do the same.",
I,"all finite operands and all 32-bit scale arguments",
"Carries, digit-group alignment and the sign cases each need their own operand; tests hold a few dozen values per function.",
["src/var.rs","src/num.rs"],[("digit rounding","src/var.rs round_common, trunc_common"),("callers","src/var.rs round, trunc, ceil_common, floor_common, inc; src/num.rs")])
p("C27","Addition, subtraction and multiplication are digit-exact",
"A sum, difference or product that is returned is the mathematically exact sum, difference or product of the operands: every carry and borrow is propagated, operands of different weight are aligned and no digit is lost or duplicated, whatever the digits, weights, signs and stored forms.",I,"all finite operands",
"Carry and borrow chains depend on every digit and on how the operands overlap; tests sample.",["src/var.rs","src/num.rs"],[("digit loops","src/var.rs add_abs, sub_abs, mul_common"),("dispatch by sign and size","src/var.rs add_common, sub_common, cmp_abs")])
p("C28","Quotients are rounded at their scale; truncated ones and remainders are exact",
"A quotient is the exact quotient rounded to its scale, halves away from zero; truncating division returns the whole part of the exact quotient; the remainder is the dividend minus the divisor times that whole part, and so is smaller than the divisor and never of the opposite sign to the dividend.",I,"all finite dividends and nonzero divisors",
"Quotient-digit estimates are wrong only for rare digit patterns and rounding only at exact halves.",["src/var.rs","src/num.rs"],[("long division","src/var.rs div_common, div_fast_common"),("remainder","src/var.rs mod_common"),("truncating division","src/num.rs checked_div_trunc")])
p("C29","Printing then parsing returns an equal value of the same scale",
"Parsing the printed plain text of any value gives back an equal value with the same scale: the text spells the value at its scale, and reading a text of that form yields exactly the value it spells at the scale it shows.",I,"all finite values whose scale covers their digits",
"Digit groups of four are assembled and split at every alignment of the decimal point; tests print a handful of values.",["src/var.rs","src/parse.rs"],[("writer","src/var.rs write"),("parser","src/parse.rs parse_str, parse_decimal")])
p("C30","A result depends on the operands alone",
"Calling an operation again with the same operands gives the same result whatever was called before, on this or another thread: no operation keeps state that a later call reads (constants computed once from nothing but constants aside), none reads the environment, the clock or another ambient source, and no value changes through a shared reference, so values may be shared between threads.",
I,"all call histories and thread schedules",
"A test runs one short history; state carried over from an unusual call shows only in a particular sequence of calls or an interleaving.",["src/"],[("one-time constants","src/var.rs lazy_static constants"),("manual Send and Sync","src/data.rs NumericData; src/num.rs NumericBuf")])
p("C31","Memory that was never written is never read",
"No operation lets its result, its text, its debug text or its stored bytes depend on memory that was never written: every digit, spare digit and header word it reads from a block it allocated was written before, and every byte of a value it returns has been written.",
I,"all operands of all operations, whatever fresh memory holds",
"Fresh memory usually holds zeros in a short test, so a missing write goes unnoticed; the values that differ depend on what the block held before.",["src/data.rs","src/var.rs","src/num.rs","src/binary.rs"],[("uninitialised allocation","src/data.rs buf_alloc, buf_copy"),("spare digit for a carry","src/var.rs round_common"),("stored header","src/data.rs set_header"),("debug text","src/num.rs Debug")])
# not decided by this family
p("N03","Root, logarithm, exponential and power are accurate to the last printed digit",
"Results of square root, logarithm, exponential and power differ from the exact value by less than one unit of the last printed digit.",I,"all finite operands",
"Guard-digit sufficiency depends on runtime values.",["src/var.rs"],[("series and Newton iteration","src/var.rs sqrt_common, ln_common, exp_common, power_common, power_int")])
p("N05","Every operation terminates in time bounded by its operand sizes",
"No input makes an operation loop forever.",I,"all operands",
"Convergence of the iterations depends on runtime values.",["src/var.rs"],[("iterations","src/var.rs sqrt_common, ln_common, exp_common")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
json.dump([ (d["id"],d["title"]) for d in P],open("/tmp/ids.json","w"))
