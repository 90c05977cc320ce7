import json
P=[]
def p(id,title,st,over,text,why,files,mech):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None)))
B="crates/bits/src/"; T="crates/traits/src/"; I="crates/ints/src/"; R="crates/reals/src/"; C="crates/compounds/src/"
lens="The unit tests fix a handful of short operands; the guarantee is over every length, every digit value and all six element widths, including unequal lengths, empty slices, carries that run through every digit and results that exactly fill the width."
p("P01","Slice addition is exact",
 "Adding two little-endian digit slices of any lengths yields a slice denoting exactly the sum, with the element-wise and the bit-wise algorithm alike; the element-wise result has no superfluous high zero digits. Adding in place (overflowing, checked or wrapping form) leaves the sum reduced modulo the width of the destination, and the overflow flag, or the absence of a checked result, is reported exactly when the true sum does not fit that width.",
 ["inputs","configurations"],"all digit slices of every length and every unsigned element type",lens,
 [B+"algos/element/add.rs",B+"algos/bitwise/add.rs",B+"utils.rs"],[("carry propagation per element",B+"algos/element/add.rs"),("bit-serial full adder",B+"algos/bitwise/add.rs"),("trimming of high zeros",B+"utils.rs")])
p("P02","Slice subtraction is exact",
 "Subtracting two little-endian digit slices of any lengths yields the absolute difference together with a flag that is set exactly when the right operand is larger, with the element-wise and the bit-wise algorithm alike; the element-wise result has no superfluous high zero digits. The in-place overflowing, checked and wrapping forms leave the difference modulo the width of the destination and report a borrow exactly when the right operand is larger, and negation in place yields the two's complement.",
 ["inputs","configurations"],"all digit slices of every length and every unsigned element type",lens,
 [B+"algos/element/sub.rs",B+"algos/element/neg.rs",B+"algos/bitwise/sub.rs"],[("borrow propagation",B+"algos/element/sub.rs"),("complement and add one",B+"algos/element/neg.rs"),("bit-serial subtractor",B+"algos/bitwise/sub.rs")])
p("P03","Slice multiplication is exact",
 "Multiplying two digit slices of any lengths yields exactly the product, with the element-wise and the bit-wise algorithm alike; the element-wise result has no superfluous high zero digits. The fixed-width overflowing, checked and wrapping forms yield the product modulo the width of the left operand and report overflow exactly when the true product does not fit.",
 ["inputs","configurations"],"all digit slices of every length and every unsigned element type",lens,
 [B+"algos/element/mul.rs",B+"algos/bitwise/mul.rs"],[("schoolbook multiply-accumulate with carry",B+"algos/element/mul.rs"),("shift-and-add",B+"algos/bitwise/mul.rs")])
p("P04","Slice division yields quotient and remainder",
 "Dividing digit slices of any lengths, including a divisor longer than the dividend, yields quotient and remainder with dividend = quotient * divisor + remainder and remainder < divisor, for the long division and for the subtracting division alike. Dividing by zero panics, or gives no result in the checked forms, and never loops forever or returns a number.",
 ["inputs","configurations"],"all pairs of digit slices, every element type; termination on every input",lens,
 [B+"algos/bitwise/div.rs",B+"algos/element/div.rs"],[("bit-serial long division",B+"algos/bitwise/div.rs"),("repeated subtraction",B+"algos/element/div.rs")])
p("P05","Slice shifts multiply and divide by powers of two",
 "Shifting a digit slice left by k bits yields the number times 2^k in the growing form and that value modulo the width in the in-place forms; shifting right yields the number divided by 2^k rounded down; the growing element-wise results have no superfluous high zero digits. The checked forms give no result exactly when k exceeds the bit length of the slice, and the wrapping forms use k modulo the bit length.",
 ["inputs","configurations"],"all digit slices, all shift amounts (including multiples of the element width, the exact bit length and beyond), every element type",lens,
 [B+"algos/element/shl.rs",B+"algos/element/shr.rs",B+"algos/bitwise/shl.rs",B+"algos/bitwise/shr.rs"],[("whole-element move plus bit offset",B+"algos/element/shl.rs"),("high-to-low carry of low bits",B+"algos/element/shr.rs")])
p("P06","Slice comparison, bit access and bit logic follow the number",
 "Comparing two digit slices of any lengths orders them as the numbers they denote. Reading bit i of a slice yields binary digit i of the number, writing bit i changes only that binary digit, iterating over the bits yields each binary digit once in order with the right remaining count, and and, or, xor and complement act on every binary digit independently.",
 ["inputs","configurations"],"all digit slices and positions, in range or not, every element type",lens,
 [B+"algos/element/cmp.rs",B+"bit_slice.rs",B+"bit_slice/iter.rs",B+"algos/element/bitand.rs"],[("most significant digit first comparison",B+"algos/element/cmp.rs"),("index split into element and bit",B+"bit_slice.rs"),("bit iterators",B+"bit_slice/iter.rs")])
p("P07","Digit slice conversions and normalisation keep the value",
 "Splitting an integer into digits of any element width and reassembling digits into an integer of any width keep the value exactly, and reassembly reports failure exactly when the value does not fit. Trimming removes only high zero digits and never the last digit, so the number denoted never changes; reversing and pushing past the end place every digit where asked.",
 ["inputs","configurations"],"all integers, all digit slices, all pairs of element types",lens,
 [B+"utils.rs",B+"bit_slice.rs"],[("digit splitting and joining",B+"utils.rs"),("trimming",B+"utils.rs")])
p("P08","Fixed-width unsigned add, subtract, multiply and power",
 "For the byte-array unsigned integer of any width, addition, subtraction, multiplication and power equal the mathematical result whenever it fits the width. When it does not fit, the checked forms give no result, the wrapping forms give the result modulo 2^(8*width), the saturating forms give the nearest bound, and the plain operators panic in debug builds and wrap in release builds.",
 ["inputs","configurations"],"every width, every pair of values, debug and release builds",
 "Tests try one or two widths with tiny values; overflow exactly at the boundary, carries through every byte and width-1 or odd widths are not sampled.",
 [I+"u.rs"],[("operators over the slice algorithms",I+"u.rs")])
p("P09","Fixed-width unsigned division, shifts and bit logic",
 "For the byte-array unsigned integer of any width, division and remainder satisfy dividend = quotient * divisor + remainder with remainder < divisor and panic on a zero divisor (checked division gives no result). Shifts multiply or floor-divide by powers of two modulo the width, and a shift by more than the bit width panics in debug and wraps the amount in release; and, or, xor and complement act bit by bit.",
 ["inputs","configurations"],"every width, every pair of values and shift amounts, debug and release builds",
 "Tests try a few small values at one width and never a shift at or beyond the width or a divisor longer than the dividend.",
 [I+"u.rs"],[("division and shift operators",I+"u.rs")])
p("P10","Fixed-width unsigned order, identities, bytes and conversions",
 "For the byte-array unsigned integer of any width, equality and order agree with the number denoted, zero, one, minimum and maximum are those numbers, and little- and big-endian byte round trips are the identity. Conversion from every unsigned primitive integer type succeeds exactly when the value fits and then keeps it, and conversion to every unsigned primitive integer type is exact when the value fits, and otherwise fails, clamps or keeps the low bits in the checked, saturating and truncating forms respectively.",
 ["inputs","configurations"],"every width, every value, every unsigned primitive integer type",
 "Tests convert a few small values; widths smaller and larger than the primitive and values just past the boundary are not sampled.",
 [I+"u.rs"],[("byte layout",I+"u.rs"),("primitive conversions",I+"u.rs")])
p("P11","Fixed-width signed integers are two's complement",
 "For the byte-array signed integer of any width, addition, subtraction, multiplication and negation equal the mathematical result modulo 2^(8*width) in two's complement. Division truncates towards zero and the remainder takes the sign of the dividend, order follows the signed value, and absolute value and sign tests agree with it.",
 ["inputs","configurations"],"every width, every pair of values including the minimum",
 "Tests use small positive and negative values at one width; the minimum value, mixed signs and every byte pattern are not sampled.",
 [I+"i.rs"],[("two's complement over the unsigned type",I+"i.rs")])
p("P12","Big integer arithmetic is exact and canonical",
 "Addition, subtraction, multiplication, negation, absolute value, division and remainder of arbitrary-size integers yield exactly the mathematical result for operands of any size and sign; division truncates towards zero, the remainder takes the sign of the dividend, and a zero divisor panics. Every result is canonical: equal numbers compare equal whatever operations and intermediate sizes produced them, and there is no negative zero.",
 ["inputs","histories"],"all integers of any size and sign, all sequences of operations crossing the inline and shared representations",
 "Tests add and multiply a few small numbers; crossing between the inline and the shared representation, cancellation to zero and mixed signs over many limbs are not sampled.",
 [I+"big_int.rs",I+"big_int/macros.rs"],[("tagged inline or interned storage",I+"big_int.rs"),("sign and magnitude dispatch",I+"big_int.rs")])
p("P13","Big integer order, equality and primitive conversions",
 "Order and equality of arbitrary-size integers, among themselves and against every primitive integer type, agree with the mathematical value for all sizes and signs. Conversion from every primitive is exact, and conversion to a primitive is exact when it fits and otherwise fails, clamps or keeps the low bits in the checked, saturating and truncating forms respectively.",
 ["inputs"],"all integers, all primitive integer types and values",
 "Tests compare a few constants; negatives of equal length, primitive minimums and values one past a bound are not sampled.",
 [I+"big_int.rs",I+"big_int/macros.rs"],[("sign then length then most significant limb",I+"big_int.rs"),("conversion macros",I+"big_int/macros.rs")])
p("P14","Number formatting and parsing round-trip",
 "Formatting a fixed-width unsigned integer in decimal, or an arbitrary-size integer in decimal, hexadecimal or binary, writes exactly the digits of its value, with a leading minus for negative values; hexadecimal and binary carry their prefix, and binary is padded to whole machine words. Parsing text into an arbitrary-size integer in any base from 2 to 36 yields exactly the number written, rejects every character that is not a digit of that base, and parsing what was formatted gives back the same number.",
 ["inputs"],"all values, all bases, all strings of at least one digit",
 "Tests format a few values in one or two bases; negatives, many-limb values, interior zeros and invalid digits at every position are not sampled.",
 [I+"big_int.rs",I+"u.rs","crates/bits/src/utils.rs"],[("repeated division by the base",I+"big_int.rs"),("digit accumulation",I+"big_int.rs")])
p("P15","Big integer shifts, powers and bit logic",
 "For non-negative arbitrary-size integers, shifting left multiplies by 2^k, shifting right floor-divides by 2^k, raising to a power gives the exact power, and and, or and xor act on the binary digits; negative values shift left exactly. Results are canonical for every size and every shift amount.",
 ["inputs"],"all non-negative integers and shift amounts or exponents that fit in memory",
 "Tests shift one or two constants; amounts that are multiples of the limb width and results that shrink across the inline boundary are not sampled.",
 [I+"big_int.rs"],[("slice algorithms on the magnitude",I+"big_int.rs")])
p("P16","Interner shares live values and keeps them stable",
 "Over every sequence of adds, reference-count increments and decrements by one user at a time, adding a value that is already live returns its existing id and raises its count by one, and adding any other value returns an id no live value has. A live id always yields the value it was added with, at an unchanged address, with its exact count; an id whose count reached zero is refused until reused, its count never drops below zero, and its storage is reused before more is allocated.",
 ["histories"],"all finite sequences of operations on one interner, all value types and capacities",
 "Tests run histories of two or three operations; guarantees must hold after any mixture of deaths, revivals and growth past a storage block.",
 ["crates/utils/src/intern.rs","crates/utils/src/linked.rs"],[("slot search",'crates/utils/src/intern.rs'),("append-only block list","crates/utils/src/linked.rs")])
p("P17","Primitive conversions are exact, clamped or truncated as named",
 "For every ordered pair of primitive integer types and every value, the checked conversion succeeds exactly when the value is in range and then keeps it, the truncating conversion keeps the low bits, and the saturating conversion keeps in-range values and otherwise gives the nearest bound. Saturating conversions between integers and floats clamp, send NaN to zero and otherwise truncate towards zero or round to the nearest float.",
 ["inputs","configurations"],"all 144 pairs of integer types and both float types, every value",
 "There are no tests over the type pairs; the defect-prone cases are single pairs at single boundary values.",
 [T+"__impl.rs",T+"cast.rs"],[("conversion macros listed per type pair",T+"__impl.rs")])
p("P18","Primitive operator traits match the named arithmetic",
 "For every primitive integer type and all operands, the checked, wrapping and overflowing operations, checked and wrapping shifts by any amount, power, greatest common divisor, factorial, zero, one, bounds, sign tests, absolute value, bit counts and byte conversions equal their mathematical definitions. The greatest common divisor is the non-negative one and divides both operands; non-zero integer types agree with their primitive.",
 ["inputs","configurations"],"all primitive integer types, all operands and shift amounts",
 "Tests call gcd twice; a macro slip affects one type or one operation at boundary operands only.",
 [T+"__impl.rs",T+"__impl/nz.rs"],[("forwarding macros",T+"__impl.rs")])
p("P19","Widening multiply-add loses nothing",
 "For every unsigned primitive type and all a, b and c, the widening multiply-add returns a low and a high half with high * 2^bits + low = a * b + c.",
 ["inputs","configurations"],"all operand triples of all six unsigned types, up to 128 bits",
 "2^384 operand triples at the widest type; the carries that matter occur on rare operands.",
 [T+"ops/widening.rs"],[("double-width product",T+"ops/widening.rs"),("four-part 128-bit product with three carries",T+"ops/widening.rs")])
p("P20","Fixed-point numbers behave as scaled integers",
 "A fixed-point number with N fraction bits denotes its raw integer divided by 2^N: addition, subtraction, negation, remainder and comparison are exact, multiplication rounds down and division truncates, whenever the intermediate integers fit the backing type. Floor, ceiling, truncation, fraction and rounding to the nearest whole number (halves down) are exact for positive and negative values, and zero, one and the bounds denote those numbers.",
 ["inputs","configurations"],"all raw values that stay in range, all backing integer types and fraction widths",
 "Tests use two precisions and a few values; negative halves, whole values and products needing rescaling are not sampled.",
 [R+"fixed.rs"],[("rescaling after multiply and before divide",R+"fixed.rs")])
p("P21","Fractions are exact and always reduced",
 "A fraction built from any numerator and non-zero denominator is in lowest terms with a positive denominator and the same value, and a zero denominator is refused. Sum, difference, product, quotient, negation and absolute value are the exact rational results whenever the intermediate integers fit, equality is equality of value, rounding gives the nearest whole number (halves down), floor and ceiling of non-negative fractions are exact, and dividing by zero panics.",
 ["inputs","configurations"],"all pairs of numerators and denominators of every backing type that stay in range",
 "Tests try one addition and four roundings; sign combinations, common factors and zero numerators are not sampled.",
 [R+"rat.rs",T+"__impl.rs"],[("reduction by the greatest common divisor",R+"rat.rs")])
p("P22","Complex arithmetic follows the field definitions",
 "Sum, difference, product and quotient of complex numbers, with each other and with a scalar, equal the textbook formulas on real and imaginary parts, in that order, for every operand; multiplying and then dividing by the same non-zero number is the identity on integers. Zero, one, equality and squared magnitude agree with those definitions.",
 ["inputs"],"all operands whose intermediate values fit the component type",
 "There are no tests for complex numbers.",
 [C+"complex.rs"],[("component formulas",C+"complex.rs")])
p("P23","Vector and matrix algebra acts element by element",
 "For every dimension, vector sum, difference, product, quotient and remainder (by vector or scalar, by value, reference or in place) act on each coordinate, dot, cross, distance, sum and product equal their definitions, and checked forms fail exactly when a coordinate overflows. Matrix sum and difference act on each entry, the matrix product equals the row-by-column sums for every positive inner dimension, transposition swaps indices, and identity, zero, row, column, diagonal and row-swap operations place every entry where defined.",
 ["inputs","configurations"],"all dimensions and entries that stay in range",
 "Tests multiply one pair of matrices; other shapes, non-square products and every assignment operator are not sampled.",
 [C+"vector.rs",C+"matrix/static.rs",C+"matrix/dynamic.rs"],[("operator macros",C+"vector.rs"),("product loop",C+"matrix/static.rs")])
p("P24","Row reduction and determinant are correct",
 "Row-reducing any matrix over exact numbers, of fixed or dynamic size and of any shape, yields a matrix in row echelon form with the same row space. The determinant of any square matrix over exact numbers equals its mathematical determinant, including sign changes from row swaps and singular matrices.",
 ["inputs","configurations"],"all matrices of every shape over an exact field",
 "Tests reduce three matrices; wide, tall, rank-deficient and zero-leading matrices are not sampled.",
 [C+"matrix/macros.rs",C+"matrix/static.rs",C+"matrix/dynamic.rs"],[("pivot search, swap and elimination",C+"matrix/macros.rs")])
p("P25","Matrix indexing and views stay in bounds and agree",
 "Reading or writing entry (row, column) of a matrix, of a dynamically sized matrix, or through a shared or mutable view of either touches exactly that entry and all of these agree. Any index with a row or column at or past its limit panics, including ones that would overflow address arithmetic, and a dynamic matrix can only be built with exactly rows times columns entries.",
 ["inputs","configurations"],"all shapes and all index pairs up to the largest representable",
 "Tests read seven in-range entries of one square matrix; out-of-range pairs that land inside the storage are exactly what must panic.",
 [C+"matrix/refs.rs",C+"matrix/dynamic.rs",C+"matrix/static.rs"],[("bounds test before raw pointer access",C+"matrix/refs.rs")])
p("P26","Static iterators visit each element once, in order",
 "For every length, the fixed-length iterators and their map, zip, enumerate and zip-all adapters produce each element exactly once in index order, and folding, summing, multiplying and collecting into an array see exactly that sequence. Collecting into an optional or result container, try-fold, any and all stop at the first element that decides the answer and return what it dictates; full consumption drops every owned element exactly once and no path drops one twice.",
 ["inputs","configurations"],"all lengths, element types (including ones with destructors) and adapter combinations",
 "Tests collect a few 4-element integer arrays; ownership, ordering and short-circuit positions are not sampled.",
 ["crates/static-iter/src/lib.rs","crates/static-iter/src/adapter.rs","crates/static-iter/src/array.rs","crates/static-iter/src/zip_all.rs"],[("index protocol",'crates/static-iter/src/lib.rs'),("uninitialised array ownership","crates/static-iter/src/array.rs")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
