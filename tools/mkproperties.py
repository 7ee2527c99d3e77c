import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
IN=["inputs","configurations"]
p("C01","Addition, subtraction, negation and absolute value are exact",
 "For every pair of U256/I256 operands the wrapping, overflowing, checked and saturating forms of add, sub, neg, abs, abs_diff, unsigned_abs and the mixed-sign forms (add_signed, add_unsigned, sub_unsigned) return the mathematically exact result reduced modulo 2^256, flagged, refused or clamped exactly when it is not representable. None of them panics; plain +, - and unary - give the exact result whenever it is representable.",
 IN,"all pairs of 256-bit values, both intrinsics backends, both build profiles",
 "Tests and doc tests compare a few dozen hand-picked operand pairs; carries and sign overflows depend on all 512 operand bits.",
 ["src/intrinsics/native/add.rs","src/intrinsics/native/sub.rs","src/intrinsics/llvm.rs","src/uint/api.rs","src/int/api.rs"],
 [("carry propagation between 128-bit words","src/intrinsics/native/add.rs, sub.rs"),("overflow predicates and saturation","src/uint/api.rs, src/int/api.rs")],
 ["return values of U256/I256 *_add, *_sub, *_neg, *_abs, abs_diff methods and operators"])
p("C02","Multiplication is exact",
 "For every pair of operands the wrapping, overflowing, checked and saturating multiplications of U256 and I256 return the exact product reduced modulo 2^256, flagged, refused or clamped (towards the sign of the exact product) exactly when it does not fit. None of them panics, and plain * and *= give the exact product whenever it is representable.",
 IN,"all pairs of 256-bit values, both backends, both profiles",
 "The tests multiply a handful of numbers; the partial products and carries form a value space of 2^512.",
 ["src/intrinsics/native/mul.rs","src/uint/api.rs","src/int/api.rs","src/intrinsics/llvm.rs"],
 [("word-by-word multiplication and overflow detection","src/intrinsics/native/mul.rs (umulddi3, mul2/mul3, umulc, imulc)")],
 ["*_mul methods, * and *= operators"])
p("C03","Division and remainder are exact",
 "For every dividend and non-zero divisor every quotient and remainder method (plain, checked, wrapping, overflowing, saturating, Euclidean, combined div_rem, operators and op-assign) returns the q and r of the mathematical definition: n = q*d + r with truncation towards zero and r of the dividend's sign, or 0 <= r < |d| for the Euclidean forms. A zero divisor panics (checked forms return None), and I256::MIN divided by -1 panics, wraps, saturates, is flagged or refused as each method's contract says.",
 IN,"all pairs of dividend and divisor, both profiles",
 "Division is a multi-digit Knuth algorithm with rare correction branches (probability about 2^-64 for random operands) that neither the unit tests nor random fuzzing reach.",
 ["src/intrinsics/native/divmod.rs","src/uint.rs","src/int.rs","src/uint/api.rs","src/int/api.rs"],
 [("Knuth algorithm D on 128-bit digits, 256 by 128 division on 64-bit digits","src/intrinsics/native/divmod.rs"),("sign handling, Euclidean adjustment","src/int.rs, src/int/api.rs, idivmod4")],
 ["every *div*, *rem* method and operator"])
p("C04","Powers are exact",
 "For every base and exponent pow, wrapping_pow, overflowing_pow, checked_pow and saturating_pow agree with the exact power: reduced modulo 2^256, flagged, refused or clamped exactly when it is not representable, with x^0 = 1 for every x including 0. pow on overflow panics in builds with debug assertions and wraps otherwise.",
 IN,"all bases and all u32 exponents, both profiles",
 "Doc tests try a few exponents; square-and-multiply has an overflow condition at every step.",
 ["src/uint/api.rs","src/int/api.rs"],[("square-and-multiply loops","src/*/api.rs: *_pow")],["pow family"])
p("C05","Shifts and rotations are exact for every amount",
 "Shifting left multiplies by 2^n modulo 2^256, shifting right is floor division by 2^n (arithmetic for I256, logical for U256) and rotation permutes the 256 bits cyclically, for every value and every amount. Amounts of 256 and more are masked to 8 bits by the wrapping forms, rotations and (in release builds) operators, flagged by overflowing, refused by checked and rejected with a panic by operators in debug builds.",
 IN,"all values x all u32 amounts, both backends, both profiles",
 "Tests use a few amounts; word-crossing behaviour differs for amounts 0, 1..127, 128, 129..255 and above, and between backends.",
 ["src/intrinsics/native/shl.rs","src/intrinsics/native/shr.rs","src/intrinsics/native/rot.rs","src/macros/ops.rs","src/uint/api.rs","src/int/api.rs"],
 [("shl/shr/sar/rol/ror intrinsics","src/intrinsics"),("amount masking and overflow checks","src/macros/ops.rs, src/*/api.rs")],
 ["<<, >>, <<=, >>=, *_shl, *_shr, rotate_left, rotate_right"])
p("C06","Bit-level queries and bitwise operators are exact",
 "For every value the bitwise operators, count_ones/zeros, leading/trailing_zeros/ones, swap_bytes, reverse_bits, is_power_of_two, next_power_of_two and checked_next_power_of_two return what their definition over the 256-bit two's complement representation says. next_power_of_two that does not fit panics with debug assertions and yields 0 without.",
 IN,"all values (pairs for the bitwise operators), both backends, both profiles",
 "Tests cover a few values; the split over two words makes zero/all-ones words and bit 127/128 special.",
 ["src/intrinsics/native/ctz.rs","src/uint/api.rs","src/int/api.rs","src/macros/ops.rs"],
 [("per-word counts combined","src/*/api.rs, src/intrinsics/native/ctz.rs")],["bit query methods; & | ^ !"])
p("C07","Every operator form computes the same operation",
 "All trait forms of an operator - by value, by reference, with a primitive on either side, with any primitive or 256-bit shift amount, and the compound assignments - give the result of the base operation on the converted operands. On overflow (or a shift amount outside 0..=255) every form panics when debug assertions are on, and wraps (masks the amount to its low 8 bits) when they are off; a zero divisor panics in every form and profile.",
 IN,"all operand pairs, all operand-type combinations, both profiles",
 "The tests only check that the trait implementations exist; each of several hundred macro-generated impls selects its own intrinsic and conversion per profile.",
 ["src/macros/ops.rs","src/uint/ops.rs","src/int/ops.rs"],[("operator macros","src/macros/ops.rs")],["core::ops trait implementations"])
p("C08","Equality, ordering and hashing are those of the integers",
 "Comparing two values (==, <, <=, >, >=, cmp, partial_cmp, min, max, clamp), also against u128/i128 on either side, agrees with comparing the integers they represent, hence is a total order. Equal values hash identically, and different values feed different data to the hasher.",
 IN,"all pairs of values and all pairs of value and primitive",
 "Tests compare a few pairs; sign and word order interact over 512 bits.",
 ["src/macros/cmp.rs","src/uint/cmp.rs","src/int/cmp.rs"],[("word-wise comparison","src/int/cmp.rs, src/uint/cmp.rs")],["comparison operators, Ord, Hash"])
p("C09","Integer conversions preserve or truncate the value exactly",
 "From and new are value preserving, TryFrom succeeds exactly when the value is representable in the target and then preserves it, and as-style casts (as_*, AsU256, AsI256) sign- or zero-extend and truncate modulo 2^n like primitive `as`, between U256, I256, bool and every primitive integer type. The constants MIN, MAX, ZERO, ONE, BITS and Default have their documented values.",
 IN,"all source values for every source/target pair",
 "Tests convert a few numbers; representability boundaries exist per type pair.",
 ["src/uint/convert.rs","src/int/convert.rs","src/uint.rs","src/int.rs"],[("conversion macros","src/*/convert.rs"),("as_* methods","src/uint.rs, src/int.rs")],["From/TryFrom/as_*/AsU256/AsI256"])
p("C10","Conversions to and from floating point round and saturate correctly",
 "Casting f32/f64 to U256/I256 truncates towards zero, saturates at the type's bounds (infinities included) and maps NaN to 0. Casting U256/I256 to f32/f64 yields the nearest representable float with ties to even (overflow to infinity for f32), as primitive integer casts do.",
 IN,"all f32 and f64 bit patterns; all 256-bit values",
 "Tests use a few floats; rounding is decided by up to 200 discarded bits.",
 ["src/uint/convert.rs","src/int/convert.rs","src/uint.rs","src/int.rs"],[("float bit manipulation","src/*/convert.rs"),("as_f32/as_f64","src/uint.rs, src/int.rs")],["as_f32, as_f64, From for floats, AsU256/AsI256 for floats"])
p("C11","from_str and from_str_radix accept exactly the primitive grammar",
 "For every string and every radix 2..=36, from_str_radix (and FromStr, in base 10) accepts exactly the strings the primitive integer types would - an optional sign (+ only for U256) and one or more digits of the radix in either case - and returns exactly the number denoted. Every other string is an error whose kind is the one primitives report (Empty, InvalidDigit, PosOverflow, NegOverflow), never a panic or a wrong value.",
 IN,"all strings, all radices",
 "Tests parse about ten strings; the fast path, overflow checks and sign handling depend on length, radix and position.",
 ["src/parse.rs","src/macros/parse.rs","src/uint/parse.rs","src/int/parse.rs"],[("digit loops, fast path without overflow checks","src/parse.rs: from_str_radix")],["from_str_radix, FromStr"])
p("C12","Prefixed, hexadecimal and literal parsing agree with the number denoted",
 "from_str_hex accepts exactly an optional sign, 0x and hexadecimal digits; from_str_prefixed additionally accepts 0b, 0o and plain decimal; both return exactly the denoted number or an error. The int!/uint! literal parser returns the denoted number for every in-range literal in any of the four bases with underscores and whitespace between digits, and refuses (panics, a compile error in a const context) invalid digits and literals out of range.",
 ["inputs"],"all strings and literals",
 "Tests use a few literals; carries between words occur for one in billions of digit strings.",
 ["src/parse.rs","src/uint/parse.rs","src/int/parse.rs","src/lib.rs"],[("const digit accumulation with word carries","src/parse.rs: const_from_str_prefixed"),("prefix dispatch","src/parse.rs: from_str_prefixed")],["from_str_hex, from_str_prefixed, const_from_str_prefixed, int!, uint!"])
p("C13","Formatting renders every value and flag like primitive integers",
 "Display, Debug, Binary, Octal, LowerHex and UpperHex produce the exact digits of the value (two's complement in non-decimal bases) and honour width, fill, alignment, sign, # and 0 flags exactly as the primitive integers do, plus the documented `-` flag that renders negative numbers in radix formats as sign and magnitude. LowerExp/UpperExp render the value as its f64 approximation does, and parsing a rendered number back gives the same value. A writer that fails cuts the text short and its failure is reported.",
 IN,"all values x all format specifications",
 "Tests format a few values with few flags; the digit loops write into fixed buffers with unsafe code.",
 ["src/fmt.rs","src/macros/fmt.rs"],[("digit generation in fixed buffers","src/fmt.rs"),("sign and flag dispatch","src/macros/fmt.rs")],["core::fmt implementations"])
p("C14","Byte and word representations are exact and mutually inverse",
 "to_{be,le,ne}_bytes return the 32 bytes of the two's complement value in the named order, the from_*_bytes, to/from_be/le, from_words/into_words and low/high accessors are consistent with them, and each pair is mutually inverse for every value and every byte string. Writing a word through low_mut/high_mut changes exactly that word.",
 IN,"all values and all 32-byte strings",
 "Tests use one or two byte patterns; every byte position matters.",
 ["src/uint.rs","src/int.rs","src/uint/api.rs","src/int/api.rs"],[("byte order conversions","src/*/api.rs"),("word accessors","src/uint.rs, src/int.rs")],["*_bytes, to_be.., low/high, words"])
p("C15","Intrinsics backends and build profiles are interchangeable",
 "Every public intrinsic computes its named 256-bit operation for all operands (shift amounts below 256), and every public arithmetic, bit, shift, parse and format operation returns bit-identical results with the native and the LLVM-generated intrinsics, in debug and release builds, whenever no profile-dependent overflow is involved.",
 ["inputs","configurations"],"all operands x {native, llvm} x {debug, release}",
 "Each test run sees a single configuration; nothing compares two of them.",
 ["src/intrinsics.rs","src/intrinsics/llvm.rs","src/intrinsics/native.rs","src/intrinsics/signed.rs","src/intrinsics/cast.rs","intrinsics/src/lib.rs","intrinsics/build/intrinsics.rs"],
 [("backend selection","src/intrinsics.rs"),("LLVM IR generation","intrinsics/build")],["ethnum::intrinsics functions; whole API"])
p("C16","Serde string formats round trip and are canonical",
 "With the default, decimal, prefixed and permissive schemes every value serializes to its canonical string (0x-prefixed lower-case hexadecimal without leading zeros and with a leading minus sign for negatives; plain decimal for `decimal`) and deserializes back to the same value. Deserialization accepts exactly the strings of the scheme's grammar that denote a representable number and reports an error for anything else. This holds for every format, human readable or not; a failure of the serializer is passed on.",
 ["inputs"],"all values and all strings, all four schemes, both types",
 "Tests serialize a few values; buffers are sized for the longest string and filled by unsafe code.",
 ["src/serde.rs"],[("fixed format buffers and visitors","src/serde.rs")],["Serialize/Deserialize, serde::{decimal,prefixed,permissive}"])
p("C17","Permissive deserialization takes exactly the integers it is given",
 "The permissive scheme maps every signed or unsigned integer token up to 128 bits, and every float token that is an exact integer strictly within +-2^24 (f32) or +-2^53 (f64), to the same number, and reports an error for every other float and for numbers the target type cannot represent (negative ones for U256).",
 ["inputs"],"all numeric tokens (i64, u64, i128, u128, f32, f64)",
 "Tests feed a few numbers per token type.",
 ["src/serde.rs"],[("PermissiveVisitor","src/serde.rs: permissive")],["serde::permissive::deserialize"])
p("C18","Serde byte formats round trip in every byte order",
 "serde::bytes::{le,be,ne} encode every value as exactly its 32 bytes and reject any other length; serde::compressed_bytes::{le,be,ne} omit exactly the redundant leading bytes (all zero bytes of U256, all sign bytes of I256 that the decoder restores), decode every encoding of at most 32 bytes as the (sign- or zero-extended) number and reject longer ones. Decoding an encoded value gives back the value, whether the bytes arrive as a byte string or as a sequence, from a human readable format or not.",
 ["inputs"],"all values, all byte strings of any length, all schemes, both types, byte strings and sequences",
 "Tests encode a few values; sign extension and the compression boundary depend on the top bits of each byte position.",
 ["src/serde.rs"],[("compression and extension","src/serde.rs: compressed_bytes"),("fixed width visitors","src/serde.rs: bytes")],["serde::bytes, serde::compressed_bytes"])
p("C19","Sum and Product fold the whole iterator",
 "Summing or multiplying any iterator of values or references gives the same result as combining its items one by one with + or * starting from 0 or 1, including the empty iterator, and overflows exactly as those operators do in the build profile.",
 IN,"all finite sequences of values",
 "No test of Sum or Product uses more than trivial sequences.",
 ["src/macros/iter.rs","src/uint/iter.rs","src/int/iter.rs"],[("fold over the operators","src/macros/iter.rs")],["Sum, Product"])
p("C20","The safe API has no undefined behaviour",
 "No call of a safe function of the crate, with any arguments, causes undefined behaviour: out-of-bounds or uninitialised access, aliasing violation, invalid values or reaching an unreachable hint.",
 IN,"all arguments of all safe functions, both profiles",
 "The unit tests run natively, where undefined behaviour is usually silent.",
 ["src/fmt.rs","src/serde.rs","src/error.rs","src/int.rs","src/uint.rs","src/intrinsics/cast.rs","src/intrinsics/native/divmod.rs","src/macros/ops.rs"],
 [("unsafe blocks: MaybeUninit results, pointer formatting, unreachable_unchecked, transmute","those files")],["executions under the Miri interpreter"])
p("C21","In-place updates compose: histories of assignments stay exact",
 "After any sequence of compound assignments, word writes and shifts applied in place to a variable, its value is the one obtained by applying the corresponding mathematical operations in order, and a panicking update in between (overflow in debug, division by zero) leaves the variable unchanged. Representations never drift: equal values reached by different histories are indistinguishable.",
 ["histories","configurations"],"all finite histories of in-place operations, both backends, both profiles",
 "Tests perform single operations from fresh values; the op-assign forms use different intrinsics in release builds.",
 ["src/macros/ops.rs","src/intrinsics/native/add.rs","src/intrinsics/native/mul.rs","src/intrinsics/native/divmod.rs","src/intrinsics/native/shl.rs","src/intrinsics/native/shr.rs"],
 [("two-operand intrinsics","src/intrinsics"),("op-assign macros","src/macros/ops.rs")],["AddAssign.. ShrAssign, low_mut, high_mut"],
 [("variable","the 256-bit value being updated in place","caller")])
p("C22","Results do not depend on the byte order of the target",
 "On a big-endian target every operation gives the same values, strings and le/be byte encodings as on a little-endian one; only the native-endian forms and the in-memory word order differ, and they follow the target's byte order.",
 ["inputs","configurations"],"all inputs x {little-endian, big-endian} targets",
 "All tests run on a little-endian machine; the big-endian branches are never executed.",
 ["src/uint.rs","src/int.rs","src/uint/api.rs","src/int/api.rs","src/serde.rs","src/intrinsics/native"],
 [("cfg(target_endian) branches: word order, byte conversions","src/uint.rs, src/int.rs, src/*/api.rs, src/serde.rs")],["whole API on a big-endian interpreter"])
p("C23","Results do not depend on the pointer size of the target",
 "On a target with 32-bit pointers every operation gives the same values, strings and encodings as on a 64-bit one; only conversions from and to usize and isize differ, and they follow the width of those types: as_usize/as_isize truncate, converting into them fails exactly for values that do not fit, AsU256/AsI256 zero- or sign-extend.",
 ["inputs","configurations"],"all inputs x {32-bit, 64-bit} pointers",
 "All tests run on a 64-bit machine.",
 ["src/int/convert.rs","src/uint/convert.rs","src/int.rs","src/uint.rs","src/fmt.rs","src/serde.rs","src/macros/ops.rs"],
 [("usize and isize conversions and shift amounts; buffer offsets","those files")],["whole API on an interpreter of a 32-bit machine"])
p("C24","A call depends on nothing but its operands",
 "The result of every call depends only on its operands, the profile and the target: earlier calls, calls made by callbacks (writers, hashers, iterators, readers) while it runs, calls interrupted by a panic, and other threads change nothing. Both types are plain data that can be copied, shared and sent.",
 ["histories","schedules","inputs"],"all histories of calls in all threads, all schedules",
 "Each test makes a few calls in one order in one thread.",
 ["src/fmt.rs","src/serde.rs","src/parse.rs","src/intrinsics","src/int.rs","src/uint.rs"],
 [("no statics, caches or shared buffers; stack buffers for text","those files")],["sequences of public calls, in one and in two threads"])
open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    assert len(x["statement"].split(". "))<=3,(x["id"],len(x["statement"].split(". ")))
print(len(P))
