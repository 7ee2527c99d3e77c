"""What decides each property: see DESIGN.md."""

COMMON = [
    "The reference model (harness/src/z.rs, 576-bit two's complement) is right; it checks itself against 128-bit primitives on every run.",
    "U256/I256::from_words and into_words are faithful (property C14 decides them, against raw bytes).",
    "Operands outside the enumerated alphabets are not covered.",
    "rustc 1.90.0 on x86_64, optimised with and without debug assertions and overflow checks; both intrinsics back ends.",
]


def explore(bins, rule, assumptions=(), level="exploration", **kw):
    return dict(kind="explore", bins=bins, rule=rule, assumptions=COMMON + list(assumptions), level=level, **kw)


PROPS = {
    "C01": explore(["c01"], "Every ordered pair of an alphabet of boundary patterns (powers of two, limb products, source literals...), and every value of a larger one for unary operations; non-trivial: an operation carries, borrows or overflows somewhere in the case.", scaled="add"),
    "C02": explore(["c02"], "Every ordered pair of alphabets of boundary patterns, products around 2^255 and 2^256; non-trivial: both factors need more than 64 bits or the product overflows.", scaled="mul"),
    "C03": explore(["c03"], "Every ordered pair of dividends and divisors of boundary alphabets plus dividends built as q*d+r to hit the quotient-estimate corrections; non-trivial: divisor above one and quotient non-zero.", scaled="div"),
    "C04": explore(["c04"], "Every pair of base and exponent of the alphabets; non-trivial: exponent above one and base not in {0,1,-1}."),
    "C05": explore(["c05"], "Every pair of value and shift amount (all amounts 0..=520, powers of two, u32 extremes); non-trivial: amount in 1..256 and value not 0.", scaled="shift"),
    "C06": explore(["c06"], "Every value of a large alphabet for bit queries, every ordered pair for binary operators; non-trivial: value neither 0 nor all ones."),
    "C07": explore(["c07"], "Every operator form (by value, by reference, compound, primitive right operands) on every pair of an alphabet; non-trivial: operands differ and are non-zero."),
    "C08": explore(["c08"], "Every ordered pair (and triples for transitivity) of an alphabet, against primitives too; non-trivial: the operands differ."),
    "C09": explore(["c09"], "Every value of the alphabet converted to every primitive and every boundary of every primitive converted back; non-trivial: the value does not fit some target."),
    "C10": explore(["c10"], "Every exponent with every mantissa pattern around ties, all special values (thorough and nat-rel: all 2^32 f32 bit patterns); every integer of an alphabet around rounding boundaries; non-trivial: rounding, saturation or truncation takes place."),
    "C11": explore(["c11"], "Every string up to a length over an alphabet of digits, signs, separators; every radix; boundary numbers written in every radix and spelling; non-trivial: the text is accepted or fails by overflow."),
    "C12": explore(["c12"], "As C11 for prefixed and literal syntax, plus literals evaluated at compile time; non-trivial: the text is accepted or fails by overflow.", const_eval=True),
    "C13": explore(["c13"], "Every value of the alphabet under every format specification of a table (flag, width, precision, case, radix); non-trivial: width or flag changes the output."),
    "C14": explore(["c14"], "Every value of the alphabet and every 32-byte string with each byte value in each position over every background; non-trivial: the bytes are not a palindrome (zero, all ones...)."),
    "C15": explore(["c15"], "Every public intrinsic on every ordered pair of the alphabet against the model; digests of (nearly) the whole API over pairs, values and texts compared between the four builds; non-trivial: the operands differ or the value is not 0."),
    "C16": explore(["c16"], "Every value of the alphabet through every string scheme, and every string up to a length over an alphabet of digits, prefixes, signs and foreign characters; non-trivial: the text is accepted or fails by overflow."),
    "C17": explore(["c17"], "Every numeric token type over its boundary values: all exponents and mantissa patterns of floats, powers of two and limits of integers; non-trivial: the token is no small integer.", ["Floats of magnitude exactly 2^24 (f32) and 2^53 (f64) are left unspecified."]),
    "C18": explore(["c18"], "Every value of the alphabet through every byte scheme; every byte string of length 0..=40 made of a filling byte with every byte value in every position, as byte string and as sequence; non-trivial: the encoding is shortened, extended or refused."),
    "C19": explore(["c19"], "Every sequence up to a length over an alphabet of boundary values, by value and by reference, through iterators with truthful and unknown size hints; non-trivial: at least two items."),
    "C21": explore(["c21"], "Breadth-first search of the state graph of in-place updates; every transition of the reachable graph is executed by the real code, and every state is reached again along its whole history in one variable; non-trivial: the update changes or refuses the value.", level="model_checking"),
    "C20": dict(kind="miri", level="exploration", asan=["c03", "c11", "c13", "c14", "c16", "c18"],
                rule="Nearly every safe function over every pair of a small alphabet that takes every branch of division, carries and signs, every text and byte string length, under Miri in both profiles; the large spaces of the division, parsing, formatting and serde explorers under AddressSanitizer with unsafe-precondition checks; non-trivial: the operands differ.",
                assumptions=["Miri and AddressSanitizer detect the undefined behaviour they document; aliasing violations count when both Stacked and Tree Borrows refuse them.",
                             "Executions outside the enumerated alphabets are not covered.", "The LLVM-generated intrinsics cannot be interpreted; they are only covered natively (C15)."]),
    "C22": dict(kind="miri", level="exploration",
                rule="Nearly every function over every pair of a small alphabet, every text and byte string length, executed on a big-endian target (s390x under Miri) and natively on x86_64, results compared case by case; byte-order dependent functions against their definition; non-trivial: the operands differ.",
                assumptions=["Miri implements big-endian s390x faithfully.", "Executions outside the enumerated alphabets are not covered."]),
    "C23": dict(kind="miri", level="exploration",
                rule="Nearly every function over every pair of a small alphabet, every text and byte string length, executed on a target with 32-bit pointers (i686 under Miri) and natively on x86_64, results compared case by case; conversions from and to usize and isize against their definition; non-trivial: the operands differ.",
                assumptions=["Miri implements i686 faithfully.", "Executions outside the enumerated alphabets are not covered."]),
    "C24": explore(["c24"], "Every ordered pair and triple of single calls, every call of two threads in turn, every call from within every callback, every call after an interrupted one, every call between any two instructions of another one (one preemption, machine code), the first call of a fresh process interrupted after each of its instructions, against the same call made first in a thread of its own; groups of functions at the same time in two threads under an interpreter that detects conflicting accesses; non-trivial: the calls differ, or a callback ran.",
                   ["Code without synchronisation of its own has the same result under every schedule if no two accesses conflict."], races=True),
}

TECHNIQUE = {
    "explore": "explicit bounded exhaustive exploration of the real code against a reference model",
    "miri": "bounded exhaustive exploration of call sequences under an interpreter that checks every access",
}
NOTE = {
    "explore": "Every case of the stated finite spaces is executed on the real code in four builds (native/LLVM back end, with/without debug assertions and overflow checks) and compared with an independent reference model. Exhaustive within the bounds of the spaces (see the evidence); nothing is claimed for operands outside them. Trusted: the reference model (self-tested), rustc.",
    "scaled": " In addition the sources of the native intrinsics are scaled to 8-bit words and explored on all 2^32 operand pairs; a witness of every path, lifted to 256 bits in 144 ways, is executed on the real code. The scaled model itself never decides.",
    "miri": "Bounded exhaustive. Every call of the stated finite space is executed by Miri, which reports undefined behaviour on the executed path; nothing is claimed for paths outside the space. Trusted: Miri.",
}
