"""What each property's check explores: harness entries, symbolic inputs, bounds."""
import os, re
from collections import namedtuple
from tpl import *

Job = namedtuple("Job", "name entry params steps time")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PUNCT, IDENT, NUM, QUOTED, OPEN, CLOSE, DOC, ERRLIT, GAP = (1 << k for k in (0, 1, 2, 3, 4, 5, 6, 7, 15))

ASSUMPTIONS = [
    "the LLVM IR rustc emits for the harness (overflow checks on, panic=unwind) and the engine's semantics of that IR (validated by replaying sampled paths natively)",
    "uninitialised memory reads as zero in the engine; allocation never fails; core's memchr/memrchr/char counting are replaced by direct equivalents; panic messages are not formatted; getrandom delivers fixed bytes",
    "unicode-ident's tables are shared by the implementation and the reference",
    "z3's and the byte-domain procedure's answers",
]


def lexjobs(mask, temps, entry="h_lex", time=200, steps=4000000, pre=None):
    jobs = []
    for parts in temps:
        codes, text = t(*parts)
        params = ([mask] if pre is None else list(pre)) + codes + [END]
        if "{66000}" in text:
            steps = 800000000
        jobs.append(Job(text.replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r"), entry, params, steps, time))
    return jobs


SPANS = dict(crate="main", config="spans", features=["spans"])
EXEMPT = dict(crate="main", config="exempt", features=["exempt"], rustflags=["--cfg procmacro2_semver_exempt"])
EXEMPTSPANS = dict(crate="main", config="exemptspans", features=["exempt", "spans"], rustflags=["--cfg procmacro2_semver_exempt"])
BARE = dict(crate="main", config="bare", bare=True, features=[])
BARESPANS = dict(crate="main", config="barespans", bare=True, features=["spans"])
PLAIN = dict(crate="main", config="plain", features=[])

KEYWORDS = "abstract as async await become box break const continue crate do dyn else enum extern false final fn for gen if impl in let loop macro macro_rules match mod move mut override priv pub raw ref return safe Self self static struct super trait true try type typeof union unsafe unsized use virtual where while yield auto default _".split()
SUFFIXES = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f16 f32 f64 f128 c str _".split()

# character neighbourhoods every lexical property is checked in
def general(tier):
    r = [(S(n),) for n in (0, 1, 2, 3, 4)]
    r += [(AU, AU), (U, S(2)), (S(2), U), (S(1), U, S(1)), ("\ufeff", S(2)), ("a", C(2), "b"), ("a", C(3), "b"), ("a", C(4), "b"), (C(2), S(1)), (C(3), S(1)), (C(4),)]
    if tier == "thorough":
        r += [(S(5),), (AU, AU, AU), (S(2), U, S(1)), (S(1), U, S(2))]
    return r


# one text after another
TWO = {
    GAP: [("/*", S(1), "*/", NX, "//", S(1), "\n"), ("/*", S(1), NX, S(1), "*/a")],
    DOC: [("///", S(1), NX, "/**", S(1), "*/"), ("/*!", S(1), NX, "//!", S(1), "\n", S(1))],
    IDENT: [("a", S(1), NX, "'", S(1)), ("r#", S(1), NX, "r#", S(1)), ("'", S(1), NX, S(1), "b")],
    PUNCT: [("+", S(1), NX, "'", S(1)), ("+", S(1), NX, S(1), "=")],
    NUM: [("1", S(1), NX, "1", S(1)), ("1.", S(1), NX, "0x", S(1)), ("1e", S(1), NX, "1", S(1))],
    QUOTED: [('"', S(1), '"', NX, '"', S(1), '"'), ('r#"', S(1), NX, 'r#"', S(1), '"#'), ("'", S(1), "'", NX, "b'", S(1), "'"), ('"\\', S(1), NX, 'b"\\', S(1), '"')],
    OPEN | CLOSE: [("(", S(1), NX, S(1), ")"), ("[(", S(1), NX, "(", S(1), "]"), ("(" * 20, NX, S(1), ")" * 20)],
}


# One representative text of each kind of token or gap, and texts that leave a token of each kind in front or behind.
BEFORE = ["a ", "r#a ", "'a ", "1 ", "1.", "1.0", '"x"', "b'x'", 'r"x"', 'c"x"u', "+", "-", "$", "()", "[", "([", "a{({", "{[(((", "/*c*/", "//c\n", "///d\n", "/*!d*/", "#", "#!", "::", "\ufeff", "\u00e9 ", "\n\r\n\t"]
BEHIND = ["", " a", "a", "1", "+", "'", '"x"', "(a)", "]", "})", "/**/", "//c", "\u00e9", "\n", "\r", "#"]
CORES = {
    GAP: ["/**/", "/*a*/", "/*/*a*/*/", "/***/", "//a\n", "////\n", " ", "\r\n", "\u2028", "/*\r*/", "//\r\n", "/*\u00e9*/"],
    DOC: ["///a\n", "//!a\n", "/**a*/", "/*!a*/", "///\n", "/*!*/", "///a\r\n", "/**\r\n*/", "//!", "/**/*a*/*/", "///\u00e9\n", "/** \"'\\*/"],
    IDENT: ["a", "_", "r#a", "'a", "'_", "'static", "'r#a", "\u00e9", "b", "r", "c", "br", "a\u0301", "r#\u00e9", "'\u00e9", "self"],
    PUNCT: ["+", "->", "..=", "<<=", "'a+", "+'a", "$", "/", "-", "=", "&&", "::", "?", "@", "#", "!"],
    NUM: ["0", "1_000", "1.5", "1.", "1e5", "1E-5", "0xff", "0b1", "0o7", "1u8", "1.0f32", "1e+_3", "0x_f_i8", "1__"],
    QUOTED: ['"a"', '"\\n"', "'a'", "'\\''", "b'a'", 'b"a"', 'c"a"', 'r"a"', 'r#"a"#', 'br"a"', 'cr##"a"##', '"\\u{e9}"', '""', '"a"x', "'\u00e9'", '"\\\n b"'],
    OPEN | CLOSE: ["(/*ERROR*/)", "()", "[]", "{}", "(a)", "[()]", "{[(a)]}", "(/**/)", "(/*a*/)", '(")")', "(')')", "(//)\n)", "(a)[b]", "(]", "([)]"],
}


def around(mask):
    core = ALT(*CORES[mask])
    return [(ALT(*BEFORE), core, ALT(*BEHIND)), (ALT(*BEFORE), core, S(1)), (S(1), core, S(1)), ("[[", core, S(1), "]]"), ("{(a[{", core, S(1), "}])}"), (core, S(1), core), (REP("(", 9), core, REP(")", 9))]


EVERY = ALT(*[x for v in CORES.values() for x in v])
MIXED = [(ALT(*BEFORE), EVERY), (EVERY, ALT(*BEHIND)), (EVERY, " ", EVERY), (EVERY, EVERY), (EVERY, S(1)), ("[[", EVERY, "]]"), ("\u00e9\n(", EVERY, ")\r\n\u4e2d", S(1)), ("{", EVERY, "}"), ("(", EVERY, ")", S(1)), ("{{", EVERY, "} a}")]


def lexprop(mask, special, deep=()):
    def f(tier):
        temps = general(tier) + around(mask) + list(special) + (list(deep) if tier == "thorough" else [])
        T = 400 if tier == "quick" else 6000
        two = [(S(1), NX, S(2)), (S(2), NX, S(1)), (S(1), NX, S(1), U)] + ([] if tier == "quick" else [(S(2), NX, S(2))]) + TWO.get(mask, [])
        jobs = lexjobs(mask, temps, time=T) + lexjobs(mask, two, entry="h_lex2", time=T)
        return dict(runs=[dict(SPANS, jobs=jobs)],
                    bounds="all ASCII strings up to %d bytes, and the listed contexts around symbolic windows" % (5 if tier == "thorough" else 4),
                    outside="longer windows of arbitrary characters; non-ASCII characters beyond the representative set where no fully symbolic character is listed")
    return f


C02 = lexprop(GAP, [
    ("a", S(3), "b"), ("#!", S(3)), ("#!/", S(2), "\n", S(1)), ("---", S(2), "\n---", S(1)), ("<!--", S(2), "-->"), (S(1), "\0", S(1)), ("a\x1a", S(1)),
    ("/*", SET("*/!a\n ", 6)),
    ("/", SET("*/!a\n\r", 6)),
    ("x/*", S(3), "*/y"),
    ("//", S(3), "\n", S(1)),
    ("//", SET("\r\n/!a", 4), "b"),
    ("a", U, "b"), (U, U, U), ("//", U, U, "\n", S(1)), ("/*", U, S(1), "*/", S(1)),
    ("a", C(2), S(1)),
    (" \t", SET(" \t\r\n\x0b\x0c", 3), "a"),
    (RC("/", 0, 40), S(2)), (RC(" ", 0, 40), S(2)), ("/", RC("*", 0, 40), S(2)),
    (S(1), "\ufeff", S(1)), ("\ufeff\ufeff",), ("\ufeff", "/*", S(2), "*/"),
    ("'a", S(2), "b"), ("1", S(2), "2"), ('"x"', S(2), "y"), ("(", S(2), ")"),
    ("/*" * 255 + "*/" * 254, S(2)), ("/*" * 256, S(1), "*/" * 255, S(2)), ("/*" * 257 + "*/" * 257, S(1)), ("/*", REP("a", 255), S(2)), ("//", REP("a", 255), S(2)), (REP("\n", 256), S(1)),
    ("/*a*/ " * 130, S(2)), ("//a\n" * 130, S(2)), ("\u2028 " * 130, S(1)), ("/*" + "\u00e9" * 130, S(1), "*/", S(1)), ("//" + "\u00e9" * 130, S(2)), ("/*", REP("*", 1100), S(2)), ("/*" + "a*" * 260, S(2)), (REP(" ", 1100), S(2)), ("//", REP("/", 1100), S(1), "\n", S(1)), ("a " * 150, S(1), "/*", S(1), "*/"),
    (RR(" "), S(1)), (RR("\n"), S(2)), ("/*", RR("*"), S(1)), ("//", RR("a"), S(1)),
] + [x for c in (C(2), C(3), C(4)) for x in (("//", c, "a\n", S(1)), ("//a", c, S(1)), ("/*", c, "*/", S(1)), ("/*a*", c, "/", S(1)))], [("a", S(4), "b"), ("/*", S(4)), ("/*", SET("*/a", 9)), ("//", S(4))])
C03 = lexprop(DOC, [
    ("///", S(3)), ("//!", S(3)), ("/**", S(3), "*/"), ("/*!", S(3), "*/"),
    ("/**", SET("*/!\r\n a", 4)), ("/*!", SET("*/!\r\n a", 4)),
    ("///", SET("\r\n/! a", 4)), ("//!", SET("\r\n/! a", 4)),
    ("/*", S(4)), ("//", S(4)),
    ("///", U, S(1)), ("/**", S(1), U, S(1), "*/"), ("///", C(2)), ("//! ", AU, AU, "\n", S(1)),
    ("a///", S(2), "\nb"), ("(///", S(2), "\n)"), ("/// x\r\n/// ", S(2)),
    ("///", RC("a", 0, 40), S(1)), ("/**", RC("\n", 0, 20), S(1), "*/"), ("/** /* ", S(2), " */ ", S(1), "*/"), ("///", PRE(0xe2, n=2)), ("/**", PRE(0xe2, 0x80, n=1), S(1), "*/"), ("//!", PRE(0xef, n=2)), ("/*!", PRE(0xf0, 0x9f, n=2), "*/"),
    ("///", REP("a", 257), S(2)), ("//!", REP(" ", 300), S(1), "\n", S(1)), ("/**", REP("\n", 257), S(1), "*/"), ("/*!", REP("x", 1100), S(1), "*/"), ("/// a\n" * 130, S(1)), ("/** a */" * 130, S(1)), ("/** " + "/*" * 257 + "*/" * 256, S(2), "*/"), ("///" + "\u00e9" * 130, S(2)), ("/**" + "\r\n" * 130, SET("\r\n*/"), "*/"), ("a " * 150 + "///", S(2)), ("///", RR("a"), S(1)), ("/**", RR("\n"), S(1), "*/"),
] + [x for c in (C(2), PRE(0xe2, 0x80, n=1), PRE(0xe3, n=2), PRE(0xef, n=2), PRE(0xf0, 0x9f, n=2), PRE(0xf3, 0xa0, n=2)) for x in (("///", c, "a\n", S(1)), ("//!a", c, S(1)), ("/**", c, "*/", S(1)), ("/*!a*", c, "/", S(1)))], [("///", S(4)), ("//!", S(4)), ("/**", S(4), "*/"), ("/*!", S(4), "*/"), ("/**", SET("*/\r\na", 7))])
C04 = lexprop(IDENT, [
    ("r#", S(3)), ("'", S(3)), ("'r#", S(3)), ("b", S(3)), ("br", S(3)), ("c", S(3)), ("cr", S(3)),
    ("r#", ALT("self", "Self", "super", "crate", "_", "fn", "selfs", "supe", "crate_", "union"), S(1)),
    ("'r#", ALT("self", "Self", "super", "crate", "_", "fn", "selfs"), S(1)),
    ("'", ALT("self", "static", "r", "b", "br", "c", "cr", "ab"), S(2)),
    (ALT(*KEYWORDS), S(1)), ("r#", ALT(*KEYWORDS), S(1)), ("'", ALT(*KEYWORDS), S(1)), ("'r#", ALT(*KEYWORDS), S(1)), (ALT("f", "k", "u", "u8", "L", "R", "rb", "bc", "cb", "rc", "B", "C", "BR", "bR", "Br"), SET("\"'#", 1), S(2)),
    (S(1), U, U), ("a", U, S(1)), ("'", U, S(1)), ("'", U, "'", S(1)), ("r#", U, S(1)), (U, "'", S(1)),
    ("'a", U), (C(2), S(1)), ("a", C(2), S(1)), ("'", C(2), S(1)), ("r#", C(2)),
    (SET("abrc_#\"'", 5),),
    (RC("a", 0, 40), S(2)), ("r#", RC("x", 0, 40), S(1)), ("'", RC("x", 0, 40), S(1)),
    ("(", S(3), ")"), ("a", S(3), "b"),
    (REP("a", 257), S(2)), (REP("_", 1100), S(1)), ("r#", REP("x", 257), S(2)), ("'", REP("x", 257), S(2)), ("'r#", REP("x", 257), S(1)), ("\u00e9" * 130, S(2)), ("'" + "\u4e2d" * 90, S(1)), ("a " * 150, S(2)), ("'a " * 130, S(2)), ("r#a " * 130, S(2)), ("a" + "_1" * 130, U, S(1)), ("a." * 130, S(2)), (RR("a"), S(1)), ("'", RR("a"), S(1)), ("r#", RR("a"), S(1)),
] + [x for c in (C(3), C(4)) for x in (("'", c, S(1)), ("'a", c), ("r#", c), ("'r#", c), ("_", c, S(1)))], [("'", S(4)), ("r#", S(4)), (SET("abrc_#\"'", 6),)])
C05 = lexprop(PUNCT, [
    (SET("~!@#$%^&*-=+|;:,<.>/?'a \n", 5),),
    ("a", S(2), "b"), ("+", S(3)), ("/", S(3)), ("'", S(3)), ("=", U, S(1)), ("+'", S(2)), ("&'", U, S(1)),
    (S(1), "//", S(2)), (S(1), "/*", S(1), "*/", S(1)), ("(", S(2), ")"), (S(1), "(", S(1), ")", S(1)),
    (RC("=", 0, 40), S(2)), (S(1), '"x"', S(1)), (S(1), "1", S(1)), (S(1), "r#a", S(1)),
    (REP("+", 257), S(2)), ("+ " * 130, S(2)), ("<=" * 130, S(2)), ("+/**/" * 100, S(2)), ("'a" * 130, S(2)), ("a+" * 130, S(2)), (REP("/", 1), REP("-", 1100), S(1)), ("=" * 130 + "'", S(2)), ("+(" * 100, S(1), ")+" * 100), ("a " * 150, S(3)),
], [(SET("~!@#$%^&*-=+|;:,<.>/?'a \n", 6),), ("+", S(4)), ("a", S(4))])
NUMSET = "0179_.eE+-xobafu "
C06 = lexprop(NUM, [
    (SET("0", 1), S(3)), (SET("019"), SET(NUMSET, 4)), ("0x", S(3)), ("0b", S(3)), ("0o", S(3)), ("1.", S(3)), ("1e", S(3)), ("1.0", S(3)), ("1.5e", S(2)), ("1e+", S(2)),
    ("1", U, S(1)), ("1.", U, S(1)), ("1e1", U), ("0x", U), ("0x1", U, S(1)), ("1.0", U), ("1e", U), ("1e+", U), ("1_", C(2)),
    ("12", ALT("u8", "i128", "f32", "usize", "foo", "_u8", "e", "e_", "E-_1", "e+_"), S(2)),
    (ALT("1", "1.5", "1e3", "0x1", "0b1", "0o7", "1_", "1.", "1e"), ALT(*SUFFIXES), S(1)),
    ("0x", ALT("1f32", "ffu8", "_", "_1", "e+1", "1e1"), S(2)),
    (RC("1", 0, 50), S(2)), ("0x", RC("f", 0, 50), S(1)), ("1.", RC("0", 0, 50), S(1)), ("1e", RC("0", 0, 50), S(1)), ("1", RC("_", 0, 40), S(2)),
    ("a.", S(3)), ("a.0", S(3)), ("1..", S(2)), ("-", SET("01"), S(2)), ("(", SET("01"), S(2), ")"),
    (REP("1", 257), S(2)), ("0x", REP("f", 257), S(2)), ("0b", REP("1", 257), S(1)), ("0o", REP("7", 257), S(1)), ("1.", REP("0", 257), S(2)), ("1e", REP("0", 257), S(2)), ("1e+", REP("_", 257), S(1)), ("1", REP("_", 257), S(2)), ("1", REP("a", 257), S(2)), ("1.0" + "\u00e9" * 130, S(1)), (REP("0", 1100), S(1)), ("1 " * 150, S(2)), ("0.5 " * 130, S(2)), ("1." * 130, S(2)), ("a " * 150, "1", S(2)), (RR("1"), S(1)), ("1.", RR("0"), S(1)), ("1e", RR("0"), S(1)), ("0x", RR("f"), S(1)), ("1", RR("a"), S(1)),
] + [x for c in (C(2), C(3), C(4)) for x in (("1", c, S(1)), ("1.", c), ("1.0", c), ("1e", c), ("0x", c))], [("1", S(4)), ("0", S(4)), (SET("019"), SET(NUMSET, 5)), ("1.", S(4)), ("1e", S(4))])
ESC = "\\\"'nrt0xu{}_7aFd1\n\r "
C07 = lexprop(QUOTED, [
    ('"', S(3)), ('"', S(2), '"', S(1)), ("'", S(3)), ("b'", S(3)), ('b"', S(3)), ('c"', S(3)), ('r"', S(3)), ('r#"', S(3)), ('br"', S(3)), ('br#"', S(3)), ('cr"', S(3)), ('cr#"', S(3)), ("r", S(4)),
    ('"\\', S(2), '"'), ('b"\\', S(2), '"'), ('c"\\', S(2), '"'), ("'\\", S(2), "'"), ("b'\\", S(2), "'"),
    ('"\\x', S(2), '"'), ('b"\\x', S(2), '"'), ('c"\\x', S(2), '"'), ("'\\x", S(2), "'"), ("b'\\x", S(2), "'"),
    ('"\\u', S(2), '}"'), ('"\\u{', S(3), '"'), ("'\\u{", S(3), "'"), ('c"\\u{', S(3), '"'), ('b"\\u{', S(2), '}"'), ("b'\\u{", S(2), "}'"),
    ('"\\u{', RC("0", 0, 12), S(1), '}"'), ('"\\u{', RC("f", 0, 12), S(1)), ("'\\u{", RC("0", 0, 8), RC("_", 0, 8), S(1), "}'"), ('"\\u{', SET("0189aDFdf_}", 6), '}"'), ("'\\u{", SET("01DdF8_", 6), "}'"), ('c"\\u{', SET("01d8_", 6), '}"'), ('"\\u{1', SET("01f_", 6), '}"'),
    ('"\\u{1', RC("_", 0, 40), S(1), '"'), ("'\\u{1", RC("_", 0, 40), S(1), "'"), ('c"\\u{1', RC("_", 0, 40), S(1), '"'), ('"\\u{', REP("_", 257), S(1), '}"'), ('"\\u{1', REP("_", 257), S(1), '}"'), ("'\\u{0", REP("_", 1030), S(1), "}'"),
    ('"\\\n', SET(" \t\r\n\x0b\x0c\"\\a", 3), '"'), ('"\\\r', SET("\r\n \"", 3), '"'), ('b"\\\n', SET(" \t\r\n\x0b\"\\", 3), '"'), ('b"\\\r', SET("\r\n \"", 3), '"'), ('c"\\\n', SET(" \t\r\n\x0b\"\\\0", 3), '"'), ('c"\\\r', SET("\r\n \"", 3), '"'),
    ('"', U, S(1), '"'), ('b"', U, '"'), ('c"', U, '"', S(1)), ('r"', U, '"', U), ('br"', U, '"'), ('cr"', U, '"'), ("'", U, S(1)), ("b'", U, "'"), ("'", U, "'", U), ('"\\\n', U, '"'), ('"', C(2), '"'), ("'", C(2), "'"), ('"\\', U, '"'), ('"\\x', U, '"'), ('"\\u{', U, '}"'),
    ('"a"', S(2)), ("'a'", S(2)), ("b'a'", S(2)), ('r"a"', S(2)), ('r#"a"#', S(2)), ('br#"a"#', S(2)), ('c"a"', S(2)), ('"a"', U), ("'a'", U),
    (ALT('"a"', "'a'", "b'a'", 'b"a"', 'c"a"', 'r"a"', 'br"a"', 'cr"a"', 'r#"a"#'), ALT(*(SUFFIXES + ["r", "b", "x"])), S(1)),
    ("r", RC("#", 0, 4), '"', SET('"#\r\na', 5)), ("br", RC("#", 0, 4), '"', SET('"#\r\na', 5)), ("cr", RC("#", 0, 4), '"', SET('"#\r\na\0', 5)),
    ("r", RC("#", 250, 258), '"a"', RC("#", 250, 258)), ("br", RC("#", 254, 257), '"a"', RC("#", 254, 257)), ("cr", RC("#", 254, 257), '"a"', RC("#", 254, 257)),
    ('"', RC("a", 0, 70), SET('"\\\r'), S(1)), ("r#", '"', RC("a", 0, 40), '"', S(1)), ('b"', RC("a", 0, 40), S(2)),
    ('"', SET(ESC, 4), '"'), ('b"', SET(ESC, 4), '"'), ('c"', SET(ESC + "\0", 3), '"'),
] + [(p, REP("a", n), SET('"\\\r\n'), S(1)) for p in ('"', 'b"', 'c"', 'r"', 'br"', 'cr"', 'r#"') for n in (257, 1030)] + [(p + u * 130, S(2), '"') for p in ('"', 'b"', 'c"') for u in ("\\n", "\\x41", "\\\n ", "\r\n", "\\\\")] + [
    (p + "\u00e9" * 130, S(1), '"') for p in ('"', 'c"', 'r"', 'cr"')] + [('"' + "\\u{e9}" * 70, S(1), '"'), ('r#"', REP('"', 257), S(2)), ('br##"' + '"#' * 130, S(2)), ('"a" ' * 130, S(2)), ("'a'" * 100, S(2)), ("b'a' " * 130, S(1)), ('"a"', REP("x", 257), S(1)), ('"\\\n', REP(" ", 257), S(1), '"'), ('b"\\\n', REP("\t", 257), S(1), '"'), ("a " * 150 + '"', S(2), '"'), ("a " * 150 + "'", S(2)), ('"', RR("a"), S(1)), ('b"', RR("a"), S(1)), ('c"', RR("a"), S(1)), ('r"', RR("\n"), S(1)), ('br#"', RR('"'), S(1)), ('"\\\n', RR(" "), S(1)), ('"a"', RR("x"), S(1)),
] + [x for c in (C(2), C(3), C(4)) for x in (('"', c, S(1), '"'), ('"\\', c, '"'), ('"\\\n', c, '"'), ('b"', c, '"'), ('c"', c, '"'), ('r"', c, S(1)), ('br"', c, '"'), ('cr#"', c, '"#'), ("'", c, "'", S(1)), ("'", c, S(1)), ("'\\", c, "'"), ("b'", c, "'"), ('"\\u{', c, '}"'), ('"\\x4', c, '"'))], [('"', S(4)), ("'", S(4)), ("b'", S(4)), ('b"', S(4)), ('c"', S(4)), ('r#"', S(4)), ('"', SET(ESC, 5), '"'), ('b"', SET(ESC, 5), '"'), ('c"', SET(ESC, 5), '"'), ("'\\u{", SET("0189aDFdf_}", 7), "'"), ("'", C(3), "'"), ("'", C(4), "'")])
BR = "()[]{}a; "
C08 = lexprop(OPEN | CLOSE, [
    (SET(BR, 5),), ("(", S(3), ")"), ("[a", S(2), "b]"), ("{", S(3)), ("((", S(2), "))"), ("(a[", S(2), "]b)c"),
    (RC("(", 0, 40), S(1), RC(")", 0, 40)), (RC("{", 0, 30), SET(BR, 2), REP("}", 15)), ("(/*", S(3), "*/)"), ("(/*ERROR*/", S(2)), ("((/*ERROR*/)", S(2)), (RC("[", 0, 40), "(/*ERROR*/", S(1), RC("]", 0, 40)),
    ("(", U, S(1), ")"), ('("', S(2), '")'), ("('", S(2), "')"), ("(//", S(2), "\n)"), (RC("(", 0, 20), RC("[", 0, 3), RC("]", 0, 3), RC(")", 0, 20)),
    (SET("()[]{}", 6),),
] + [("[" * n, S(1), "]" * n) for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 520)] + [("([{" * n, SET(BR, 2), "}])" * n) for n in (22, 43, 86)] + [("{a" * 130, S(2), "b}" * 130), ("[]" * 130, S(2)), ("()", REP(",", 260), S(2))], [(SET("()[]{}", 8),), (SET(BR, 6),), ("(", S(4), ")"), ("(/*ERRO", S(4))])


def C01(tier):
    q = tier == "quick"
    temps = general(tier) + MIXED + [
        ('"', S(3)), ("'", S(3)), ("r#", S(3)), ("b", S(3)), ("c", S(3)), ("/*", S(3)), ("///", S(2)), ("1", S(3)), ("(", S(2), ")"), ("[", S(3)),
        ('"\\u{', S(3)), ('"\\x', S(3)), ("'\\", S(3)), ("r", RC("#", 0, 258), '"'), (RC("(", 0, 30), RC(")", 0, 30)), ("-", S(3)),
        ("0x", S(2), U), ("'", U, U), ('"\\', U, U), ("b'", U, U), ('b"\\', U), ('r"', U, U), ("/*", U, U), ("//", U, U), ("r#", U, U), (U, U, U), ("///", U), ("1.", U, U), ("1e", U, U), ("'\\u{", U), ("(", U),
        (RC("a", 0, 50), U, S(1)),
        ('"\\u{', RC("1", 0, 40), S(1)), ("'\\u{", SET("0_f"), RC("f", 0, 40), "}'"), ('c"\\u{', RC("_", 0, 40), S(1)), ('"\\u{1', RC("_", 0, 40), S(1)), ("0x", RC("f", 0, 70), S(1)), ("1", RC("9", 0, 70), S(1)), ("1e", RC("9", 0, 70), S(1)), ("1.", RC("9", 0, 70), S(1)), ("0b", RC("1", 0, 130), S(1)),
        ("r", REP("#", 256), '"', S(1)), (REP("a", 256), S(1)), ("/*" * 256, S(1), "*/" * 256), (REP("+", 257), S(1)), (REP("(", 257), S(1), REP(")", 257)),
    ]
    jobs = lexjobs(0, temps, entry="h_total", pre=[0], time=400 if q else 6000)
    jobs2 = lexjobs(0, [(S(3),), (AU, AU), ("(", S(2), ")"), ("///", S(2)), ('"', S(2), '"'), (RC("(", 0, 12), S(1), RC(")", 0, 12))] + ([] if q else [(S(4),)]), entry="h_total", pre=[3], time=400 if q else 6000)
    return dict(runs=[dict(SPANS, jobs=jobs), dict(PLAIN, jobs=jobs2)],
                bounds="all ASCII strings up to %d bytes and the listed contexts around symbolic windows; step limit 4,000,000 IR instructions per path stands for non-termination" % (4 if q else 5),
                outside="longer windows; non-ASCII characters beyond the representative set")


def C09(tier):
    q = tier == "quick"
    temps = MIXED + [(S(n),) for n in (0, 1, 2, 3, 4)] + [(AU, AU), ("///", S(2)), ("/**", S(2), "*/"), ("a", S(2), "b"), ("(", S(3), ")"), ("{", S(2), "}"), ("[", S(2), "]"), ("1", S(3)), ("'a", S(2)), ("'", S(3)), ("r#", S(2)), ('"', S(2), '"', S(1)), ("b'", S(2), S(1)), ('r#"', S(2), '"#', S(1)), (SET(BR, 5),), (SET("~!@#$%^&*-=+|;:,<.>/?'a ", 4),), ("1", U, "2"), ("a", U, S(1)), ('"', U, '"', S(1)), ("1.", S(2), "x"), ("1e5", S(2)), ("+'", S(1), "'", S(2)), ("+1", S(1), "a"), ("=", S(1), "a", S(1), "b"), ("(/*ERROR*/)", S(2)), (RC("{", 0, 20), S(1), RC("}", 0, 20)), (RC("=", 0, 20), S(1)),
        ("a " * 260, S(2)), (REP("+", 260), S(2)), ("1 " * 130, S(1)), ("'a " * 130, S(1)), ("()" * 130, S(1)), ("a;" * 130, S(1)), ("[" * 100, S(1), "]" * 100), ("{a" * 100, S(1), "}" * 100), ("(+" * 70, S(1), ")" * 70), (REP("a", 260), S(1)), ('"', REP("a", 300), S(1), '"'), ('"a"' * 100, S(1)), ("/// a\n" * 70, S(1)), ("-1 " * 100, S(1)), ("{" + "a " * 260, S(1), "}"), ("(" + "a+" * 130, S(1), ")", S(1))]
    if not q:
        temps += [(S(5),), ("{", S(4), "}"), ("1", S(4)), (AU, AU, AU)]
    jobs = lexjobs(0, temps, entry="h_round", pre=[], time=400 if q else 6000)
    jobs += [pj("h_print", [n, k], "printing %d constructed tokens" % n, 400 if q else 6000) for n, k in ([(2, 11), (3, 7)] if q else [(2, 11), (3, 11), (4, 4)])]
    return dict(runs=[dict(SPANS, jobs=jobs)],
                bounds="all ASCII sources up to %d bytes and the listed contexts; printing of every sequence of up to 3 constructed tokens and groups" % (4 if q else 5), outside="longer sources")


def C12(tier):
    q = tier == "quick"
    lits = ALT(*(CORES[NUM] + CORES[QUOTED]))
    ctx = [(lits, ALT(*(BEHIND + ["/*a*/", "/*", "/**a*/", "///a", "//\n", "()", "\ufeff", "\u2028", "."]))), (ALT(*BEFORE), lits), (ALT("-", "--", "- ", "-\n", "-/**/", "+", "!", "-'a "), lits), (lits, S(1)), (S(1), lits), (lits, lits), ("-", lits, S(1))]
    temps = ctx + [(S(n),) for n in (0, 1, 2, 3, 4)] + [(AU, AU), ("-", S(3)), ('"', S(3)), ("1", S(3)), ("-1", S(2)), ("0x", S(3)), ("1.", S(3)), ("b'", S(3)), ('b"', S(3)), ('c"', S(3)), ('r#"', S(3)), ("'", S(3)), ("'a'", S(2)), ('"a"', S(2)), ("(/*ERROR*/)", ), ("\ufeff1",), ("1", U), ("-", U, S(1)), (U, "1"), ('"', U, '"', S(1)), ("-0x", S(2)), ("-", SET(NUMSET, 4)), ("1", SET(NUMSET, 4)), (RC("1", 0, 40), S(1)), ("-", RC("1", 0, 40), S(1)), ("--1",), ("-'a'",), ("- 1",), (ALT("1", "-1", "1.5", "-0x1", '"a"', "'a'", "b'a'", 'b"a"', 'c"a"', 'r"a"'), ALT(*SUFFIXES), S(1)), (ALT(*KEYWORDS), S(1)), ("-", ALT("inf", "NaN", "nan", "true", "a", "b'a'", '"a"', "'a"), S(1)), (ALT("inf", "NaN", "infinity", "true", "false"), S(1)), (S(1), "1", S(1)), (S(1), '"a"', S(1)), ("/*a*/", S(1), "1"), ("1/*", S(1), "*/"), ("1//", S(1)), ("r", RC("#", 0, 3), '"', SET('"#a', 4)), ("br", RC("#", 0, 3), '"', SET('"#a', 4)), ("cr", RC("#", 0, 3), '"', SET('"#a', 4)),
        (REP("1", 257), S(1)), ("-", REP("1", 257), S(1)), ('"', REP("a", 257), S(2)), ("1", REP("a", 257), S(1)), ("-0x", REP("f", 257), S(1)), ('"' + "\u00e9" * 130, S(2)), ('r', REP("#", 255), '"a"', REP("#", 254), S(1)), ("1.", REP("0", 1100), S(1)), ('b"', REP("a", 1100), S(2)), (REP("\n", 257), S(1)), ("1", REP(" ", 257)), (REP("-", 257), S(1)), (RR("1"), S(1)), ('"', RR("a"), S(1)), ("-", RR("1"), S(1))]
    if not q:
        temps += [(S(5),), ("1", S(4)), ("-1", S(4)), (AU, AU, AU), ('"', S(4)), ("'", S(4))]
    return dict(runs=[dict(SPANS, jobs=lexjobs(0, temps, entry="h_litstr", pre=[], time=400 if q else 6000))],
                bounds="all ASCII strings up to %d bytes and the listed contexts" % (4 if q else 5), outside="longer strings")

def tj(entry, pre, temps, time=400, steps=8000000):
    return lexjobs(0, temps, entry=entry, pre=pre, time=time, steps=steps)


def pj(entry, params, name, time=400, steps=40000000):
    return Job(name, entry, list(params), steps, time)


def C10(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    uni = [(c,) for c in chars3() + chars4()]
    j = tj("h_quote", [1], [(S(1),), (C(2),)] + uni, T)
    j += tj("h_quote", [2], [(B(1),)], T)
    j += tj("h_quote", [0], [(S(n),) for n in (0, 1, 2, 3)] + [(C(2),), (S(1), U, S(1)), (U, U), ("\0", S(2)), (S(1), "\r", S(1)), (RC("a", 0, 70), S(1)), (RC('"', 0, 40), S(1)), ("a", C(2), S(1)), (SET("\0\r\n\"'\\01 7", 4),)] + uni, T)
    j += tj("h_quote", [3], [(B(n),) for n in (0, 1, 2, 3)] + [("\0", B(1), S(1)), (RC("a", 0, 70), B(1)), (SET("\0\r\n\"'\\01 7", 4),)], T)
    j += tj("h_quote", [4], [(NZ(n),) for n in (0, 1, 2)] + [(C(2),), (NZ(1), U, NZ(1)), (U, U), (RC("a", 0, 70), NZ(1)), ("a", NZ(1), "\xe9"), (b"\xff", NZ(1)), (b"\xe4\xb8", NZ(1)), (NZ(1), b"\xb8\xad"), (SET("\r\n\"'\\01 7", 4),)] + uni, T)
    for n in (257, 1030):
        j += tj("h_quote", [0], [(REP("a", n), S(1)), (REP('"', n), S(1))], T) + tj("h_quote", [3], [(REP("a", n), B(1))], T) + tj("h_quote", [4], [(REP("a", n), NZ(1)), (REP("\\", n), NZ(1))], T)
    j += tj("h_quote", [0], [("\u00e9" * 130, S(1)), ("\u4e2d" * 130, S(1)), ("\u200b" * 130, S(1)), (REP("\0", 257), S(1))], T) + tj("h_quote", [3], [(b"\xff" * 260, B(1)), (REP("\0", 257), B(1))], T) + tj("h_quote", [4], [("\u00e9" * 130, NZ(1)), (b"\xff" * 260, NZ(1))], T)
    j += tj("h_quote", [0], [(RR("a"), S(1))], T) + tj("h_quote", [3], [(RR("a"), B(1))], T) + tj("h_quote", [4], [(RR("a"), NZ(1))], T)
    broken = ALT(b"\xe2\x82", b"\xe2", b"\xf0\x9f\xa6", b"\xf0\x9f", b"\xf0", b"\xff", b"\x80", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", "\u00e9", "\u4e2d", "\U0001f980", "a", "\\", '"', "\r", b"\xc3")
    for k, any1 in ((3, B(1)), (4, NZ(1))):
        j += tj("h_quote", [k], [(broken, any1), (any1, broken), (broken, broken), (REP("a", 60), broken, any1), (REP("a", 60), broken, "7", broken), (b"\xc3\xa9" * 40, broken, any1), (b"\xff" * 70, broken, any1), (REP("a", 300), broken, "x")], T)
    if not q:
        j += tj("h_quote", [0], [(S(4),), (AU, AU, AU), (C(2), C(2))], T)
        j += tj("h_quote", [3], [(B(4),)], T)
        j += tj("h_quote", [4], [(NZ(3),), (U, U, U)], T)
    return dict(runs=[dict(SPANS, jobs=j)],
                bounds="character and byte_character: every value. string: every single character, all ASCII strings up to %d bytes, pairs from the representative set; byte_string: all byte strings up to %d; c_string: all non-zero byte strings up to %d and every single character" % ((3, 3, 2) if q else (4, 4, 3)),
                outside="longer strings, other than repetitions around a symbolic window")


INTS = [8, 16, 32, 64, 128, 64]


def C11(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    names = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
    j = []
    for ty in range(12):
        w = INTS[ty % 6]
        signed = ty >= 6
        M = 1 << w

        def I(n, base, shift=0):
            base %= 1 << 128
            j.append(pj("h_int", [ty, n, base % 2**64, base >> 64, shift], "%s: %#x + %d symbolic bytes << %d" % (names[ty], base, n, shift), T))
        I(1 if w == 8 or q else 2, 0)
        if w > 8:
            I(1, M - 256)
            I(1, M // 2 - 128)
            for sh in range(8, min(w, 64), 8 if w < 128 else 24):
                I(1, 0, sh)
            if signed:
                for sh in range(8, min(w, 64), 8 if w < 128 else 24):
                    I(1, M - (256 << sh), sh)
            for k in range(3, 39):
                if 10**k < M:
                    I(1, 10**k - 128)
                    if signed and 10**k < M // 2:
                        I(1, M - 10**k - 128)
        if not q and w > 16:
            I(2, M // 2 - 32768)
            I(2, M - 65536)
            if w == 32:
                I(3, 0)
    vals = [0, 0x8000000000000000, 0x3FF0000000000000, 0xBFF0000000000000, 1, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF, 0x3FB999999999999A, 0x4340000000000000, 0x4341C37937E08000, 0x44B52D02C7E14AF6, 0x3E112E0BE826D695, 0x4024000000000000, 0x40F86A0000000000]
    j.append(pj("h_float", [1, len(vals)] + vals, "f64 values", T))
    vals = [0, 0x80000000, 0x3F800000, 0xBF800000, 1, 0x007FFFFF, 0x00800000, 0x7F7FFFFF, 0x3DCCCCCD, 0x4B800000, 0x41200000, 0x501502F9, 0x322BCC77]
    j.append(pj("h_float", [0, len(vals)] + vals, "f32 values", T))
    D = "0123456789"
    for w in (0, 1):
        for tp in [(SET("-" + D, 1),), (SET("-." + D, 2),), (SET("-." + D, 3),), (SET("-." + D, 4),), (SET("-." + D, 6),), ("-", SET(D + ".", 6)), (SET(D, 3), RC("0", 0, 30)), ("-", SET(D, 2), RC("0", 0, 30)), ("0.", RC("0", 0, 30), SET(D, 3)), ("-0.", RC("0", 0, 30), SET(D, 2))]:
            j += tj("h_floatsym", [w], [tp], T)
        j.append(pj("h_nonfinite", [w], ("f32", "f64")[w] + ": every non-finite value", T))
    return dict(runs=[dict(PLAIN, jobs=j)],
                bounds="integers: every 8-bit value; for wider types a symbolic byte at each byte position (128-bit types: at bits 0, 8, 32 and 56) above zero and below 2^w, around the signed and unsigned limits and every power of ten (and its negative)%s. floats: every non-finite value; every value whose shortest decimal form has at most 6 significant digits (core's Display stands for its contract: it prints that form); a list of extreme values through the real formatter" % ("" if q else "; two symbolic low bytes for every type"),
                outside="integers with other bit patterns; floats whose shortest form has more than 6 digits, except the listed ones; core's float formatting itself",
                assumptions=["core prints a float in its shortest round-trip decimal form without an exponent (h_floatsym)"])


def C13(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    temps = MIXED + [(S(n),) for n in (0, 1, 2, 3)] + [(AU, AU), (U, S(2)), (S(1), U, S(1)), (U, U, U), ("\ufeff", S(2)),
        ("a\n", S(2), "\n b"), ("\u00e9 ", S(2), " \u4e2d x"), ("\r\n", S(2), "\r\ny"), ("(", S(3), ")"), ("[", U, S(1), "] a"), ("{\n", S(2), "\n}"), ("(\u00e9 [", S(1), "] \U0001f980)"),
        ('"', S(2), '" x'), ('"\n', U, '\n" ', S(1)), ("///", S(2)), ("/** ", S(2), "*/ a"), ("//!", U, "\n", S(1)), ("/*", S(2), "*/ a"), ("//", U, S(1), "\na"), ("/// a\r\n", S(1)),
        ("'", S(2)), ("'a'", S(1)), ("r#a ", S(1)), ("1.5e3", S(1), " x"), ("1", S(2)), (RC("\n", 0, 30), S(1)), (RC(" ", 0, 70), S(1)), (RC("(", 0, 12), S(1), RC(")", 0, 12)), ("\u4e2d", RC("\n", 0, 5), "\u00e9", S(1)), (SET("a\n\r (){}/*", 4),), (C(2), "\n", S(1)), ("a", C(3), "b"), ("a", C(4), "b"),
        ('b"', S(2)), ("'\u00e9' ", S(1)), ('"\U0001f980" ', S(1)), ("-", S(2)), ("((", S(2)), ("a\n(\u00e9", S(1)),
        (REP("\n", 257), S(2)), ("\u00e9" * 130, S(2)), ("\u4e2d " * 130, S(1)), ("a\n" * 130, S(1)), ("a " * 150, S(1), "b"), (REP("a", 260), S(2)), ("/*" + "\u00e9\n" * 130 + "*/", S(1)), ('"' + "\u00e9\n" * 130, '" ', S(1)), ("///" + "\u00e9" * 130, S(1), "\na"), ("(" * 70 + "\u00e9", S(1), ")" * 70), (REP(" ", 1030), S(1)), ("\r\n" * 130, S(1)), ("{\n" * 40, S(1), "}\n" * 40), (RR("\n"), " a", S(1)), (RR("a"), S(1), " b"), ("/*", RR("\n"), "*/ ", S(1)), ('"', RR("\n"), '" ', S(1)), (RR(" "), "(\n", S(1), ")")]
    j = tj("h_span", [300], [("\u00e9 ", S(1), "(\na)")], T, 40000000)
    j += tj("h_span", [1], temps, T) + tj("h_span", [0], [(S(2),), (AU, AU), ("(", S(2), ")")], T) + tj("h_span", [3], [(S(2),), ("\n", AU, AU)], T)
    if not q:
        j += tj("h_span", [1], [(S(4),), (AU, AU, AU), ("(", S(3), ")"), ("a\n", S(3), "\n b"), (SET("a\n\r (){}/*", 6),), ("///", S(3)), ("/**", S(3), "*/")], T)
    return dict(runs=[dict(SPANS, jobs=j)],
                bounds="all ASCII sources up to %d bytes and the listed contexts (multi-byte characters, CRLF, several lines, after up to 3 earlier parses)" % (3 if q else 4), outside="longer sources; sources over 4 GB")


def C14(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    X = [("a", S(1), "b", NX, "\u00e9\n(", S(1), ")"), (S(2), NX, '"', S(1), '"'), ("", NX, S(1)), ("\u4e2d ", U, NX, "x\n", S(1))]
    j = tj("h_hist", [2, 2, 31], X, T)
    j += tj("h_hist", [3, 2, 31], [("a b", NX, "\u00e9\n", S(1)), ("(", S(1), ")", NX, "")], T)
    j += tj("h_hist", [4, 2, 5], [("\u00e9 ", SET("b\n"), NX, "\u4e2d\n", SET("(c"))], T)
    j += tj("h_hist", [5, 3, 1], [("a\u00e9", NX, "\n", SET("xy\n"), NX, '"\u00e9"')], T)
    long = [("aaaaaaaa \u00e9 b \u4e2d c \U0001f980 d",), ("a \u00e9\u00e9 (\u4e2d ", U, " b) ", '"\u00e9\n" c'), ("\u00e9" * 12 + " b " + "\u4e2d c " * 3, S(1)), ("x " * 4, U, " \u4e2d y"), ("'\U0001f980' \u00e9 b \n\u4e2d\u00e9 ", S(1))]
    Y = [("a", NX, "x y z"), ("", NX, "\u00e9 (b)"), ("ab", NX, "a \n\u4e2d", SET(" c")), ("a b", NX, "\u00e9\u00e9 b")]
    j += tj("h_inval", [1, 1, 2], Y, T) + tj("h_inval", [2, 2, 2], Y[:3], T) + tj("h_inval", [1, 2, 2], Y[3:], T)
    if not q:
        j += tj("h_inval", [3, 2, 2], Y, T) + tj("h_inval", [2, 3, 2], Y, T)
    j += tj("h_threads", [2, 1, 1, 2], Y[1:3], T) + tj("h_threads", [2, 0, 2, 2], Y[:2], T) + tj("h_threads", [1, 2, 1, 2], Y[3:], T)
    if not q:
        j += tj("h_threads", [3, 2, 2, 2], Y, T)
    Z = [("a", NX, "\u00e9\n", SET("bc"), NX, "", NX, "\u4e2d x")]
    j += tj("h_many", [300, 0, 4], Z, T, 400000000) + tj("h_many", [600, 270, 4], Z, T, 400000000)
    j += tj("h_many", [1100 if q else 5000, 0, 2], [("a", NX, "\u00e9\n b")], T, 1000000000) + tj("h_many", [66000, 0, 1], [("b",)], T, 4000000000)
    j += tj("h_order", [2], [("a \u00e9 " * 10, S(1)), ("\u00e9" * 130 + " a\n" * 4, S(1))], T)
    j += tj("h_order", [2], long, T) + tj("h_order", [4], long[:1], T)
    if not q:
        j += tj("h_order", [5], long, T)
        j += tj("h_hist", [3, 2, 31], X, T) + tj("h_hist", [5, 3, 31], [("\u00e9 b", NX, "\n\u4e2d", NX, '"\u00e9"')], T) + tj("h_hist", [6, 3, 1], [("a\u00e9", NX, "\nx", NX, "")], T)
    return dict(runs=[dict(SPANS, jobs=j)],
                bounds="every sequence of up to %s queries on the spans of one text of 5 to 9 tokens with multi-byte characters, and every history of up to %s steps over the listed texts (symbolic characters inside), a step being: parse a text, parse a literal, one span query of any kind, invalidate the thread's spans; the spans of up to 66,000 texts on one thread" % (("4", "5") if q else ("5", "6")),
                outside="longer histories; more than 3 distinct texts in every order; threads that really run at the same time (another thread's history of up to %s steps is put between the steps of this one)" % ("2" if q else "3"))


def C15(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    j = tj("h_join", [], [("a (b c)", NX, "d \u00e9"), (S(2), NX, "a"), ("a", S(1), "(c\n)", NX, "d\n", S(1)), ("\u00e9 ", U, NX, S(1)), ("", NX, "a ", S(1)), ("{a\n}", S(1), NX, "")], T)
    for pre in (0, 1):
        j += tj("h_subspan", [pre, 0], [("a ", NX, '"abc"'), (NX, '"', S(1), '"'), ("\u00e9\n", NX, "1", S(1)), ("(1)", NX, 'b"', S(1), '"'), (NX, "'a'"), ("x ", NX, "1.5e3f32")], T)
    j += tj("h_subspan", [0, 1], [(NX, '"abc"'), (NX, "-1", S(1)), (NX, S(2)), (NX, "")], T) + tj("h_subspan", [1, 1], [(NX, '"', S(1), '"'), (NX, "-12")], T)
    x = tj("h_join", [], [("a (b c)", NX, "a \u00e9"), (S(2), NX, "a"), ("///", S(1), NX, "b"), ("a", S(1), NX, "a", S(1))], T)
    if not q:
        j += tj("h_join", [], [("a", S(2), "(c)", NX, "d\n", U), (S(3), NX, S(1))], T) + tj("h_subspan", [2, 0], [("\u00e9 ", NX, '"', S(2), '"'), (NX, S(3))], T) + tj("h_subspan", [1, 1], [(NX, S(3))], T)
    return dict(runs=[dict(SPANS, jobs=j), dict(EXEMPTSPANS, jobs=x)],
                bounds="every pair of tokens (and the call site; also compared by Span::eq) of the listed texts; subspan with two arbitrary 64-bit bounds of every kind on the listed literals",
                outside="longer texts; subspan of non-ASCII literals (counted in characters there)")


def C16(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    uni = chars3() + chars4()
    j = []
    for raw in (0, 1):
        j += tj("h_ident", [raw], [(S(n),) for n in (0, 1, 2, 3, 4)] + [(C(2),), ("a", C(2)), ("r#", S(2)), ("'", S(2)), (U, U), (U, S(1)), (S(1), U, S(1)), (RC("a", 0, 70), S(1)), (REP("a", 300), S(1)), (REP("\u00e9", 140), S(1)), (ALT("self", "Self", "super", "crate", "_", "__", "fn", "selff", "union", "static", "Crate", "r#self"), ), (ALT("self", "Self", "super", "crate", "_"), S(1)), (ALT(*KEYWORDS),), (ALT(*KEYWORDS), S(1)), ("sel", S(1)), ("crat", S(1)), ("0", S(2)), (RC("1", 0, 30),), (S(1), "\n"), ("a ",)], T)
        j += tj("h_ident", [raw], [(c,) for c in uni] + [("_", c) for c in uni], T)
    for f in range(8):
        j += tj("h_identcmp", [f], [(S(1), NX, S(1), NX, S(1)), (S(2), NX, S(2), NX, S(2)), ("a", S(1), NX, "a", S(1), NX, "r#a", S(1)), (S(1), NX, S(2), NX, "r#", S(1)), ("r", S(1), NX, S(1), NX, "r#", S(2)), (U, NX, U, NX, U), (S(1), NX, "a", NX, S(3)), ("ab", NX, S(1), NX, S(4)), (S(1), NX, "a", NX, S(5)), (S(1), NX, "a", NX, "r#r#", S(1)), ("a", S(1), NX, "a", NX, S(1), "r#a", S(1)), (REP("a", 70), S(1), NX, REP("a", 70), S(1), NX, "r#", REP("a", 70), S(1)), (U, NX, "a", NX, S(2), U), ("\u00e9", NX, "a", NX, U, S(2)),
            (U, "aaaaaaaa", NX, U, "aaaaaaaa", NX, U, "aaaaaaaa"), ("aaaaaaa", U, "b", NX, "aaaaaaa", U, "a", NX, "aaaaaaa", S(1), "b"), (REP("a", 20), U, NX, REP("a", 20), U, NX, REP("a", 20)), (REP("a", 300), S(1), NX, REP("a", 300), S(1), NX, REP("a", 300), S(1)), ("\u00e9" * 9, S(1), NX, "\u00e9" * 9, NX, "\u00e9" * 10)], T)
    j += tj("h_punct", [], [(S(1),), (C(2),), (C(3),), (C(4),)], T)
    if not q:
        j += tj("h_ident", [0], [(S(5),), (AU, AU, AU), (C(3),), (C(4),)], T) + tj("h_ident", [1], [(S(5),), (AU, AU, AU)], T)
    return dict(runs=[dict(SPANS, jobs=j)],
                bounds="all ASCII strings up to %d bytes, every single character and every `_` + character as identifier; every character as Punct; pairs of identifiers of up to 2 bytes, raw or not, constructed or parsed" % (4 if q else 5), outside="longer identifiers")


def C17(tier):
    q = tier == "quick"
    T = 900 if q else 20000
    j = [pj("h_ops", [1, 11, s, 1, 255], "1 step, all tokens, start %d" % s, T) for s in (0, 1, 2)]
    j += [pj("h_ops", [2, 6 if s else 5, s, 1, 255], "2 steps, start %d" % s, T) for s in (0, 1, 3)]
    j += [pj("h_ops", [3, 2, s, 1, o], "3 steps beginning with op %d, start %d" % (o, s), T) for s in (1,) for o in range(13)]
    j += [pj("h_ops", [n, 5 if n == 1 else 2, s, 1 | sh << 4, 255], "%d steps, start %d, iterators of shape %d" % (n, s, sh), T) for sh in (1, 2, 3, 4, 5) for n in (1, 2) for s in (0, 1)]
    j += [pj("h_ops", [n, 1, s, 1 | sh << 4, 255], "%d steps after %d tokens, iterators of shape %d" % (n, (s >> 2) * 10 + 2, sh), T) for s, n in ((1 | 7 << 2, 2), (1 | 27 << 2, 1)) for sh in (0, 1, 2, 3, 4)]
    sj = tj("h_neg", [0], [("-", S(2)), (S(2),), ("-1.", S(1)), ("-0x", S(1))], T)
    for how in (1, 2, 3, 4):
        sj += tj("h_neg", [how], [("-", S(2)), ("1", S(1)), ('"', S(1), '"')], T)
    sj += [pj("h_ops", [1, 5, s, 5 << 4, 255], "1 step, start %d, iterators of shape 5" % s, T) for s in (0, 1)]
    if not q:
        j += [pj("h_ops", [4, 1, s, 1, o], "4 steps beginning with op %d, start %d" % (o, s), T) for s in (1, 3) for o in range(13)]
        j += [pj("h_ops", [3, 4, s, 1, o], "3 steps, more tokens, beginning with op %d, start %d" % (o, s), T) for s in (0, 3) for o in range(13)]
    bj = [pj("h_ops", [2, 5, s, 1, 255], "2 steps, start %d" % s, T) for s in (0, 1, 3)] + [pj("h_ops", [3, 1, 1, 1, o], "3 steps beginning with op %d" % o, T) for o in range(13)]
    return dict(runs=[dict(PLAIN, jobs=j), dict(SPANS, jobs=sj), dict(BARE, jobs=bj)],
                bounds="every history of up to %d operations (13 operations, two streams, kept iterators, tokens with symbolic contents) from empty or shared parsed streams; every negative literal of up to 3 bytes for spans" % (3 if q else 4),
                outside="longer histories")


def C18(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    j = [pj("h_deep", [1, a, b], "depth %d against %d" % (b, a), T) for a, b in ([(4, 9), (8, 140), (130, 290)] if q else [(4, 9), (8, 140), (130, 290), (64, 1100)])]
    j += [pj("h_deep", [3, a, b], "depth %d against %d, parentheses" % (b, a), T) for a, b in ([(700, 2600)] if q else [(700, 2600), (3000, 12000)])]
    j += tj("h_free", [], [(S(n),) for n in (1, 2, 3)] + [(SET("()[]{}a", 5),), ("(", S(2), ")"), ("((", S(1), "))"), (RC("(", 0, 12), RC(")", 0, 12)), ("/**", S(1), "*/ x")] + ([] if q else [(S(4),), (SET("()[]{}a", 7),)]), T)
    sj = [pj("h_deep", [0, 4, 9], "depth 9 against 4", T)]
    bj = [pj("h_deep", [1, 4, 9], "depth 9 against 4, without proc-macro", T)]
    return dict(runs=[dict(PLAIN, jobs=j), dict(SPANS, jobs=sj), dict(BARE, jobs=bj)],
                bounds="every combination of 2 ways of building, 7 of disposing and 36 alternations of nested groups: the deepest call stack at the larger depth does not exceed that at the smaller; nothing is left allocated for any ASCII source up to %d bytes" % (3 if q else 4),
                outside="recursion that begins only at greater depth; a counterexample is replayed natively at depth 3,000,000 on a 256 KiB stack")


def C19(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    temps = [(S(n),) for n in (1, 2, 3)]
    for p in ('"', 'b"', 'c"'):
        temps += [(p, S(3), '"'), (p, S(1), '"', S(1)), (p, "\\", S(2), '"'), (p, "\\x", S(2), '"'), (p, "\\u{", S(3), '}"'), (p, "\\u{", SET("01Dd8F_", 6), '}"'), (p, "\\u{1", SET("0f_", 6), '}"'), (p, "\\\n", SET(" \t\r\n\x0b\x0ca\\\"", 4), '"'), (p, "\\\r\n", SET(" \r\na", 3), '"'), (p, SET("\r\na\\", 4), '"'),
                  (p, U, S(1), '"'), (p, "\\\n", U, '"'), (p, C(2), S(1), '"'), (p, C(3), '"'), (p, C(4), '"'), (p, RC("a", 0, 40), S(1), '"'), (p, "\\n\\", S(1), "\\\\", S(1), '"'), (p, SET(ESC, 4), '"')]
    for p in ("r", "br", "cr"):
        temps += [(p, '"', S(3), '"'), (p, '#"', S(2), '"#'), (p, RC("#", 0, 5), '"', SET('"#a\r\n\\', 3), '"', RC("#", 0, 5)), (p, '"', U, S(1), '"'), (p, '"', SET("\r\n\\a", 4), '"'), (p, '"a"', S(1)), (p, '#"a"#', S(1)), (p, '"', C(2), C(2), '"'), (p, '"', C(3), '"'), (p, '"', C(4), '"')]
    temps += [("'", S(2), "'"), ("b'", S(2), "'"), ("1", S(2)), ("-1", S(1)), ('b', S(3)), ("(/*ERROR*/)",)]
    for p in ('"', 'b"', 'c"'):
        temps += [(p, REP("a", n), S(1), '"') for n in (257, 1030)] + [(p + u * 130, S(1), '"') for u in ("\\n", "\\x41", "\\\n ", "\r\n", "\\\\", "\\'")] + [(p, RR("a"), S(1), '"'), (p, "\\\n", REP(" ", 257), S(1), '"'), (p, ALT("\\n", "\\\\", "\\0", "\\x7f", "\\x80", "\\xff", "\\'", '\\"', "\\\n ", "\r\n", "\\t", "\\r", "\\u{e9}", "\\u{10ffff}"), S(1), ALT("", "\\n", "\\\\", "\\xc3", "\\\r\n\t", "\r\n", "\\u{0}"), '"')]
    for p in ('"', 'c"'):
        temps += [(p + "\\u{e9}" * 70, S(1), '"'), (p + "\u00e9" * 130, S(1), '"')]
    for p in ("r", "br", "cr"):
        temps += [(p, '"', REP("a", 257), S(1), '"'), (p, '"' + "\r\n" * 130, S(1), '"'), (p, '#"' + '"' * 130, S(1), '"#'), (p, REP("#", 255), '"', S(1), '"', REP("#", 255)), (p, '"', RR("a"), S(1), '"')]
    j = tj("h_value", [0], temps, T, 800000000)
    j += tj("h_value", [2], [(ALT(*CORES[QUOTED]),), ('"', S(2), '"'), ('b"', S(2), '"'), ('c"', S(2), '"'), ("r", RC("#", 0, 2), '"', S(1), '"', RC("#", 0, 2)), ("cr", '"', S(2), '"'), ("br", '"', S(2), '"'), (S(2),)], T)
    j += tj("h_value2", [0], [('"', S(1), '"', NX, ALT('"', 'b"', 'c"'), S(1), '"'), ('b"', S(1), '"', NX, 'b"', S(1), '"'), ('c"', S(1), '"', NX, 'c"', S(1), '"'), ('r"a"', NX, ALT("r", "br", "cr"), '"', S(1), '"'), ('"\\', S(1), '"', NX, '"\\', S(1), '"')], T)
    j += tj("h_value", [1], [(S(n),) for n in (0, 1, 2, 3)] + [('"', S(3), '"'), ('b"', S(3), '"'), ('c"', S(3), '"'), ("r", S(3)), ("br", S(2), '"'), ("cr", SET('#"a', 4)), ("r", SET('#"a', 5)), ('"\\u{', RC("1", 0, 20), S(1), '"'), ("c", S(3)), ("b", S(3)), (U, S(1)), ('"', U, S(1), '"'), ('b"', U, '"')], T)
    j += tj("h_valback", [0], [(S(2),), (U, S(1)), (C(2),), (S(1), U)] + [(c,) for c in chars3() + chars4()], T) + tj("h_valback", [3], [(B(n),) for n in (0, 1, 2)], T) + tj("h_valback", [4], [(NZ(n),) for n in (0, 1, 2)] + [("\u00e9", NZ(1)), (U, NZ(1))], T)
    if not q:
        for p in ('"', 'b"', 'c"'):
            j += tj("h_value", [0], [(p, S(4), '"'), (p, SET(ESC, 5), '"'), (p, "\\", S(3), '"'), (p, C(2), C(2), S(1), '"')], T)
        j += tj("h_value", [1], [(S(4),), ('"', S(4), '"'), ('b"', S(4), '"'), ('c"', S(4), '"')], T) + tj("h_valback", [3], [(B(3),)], T) + tj("h_valback", [4], [(NZ(3),)], T)
    return dict(runs=[dict(EXEMPT, jobs=j)],
                bounds="every text of up to %d ASCII bytes that is a literal, and the listed contexts (every escape form, continuations, CRLF, raw strings with up to 5 #, multi-byte characters); every value of up to %d bytes through the constructors" % ((3, 2) if q else (4, 3)),
                outside="longer literals; the compiler-backed Literal, whose text goes through the same functions")


WRAP = dict(crate="wrap", config="stable", mock=True, isolated=True)
WRAPX = dict(crate="wrap", config="unstable", features=["unstable"], mock=True, isolated=True, bootstrap=True, rustflags=["--cfg procmacro2_semver_exempt"])


def C20(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    j = [pj("h_c_ops", [1, 4, s, 255], "1 step, start %d" % s, T) for s in (0, 1, 2)]
    j += [pj("h_c_ops", [2, 4, s, 255], "2 steps, start %d" % s, T) for s in (0, 1, 2)]
    j += [pj("h_c_ops", [3, 1, s, o], "3 steps beginning with op %d, start %d" % (o, s), T) for s in (2,) for o in range(15)]
    j += [pj("h_c_ops", [n, 4 if n == 1 else 2, s, 255 | sh << 8], "%d steps, start %d, iterators of shape %d" % (n, s, sh), T) for sh in (1, 2, 3) for n in (1, 2) for s in (0, 2)]
    j += [pj("h_c_ops", [1, 1, s, 255 | sh << 8], "1 step after %d tokens, iterators of shape %d" % (s - 1, sh), T) for sh in (0, 2) for s in (40, 300)]
    text = [(S(n),) for n in (0, 1, 2, 3)] + [(AU, AU), ('"', S(2)), ("'", S(2)), ("/*", S(2)), ("(", S(2)), ("\ufeff", S(1)), ("-", S(2)), ("1", S(2)), ("r#", S(2))]
    j += tj("h_c_text", [0], text, T) + tj("h_c_text", [1], text, T) + tj("h_c_text", [2], text, T)
    j += tj("h_c_conv", [], [(S(n),) for n in (0, 1, 2)] + [("(", S(1), ")"), ("a", S(1), "b")], T)
    j += [pj("h_c_lit", [k], "constructor %d" % k, T) for k in range(29)]
    j += tj("h_c_lit", [29], [(S(1),), (C(2),), (C(3),), (C(4),)], T)
    j += tj("h_c_lit", [30], [(S(n),) for n in (0, 1, 2)] + [(C(2), S(1)), (U, U)], T) + tj("h_c_lit", [31], [(B(n),) for n in (0, 1, 2, 3)], T) + tj("h_c_lit", [32], [(NZ(n),) for n in (0, 1, 2, 3)], T)
    j += [pj("h_c_span", [], "spans", T), pj("h_c_tok", [], "tokens", T), pj("h_c_mix", [], "mixing", T)]
    x = [pj("h_c_span", [], "spans (unstable API)", T), pj("h_c_tok", [], "tokens (unstable API)", T), pj("h_c_mix", [], "mixing (unstable API)", T)]
    if not q:
        j += [pj("h_c_ops", [3, 4, s, o], "3 steps, more tokens, beginning with op %d, start %d" % (o, s), T) for s in (0, 1, 2) for o in range(15)]
        j += [pj("h_c_ops", [4, 1, s, o], "4 steps beginning with op %d, start %d" % (o, s), T) for s in (2,) for o in range(15)]
        j += tj("h_c_text", [0], [(S(4),)], T) + tj("h_c_text", [1], [(S(4),)], T) + tj("h_c_text", [2], [(S(4),)], T) + tj("h_c_conv", [], [(S(3),)], T)
    return dict(runs=[dict(WRAP, jobs=j), dict(WRAPX, jobs=x)],
                bounds="every history of up to %d stream operations (15 operations, two streams, kept iterators) on compiler-backed streams; every literal constructor with every numeric value and strings of up to 3 bytes; every ASCII text of up to %d bytes handed to a compiler that accepts, refuses or panics; spans with 8-bit symbolic origin and positions; every pair of kinds for mixing" % ((3, 3) if q else (4, 4)),
                outside="longer histories; the real compiler behind the API (a recording stand-in takes its place); nightly-only probes are exercised with the stand-in's declarations",
                assumptions=["harness/mock/proc_macro.rs offers the API of the compiler's proc_macro crate"])


def C21(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    j = [pj("h_detect", [n, 22], "%d steps" % n, T) for n in ((1, 2, 3) if q else (1, 2, 3, 4))] + [pj("h_detect", [n, 2], "%d steps, 2 ways of use" % n, T) for n in ((4, 5) if q else (5, 6))]
    j.append(pj("h_race", [], "first uses on two threads", T))
    return dict(runs=[dict(WRAP, jobs=j)],
                bounds="every history of up to %d steps (force, unforce, set the availability to either value, create an object in any of 22 ways, invalidate spans) and of up to %d steps with 2 ways, from either initial availability" % ((3, 5) if q else (4, 6)),
                outside="longer histories; a second thread anywhere but within the question to the compiler whether it is there (where it is given one whole first use)",
                assumptions=["harness/mock/proc_macro.rs offers the API of the compiler's proc_macro crate"])


CONF = dict(crate="conf", config="all", alts=["plain", "bare"])


def C22(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    temps = general("quick") + [('"', S(3)), ("'", S(3)), ("r#", S(3)), ("b", S(3)), ("/*", S(3)), ("//", S(3)), ("///", S(2)), ("/**", S(2), "*/"), ("1", S(3)), ("1.", S(2)), ("(", S(3), ")"), (SET(BR, 5),), (SET("~!@#$%^&*-=+|;:,<.>/?'a ", 4),), ('"\\u{', S(2), '}"'), ('"\\\n', SET(" \t\r\na\"", 3)), ("r", RC("#", 0, 3), '"', SET('"#a', 4)), (U, U, U), ("'", U, U), ('"', U, U), ("-", S(3)), ("a\n", U, S(1)), ("\r\n", S(2)), (RC("(", 0, 30), S(1), RC(")", 0, 30)), (RC("a", 0, 60), S(1)), ("c", S(3)), ("br", S(2), '"'),
        (REP("a", 260), S(1)), (REP("1", 260), S(1)), (REP("+", 260), S(1)), ("a " * 150, S(1)), ('"', REP("a", 260), S(2)), ("/*", REP("a", 260), S(2)), ("(" * 130, S(1), ")" * 130), ("\u00e9" * 130, S(1)), (REP("\n", 260), S(1)), ('"' + "\\n" * 130, S(1), '"'), ("r", REP("#", 255), '"a"', REP("#", 255), S(1))]
    j = tj("h_conf", [0], temps + MIXED, T) + tj("h_conf", [1], MIXED[:2] + [(S(n),) for n in (0, 1, 2, 3)] + temps[5:14], T)
    if not q:
        j += tj("h_conf", [0], [(S(5),), (AU, AU, AU), ('"', S(4)), ("'", S(4)), ("/*", S(4)), ("1", S(4))], T) + tj("h_conf", [1], [(S(4),)] + temps, T)
    for k in (0, 1):
        j += tj("h_confmade", [k], [("",), ("-1",), ("a (", SET("b;"), ")")] + ([] if q else [(S(1),), (U,)]), T)
    return dict(runs=[dict(CONF, jobs=j)],
                bounds="every two tokens of 11 kinds put together in 7 ways; all ASCII strings up to %d bytes and the listed contexts, span-locations against the default configuration, and against no default features" % (4 if q else 5),
                outside="longer strings; the procmacro2_semver_exempt configuration (C19's harness runs in it)")


def C23(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    src = [("", NX, "ab ", S(1), NX, S(1)), ("x \u00e9", NX, "(", S(1), ") cd", NX, "\u00e9"), ("", NX, "\u00e9\n(b)", NX, "")]
    j = []
    j = tj("h_negparts", [], [("a \u00e9(b)", NX, "-", S(2)), ("x\n", S(1), NX, "-1", S(1))], T)
    b = tj("h_negparts", [], [("a \u00e9(b)", NX, "-", S(2))], T) + [x for kind in (0, 1, 2, 3, 4) for x in tj("h_parts", [1, kind], src[2:], T)]
    for kind in (0, 1, 2, 3, 4):
        j += tj("h_parts", [1, kind], src, T)
        j += tj("h_parts", [2, kind], [("", NX, "ab c", NX, ""), ("\u00e9", NX, "(", SET("b\u0021"), ")", NX, S(1))], T)
        if not q:
            j += tj("h_parts", [2, kind], src, T) + tj("h_parts", [3, kind], [("", NX, "ab", NX, "")], T)
    return dict(runs=[dict(SPANS, jobs=j), dict(BARESPANS, jobs=b)],
                bounds="every token of each kind, made or parsed (every delimiter, spacing and constructor family, spans of the call site or of any token of the listed texts, hygiene mixed in three ways), through every sequence of up to %d of 13 steps (set the span, clone, convert, pass through streams and groups in every way)" % (2 if q else 3),
                outside="longer sequences; other texts")


def C24(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    N = 16 if q else 40

    def L(op, units, n=N):
        j = []
        for u in units:
            u = u + ("",) * (5 - len(u))
            parts = []
            for k, x in enumerate(u):
                if k:
                    parts.append(NX)
                parts += list(x) if isinstance(x, tuple) else [x]
            j += tj("h_linear", [op, n], [tuple(parts)], T, steps=400000000)
        return j
    lex = [("", S(1)), ("", S(2)), ("a", S(1), " b"), ("", (S(1), "a")), ("", ("a", S(1))), ("", (S(1), " ")), ("", (U, "a")), ("", U), ("", ("/", S(1))), ("", ("'", S(1))), ("", ("1", S(1))),
           ('"', S(1), '"'), ('"', ("\\", S(1)), '"'), ("r#\"", S(1), '"#'), ("r", "#", '"a"', "#"), ("r", "#", S(1)), ("br", "#", '"', S(1)), ("b\"", ("\\", S(1)), '"'), ("c\"", S(1), '"'), ('"\\\n', S(1), '"'),
           ("", "(", S(1), ")"), ("", "(", "", S(1)), ("", "[a", "", " b]"), ("", "{", ";", "}"), ("/*", S(1), "*/"), ("", "/*", S(1), "*/"), ("", "/*", "", S(1)), ("//", S(1), "\n"), ("///", S(1), "\n"), ("/**", S(1), "*/"), ("", ("///", S(1), "\n")), ("", ("/**", S(1), "*/")), ("", ("//", S(1), "\n")),
           ("1", S(1)), ("0x", S(1)), ("1.", S(1)), ("1e", S(1)), ("'", S(1)), ("r#", S(1)), ('"\\u{', S(1), '}"'), ("", ("\r", S(1))), ("", ('"', S(1), '"')), ("", ("r#", S(1), " ")), ("", ("'a", S(1)))]
    j = L(0, lex)
    j += L(1, [("", S(1)), ("", (S(1), "a")), ("", "(", S(1), ")"), ("", "{a", "", "}"), ("", ('"', S(1), '"')), ("", ("///", S(1), "\n"))])
    j += L(2, [("", S(1)), ("", (S(1), "a")), ("", "(", S(1), ")"), ("", ("[", S(1), "]"))])
    j += L(3, [("", S(1)), ("1", S(1)), ("-1", S(1)), ('"', S(1), '"'), ('"', ("\\", S(1)), '"'), ("b\"", S(1), '"'), ("r", "#", '"a"', "#"), ("'", S(1), "'"), ("1.", S(1)), ("0x", S(1))])
    j += L(4, [("", S(1)), ("", S(2)), ("", U), ("", ("\0", S(1)))])
    j += L(5, [("", S(1)), ("", (S(1), "a")), ("", "(", S(1), ")"), ("", ("(", S(1), ")"))]) + L(6, [("", "")])
    j += L(7, [("", S(1)), ("", (S(1), "a")), ("", ("\u00e9", S(1))), ("", "(", S(1), ")"), ("", ("a\n", S(1))), ("", (U, " a"))])
    x = L(8, [('"', S(1), '"'), ('"', ("\\", S(1)), '"'), ("b\"", S(1), '"'), ("c\"", S(1), '"'), ("r\"", S(1), '"'), ('"\\\n', S(1), '"'), ('"', ("\\\n", S(1)), '"'), ("r", "#", '"a"', "#"), ('"', U, '"')])
    if not q:
        j += L(0, [("", S(3)), ("a", S(2), "b"), ('"', S(2), '"'), ("/*", S(2), "*/"), ("", (S(1), U)), ("", S(1), "", S(1)), ("", (AU, AU))]) + L(1, [("", S(2))]) + L(7, [("", S(2))]) + L(3, [("", S(2)), ('"', S(2), '"')]) + L(5, [("", S(2))])
    # growth with a small factor, or that starts late, shows at greater lengths
    big = [("", "a b \u00e9 c d "), ("", "+a(b)"), ("", "a\n"), ("", "/* \u00e9 */ b"), ("", "// a\n"), ("", "/// a\n")]
    lits = [('"', "\\n", '"'), ('"', "\\x41", '"'), ('"', "\\u{e9}", '"'), ('"', "\\\n", 'a"'), ('"', "\\\n a", '"'), ('"', "\r\n", '"'), ('"', "\u00e9", '"'), ('b"', "\\n", '"'), ('b"', "\\\na", '"'), ('c"', "\\n", '"'), ('c"', "\\\na", '"'), ('r#"', '"', '"#'), ('r#"', '\r\n', '"#'), ('br#"', '"', '"#'), ('cr#"', '"', '"#'), ("1", "_0"), ("1.", "0_"), ("0x", "f_"), ("a", "\u00e9"), ("/*", "\u00e9", "*/"), ("/*", "/**/", "*/"), ("/**", "\r\n", "*/"), ("//", "\u00e9\r"), ("", "/*", "", "*/"), ("/*", "*"), ("/*", "/")]
    M = 512 if q else 1024
    j += L(0, big + lits, M) + L(3, lits[:18], M) + L(4, [("", "\0"), ("", "\u00e9"), ("", "\n"), ("", "a")], M)
    for op in (1, 2, 5, 7):
        j += L(op, big[:3], M)
    few = [("", (S(1), " a")), ("", ("\u00e9\n", S(1))), ("1", S(1))]
    j += L(9, few) + L(10, few) + L(9, big[1:2], M) + L(10, big[:1], 100) + L(11, [("", "")], M) + L(12, [("", "")], M)
    j += L(1, [("", "(", "", ")"), ("", "{a", "", "}")], 48) + L(2, [("", "(", "", ")")], 48) + L(6, [("", "")], M) + L(7, big[:1], 640)
    y = L(1, [("", "(", "", ")"), ("", "{a", "", "}")], 48) + L(1, big[:2], M) + L(2, big[:2] + [("", "(", "", ")")], 48) + L(5, big[:2], M) + L(6, [("", "")], M) + L(9, big[1:2], M) + L(11, [("", "")], M) + L(12, [("", "")], M)
    x += L(8, lits[:15] + [('"', "a", '"'), ('b"', "a", '"'), ('c"', "a", '"'), ('r"', "a", '"'), ('br"', "a", '"'), ('cr"', "a", '"')], M)
    return dict(runs=[dict(SPANS, jobs=j), dict(EXEMPT, jobs=x), dict(BARE, jobs=y)],
                bounds="every unit of up to %d symbolic ASCII characters (or the representative others) repeated %d, %d and %d times in the listed contexts (and concrete units up to 4096 times), for parsing, printing, walking, building, Literal::from_str, the string constructors, span queries in order and decoded values: the instructions executed may not grow faster than linearly" % (2 if q else 3, N, 2 * N, 4 * N),
                outside="longer units; growth that begins only at greater lengths")


def C25(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    temps = [(S(n),) for n in (0, 1, 2, 3)] + [(AU, AU), ("(", S(2), ")"), ("a[", S(1), "{", S(1), "}]"), ('"', S(2), '"'), ("///", S(1)), ("/**", S(1), "*/ b"), ("r#", S(2)), ("'", S(2)), ("\u00e9\n ", S(1), " \u4e2d(", U, ")"), ("b'", S(1), "' ", S(1)), ("-1", S(1)), (SET(BR, 4),), (RC("(", 0, 9), S(1), RC(")", 0, 9)), (RC("+", 0, 20), S(1)), ("a " * 70, S(1)), ("(" * 12, S(1), ")" * 12), ("(/*ERROR*/)", S(1)), ("\ufeff", S(2)), (REP("a", 257), S(1)), ("a " * 300, S(1)), ("(" * 70, S(1), ")" * 70)]
    long = MIXED[:3] + ([(S(4),), ("(", S(3), ")"), (SET(BR, 5),), (AU, AU, AU)] if not q else [])
    def m(pretty, n, k):
        return pj("h_debug_made", [pretty, n, k], "%d made tokens of %d kinds%s" % (n, k, ", pretty" * pretty), T)
    j = tj("h_debug", [0], temps + long, T, 40000000) + tj("h_debug", [1], temps[:-5] + long, T, 40000000) + [m(0, 1, 11), m(1, 1, 11), m(0, 2, 11), m(1, 2, 11)] + ([m(0, 3, 11), m(1, 3, 11)] if not q else [])
    s = tj("h_debug", [0], temps + long, T, 40000000) + tj("h_debug", [1], temps[:3] + temps[4:-5], T, 40000000) + [m(0, 2, 11), m(1, 2, 11)]
    b = tj("h_debug", [0], temps[:5], T, 40000000) + [m(0, 2, 11)]
    w = [pj("h_c_debug", [p], "compiler's tokens" + ", pretty" * p, T) for p in (0, 1)]
    return dict(runs=[dict(PLAIN, jobs=j), dict(SPANS, jobs=s), dict(BARE, jobs=b), dict(WRAP, jobs=w)],
                bounds="all ASCII sources up to %d bytes and the listed contexts, plain and pretty, with and without span-locations; every sequence of up to %d made tokens and groups of 11 kinds; single compiler-backed tokens of each kind" % ((3, 2) if q else (4, 3)),
                outside="longer sources; other formatting flags; the text of the compiler's own Debug output")


def C26(tier):
    q = tier == "quick"
    T = 400 if q else 6000
    j = [pj("h_linecol", [], "two positions and a third, any numbers", T)]
    j += tj("h_positions", [], MIXED[:3] + MIXED[5:] + [(S(n),) for n in ((1, 2, 3) if q else (1, 2, 3, 4))] + [("a\n", S(2), "\u00e9b(", S(1), ")\n", S(1)), ("\u4e2d ", U, " c\r\n", S(1), "d"), ("///", S(1), "\n{a\n", S(1), "}"), ("\"", S(1), "\n\" ", S(1)), ("\ufeffa", S(2)), ("a\n" * 20, S(1)), ("aaa bbb\n c " * 6, S(1))], T)
    return dict(runs=[dict(SPANS, jobs=j)],
                bounds="LineColumn: every pair (and triple, for transitivity) of 64-bit lines and columns, no bound; positions of parsed texts: all ASCII texts up to %d bytes and the listed contexts, every two starts or ends" % (3 if q else 4),
                outside="longer texts")


PROPS = {k: v for k, v in list(globals().items()) if re.fullmatch(r"C\d\d", k)}


def known_findings(pid):
    r = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\w+) assertion=(\d+) (.*)", l)
        if m and m.group(1) == pid:
            r.append(dict(assertion=int(m.group(2)), what=m.group(3)))
    return r


def matches(k, c):
    return c["kind"] == "assert" and c["assertion"] == k["assertion"]

TECH, NOTE, NA = {}, {}, {}
