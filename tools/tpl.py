"""Template language for symbolic inputs (see harness/main/src/input.rs)."""
END, NEXT = 0x900, 0x901


def _b(x):
    return list(x if isinstance(x, bytes) else x.encode("utf-8"))


class Op:
    def __init__(self, codes, text):
        self.codes, self.text = codes, text


def S(n):
    """n symbolic ASCII bytes"""
    return Op([0x100 + n], "<%d ascii>" % n)


def B(n):
    """n arbitrary bytes"""
    return Op([0x700 + n], "<%d bytes>" % n)


def NZ(n):
    """n non-zero bytes"""
    return Op([0x780 + n], "<%d nonzero bytes>" % n)


U = Op([0x200], "<uni>")            # one of the representative non-ASCII characters
AU = Op([0x400], "<ascii|uni>")


def C(n):
    """one symbolic character of n UTF-8 bytes"""
    return Op([0x300 + n], "<char%d>" % n)


def PRE(*lead, n):
    """a character: these leading bytes, then n symbolic continuation bytes"""
    return Op(list(lead) + [0x340 + n], "<char %s+%d>" % (" ".join("%02x" % x for x in lead), n))


def chars3():
    """every 3-byte character, by its leading byte"""
    r = []
    for l in range(0xe0, 0xf0):
        if l == 0xe0:
            r += [PRE(l, x, n=1) for x in range(0xa0, 0xc0)]
        elif l == 0xed:
            r += [PRE(l, x, n=1) for x in range(0x80, 0xa0)]
        else:
            r.append(PRE(l, n=2))
    return r


def chars4():
    """every 4-byte character, by its first two bytes"""
    return [PRE(l, x, n=2) for l in range(0xf0, 0xf5) for x in range(0x90 if l == 0xf0 else 0x80, 0x90 if l == 0xf4 else 0xc0)]


def ALT(*xs):
    r = [0x500 + len(xs)]
    for x in xs:
        y = _b(x)
        r += [len(y)] + y
    return Op(r, "<" + "|".join(repr(x)[1:-1] for x in xs) + ">")


def SET(chars, n=1):
    c = _b(chars)
    return Op([0x600 + len(c), n] + c, "<%d of %s>" % (n, repr(chars)[1:-1]))


def REP(ch, n):
    return Op([0x10000000 | _b(ch)[0] << 16 | n], "%s{%d}" % (ch, n))


def RR(ch):
    """66000 times: more than 16 bits count"""
    return Op(REP(ch, 33000).codes * 2, "%s{66000}" % ch)


def RC(ch, lo, hi):
    return Op([0x20000000 | _b(ch)[0] << 16 | hi, lo], "%s{%d..%d}" % (ch, lo, hi))


NX = Op([NEXT], " | ")


def t(*parts):
    """(codes without END, readable text)"""
    codes, text = [], ""
    for p in parts:
        if isinstance(p, Op):
            codes += p.codes
            text += p.text
        else:
            codes += _b(p)
            text += p if isinstance(p, str) else repr(p)
    return codes, text
