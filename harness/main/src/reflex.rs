//! Reference lexer: written from the Rust reference and the documented
//! behaviour of the fallback, over plain byte positions. It shares no code with
//! proc-macro2 (identifier characters come from unicode-ident).
use unicode_ident::{is_xid_continue, is_xid_start};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Punct,
    Ident,
    Num,
    Quoted,
    Open,
    Close,
    Doc,
    ErrLit,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Tok {
    pub k: K,
    pub lo: usize,
    pub hi: usize,
    /// Punct: 1 if Joint. Ident: 1 if raw. Open/Close: index of the partner.
    /// Doc: bit 0 inner.
    pub a: usize,
    /// Doc: text range. otherwise 0
    pub tlo: usize,
    pub thi: usize,
    /// whitespace or comments were skipped right before this token
    pub gap: bool,
}

pub fn at(b: &[u8], i: usize) -> u8 {
    if i < b.len() {
        b[i]
    } else {
        0xff // never valid UTF-8: stands for end of input
    }
}
pub fn is(b: &[u8], i: usize, c: u8) -> bool {
    i < b.len() && b[i] == c
}

/// the character starting at i and its length; (u32::MAX, 0) at the end
pub fn decode(b: &[u8], i: usize) -> (u32, usize) {
    if i >= b.len() {
        return (u32::MAX, 0);
    }
    let x = b[i] as u32;
    if x < 0x80 {
        return (x, 1);
    }
    let c = |k: usize| (b[i + k] & 0x3f) as u32;
    if x < 0xe0 {
        ((x & 0x1f) << 6 | c(1), 2)
    } else if x < 0xf0 {
        ((x & 0xf) << 12 | c(1) << 6 | c(2), 3)
    } else {
        ((x & 7) << 18 | c(1) << 12 | c(2) << 6 | c(3), 4)
    }
}

pub fn white(c: u32) -> bool {
    matches!(c, 9..=13 | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x200e | 0x200f | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}
pub fn id_start(c: u32) -> bool {
    if c < 0x80 {
        return matches!(c as u8, b'a'..=b'z' | b'A'..=b'Z' | b'_');
    }
    c != u32::MAX && is_xid_start(unsafe { char::from_u32_unchecked(c) })
}
pub fn id_cont(c: u32) -> bool {
    if c < 0x80 {
        return matches!(c as u8, b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'0'..=b'9');
    }
    c != u32::MAX && is_xid_continue(unsafe { char::from_u32_unchecked(c) })
}
pub fn punct_byte(c: u8) -> bool {
    matches!(
        c,
        b'~' | b'!' | b'@' | b'#' | b'$' | b'%' | b'^' | b'&' | b'*' | b'-' | b'=' | b'+' | b'|' | b';' | b':' | b',' | b'<' | b'.' | b'>' | b'/' | b'?'
    )
}

/// end of the identifier starting at i, if one does
pub fn word(b: &[u8], i: usize) -> Option<usize> {
    let (c, n) = decode(b, i);
    if !id_start(c) {
        return None;
    }
    let mut j = i + n;
    loop {
        let (c, n) = decode(b, j);
        if !id_cont(c) {
            return Some(j);
        }
        j += n;
    }
}

pub fn eq_str(b: &[u8], lo: usize, hi: usize, s: &str) -> bool {
    if hi - lo != s.len() {
        return false;
    }
    let t = s.as_bytes();
    let mut same = true;
    for k in 0..t.len() {
        same &= b[lo + k] == t[k];
    }
    same
}

/// identifier, possibly raw, starting at i: (end, raw)
pub fn ident(b: &[u8], i: usize) -> Option<(usize, bool)> {
    if is(b, i, b'r') && is(b, i + 1, b'#') {
        let e = word(b, i + 2)?;
        for w in ["_", "self", "Self", "super", "crate"] {
            if eq_str(b, i + 2, e, w) {
                return None;
            }
        }
        return Some((e, true));
    }
    Some((word(b, i)?, false))
}

pub enum Trivia {
    At(usize),
    Bad(usize),
}

/// position of the byte after the nested block comment starting at i
pub fn block(b: &[u8], i: usize) -> Option<usize> {
    let mut depth = 1usize;
    let mut j = i + 2;
    while j + 1 < b.len() {
        if b[j] == b'*' && b[j + 1] == b'/' {
            depth -= 1;
            j += 2;
            if depth == 0 {
                return Some(j);
            }
        } else if b[j] == b'/' && b[j + 1] == b'*' {
            depth += 1;
            j += 2;
        } else {
            j += 1;
        }
    }
    None
}

/// kind of comment starting at i: 0 none, 1 plain line, 2 plain block,
/// 3 outer line doc, 4 inner line doc, 5 outer block doc, 6 inner block doc
pub fn comment(b: &[u8], i: usize) -> u8 {
    if !is(b, i, b'/') {
        return 0;
    }
    if is(b, i + 1, b'/') {
        if is(b, i + 2, b'!') {
            4
        } else if is(b, i + 2, b'/') && !is(b, i + 3, b'/') {
            3
        } else {
            1
        }
    } else if is(b, i + 1, b'*') {
        if is(b, i + 2, b'!') {
            6
        } else if is(b, i + 2, b'*') && !is(b, i + 3, b'*') && !is(b, i + 3, b'/') {
            5
        } else {
            2
        }
    } else {
        0
    }
}

/// end of the line starting at i: position of `\n` or of `\r\n` or the end
pub fn line_end(b: &[u8], i: usize) -> usize {
    let mut j = i;
    while j < b.len() {
        if b[j] == b'\n' || (b[j] == b'\r' && is(b, j + 1, b'\n')) {
            return j;
        }
        j += 1;
    }
    j
}

pub fn trivia(b: &[u8], mut i: usize) -> Trivia {
    loop {
        match comment(b, i) {
            1 => i = line_end(b, i),
            2 => match block(b, i) {
                Some(e) => i = e,
                None => return Trivia::Bad(i),
            },
            _ => {
                let (c, n) = decode(b, i);
                if n > 0 && white(c) {
                    i += n;
                } else {
                    return Trivia::At(i);
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Q {
    Str,
    Bytes,
    C,
}

pub fn hex(c: u8) -> Option<u32> {
    match c {
        b'0'..=b'9' => Some((c - b'0') as u32),
        b'a'..=b'f' => Some((c - b'a') as u32 + 10),
        b'A'..=b'F' => Some((c - b'A') as u32 + 10),
        _ => None,
    }
}

/// A unit of a decoded literal.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum U {
    Byte(u8),
    Char(u32),
    Nothing,
}

/// escape sequence whose backslash is at i: (next position, unit)
pub fn escape(b: &[u8], i: usize, q: Q) -> Option<(usize, U)> {
    let one = |c: u8| Some((i + 2, if q == Q::Bytes { U::Byte(c) } else { U::Char(c as u32) }));
    match at(b, i + 1) {
        b'n' => one(b'\n'),
        b'r' => one(b'\r'),
        b't' => one(b'\t'),
        b'\\' => one(b'\\'),
        b'\'' => one(b'\''),
        b'"' => one(b'"'),
        b'0' => {
            if q == Q::C {
                None
            } else {
                one(0)
            }
        }
        b'x' => {
            let v = hex(at(b, i + 2))? * 16 + hex(at(b, i + 3))?;
            match q {
                Q::Str => {
                    if v > 0x7f {
                        return None;
                    }
                    Some((i + 4, U::Char(v)))
                }
                Q::Bytes => Some((i + 4, U::Byte(v as u8))),
                Q::C => {
                    if v == 0 {
                        return None;
                    }
                    Some((i + 4, U::Byte(v as u8)))
                }
            }
        }
        b'u' => {
            if q == Q::Bytes || !is(b, i + 2, b'{') {
                return None;
            }
            let mut j = i + 3;
            let mut v = 0u32;
            let mut n = 0;
            loop {
                let c = at(b, j);
                if c == b'_' && n > 0 {
                } else if c == b'}' && n > 0 {
                    break;
                } else {
                    let d = hex(c)?;
                    if n == 6 {
                        return None;
                    }
                    v = v * 16 + d;
                    n += 1;
                }
                j += 1;
            }
            if v > 0x10ffff || (0xd800 <= v && v <= 0xdfff) || (q == Q::C && v == 0) {
                return None;
            }
            Some((j + 1, U::Char(v)))
        }
        _ => None,
    }
}

/// Is the identifier-like thing at i a quoted-literal introducer? (prefix length up to
/// the `"`/hashes, raw, kind)
pub fn quoted_prefix(b: &[u8], i: usize) -> Option<(usize, bool, Q)> {
    let c = at(b, i);
    let d = at(b, i + 1);
    let e = at(b, i + 2);
    if c == b'"' {
        return Some((0, false, Q::Str));
    }
    if c == b'r' {
        if d == b'"' || (d == b'#' && (e == b'"' || e == b'#')) {
            return Some((1, true, Q::Str));
        }
        return None;
    }
    if c == b'b' || c == b'c' {
        let q = if c == b'b' { Q::Bytes } else { Q::C };
        if d == b'"' {
            return Some((1, false, q));
        }
        if d == b'r' && (e == b'"' || e == b'#') {
            return Some((2, true, q));
        }
    }
    None
}

/// Body of a quoted literal: (position after the closing quote and hashes).
/// `out` receives the decoded units.
pub fn quoted_body(b: &[u8], i: usize, raw: bool, q: Q, out: &mut dyn FnMut(U)) -> Option<usize> {
    let mut hashes = 0;
    let mut j = i;
    if raw {
        while is(b, j, b'#') {
            hashes += 1;
            j += 1;
        }
        if hashes > 255 {
            return None;
        }
    }
    if !is(b, j, b'"') {
        return None;
    }
    j += 1;
    loop {
        if j >= b.len() {
            return None;
        }
        let c = b[j];
        if c == b'"' {
            let mut k = 0;
            while k < hashes && is(b, j + 1 + k, b'#') {
                k += 1;
            }
            if k == hashes {
                return Some(j + 1 + hashes);
            }
            out(if q == Q::Bytes { U::Byte(c) } else { U::Char(c as u32) });
            j += 1;
        } else if c == b'\r' {
            if !is(b, j + 1, b'\n') {
                return None;
            }
            // CRLF in a source text is a line feed
            out(if q == Q::Bytes { U::Byte(b'\n') } else { U::Char(10) });
            j += 2;
        } else if c == 0 && q == Q::C {
            return None;
        } else if c == b'\\' && !raw {
            let n = at(b, j + 1);
            if n == b'\n' || n == b'\r' {
                j += 1;
                // skip blanks and line breaks
                loop {
                    match at(b, j) {
                        b' ' | b'\t' | b'\n' => j += 1,
                        b'\r' => {
                            if !is(b, j + 1, b'\n') {
                                return None;
                            }
                            j += 2;
                        }
                        _ => break,
                    }
                }
            } else {
                let (nj, u) = escape(b, j, q)?;
                out(u);
                j = nj;
            }
        } else if c >= 0x80 {
            if q == Q::Bytes {
                return None;
            }
            let (ch, n) = decode(b, j);
            out(U::Char(ch));
            j += n;
        } else {
            out(if q == Q::Bytes { U::Byte(c) } else { U::Char(c as u32) });
            j += 1;
        }
    }
}

pub fn suffix(b: &[u8], i: usize) -> usize {
    word(b, i).unwrap_or(i)
}

/// character literal at i (the opening quote), without suffix
pub fn char_body(b: &[u8], i: usize, q: Q) -> Option<(usize, U)> {
    let (c, n) = decode(b, i + 1);
    if n == 0 {
        return None;
    }
    let (j, u) = if c == b'\\' as u32 {
        escape(b, i + 1, q)?
    } else if q == Q::Bytes {
        if n != 1 {
            return None;
        }
        (i + 2, U::Byte(c as u8))
    } else {
        (i + 1 + n, U::Char(c))
    };
    if !is(b, j, b'\'') {
        return None;
    }
    Some((j + 1, u))
}

fn digs(b: &[u8], mut i: usize) -> usize {
    while matches!(at(b, i), b'0'..=b'9' | b'_') {
        i += 1;
    }
    i
}

/// exponent at i: [eE] _* [+-]? _* digit (digit|_)*
fn exponent(b: &[u8], i: usize) -> Option<usize> {
    if !matches!(at(b, i), b'e' | b'E') {
        return None;
    }
    let mut j = i + 1;
    while is(b, j, b'_') {
        j += 1;
    }
    if matches!(at(b, j), b'+' | b'-') {
        j += 1;
    }
    while is(b, j, b'_') {
        j += 1;
    }
    if !matches!(at(b, j), b'0'..=b'9') {
        return None;
    }
    Some(digs(b, j))
}

/// suffix of a number and the check that no identifier character touches it
fn num_end(b: &[u8], i: usize) -> Option<usize> {
    let e = suffix(b, i);
    let (c, _) = decode(b, e);
    if id_cont(c) {
        None
    } else {
        Some(e)
    }
}

fn float(b: &[u8], i: usize) -> Option<usize> {
    let j = digs(b, i);
    if is(b, j, b'.') {
        let (c, _) = decode(b, j + 1);
        if c == b'.' as u32 || id_start(c) {
            return None;
        }
        let k = digs(b, j + 1);
        return num_end(b, exponent(b, k).unwrap_or(k));
    }
    num_end(b, exponent(b, j)?)
}

fn int(b: &[u8], i: usize) -> Option<usize> {
    let base = if is(b, i, b'0') {
        match at(b, i + 1) {
            b'x' => 16,
            b'o' => 8,
            b'b' => 2,
            _ => 10,
        }
    } else {
        10
    };
    let mut j = if base == 10 { i } else { i + 2 };
    let mut any = false;
    loop {
        let c = at(b, j);
        if c == b'_' {
            j += 1;
            continue;
        }
        match hex(c) {
            Some(d) if d < base => {
                any = true;
                j += 1;
            }
            Some(_) if c <= b'9' => return None,
            _ => break,
        }
    }
    if !any {
        return None;
    }
    num_end(b, j)
}

/// number at i (whose first byte is a digit)
pub fn number(b: &[u8], i: usize) -> Option<usize> {
    match float(b, i) {
        Some(e) => Some(e),
        None => int(b, i),
    }
}

/// One literal at i, if there is one: (end, kind). Err(()) if the text at i can
/// only be a literal but is malformed.
pub fn literal(b: &[u8], i: usize) -> Result<Option<(usize, K)>, ()> {
    let c = at(b, i);
    if let Some((n, raw, q)) = quoted_prefix(b, i) {
        return match quoted_body(b, i + n, raw, q, &mut |_| {}) {
            Some(e) => Ok(Some((suffix(b, e), K::Quoted))),
            None => Err(()),
        };
    }
    if c == b'b' && at(b, i + 1) == b'\'' {
        return match char_body(b, i + 1, Q::Bytes) {
            Some((e, _)) => Ok(Some((suffix(b, e), K::Quoted))),
            None => Err(()),
        };
    }
    if c == b'\'' {
        return match char_body(b, i, Q::Str) {
            Some((e, _)) => Ok(Some((suffix(b, e), K::Quoted))),
            None => Ok(None),
        };
    }
    if matches!(c, b'0'..=b'9') {
        return match number(b, i) {
            Some(e) => Ok(Some((e, K::Num))),
            None => Err(()),
        };
    }
    Ok(None)
}

pub const ERROR: &[u8] = b"(/*ERROR*/)";

pub struct Lexed {
    pub toks: Vec<Tok>,
    /// offset of the offending position, and what was being lexed there
    pub err: Option<(usize, K)>,
    /// true if the error is about trivia (an unterminated block comment)
    pub err_trivia: bool,
}

pub fn lex(b: &[u8]) -> Lexed {
    let mut r = Lexed { toks: Vec::with_capacity(16), err: None, err_trivia: false };
    let mut i = 0;
    if is(b, 0, 0xef) && is(b, 1, 0xbb) && is(b, 2, 0xbf) {
        i = 3;
    }
    let mut stack: Vec<usize> = Vec::new();
    loop {
        let start = i;
        match trivia(b, i) {
            Trivia::At(j) => i = j,
            Trivia::Bad(j) => {
                r.err = Some((j, K::Doc));
                r.err_trivia = true;
                return r;
            }
        }
        let gap = i > start;
        if i >= b.len() {
            if let Some(&o) = stack.last() {
                r.err = Some((r.toks[o].lo, K::Open));
            }
            return r;
        }
        let mut push = |k: K, lo: usize, hi: usize, a: usize| {
            r.toks.push(Tok { k, lo, hi, a, tlo: 0, thi: 0, gap });
        };
        let c = b[i];
        // doc comments
        let dk = comment(b, i);
        if dk >= 3 {
            let (hi, tlo, thi) = if dk == 3 || dk == 4 {
                let e = line_end(b, i);
                (e, i + 3, e)
            } else {
                match block(b, i) {
                    Some(e) => (e, i + 3, e - 2),
                    None => {
                        r.err = Some((i, K::Doc));
                        return r;
                    }
                }
            };
            let mut k = tlo;
            while k < thi {
                if b[k] == b'\r' && !(k + 1 < thi && b[k + 1] == b'\n') {
                    r.err = Some((i, K::Doc));
                    return r;
                }
                k += 1;
            }
            r.toks.push(Tok { k: K::Doc, lo: i, hi, a: (dk == 4 || dk == 6) as usize, tlo, thi, gap });
            i = hi;
            continue;
        }
        // delimiters
        if c == b'(' || c == b'[' || c == b'{' {
            if c == b'(' && b.len() - i >= ERROR.len() && eq_bytes(b, i, ERROR) {
                push(K::ErrLit, i, i + ERROR.len(), 0);
                i += ERROR.len();
                continue;
            }
            stack.push(r.toks.len());
            r.toks.push(Tok { k: K::Open, lo: i, hi: i + 1, a: 0, tlo: 0, thi: 0, gap });
            i += 1;
            continue;
        }
        if c == b')' || c == b']' || c == b'}' {
            let want = match c {
                b')' => b'(',
                b']' => b'[',
                _ => b'{',
            };
            match stack.pop() {
                Some(o) if b[r.toks[o].lo] == want => {
                    let n = r.toks.len();
                    r.toks[o].a = n;
                    r.toks.push(Tok { k: K::Close, lo: i, hi: i + 1, a: o, tlo: 0, thi: 0, gap });
                    i += 1;
                    continue;
                }
                _ => {
                    r.err = Some((i, K::Close));
                    return r;
                }
            }
        }
        match literal(b, i) {
            Ok(Some((e, k))) => {
                push(k, i, e, 0);
                i = e;
                continue;
            }
            Ok(None) => {}
            Err(()) => {
                let k = if matches!(c, b'0'..=b'9') { K::Num } else { K::Quoted };
                r.err = Some((i, k));
                return r;
            }
        }
        if c == b'\'' {
            // lifetime
            match ident(b, i + 1) {
                Some((e, raw)) if !is(b, e, b'\'') && (raw || !is(b, e, b'#')) => {
                    push(K::Punct, i, i + 1, 1);
                    r.toks.push(Tok { k: K::Ident, lo: i + 1, hi: e, a: raw as usize, tlo: 0, thi: 0, gap: false });
                    i = e;
                    continue;
                }
                _ => {
                    r.err = Some((i, K::Ident));
                    return r;
                }
            }
        }
        if punct_byte(c) {
            let n = at(b, i + 1);
            let joint = (punct_byte(n) || n == b'\'') && comment(b, i + 1) == 0;
            push(K::Punct, i, i + 1, joint as usize);
            i += 1;
            continue;
        }
        match ident(b, i) {
            Some((e, raw)) => {
                push(K::Ident, i, e, raw as usize);
                i = e;
            }
            None => {
                r.err = Some((i, K::Ident));
                return r;
            }
        }
    }
}

pub fn eq_bytes(b: &[u8], i: usize, s: &[u8]) -> bool {
    let mut same = true;
    for k in 0..s.len() {
        same &= b[i + k] == s[k];
    }
    same
}
