//! Comparison of real token streams against the reference lexer's tokens.
use crate::reflex::*;
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use vp::*;

pub const GAP: u64 = 1 << 15;
pub fn bit(k: K) -> u64 {
    match k {
        K::ErrLit => 1 << K::ErrLit as u64 | 1 << K::Open as u64 | 1 << K::Quoted as u64,
        k => 1 << k as u64,
    }
}
pub fn kind_of(t: &TokenTree) -> u64 {
    match t {
        TokenTree::Group(_) => 1 << K::Open as u64,
        TokenTree::Ident(_) => 1 << K::Ident as u64,
        TokenTree::Punct(_) => 1 << K::Punct as u64,
        TokenTree::Literal(l) => {
            if l.to_string().bytes().next().map_or(false, |c| c.is_ascii_digit()) {
                1 << K::Num as u64
            } else {
                1 << K::Quoted as u64
            }
        }
    }
}
pub fn delim_of(c: u8) -> Delimiter {
    match c {
        b'(' => Delimiter::Parenthesis,
        b'[' => Delimiter::Bracket,
        _ => Delimiter::Brace,
    }
}

/// non-forking string comparison
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut x = true;
    for i in 0..a.len() {
        x &= a[i] == b[i];
    }
    x
}

pub fn is_punct(t: Option<TokenTree>, c: char, joint: bool) -> bool {
    match t {
        Some(TokenTree::Punct(p)) => (p.as_char() == c) & ((p.spacing() == Spacing::Joint) == joint),
        _ => false,
    }
}

/// value of a `"..."` literal's text under the reference escape rules
pub fn str_value(repr: &[u8]) -> Option<Vec<u8>> {
    let mut v = Vec::with_capacity(repr.len());
    let (n, raw, q) = quoted_prefix(repr, 0)?;
    if q != Q::Str {
        return None;
    }
    let e = quoted_body(repr, n, raw, q, &mut |u| push_unit(&mut v, u))?;
    if e != repr.len() {
        return None;
    }
    Some(v)
}
pub fn push_unit(v: &mut Vec<u8>, u: U) {
    match u {
        U::Byte(b) => v.push(b),
        U::Char(c) => push_char(v, c),
        U::Nothing => {}
    }
}
pub fn push_char(v: &mut Vec<u8>, c: u32) {
    if c < 0x80 {
        v.push(c as u8)
    } else if c < 0x800 {
        v.push(0xc0 | (c >> 6) as u8);
        v.push(0x80 | (c & 0x3f) as u8);
    } else if c < 0x10000 {
        v.push(0xe0 | (c >> 12) as u8);
        v.push(0x80 | (c >> 6 & 0x3f) as u8);
        v.push(0x80 | (c & 0x3f) as u8);
    } else {
        v.push(0xf0 | (c >> 18) as u8);
        v.push(0x80 | (c >> 12 & 0x3f) as u8);
        v.push(0x80 | (c >> 6 & 0x3f) as u8);
        v.push(0x80 | (c & 0x3f) as u8);
    }
}

/// `#[doc = "text"]` tokens; true if as required
fn doc_tokens(it: &mut proc_macro2::token_stream::IntoIter, first: TokenTree, t: &Tok, b: &[u8]) -> bool {
    if !spanned(&first, t) || !is_punct(Some(first), '#', false) {
        return false;
    }
    if t.a == 1 {
        let x = it.next();
        if !x.as_ref().map_or(true, |x| spanned(x, t)) || !is_punct(x, '!', false) {
            return false;
        }
    }
    let g: Group = match it.next() {
        Some(TokenTree::Group(g)) => g,
        _ => return false,
    };
    let gt = TokenTree::Group(g);
    if !spanned(&gt, t) {
        return false;
    }
    let g = match gt {
        TokenTree::Group(g) => g,
        _ => return false,
    };
    for x in g.stream() {
        if !spanned(&x, t) {
            return false;
        }
    }
    if g.delimiter() != Delimiter::Bracket {
        return false;
    }
    let mut i = g.stream().into_iter();
    match i.next() {
        Some(TokenTree::Ident(id)) => {
            if !same(id.to_string().as_bytes(), b"doc") {
                return false;
            }
        }
        _ => return false,
    }
    if !is_punct(i.next(), '=', false) {
        return false;
    }
    let l = match i.next() {
        Some(TokenTree::Literal(l)) => l.to_string(),
        _ => return false,
    };
    if i.next().is_some() {
        return false;
    }
    match str_value(l.as_bytes()) {
        Some(v) => same(&v, &b[t.tlo..t.thi]),
        None => false,
    }
}
#[cfg(feature = "spans")]
fn spanned(x: &TokenTree, t: &Tok) -> bool {
    let r = x.span().byte_range();
    (r.start == t.lo) & (r.end == t.hi)
}
#[cfg(not(feature = "spans"))]
fn spanned(_: &TokenTree, _: &Tok) -> bool {
    true
}

/// Compare; on the first difference return the kinds of token involved.
pub fn stream(ts: TokenStream, b: &[u8], toks: &[Tok], pos: &mut usize, end: usize) -> Result<(), u64> {
    // a group holds exactly the tokens between its delimiters
    let nested = if end < toks.len() { bit(K::Open) | bit(K::Close) } else { 0 };
    tokens(ts, b, toks, pos, end).map_err(|k| k | nested)
}
fn tokens(ts: TokenStream, b: &[u8], toks: &[Tok], pos: &mut usize, end: usize) -> Result<(), u64> {
    let mut it = ts.into_iter();
    loop {
        let t = if *pos < end { Some(toks[*pos]) } else { None };
        let x = it.next();
        let (t, x) = match (t, x) {
            (None, None) => return Ok(()),
            (Some(t), None) => return Err(bit(t.k) | if t.gap { GAP } else { 0 }),
            (None, Some(x)) => return Err(kind_of(&x) | GAP),
            (Some(t), Some(x)) => (t, x),
        };
        let bad = bit(t.k) | kind_of(&x) | if t.gap { GAP } else { 0 };
        *pos += 1;
        match (t.k, x) {
            (K::Punct, TokenTree::Punct(p)) => {
                let ok = (p.as_char() == b[t.lo] as char) & ((p.spacing() == Spacing::Joint) == (t.a == 1));
                if !ok {
                    return Err(bad);
                }
            }
            (K::Ident, TokenTree::Ident(i)) => {
                if !same(i.to_string().as_bytes(), &b[t.lo..t.hi]) {
                    return Err(bad);
                }
            }
            (K::Num | K::Quoted | K::ErrLit, TokenTree::Literal(l)) => {
                if !same(l.to_string().as_bytes(), &b[t.lo..t.hi]) {
                    return Err(bad);
                }
            }
            (K::Open, TokenTree::Group(g)) => {
                if g.delimiter() != delim_of(b[t.lo]) {
                    return Err(bad);
                }
                stream(g.stream(), b, toks, pos, t.a)?;
                *pos += 1;
            }
            (K::Doc, x) => {
                if !doc_tokens(&mut it, x, &t, b) {
                    return Err(bad);
                }
            }
            _ => return Err(bad),
        }
    }
}

pub fn err_kinds(b: &[u8], r: &Lexed) -> u64 {
    let (p, k) = r.err.unwrap();
    let mut m = bit(k);
    if p < b.len() && b[p] == b'\'' {
        m |= bit(K::Ident) | bit(K::Quoted) | bit(K::Punct);
    }
    if k == K::Ident {
        m |= bit(K::Punct);
    }
    if k == K::Open || k == K::Close {
        m |= bit(K::Open) | bit(K::Close);
    }
    if r.err_trivia {
        m = GAP;
    }
    m
}

/// kinds of the reference tokens at byte offset p
pub fn kinds_at(toks: &[Tok], p: usize) -> u64 {
    let mut prev = 0;
    for t in toks {
        if p >= t.hi {
            prev = if p == t.hi { bit(t.k) } else { 0 };
            continue;
        }
        {
            let mut m = prev | bit(t.k) | if t.gap { GAP } else { 0 };
            if t.k == K::Close {
                m |= bit(K::Open);
            }
            if p < t.lo {
                m |= GAP;
            }
            return m;
        }
    }
    prev | GAP
}

/// how the implementation treated the byte at p: the kind of its token there,
/// or GAP if it skipped it
#[cfg(feature = "spans")]
pub fn real_at(ts: TokenStream, p: usize) -> u64 {
    for t in ts {
        let r = t.span().byte_range();
        if p >= r.end {
            continue;
        }
        if p < r.start {
            break;
        }
        let k = kind_of(&t);
        if let TokenTree::Group(g) = t {
            if p > r.start && p + 1 < r.end {
                return k | real_at(g.stream(), p);
            }
        }
        return k;
    }
    GAP
}
#[cfg(not(feature = "spans"))]
pub fn real_at(_: TokenStream, _: usize) -> u64 {
    u64::MAX
}

/// Differential lexing check; `mask` selects the token kinds the property is about.
pub fn check_lex(b: &[u8], s: &str, mask: u64) {
    let r = lex(b);
    let got = s.parse::<TokenStream>();
    match (got, r.err) {
        (Ok(ts), None) => {
            vp_reach(1);
            vp_note(1);
            let mut pos = 0;
            let d = match stream(ts, b, &r.toks, &mut pos, r.toks.len()) {
                Ok(()) => 0,
                Err(k) => k,
            };
            vp_assert(d & mask == 0, 10);
            for t in &r.toks {
                vp_note(t.k as u64);
                vp_note(t.hi as u64);
            }
        }
        (Err(_), Some(_)) => {
            vp_reach(2);
            vp_note(2);
        }
        (Err(e), None) => {
            #[cfg(feature = "spans")]
            let k = kinds_at(&r.toks, e.span().byte_range().start);
            #[cfg(not(feature = "spans"))]
            let k = {
                let _ = e;
                u64::MAX
            };
            vp_assert(k & mask == 0, 11);
        }
        (Ok(ts), Some((p, _))) => {
            vp_assert((err_kinds(b, &r) | real_at(ts, p)) & mask == 0, 12);
        }
    }
}
