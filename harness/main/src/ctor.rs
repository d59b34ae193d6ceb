//! C10, C11, C16, C17, C18: constructors and token stream operations.
use crate::cmp::{push_unit, same};
use crate::input::template;
use crate::reflex::{self, *};
use crate::tree;
use proc_macro2::*;
use std::ffi::CStr;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use vp::*;

/// the single literal token `l` decodes, under the reference escape rules, to `want`
fn decodes(l: &Literal, q: Q, want: &[u8]) -> bool {
    let t = l.to_string();
    let b = t.as_bytes();
    let (n, raw, k) = match quoted_prefix(b, 0) {
        Some(x) => x,
        None => return false,
    };
    if k != q {
        return false;
    }
    let mut v = Vec::with_capacity(16);
    match quoted_body(b, n, raw, q, &mut |u| push_unit(&mut v, u)) {
        Some(e) => (e == b.len()) & same(&v, want),
        None => false,
    }
}
fn reparses(l: &Literal) -> bool {
    let t = l.to_string();
    match Literal::from_str(&t) {
        Ok(m) => {
            if !same(m.to_string().as_bytes(), t.as_bytes()) {
                return false;
            }
        }
        Err(_) => return false,
    }
    match t.parse::<TokenStream>() {
        Ok(ts) => {
            let mut it = ts.into_iter();
            let ok = match it.next() {
                Some(TokenTree::Literal(m)) => same(m.to_string().as_bytes(), t.as_bytes()),
                _ => false,
            };
            ok && it.next().is_none()
        }
        Err(_) => false,
    }
}

/// C10. param0: constructor (0 string, 1 character, 2 byte_character, 3 byte_string, 4 c_string)
pub fn h_quote() {
    let which = vp_param(0);
    let mut i = 1;
    let s = template(&mut i);
    let l;
    let ok;
    match which {
        0 => {
            l = Literal::string(s.str());
            ok = decodes(&l, Q::Str, &s.b);
        }
        1 => {
            let (c, _) = decode(&s.b, 0);
            l = Literal::character(unsafe { char::from_u32_unchecked(c) });
            let t = l.to_string();
            ok = match char_body(t.as_bytes(), 0, Q::Str) {
                Some((e, U::Char(v))) => (e == t.len()) & (v == c) & (t.as_bytes()[0] == b'\''),
                _ => false,
            } && not_bare(t.as_bytes());
        }
        2 => {
            l = Literal::byte_character(s.b[0]);
            let t = l.to_string();
            ok = t.as_bytes()[0] == b'b'
                && match char_body(t.as_bytes(), 1, Q::Bytes) {
                    Some((e, U::Byte(v))) => (e == t.len()) & (v == s.b[0]),
                    _ => false,
                }
                && not_bare(&t.as_bytes()[1..]);
        }
        3 => {
            l = Literal::byte_string(&s.b);
            ok = decodes(&l, Q::Bytes, &s.b);
        }
        _ => {
            let mut z = s.b.clone();
            z.push(0);
            l = Literal::c_string(unsafe { CStr::from_bytes_with_nul_unchecked(&z) });
            ok = decodes(&l, Q::C, &s.b);
        }
    }
    vp_reach(1);
    vp_note(l.to_string().len() as u64);
    vp_assert(ok, 100);
    vp_assert(reparses(&l), 101);
}
/// rustc rejects an unescaped quote, newline, tab or CR between single quotes
fn not_bare(t: &[u8]) -> bool {
    !matches!(t[1], b'\'' | b'\n' | b'\r' | b'\t')
}

/// decimal text -> (negative, value, digits)
fn decimal(b: &[u8]) -> Option<(bool, u128, usize)> {
    let neg = !b.is_empty() && b[0] == b'-';
    let mut i = neg as usize;
    let first = i;
    let mut v: u128 = 0;
    while i < b.len() && b[i].is_ascii_digit() {
        v = v.wrapping_mul(10).wrapping_add((b[i] - b'0') as u128);
        i += 1;
    }
    if i == first {
        return None;
    }
    // no leading zero
    if i > first + 1 && b[first] == b'0' {
        return None;
    }
    Some((neg, v, i))
}

macro_rules! ints {
    ($which:ident, $v:ident, $($n:literal $t:ident $suf:ident $uns:ident)*) => {
        match $which {
            $($n => {
                let x = $v as $t;
                ((x as i128), (x < (0 as $t)), Literal::$suf(x).to_string(), Literal::$uns(x).to_string(), stringify!($t), Literal::$suf(x), Literal::$uns(x))
            })*
            _ => return,
        }
    };
}
fn int_ok(which: u64, v: u128) {
    let (x, neg, s, u, name, ls, lu) = ints!(which, v,
        0 u8 u8_suffixed u8_unsuffixed
        1 u16 u16_suffixed u16_unsuffixed
        2 u32 u32_suffixed u32_unsuffixed
        3 u64 u64_suffixed u64_unsuffixed
        4 u128 u128_suffixed u128_unsuffixed
        5 usize usize_suffixed usize_unsuffixed
        6 i8 i8_suffixed i8_unsuffixed
        7 i16 i16_suffixed i16_unsuffixed
        8 i32 i32_suffixed i32_unsuffixed
        9 i64 i64_suffixed i64_unsuffixed
        10 i128 i128_suffixed i128_unsuffixed
        11 isize isize_suffixed isize_unsuffixed);
    vp_reach(1);
    let mag = if neg { (x as u128).wrapping_neg() } else { x as u128 };
    match decimal(u.as_bytes()) {
        Some((n, d, e)) => {
            vp_assert((n == neg) & (d == mag) & (e == u.len()), 110);
        }
        None => vp_assert(false, 111),
    }
    match decimal(s.as_bytes()) {
        Some((n, d, e)) => {
            vp_assert((n == neg) & (d == mag), 112);
            vp_assert(same(&s.as_bytes()[e..], name.as_bytes()), 113);
        }
        None => vp_assert(false, 114),
    }
    vp_note(s.len() as u64);
    // parses back to the identical literal
    for l in [ls, lu] {
        let t = l.to_string();
        match Literal::from_str(&t) {
            Ok(m) => vp_assert(same(m.to_string().as_bytes(), t.as_bytes()), 115),
            Err(_) => vp_assert(false, 116),
        }
    }
}
/// C11. param0: type; param1: number of symbolic low bytes; param2,3: base value (lo, hi); param4: shift of the symbolic part
pub fn h_int() {
    let which = vp_param(0);
    let n = vp_param(1) as usize;
    let base = vp_param(2) as u128 | (vp_param(3) as u128) << 64;
    let mut w = [0u8; 16];
    vp_sym(w.as_mut_ptr(), n, 0);
    let mut v = 0u128;
    for k in 0..n {
        v |= (w[k] as u128) << (8 * k);
    }
    int_ok(which, base.wrapping_add(v.wrapping_shl(vp_param(4) as u32)));
}
/// C11. param0: type; param1..: values (lo, hi pairs), one is chosen; count in param1
pub fn h_intv() {
    let which = vp_param(0);
    let n = vp_param(1);
    let k = vp_choice(n);
    let v = vp_param(2 + 2 * k) as u128 | (vp_param(3 + 2 * k) as u128) << 64;
    int_ok(which, v);
}

/// C11 floats. param0: 0 f32, 1 f64; param1: n; values (bits), one is chosen
pub fn h_float() {
    let w = vp_param(0);
    let n = vp_param(1);
    let bits = vp_param(2 + vp_choice(n));
    let (s, u, name) = if w == 0 {
        let f = f32::from_bits(bits as u32);
        (Literal::f32_suffixed(f), Literal::f32_unsuffixed(f), "f32")
    } else {
        let f = f64::from_bits(bits);
        (Literal::f64_suffixed(f), Literal::f64_unsuffixed(f), "f64")
    };
    vp_reach(1);
    let (st, ut) = (s.to_string(), u.to_string());
    // unsuffixed: decimal with a point; suffixed: the number and the type name
    let neg = ut.as_bytes()[0] == b'-';
    let body = &ut.as_bytes()[neg as usize..];
    vp_assert(reflex::number(body, 0) == Some(body.len()), 120);
    let mut point = 0;
    let mut others = 0;
    for c in body {
        if *c == b'.' {
            point += 1;
        } else if !c.is_ascii_digit() {
            others += 1;
        }
    }
    vp_assert(point == 1 && others == 0, 121);
    let sb = st.as_bytes();
    vp_assert(sb.len() > 3 && same(&sb[sb.len() - 3..], name.as_bytes()), 122);
    let num = &sb[..sb.len() - 3];
    // same sign, same digits; a missing fraction is all that may differ
    let same_text = same(num, ut.as_bytes()) || (ut.len() == num.len() + 2 && same(num, &ut.as_bytes()[..num.len()]) && same(&ut.as_bytes()[num.len()..], b".0"));
    vp_assert(same_text, 123);
    let sbody = &sb[neg as usize..];
    vp_assert(reflex::number(sbody, 0) == Some(sbody.len()), 124);
    // exact value
    if w == 0 {
        let back = ut.parse::<f32>();
        vp_assert(back.map_or(false, |x| x.to_bits() == bits as u32), 125);
    } else {
        let back = ut.parse::<f64>();
        vp_assert(back.map_or(false, |x| x.to_bits() == bits), 125);
    }
    for l in [s, u] {
        let t = l.to_string();
        match Literal::from_str(&t) {
            Ok(m) => vp_assert(same(m.to_string().as_bytes(), t.as_bytes()), 126),
            Err(_) => vp_assert(false, 127),
        }
    }
    vp_note(st.len() as u64);
}
thread_local! { static TEXT: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// Stands for core's `Display for f32/f64` under the engine while h_floatsym
/// runs: the number's shortest decimal form is the symbolic text.
#[no_mangle]
#[inline(never)]
pub extern "C-unwind" fn vp_float_fmt(_x: *const u8, f: &mut std::fmt::Formatter) -> bool {
    vp_assume(f.precision().is_none() && f.width().is_none() && !f.sign_plus());
    TEXT.with(|t| f.write_str(unsafe { std::str::from_utf8_unchecked(&t.borrow()) }).is_err())
}
/// C11: the float whose shortest decimal form is the (symbolic) text; at most
/// six significant digits, so that the form determines the value. param0: 0 f32, 1 f64
pub fn h_floatsym() {
    let w = vp_param(0);
    let mut i = 1;
    let s = template(&mut i);
    let b = &s.b;
    // canonical decimal: -? (0 | [1-9][0-9]*) (. [0-9]* [1-9])?
    let neg = !b.is_empty() && b[0] == b'-';
    let (_, v, e) = match decimal(b) {
        Some(x) => x,
        None => return,
    };
    let mut zero = v == 0;
    if e < b.len() {
        if b[e] != b'.' || e + 1 == b.len() || b[b.len() - 1] == b'0' {
            return;
        }
        for c in &b[e + 1..] {
            if !c.is_ascii_digit() {
                return;
            }
            zero = false;
        }
    }
    let mut x = [0u8; 8];
    vp_sym(x.as_mut_ptr(), 8, 0);
    let bits = u64::from_le_bytes(x);
    TEXT.with(|t| *t.borrow_mut() = b.clone());
    let (ls, lu, name) = if w == 0 {
        let f = if vp_is_sym() {
            let k = bits as u32;
            vp_assume((k >> 23 & 0xff != 0xff) & ((k >> 31 == 1) == neg) & ((k << 1 == 0) == zero));
            f32::from_bits(k)
        } else {
            s.str().parse::<f32>().unwrap()
        };
        (Literal::f32_suffixed(f), Literal::f32_unsuffixed(f), "f32")
    } else {
        let f = if vp_is_sym() {
            vp_assume((bits >> 52 & 0x7ff != 0x7ff) & ((bits >> 63 == 1) == neg) & ((bits << 1 == 0) == zero));
            f64::from_bits(bits)
        } else {
            s.str().parse::<f64>().unwrap()
        };
        (Literal::f64_suffixed(f), Literal::f64_unsuffixed(f), "f64")
    };
    vp_reach(1);
    let mut want = Vec::with_capacity(32);
    want.extend_from_slice(b);
    want.extend_from_slice(name.as_bytes());
    let st = ls.to_string();
    vp_note(st.len() as u64);
    vp_assert(same(st.as_bytes(), &want), 180);
    let mut want = Vec::with_capacity(32);
    want.extend_from_slice(b);
    if e == b.len() {
        want.extend_from_slice(b".0");
    }
    let ut = lu.to_string();
    vp_assert(same(ut.as_bytes(), &want), 181);
    for l in [ls, lu] {
        let t = l.to_string();
        match Literal::from_str(&t) {
            Ok(m) => vp_assert(same(m.to_string().as_bytes(), t.as_bytes()), 182),
            Err(_) => vp_assert(false, 183),
        }
    }
}
/// C11: every non-finite value is refused. param0: 0 f32, 1 f64
pub fn h_nonfinite() {
    let w = vp_param(0);
    let mut x = [0u8; 8];
    vp_sym(x.as_mut_ptr(), 8, 0);
    let bits = u64::from_le_bytes(x);
    let op = vp_choice(2);
    let r = if w == 0 {
        let b = bits as u32;
        vp_assume(b >> 23 & 0xff == 0xff);
        let f = f32::from_bits(b);
        catch_unwind(|| {
            let l = if op == 0 { Literal::f32_suffixed(f) } else { Literal::f32_unsuffixed(f) };
            l.to_string().len()
        })
    } else {
        vp_assume(bits >> 52 & 0x7ff == 0x7ff);
        let f = f64::from_bits(bits);
        catch_unwind(|| {
            let l = if op == 0 { Literal::f64_suffixed(f) } else { Literal::f64_unsuffixed(f) };
            l.to_string().len()
        })
    };
    vp_reach(1);
    vp_assert(r.is_err(), 128);
}

const NOT_RAW: [&str; 5] = ["_", "self", "Self", "super", "crate"];

/// C16 identifiers. param0: 1 = new_raw
pub fn h_ident() {
    let raw = vp_param(0) == 1;
    let mut i = 1;
    let s = template(&mut i);
    let mut want = word(&s.b, 0) == Some(s.b.len());
    if raw && want {
        for w in NOT_RAW {
            if eq_str(&s.b, 0, s.b.len(), w) {
                want = false;
            }
        }
    }
    let t = s.str();
    let r = catch_unwind(AssertUnwindSafe(|| if raw { Ident::new_raw(t, Span::call_site()) } else { Ident::new(t, Span::call_site()) }));
    match r {
        Ok(id) => {
            vp_reach(1);
            vp_note(1);
            vp_assert(want, 130);
            let mut p = Vec::with_capacity(16);
            if raw {
                p.extend_from_slice(b"r#");
            }
            p.extend_from_slice(&s.b);
            vp_assert(same(id.to_string().as_bytes(), &p), 131);
        }
        Err(_) => {
            vp_reach(2);
            vp_note(2);
            vp_assert(!want, 132);
        }
    }
}

/// keeps everything written
struct Record(Vec<u8>);
impl Hasher for Record {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hashed(x: &Ident) -> Vec<u8> {
    let mut r = Record(Vec::with_capacity(32));
    x.hash(&mut r);
    r.0
}

/// C16 comparisons. param0: bit0/1 first/second ident raw; then two templates
/// (identifiers; others are left out) and a third: any string
pub fn h_identcmp() {
    let f = vp_param(0);
    let mut i = 1;
    let a = template(&mut i);
    let b = template(&mut i);
    let c = template(&mut i);
    let mk = |s: &crate::input::Src, raw: bool| -> Option<Ident> {
        if word(&s.b, 0) != Some(s.b.len()) {
            return None;
        }
        if raw {
            for w in NOT_RAW {
                if eq_str(&s.b, 0, s.b.len(), w) {
                    return None;
                }
            }
        }
        // half of them through the parser
        let mut t = String::with_capacity(16);
        if raw {
            t.push_str("r#");
        }
        t.push_str(s.str());
        if f & 4 != 0 {
            match t.parse::<TokenStream>().ok()?.into_iter().next() {
                Some(TokenTree::Ident(i)) => Some(i),
                _ => None,
            }
        } else if raw {
            Some(Ident::new_raw(s.str(), Span::call_site()))
        } else {
            Some(Ident::new(s.str(), Span::call_site()))
        }
    };
    let (x, y) = match (mk(&a, f & 1 != 0), mk(&b, f & 2 != 0)) {
        (Some(x), Some(y)) => (x, y),
        _ => return,
    };
    vp_reach(1);
    let (xs, ys) = (x.to_string(), y.to_string());
    let e = xs == ys;
    vp_note(e as u64);
    vp_assert((x == y) == e, 133);
    vp_assert(x.cmp(&y) == xs.cmp(&ys), 134);
    vp_assert(x.partial_cmp(&y) == Some(xs.cmp(&ys)), 135);
    vp_assert(same(&hashed(&x), &hashed(&y)) == e, 136);
    vp_assert((x == c.str()) == (xs == c.str()), 137);
    vp_assert((x == c.str().to_owned()) == (xs == c.str()), 138);
    vp_assert(x == xs.as_str(), 139);
    let z = x.clone();
    vp_assert(z == x, 140);
}

/// C16 Punct. template: one character
pub fn h_punct() {
    let mut i = 0;
    let s = template(&mut i);
    let (c, _) = decode(&s.b, 0);
    let joint = vp_choice(2) == 1;
    let ch = unsafe { char::from_u32_unchecked(c) };
    let r = catch_unwind(|| Punct::new(ch, if joint { Spacing::Joint } else { Spacing::Alone }));
    let want = c < 0x80 && (punct_byte(c as u8) || c == b'\'' as u32);
    match r {
        Ok(p) => {
            vp_reach(1);
            vp_assert(want, 141);
            vp_assert(p.as_char() == ch && (p.spacing() == Spacing::Joint) == joint, 142);
            let t = p.to_string();
            vp_assert(same(t.as_bytes(), &s.b), 143);
        }
        Err(_) => {
            vp_reach(2);
            vp_assert(!want, 144);
        }
    }
}

// ---------------------------------------------------------------- C17

/// model of a token
#[derive(Clone)]
pub enum M {
    I(Vec<u8>),
    P(u8, bool),
    L(Vec<u8>),
    G(u8, Vec<M>),
}
pub fn delim(d: u8) -> Delimiter {
    match d {
        0 => Delimiter::Parenthesis,
        1 => Delimiter::Brace,
        2 => Delimiter::Bracket,
        _ => Delimiter::None,
    }
}
pub fn meq(t: &TokenTree, m: &M) -> bool {
    match (t, m) {
        (TokenTree::Ident(i), M::I(s)) => same(i.to_string().as_bytes(), s),
        (TokenTree::Punct(p), M::P(c, j)) => (p.as_char() as u32 == *c as u32) & ((p.spacing() == Spacing::Joint) == *j),
        (TokenTree::Literal(l), M::L(s)) => same(l.to_string().as_bytes(), s),
        (TokenTree::Group(g), M::G(d, v)) => g.delimiter() == delim(*d) && seq(&g.stream(), v),
        _ => false,
    }
}
pub fn seq(ts: &TokenStream, v: &[M]) -> bool {
    if ts.is_empty() != v.is_empty() {
        return false;
    }
    let mut it = ts.clone().into_iter();
    let mut n = 0;
    let mut ok = true;
    loop {
        let (lo, hi) = it.size_hint();
        if lo > v.len() - n || hi.map_or(false, |h| h < v.len() - n) {
            return false;
        }
        match it.next() {
            Some(t) => {
                if n >= v.len() {
                    return false;
                }
                ok &= meq(&t, &v[n]);
                n += 1;
            }
            None => return ok & (n == v.len()),
        }
    }
}
fn one(kind: u32, lo: u8, hi: u8) -> u8 {
    let mut b = [0u8; 1];
    vp_sym(b.as_mut_ptr(), 1, kind);
    vp_assume((b[0] >= lo) & (b[0] <= hi));
    b[0]
}
/// the tokens a history can add, with symbolic contents; the model lists what
/// arrives in the stream
pub fn token(k: u64) -> (TokenTree, Vec<M>) {
    match k {
        0 => {
            let b = vec![one(1, b'a', b'z')];
            let id = Ident::new(unsafe { std::str::from_utf8_unchecked(&b) }, Span::call_site());
            (TokenTree::Ident(id), vec![M::I(b)])
        }
        5 => {
            let d = one(1, 1, 9);
            (TokenTree::Literal(Literal::i8_unsuffixed(-(d as i8))), vec![M::P(b'-', false), M::L(vec![b'0' + d])])
        }
        2 => {
            let c = one(1, b'*', b'/');
            vp_assume((c != b',') & (c != b'.'));
            let j = one(1, 0, 1) == 1;
            let sp = if j { Spacing::Joint } else { Spacing::Alone };
            (TokenTree::Punct(Punct::new(c as char, sp)), vec![M::P(c, j)])
        }
        3 => {
            let d = vp_choice(6) as u8;
            if d >= 4 {
                let d = (d & 1) * 3;
                return (TokenTree::Group(Group::new(delim(d), TokenStream::new())), vec![M::G(d, vec![])]);
            }
            let (t, m) = token(1);
            (TokenTree::Group(Group::new(delim(d), TokenStream::from(t))), vec![M::G(d, m)])
        }
        7 => {
            // groups inside groups, with nothing but groups inside
            let (d, e) = (vp_choice(4) as u8, vp_choice(4) as u8);
            let g = TokenTree::Group(Group::new(delim(e), TokenStream::new()));
            (TokenTree::Group(Group::new(delim(d), TokenStream::from(g))), vec![M::G(d, vec![M::G(e, vec![])])])
        }
        8 => {
            let b = vec![one(1, b'a', b'z'), one(1, b'a', b'z')];
            let id = Ident::new_raw(unsafe { std::str::from_utf8_unchecked(&b) }, Span::call_site());
            (TokenTree::Ident(id), vec![M::I([b"r#", &b[..]].concat())])
        }
        9 => {
            let c = [b'\'', b'#', b'!', b'-', b'$', b'~'][vp_choice(6) as usize];
            let j = vp_choice(2) == 1;
            let sp = if j { Spacing::Joint } else { Spacing::Alone };
            (TokenTree::Punct(Punct::new(c as char, sp)), vec![M::P(c, j)])
        }
        10 => {
            let b = ["'-'", "b'-'", "b\"-1\"", "c\"-1\"", "r\"-1\"", "\"\"", "1e-1", "0"][vp_choice(8) as usize];
            (TokenTree::Literal(Literal::from_str(b).unwrap()), vec![M::L(b.as_bytes().to_vec())])
        }
        4 => (TokenTree::Literal(Literal::string("-x")), vec![M::L(b"\"-x\"".to_vec())]),
        1 => {
            let d = one(1, b'0', b'9');
            let t = vec![b'-', d, b'.', b'5'];
            let l = Literal::from_str(unsafe { std::str::from_utf8_unchecked(&t) }).unwrap();
            (TokenTree::Literal(l), vec![M::P(b'-', false), M::L(t[1..].to_vec())])
        }
        _ => (TokenTree::Literal(Literal::f64_suffixed(-0.0)), vec![M::P(b'-', false), M::L(b"0f64".to_vec())]),
    }
}
/// through the concrete token type's Extend
fn extend_typed(s: &mut TokenStream, t: TokenTree, shape: u64) {
    match t {
        TokenTree::Group(x) => s.extend(shaped(vec![x], shape)),
        TokenTree::Ident(x) => s.extend(shaped(vec![x], shape)),
        TokenTree::Punct(x) => s.extend(shaped(vec![x], shape)),
        TokenTree::Literal(x) => s.extend(shaped(vec![x], shape)),
    }
}

/// the same items from iterators that know less, or other things, about themselves
fn shaped<T: 'static>(v: Vec<T>, shape: u64) -> Box<dyn Iterator<Item = T>> {
    let n = v.len();
    let mut it = v.into_iter();
    match shape {
        0 => Box::new(it),
        // (0, Some(n))
        1 => Box::new(it.filter(|_| true)),
        // (0, None)
        2 => Box::new(std::iter::from_fn(move || it.next())),
        // ends while there is more behind it
        3 => {
            let mut k = 0;
            Box::new(std::iter::from_fn(move || {
                k += 1;
                if k <= n {
                    it.next()
                } else {
                    None
                }
            }))
        }
        // uses the library itself while it is being drained
        5 => Box::new(std::iter::from_fn(move || {
            let s: TokenStream = "q { 'w' } /// d".parse().unwrap();
            let mut t = s.clone();
            t.extend(s);
            vp_assert(t.into_iter().count() == 8, 175);
            it.next()
        })),
        // (0, Some(large))
        _ => Box::new(it.map(Some).chain((0..9).map(|_| None)).flatten()),
    }
}
fn consume(mut it: token_stream::IntoIter, v: &[M], shape: u64) {
    match shape {
        1 => {
            let t = it.nth(1);
            vp_assert(t.is_some() == (v.len() > 1), 159);
            if let Some(t) = t {
                vp_assert(meq(&t, &v[1]), 160);
            }
            let rest = if v.len() > 1 { &v[2..] } else { &[] };
            let h = it.size_hint();
            vp_assert(h.0 <= rest.len() && h.1.map_or(true, |h| h >= rest.len()), 161);
            for m in rest {
                match it.next() {
                    Some(t) => vp_assert(meq(&t, m), 162),
                    None => vp_assert(false, 163),
                }
            }
            vp_assert(it.next().is_none(), 164);
            vp_assert(it.next().is_none(), 165);
            let h = it.size_hint();
            vp_assert(h.0 == 0, 166);
            vp_assert(it.clone().count() == 0, 167);
        }
        2 => {
            vp_assert(it.clone().count() == v.len(), 168);
            match it.last() {
                Some(t) => vp_assert(!v.is_empty() && meq(&t, &v[v.len() - 1]), 169),
                None => vp_assert(v.is_empty(), 170),
            }
        }
        3 => {
            let n = it.fold(0, |k, t| {
                vp_assert(k < v.len() && meq(&t, &v[k]), 171);
                k + 1
            });
            vp_assert(n == v.len(), 172);
        }
        _ => {
            // by reference, then the rest into a stream
            if let Some(t) = it.by_ref().next() {
                vp_assert(!v.is_empty() && meq(&t, &v[0]), 173);
            }
            let s: TokenStream = it.collect();
            vp_assert(seq(&s, if v.is_empty() { v } else { &v[1..] }), 174);
        }
    }
}

const OPS: u64 = 13;
/// C17. param0: steps; param1: number of token kinds; param2: bit0 = registers
/// start parsed/shared, bit1 = the second is empty, bits 2.. = that many blocks
/// of 10 tokens in front; param3: bit0 leak check, bits 4.. shape of the iterators
/// handed over; param4: first op or 0xff
pub fn h_ops() {
    let steps = vp_param(0);
    let kinds = vp_param(1);
    let start = vp_param(2);
    let first = vp_param(4);
    let shape = vp_param(3) >> 4;
    let before = vp_heap_live();
    {
        let mut r: [TokenStream; 2] = [TokenStream::new(), TokenStream::new()];
        let mut m: [Vec<M>; 2] = [vec![], vec![]];
        let mut iters: Vec<(token_stream::IntoIter, Vec<M>)> = vec![];
        if start & 1 == 1 {
            let mut src = String::new();
            for _ in 0..start >> 2 {
                src.push_str("a+b c + d e f [ ] +");
                for (k, c) in [b"a", b"+", b"b", b"c", b"+", b"d", b"e", b"f", b"[", b"+"].into_iter().enumerate() {
                    m[0].push(match c[0] {
                        b'+' => M::P(b'+', false),
                        b'[' => M::G(2, vec![]),
                        x => M::I(vec![x]),
                    });
                    let _ = k;
                }
            }
            src.push_str("x ( y )");
            r[0] = src.parse().unwrap();
            m[0].push(M::I(b"x".to_vec()));
            m[0].push(M::G(0, vec![M::I(b"y".to_vec())]));
            r[1] = r[0].clone();
            m[1] = m[0].clone();
        }
        if start & 2 == 2 {
            r[1] = TokenStream::new();
            m[1] = vec![];
        }
        for s in 0..steps {
            let op = if s == 0 && first != 0xff { first } else { vp_choice(OPS) };
            let i = vp_choice(2) as usize;
            match op {
                // extend by one or two tokens
                0 => {
                    let (t, v) = token(vp_choice(kinds));
                    r[i].extend(shaped(vec![t], shape));
                    m[i].extend(v);
                }
                1 => {
                    let (t, v) = token(vp_choice(kinds));
                    let (t2, v2) = token(1);
                    r[i].extend(shaped(vec![t, t2], shape));
                    m[i].extend(v);
                    m[i].extend(v2);
                }
                // from a token
                2 => {
                    let (t, v) = token(vp_choice(kinds));
                    r[i] = TokenStream::from(t);
                    m[i] = v;
                }
                // copy the other register
                3 => {
                    r[i] = r[1 - i].clone();
                    m[i] = m[1 - i].clone();
                }
                // extend by streams: the other, itself
                4 => {
                    let v = vec![r[1 - i].clone(), TokenStream::new(), r[i].clone()];
                    r[i].extend(shaped(v, shape));
                    let (a, b) = (m[1 - i].clone(), m[i].clone());
                    m[i].extend(a);
                    m[i].extend(b);
                }
                // collect streams, the first moved
                5 => {
                    let a = std::mem::replace(&mut r[i], TokenStream::new());
                    let b = r[1 - i].clone();
                    r[i] = shaped(vec![a, b], shape).collect();
                    let b = m[1 - i].clone();
                    m[i].extend(b);
                }
                // collect tokens of both
                6 => {
                    let a = std::mem::replace(&mut r[i], TokenStream::new());
                    r[i] = if shape == 0 { a.into_iter().chain(r[1 - i].clone()).collect() } else { shaped(a.into_iter().chain(r[1 - i].clone()).collect(), shape).collect() };
                    let b = m[1 - i].clone();
                    m[i].extend(b);
                }
                // wrap in a group
                7 => {
                    let g = Group::new(Delimiter::Parenthesis, r[1 - i].clone());
                    if shape == 0 { r[i].extend(std::iter::once(TokenTree::Group(g))) } else { r[i].extend(shaped(vec![TokenTree::Group(g)], shape)) };
                    let v = m[1 - i].clone();
                    m[i].push(M::G(0, v));
                }
                // the stream of the first group
                8 => {
                    let mut k = None;
                    for (n, x) in m[i].iter().enumerate() {
                        if let M::G(..) = x {
                            k = Some(n);
                            break;
                        }
                    }
                    if let Some(k) = k {
                        let t = r[i].clone().into_iter().nth(k);
                        match t {
                            Some(TokenTree::Group(g)) => r[1 - i] = g.stream(),
                            _ => vp_assert(false, 150),
                        }
                        if let M::G(_, v) = &m[i][k] {
                            m[1 - i] = v.clone();
                        }
                    }
                }
                // keep an iterator that consumed one token (of a copy or of the stream itself)
                9 => {
                    let mut it = if vp_choice(2) == 0 { r[i].clone().into_iter() } else { std::mem::replace(&mut r[i], TokenStream::new()).into_iter() };
                    let v = if r[i].is_empty() { std::mem::take(&mut m[i]) } else { m[i].clone() };
                    let t = it.next();
                    vp_assert(t.is_some() == !v.is_empty(), 151);
                    let rest = if v.is_empty() { vec![] } else { v[1..].to_vec() };
                    iters.push((it.clone(), rest.clone()));
                    iters.push((it, rest));
                }
                // typed extension
                10 => {
                    let (t, v) = token(vp_choice(kinds));
                    extend_typed(&mut r[i], t, shape);
                    m[i].extend(v);
                }
                // move one stream into the other
                11 => {
                    let a = std::mem::replace(&mut r[1 - i], TokenStream::default());
                    if shape == 0 { r[i].extend(Some(a)) } else { r[i].extend(shaped(vec![a], shape)) };
                    let b = std::mem::take(&mut m[1 - i]);
                    m[i].extend(b);
                }
                // drop
                _ => {
                    r[i] = TokenStream::new();
                    m[i].clear();
                }
            }
        }
        vp_reach(1);
        for (it, v) in iters {
            let hint = it.size_hint();
            vp_assert(hint.0 <= v.len() && hint.1.map_or(true, |h| h >= v.len()), 152);
            if shape != 0 {
                consume(it, &v, shape);
                continue;
            }
            let rest: Vec<TokenTree> = it.collect();
            vp_assert(rest.len() == v.len(), 153);
            for k in 0..v.len() {
                vp_assert(meq(&rest[k], &v[k]), 154);
            }
        }
        vp_assert(seq(&r[0], &m[0]), 155);
        vp_assert(seq(&r[1], &m[1]), 156);
        vp_note(m[0].len() as u64);
        vp_note(m[1].len() as u64);
        let [a, b] = r;
        drop(a);
        vp_assert(seq(&b, &m[1]), 157);
    }
    if vp_param(3) & 1 == 1 {
        vp_assert(vp_heap_live() == before, 158);
    }
}

fn mprint(v: &[M], out: &mut Vec<u8>) {
    let mut joint = true;
    for t in v {
        if !joint {
            out.push(b' ');
        }
        joint = false;
        match t {
            M::I(b) | M::L(b) => out.extend_from_slice(b),
            M::P(c, j) => {
                out.push(*c);
                joint = *j;
            }
            M::G(d, w) => {
                let (o, c) = [("(", ")"), ("{", "}"), ("[", "]"), ("", "")][*d as usize];
                out.extend_from_slice(o.as_bytes());
                if *d == 1 {
                    out.push(b' ');
                    if !w.is_empty() {
                        mprint(w, out);
                        out.push(b' ');
                    }
                } else {
                    mprint(w, out);
                }
                out.extend_from_slice(c.as_bytes());
            }
        }
    }
}
/// C09: the printed form of constructed streams. param0: tokens; param1: kinds
pub fn h_print() {
    let n = vp_param(0);
    let kinds = vp_param(1);
    let mut v = vec![];
    let mut ts = TokenStream::new();
    for _ in 0..n {
        let k = vp_choice(kinds + 2);
        if k < kinds {
            let (t, m) = token(k);
            ts.extend(Some(t));
            v.extend(m);
        } else if k == kinds {
            // wrap what there is
            let d = vp_choice(4) as u8;
            ts = TokenStream::from(TokenTree::Group(Group::new(delim(d), ts)));
            v = vec![M::G(d, v)];
        } else {
            let d = vp_choice(4) as u8;
            ts.extend(Some(Group::new(delim(d), TokenStream::new())));
            v.push(M::G(d, vec![]));
        }
    }
    vp_reach(1);
    let mut want = Vec::with_capacity(64);
    mprint(&v, &mut want);
    let got = ts.to_string();
    vp_note(got.len() as u64);
    vp_assert(same(got.as_bytes(), &want), 48);
    // each token prints as it does inside a stream
    for t in ts.clone() {
        let a = t.to_string();
        let b = TokenStream::from(t).to_string();
        vp_assert(same(a.as_bytes(), b.as_bytes()), 49);
    }
}

/// C17: a negative literal becomes `-` and the positive literal, both at the
/// literal's span. param0: how; then the literal's text
#[cfg(feature = "spans")]
pub fn h_neg() {
    let how = vp_param(0);
    let mut i = 1;
    let s = template(&mut i);
    let l = match Literal::from_str(s.str()) {
        Ok(l) => l,
        Err(_) => return,
    };
    let want = l.span().byte_range();
    let file = l.span().file();
    let neg = s.b[0] == b'-';
    let t = TokenTree::Literal(l.clone());
    let mut ts = TokenStream::new();
    match how {
        0 => ts = TokenStream::from(t),
        1 => ts.extend(vec![t]),
        2 => ts = vec![t].into_iter().collect(),
        3 => ts.extend(vec![l]),
        _ => ts = Group::new(Delimiter::None, TokenStream::from(t)).stream(),
    }
    vp_reach(1);
    let v: Vec<TokenTree> = ts.into_iter().collect();
    vp_assert(v.len() == 1 + neg as usize, 170);
    for t in &v {
        vp_assert(t.span().byte_range() == want, 171);
        vp_assert(t.span().file() == file, 172);
    }
    if neg {
        vp_assert(meq(&v[0], &M::P(b'-', false)), 173);
    }
    let rest = s.b[neg as usize..].to_vec();
    vp_assert(meq(&v[v.len() - 1], &M::L(rest)), 174);
}

// ---------------------------------------------------------------- C18

const OPEN: [&str; 6] = ["(", "[", "{", "a(", "(;", "()["];
const CLOSE: [&str; 6] = [")", "]", "}", ") b", ")", "]1"];

fn nest(depth: usize, kinds: &[usize]) -> String {
    let mut s = String::with_capacity(depth * 6 + 8);
    for k in 0..depth {
        s.push_str(OPEN[kinds[k % kinds.len()]]);
    }
    s.push('x');
    for k in (0..depth).rev() {
        s.push_str(CLOSE[kinds[k % kinds.len()]]);
    }
    s
}
fn deep(how: u64, depth: usize, kinds: &[usize]) -> TokenStream {
    if how == 0 {
        match nest(depth, kinds).parse() {
            Ok(t) => t,
            Err(_) => {
                vp_assert(false, 160);
                TokenStream::new()
            }
        }
    } else {
        let mut ts = TokenStream::new();
        for k in 0..depth {
            let mut g = TokenStream::from(TokenTree::Group(Group::new(delim((kinds[k % kinds.len()] % 4) as u8), ts)));
            if kinds[k % kinds.len()] >= 3 {
                g.extend(Some(TokenTree::Punct(Punct::new(';', Spacing::Alone))));
            }
            ts = g;
        }
        ts
    }
}
fn inner(ts: &TokenStream, n: usize) -> TokenStream {
    let mut t = ts.clone();
    for _ in 0..n {
        let mut next = None;
        for x in t {
            if let TokenTree::Group(g) = x {
                next = Some(g.stream());
            }
        }
        match next {
            Some(x) => t = x,
            None => return TokenStream::new(),
        }
    }
    t
}
/// build and dispose of a deep stream; returns the largest call depth seen in each phase
fn churn(how: u64, dispose: u64, depth: usize, kinds: &[usize]) -> (u64, u64) {
    vp_depth_reset();
    let ts = deep(how, depth, kinds);
    let a = vp_depth_max();
    match dispose {
        0 => {
            vp_depth_reset();
            drop(ts);
        }
        1 => {
            // shared, dropped in both orders
            let c = ts.clone();
            vp_depth_reset();
            drop(ts);
            drop(c);
        }
        2 => {
            // an inner stream outlives the outer one
            let c = inner(&ts, 2);
            vp_depth_reset();
            drop(ts);
            drop(c);
        }
        3 => {
            // one level taken apart, the iterator dropped half way
            let mut it = ts.into_iter();
            let t = it.next();
            vp_depth_reset();
            drop(it);
            drop(t);
        }
        4 => {
            // inside another group, with siblings
            let g = Group::new(Delimiter::None, ts);
            let v: TokenStream = vec![TokenTree::Group(g.clone()), TokenTree::Group(g)].into_iter().collect();
            vp_depth_reset();
            drop(v);
        }
        5 => {
            // consumed by extension of another stream
            let mut o = TokenStream::new();
            o.extend(vec![ts]);
            vp_depth_reset();
            drop(o);
        }
        _ => {
            let t: Vec<TokenTree> = ts.into_iter().collect();
            vp_depth_reset();
            drop(t);
        }
    }
    (a, vp_depth_max())
}
/// C18. param0: bit0 leak check, bit1 parentheses (or with text around) only; param1/2: the two depths compared
pub fn h_deep() {
    let how = vp_choice(2);
    let dispose = vp_choice(7);
    let kinds = if vp_param(0) & 2 == 2 {
        [vp_choice(2) as usize * 3; 2]
    } else {
        let k1 = vp_choice(OPEN.len() as u64) as usize;
        let k2 = vp_choice(OPEN.len() as u64) as usize;
        [k1, k2]
    };
    let before = vp_heap_live();
    vp_reach(1);
    if vp_is_sym() {
        let a = churn(how, dispose, vp_param(1) as usize, &kinds);
        let b = churn(how, dispose, vp_param(2) as usize, &kinds);
        vp_assert(b.0 <= a.0, 161);
        vp_assert(b.1 <= a.1, 162);
    } else {
        // natively: a nesting far deeper than the small stack of this thread allows for recursion
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                churn(how, dispose, if vp_replaying() { 3_000_000 } else { 60_000 }, &kinds);
            })
            .unwrap()
            .join()
            .unwrap();
        churn(how, dispose, vp_param(1) as usize, &kinds);
        churn(how, dispose, vp_param(2) as usize, &kinds);
    }
    if vp_param(0) & 1 == 1 && vp_is_sym() {
        vp_assert(vp_heap_live() == before, 163);
    }
}
/// C18: any ASCII source; parse, drop, nothing left
pub fn h_free() {
    let mut i = 0;
    let s = template(&mut i);
    let before = vp_heap_live();
    if let Ok(ts) = s.str().parse::<TokenStream>() {
        vp_reach(1);
        let c = match vp_choice(3) {
            0 => TokenStream::new(),
            1 => ts.clone(),
            _ => inner(&ts, 1),
        };
        vp_note(tree::walk(c.clone()));
        drop(ts);
        vp_note(tree::walk(c));
    }
    vp_assert(vp_heap_live() == before, 164);
}

/// C19. param0: 0: the text parsed as a literal; 1: the text taken unchecked
#[cfg(feature = "exempt")]
pub fn h_value() {
    let mode = vp_param(0);
    let mut i = 1;
    let s = template(&mut i);
    value_of(&s, mode);
}
/// C19: one literal after another, and the first once more
#[cfg(feature = "exempt")]
pub fn h_value2() {
    let mode = vp_param(0);
    let mut i = 1;
    let s = template(&mut i);
    let t = template(&mut i);
    value_of(&s, mode);
    value_of(&t, mode);
    value_of(&s, mode);
}
#[cfg(feature = "exempt")]
fn value_of(s: &crate::input::Src, mode: u64) {
    let b = &s.b;
    let l = if mode == 2 {
        // the only token of a stream, in a group or not
        let text = [s.str(), "(", s.str(), ")"];
        let ts = match text.concat().parse::<TokenStream>() {
            Ok(ts) => ts,
            Err(_) => return,
        };
        let mut it = ts.into_iter();
        match (it.next(), it.next(), it.next()) {
            (Some(TokenTree::Literal(l)), Some(TokenTree::Group(g)), None) => {
                if vp_choice(2) == 0 {
                    l
                } else {
                    match g.stream().into_iter().next() {
                        Some(TokenTree::Literal(l)) => l.clone(),
                        _ => return,
                    }
                }
            }
            _ => return,
        }
    } else if mode == 0 {
        match Literal::from_str(s.str()) {
            Ok(l) => l,
            Err(_) => return,
        }
    } else {
        unsafe { Literal::from_str_unchecked(s.str()) }
    };
    if mode == 2 && l.to_string() != s.str() {
        return; // the text is more than the literal
    }
    // the reference's value, if the whole text is one literal of a string kind
    let mut want = Vec::with_capacity(16);
    let mut kind = None;
    let mut cooked = None;
    let mut suffixed = false;
    if let Some((n, raw, q)) = quoted_prefix(b, 0) {
        let end = quoted_body(b, n, raw, q, &mut |u| push_unit(&mut want, u));
        match end {
            Some(e) if e == b.len() => kind = Some(q),
            Some(e) if suffix(b, e) == b.len() => {
                kind = Some(q);
                suffixed = true;
            }
            None if !raw && b.len() > n + 1 && b[b.len() - 1] == b'"' => cooked = Some(q),
            _ => {}
        }
    }
    let sv = l.str_value().map(String::into_bytes);
    let bv = l.byte_str_value();
    let mut cv = l.cstr_value();
    if let Ok(v) = &mut cv {
        // every C string value ends in its only NUL
        vp_assert(v.pop() == Some(0), 200);
    }
    vp_reach(1);
    for (q, r, id) in [(Q::Str, sv, 201), (Q::Bytes, bv, 204), (Q::C, cv, 207)] {
        match r {
            Ok(v) => {
                vp_note(v.len() as u64);
                if mode != 1 {
                    vp_assert(kind == Some(q), id);
                }
                if kind == Some(q) {
                    vp_assert(same(&v, &want), id + 1);
                }
                // (Rust's unescaper passes over a bare CR in a line continuation)
                vp_assert(cooked != Some(q) || (mode == 1 && b.contains(&b'\r')), 213);
            }
            Err(e) => {
                vp_note(99);
                vp_assert(kind != Some(q) || suffixed, id + 2);
                if kind != Some(q) && cooked != Some(q) {
                    vp_assert(mode == 1 || matches!(e, ConversionErrorKind::InvalidLiteralKind), 210);
                } else if cooked == Some(q) {
                    vp_assert(matches!(e, ConversionErrorKind::FailedToUnescape(_)), 211);
                }
            }
        }
    }
}

/// C19 with C10: a constructed literal's value is what it was made from.
/// param0: 0 string, 3 byte_string, 4 c_string
#[cfg(feature = "exempt")]
pub fn h_valback() {
    let which = vp_param(0);
    let mut i = 1;
    let s = template(&mut i);
    vp_reach(1);
    let ok = match which {
        0 => matches!(Literal::string(s.str()).str_value(), Ok(v) if same(v.as_bytes(), &s.b)),
        3 => matches!(Literal::byte_string(&s.b).byte_str_value(), Ok(v) if same(&v, &s.b)),
        _ => {
            let mut z = s.b.clone();
            z.push(0);
            let c = match CStr::from_bytes_with_nul(&z) {
                Ok(c) => c,
                Err(_) => return,
            };
            matches!(Literal::c_string(c).cstr_value(), Ok(v) if same(&v, &z))
        }
    };
    vp_note(ok as u64);
    vp_assert(ok, 212);
}
