//! C20, C21: the compiler-backed half of proc-macro2, built against the
//! recording stand-in for `proc_macro` in ../mock.
#![cfg_attr(feature = "unstable", feature(proc_macro_span))]
#[path = "../../main/src/input.rs"]
mod input;
extern crate proc_macro as pm;
use pm::{mix, site, Kind, AVAILABLE, PARSE, PARSED, RACE};
use proc_macro2::*;
use std::collections::hash_map::DefaultHasher;
use std::ffi::CStr;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use vp::*;

macro_rules! entries {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub extern "C-unwind" fn $name() $body)*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$($(#[$m])* (stringify!($name), $name)),*];
    };
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
fn sp_eq(a: pm::Span, b: pm::Span) -> bool {
    (a.id == b.id) & (a.lo == b.lo) & (a.hi == b.hi)
}
fn tok_eq(a: &pm::TokenTree, b: &pm::TokenTree) -> bool {
    use pm::TokenTree::*;
    match (a, b) {
        (Group(x), Group(y)) => (x.delimiter as u8 == y.delimiter as u8) && sp_eq(x.span, y.span) && sp_eq(x.open, y.open) && sp_eq(x.close, y.close) && str_eq(&x.stream.v, &y.stream.v),
        (Ident(x), Ident(y)) => (x.raw == y.raw) & sp_eq(x.span, y.span) & same(x.text.as_bytes(), y.text.as_bytes()),
        (Punct(x), Punct(y)) => (x.ch == y.ch) & (x.spacing as u8 == y.spacing as u8) & sp_eq(x.span, y.span),
        (Literal(x), Literal(y)) => (x.kind as u8 == y.kind as u8) & (x.num == y.num) & sp_eq(x.span, y.span) & same(&x.bytes, &y.bytes),
        _ => false,
    }
}
fn str_eq(a: &[pm::TokenTree], b: &[pm::TokenTree]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if !tok_eq(&a[i], &b[i]) {
            return false;
        }
    }
    true
}
fn sym8() -> u64 {
    let mut b = [0u8; 1];
    vp_sym(b.as_mut_ptr(), 1, 0);
    b[0] as u64
}
/// a symbolic number below n
fn below(n: u64) -> u64 {
    let x = sym8();
    vp_assume(x < n);
    x
}
/// a compiler span with a symbolic origin and position
fn sym_span() -> pm::Span {
    let (id, lo, hi) = (sym8(), sym8(), sym8());
    pm::Span { id, lo: lo * 32, hi: hi * 32 }
}
fn span2(s: pm::Span) -> Span {
    Span::from(s)
}
fn back(s: Span) -> pm::Span {
    s.unwrap()
}
const PUNCTS: &[u8] = b"~!@#$%^&*-=+|;:,<.>/?'";

/// a proc-macro2 token and the compiler token it must become
fn token(tag: u64, which: u64) -> (TokenTree, pm::TokenTree) {
    match which {
        0 => {
            // the contents are symbolic: any misplacement is seen by the solver
            let c = sym8();
            vp_assume((c >= b'a' as u64) & (c <= b'z' as u64));
            let t = [c as u8];
            let t = unsafe { std::str::from_utf8_unchecked(&t) };
            let s = pm::Span { id: tag, lo: 0, hi: 0 };
            (TokenTree::Ident(Ident::new(t, span2(s))), pm::TokenTree::Ident(pm::Ident { text: t.into(), raw: false, span: s }))
        }
        1 => {
            let mut p = Punct::new(b"+'"[(tag & 1) as usize] as char, if tag & 2 == 0 { Spacing::Joint } else { Spacing::Alone });
            let s = pm::Span { id: tag, lo: 1, hi: 1 };
            p.set_span(span2(s));
            let q = pm::Punct { ch: p.as_char(), spacing: if tag & 2 == 0 { pm::Spacing::Joint } else { pm::Spacing::Alone }, span: s };
            (TokenTree::Punct(p), pm::TokenTree::Punct(q))
        }
        2 => {
            let n = sym8();
            let l = Literal::i8_unsuffixed(n as u8 as i8);
            (TokenTree::Literal(l), pm::TokenTree::Literal(pm::Literal { kind: Kind::i8_unsuffixed, bytes: Vec::new(), num: n as u8 as i8 as u128, span: site(1) }))
        }
        _ => {
            let (a, b) = token(tag + 1, 1);
            let mut ts = TokenStream::new();
            ts.extend(vec![a]);
            let g = Group::new(Delimiter::Bracket, ts);
            (TokenTree::Group(g), pm::TokenTree::Group(pm::Group { delimiter: pm::Delimiter::Bracket, stream: pm::TokenStream { v: vec![b] }, span: site(1), open: site(1), close: site(1) }))
        }
    }
}
fn show(m: &[pm::TokenTree]) -> String {
    pm::TokenStream { v: m.to_vec() }.to_string()
}
struct St {
    a: TokenStream,
    m: Vec<pm::TokenTree>,
}
impl St {
    fn ok(&self) -> bool {
        let e = self.a.is_empty() == self.m.is_empty();
        let t = pm::TokenStream::from(self.a.clone());
        e && str_eq(&t.v, &self.m)
    }
}
fn drain(ts: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        out.extend(vec![t]);
    }
    out
}

/// the same items from iterators that know less about themselves
fn shaped<T: 'static>(v: Vec<T>, shape: u64) -> Box<dyn Iterator<Item = T>> {
    let mut it = v.into_iter();
    match shape {
        0 => Box::new(it),
        1 => Box::new(it.filter(|_| true)),
        2 => Box::new(std::iter::from_fn(move || it.next())),
        _ => Box::new(it.map(Some).chain((0..9).map(|_| None)).flatten()),
    }
}

entries! {
    // C20: histories of stream operations.
    // param0 steps, param1 kinds of token, param2 start (3 and more: that many tokens),
    // param3 first operation or 255, bits 8..: shape of the iterators handed over
    fn h_c_ops() {
        let steps = vp_param(0);
        let kinds = vp_param(1);
        let first = vp_param(3) & 255;
        let shape = vp_param(3) >> 8;
        let mut s = [St { a: TokenStream::new(), m: vec![] }, St { a: TokenStream::new(), m: vec![] }];
        let mut tag = 10;
        if vp_param(2) >= 1 {
            let (t, e) = token(5, 0);
            s[0].a.extend(vec![t]);
            s[0].m.push(e);
        }
        if vp_param(2) >= 2 {
            let (t, e) = token(6, 1);
            s[1].a = TokenStream::from(t);
            s[1].m.push(e);
        }
        if vp_param(2) >= 3 {
            for k in 3..vp_param(2) {
                let (t, e) = token(k, 1);
                s[0].a.extend(Some(t));
                s[0].m.push(e);
            }
        }
        let mut kept: Option<(token_stream::IntoIter, Vec<pm::TokenTree>)> = None;
        for n in 0..steps {
            let op = if n == 0 && first != 255 { first } else { vp_choice(15) };
            let x = if op == 13 { 0 } else { vp_choice(2) as usize };
            let y = 1 - x;
            tag += 4;
            let mut tok = |k: u64| { tag += 4; token(tag, k) };
            match op {
                0 => {
                    let (t, e) = tok(vp_choice(kinds));
                    s[x].a.extend(shaped(vec![t], shape));
                    s[x].m.push(e);
                }
                1 => {
                    let (t, e) = tok(vp_choice(kinds));
                    let (t2, e2) = tok(1);
                    s[x].a.extend(shaped(vec![t, t2], shape));
                    s[x].m.push(e);
                    s[x].m.push(e2);
                }
                2 => {
                    let c = s[y].a.clone();
                    let m = s[y].m.clone();
                    s[x].a.extend(shaped(vec![c], shape));
                    s[x].m.extend(m);
                }
                3 => {
                    s[x].a = s[y].a.clone();
                    s[x].m = s[y].m.clone();
                }
                4 => {
                    let (t, e) = tok(vp_choice(kinds));
                    let (t2, e2) = tok(0);
                    s[x].a = shaped(vec![t, t2], shape).collect();
                    s[x].m = vec![e, e2];
                }
                5 => {
                    let v = vec![s[x].a.clone(), s[y].a.clone(), s[x].a.clone()];
                    s[x].a = shaped(v, shape).collect();
                    let mut m = s[x].m.clone();
                    m.extend(s[y].m.clone());
                    m.extend(s[x].m.clone());
                    s[x].m = m;
                }
                6 => {
                    let (t, e) = tok(vp_choice(kinds));
                    s[x].a = TokenStream::from(t);
                    s[x].m = vec![e];
                }
                7 => {
                    vp_assert(same(s[x].a.to_string().as_bytes(), show(&s[x].m).as_bytes()), 300);
                    let d = format!("{:?}", s[x].a);
                    vp_assert(same(d.as_bytes(), format!("TS:{}", show(&s[x].m)).as_bytes()), 301);
                }
                8 => {
                    let ts = std::mem::replace(&mut s[x].a, TokenStream::new());
                    s[x].a = drain(ts);
                }
                9 => {
                    let p = pm::TokenStream::from(std::mem::replace(&mut s[x].a, TokenStream::new()));
                    vp_assert(str_eq(&p.v, &s[x].m), 302);
                    s[x].a = TokenStream::from(p);
                }
                10 => {
                    let g = Group::new([Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None][n as usize & 3], s[x].a.clone());
                    vp_assert(str_eq(&pm::TokenStream::from(g.stream()).v, &s[x].m), 303);
                    let d = [pm::Delimiter::Parenthesis, pm::Delimiter::Brace, pm::Delimiter::Bracket, pm::Delimiter::None][n as usize & 3];
                    let e = pm::Group { delimiter: d, stream: pm::TokenStream { v: s[x].m.clone() }, span: site(1), open: site(1), close: site(1) };
                    s[y].a.extend(shaped(vec![TokenTree::Group(g)], shape));
                    s[y].m.push(pm::TokenTree::Group(e));
                }
                11 => {
                    let mut it = s[x].a.clone().into_iter();
                    let (lo, hi) = it.size_hint();
                    vp_assert((lo == s[x].m.len()) & (hi == Some(lo)), 304);
                    let mut m = s[x].m.clone();
                    if let Some(t) = it.next() {
                        vp_assert(!m.is_empty(), 305);
                        let e = m.remove(0);
                        vp_assert(str_eq(&pm::TokenStream::from(TokenStream::from(t)).v, &[e]), 306);
                    } else {
                        vp_assert(m.is_empty(), 307);
                    }
                    kept = Some((it, m));
                }
                12 => {
                    let r = TokenStream::from_str("a b").unwrap();
                    s[x].a.extend(shaped(vec![r], shape));
                    s[x].m.push(pm::TokenTree::Literal(pm::Literal { kind: Kind::text, bytes: b"a b".to_vec(), num: 0, span: site(1) }));
                }
                13 => {
                    let n: Vec<TokenStream> = vec![];
                    s[x].a.extend(shaped(n, shape));
                    let n: Vec<TokenTree> = vec![];
                    s[x].a.extend(shaped(n, shape));
                    s.swap(0, 1);
                }
                _ => {
                    // the streams are consumed, not copied
                    let a = std::mem::replace(&mut s[x].a, TokenStream::new());
                    let m = std::mem::replace(&mut s[x].m, vec![]);
                    s[y].a.extend(shaped(vec![a], shape));
                    s[y].m.extend(m);
                }
            }
        }
        vp_reach(1);
        if let Some((it, m)) = kept {
            let c = it.clone();
            let ts: TokenStream = c.collect();
            vp_assert(str_eq(&pm::TokenStream::from(ts).v, &m), 308);
            vp_assert(it.count() == m.len(), 309);
        }
        vp_note(s[0].m.len() as u64);
        vp_assert(s[0].ok(), 310);
        vp_assert(s[1].ok(), 311);
    }

    // C20: text. param0: 0 TokenStream, 1 Literal
    fn h_c_text() {
        let lit = vp_param(0) != 0;
        let mut i = 1;
        let s = input::template(&mut i);
        // 2: the entry point that quote uses for text known to be a literal
        let unchecked = vp_param(0) == 2;
        let mode = if unchecked { 0 } else { vp_choice(3) };
        fallback::force();
        let valid = if lit { Literal::from_str(s.str()).is_ok() } else { TokenStream::from_str(s.str()).is_ok() };
        let touched = pm::calls();
        vp_assert(touched == 0, 320);
        fallback::unforce();
        PARSE.with(|c| c.set(mode as u8));
        if unchecked & !valid {
            return;
        }
        let r = if unchecked {
            Ok(TokenStream::from(TokenTree::Literal(unsafe { Literal::from_str_unchecked(s.str()) })))
        } else if lit {
            Literal::from_str(s.str()).map(|l| TokenStream::from(TokenTree::Literal(l)))
        } else {
            TokenStream::from_str(s.str())
        };
        PARSE.with(|c| c.set(0));
        vp_reach(1);
        // handed over once if it lexes, not at all otherwise
        vp_assert(PARSED.with(|c| c.get()) == valid as u64, 321);
        vp_note(valid as u64);
        match r {
            Ok(ts) => {
                vp_assert(valid & (mode == 0), 322);
                let v = pm::TokenStream::from(ts).v;
                let want = pm::TokenTree::Literal(pm::Literal { kind: Kind::text, bytes: s.b.clone(), num: 0, span: site(1) });
                vp_assert(str_eq(&v, &[want]), 323);
            }
            Err(e) => {
                vp_assert(!valid | (mode != 0), 324);
                let t = e.to_string();
                let d = format!("{:?}", e);
                if valid & (mode == 1) {
                    vp_assert(same(t.as_bytes(), b"compiler lex error"), 325);
                    vp_assert(same(d.as_bytes(), b"CompilerLexError"), 326);
                } else {
                    vp_assert(!t.is_empty() & !d.is_empty(), 327);
                }
                vp_assert(sp_eq(back(e.span()), site(1)), 328);
            }
        }
    }

    // C20: a fallback stream converted for the compiler is handed over as its text
    fn h_c_conv() {
        let mut i = 0;
        let s = input::template(&mut i);
        fallback::force();
        let r = TokenStream::from_str(s.str());
        if let Ok(ts) = r {
            let t = ts.to_string();
            vp_reach(1);
            fallback::unforce();
            let v = pm::TokenStream::from(ts).v;
            let want = pm::TokenTree::Literal(pm::Literal { kind: Kind::text, bytes: t.into_bytes(), num: 0, span: site(1) });
            vp_assert(str_eq(&v, &[want]), 330);
            vp_note(v.len() as u64);
        }
    }

    // C20: every literal constructor. param0: constructor
    fn h_c_lit() {
        let k = vp_param(0);
        let mut num = 0u128;
        let mut bytes = vec![];
        let mut raw = [0u8; 16];
        let mut sym = |n: usize| -> u128 { vp_sym(raw.as_mut_ptr(), n, 0); u128::from_le_bytes(raw) };
        macro_rules! num { ($f:ident, $t:ident) => {{ let v = sym(std::mem::size_of::<$t>()) as $t; num = v as u128; (Literal::$f(v), Kind::$f) }}; }
        macro_rules! flt { ($f:ident, $t:ident, $b:ident) => {{
            let bits = sym(std::mem::size_of::<$t>()) as $b;
            num = bits as u128;
            let v = $t::from_bits(bits);
            let e = if std::mem::size_of::<$t>() == 4 { (num >> 23) & 0xff == 0xff } else { (num >> 52) & 0x7ff == 0x7ff };
            if e {
                vp_assert(catch_unwind(|| Literal::$f(v)).is_err(), 340);
                return;
            }
            (Literal::$f(v), Kind::$f)
        }}; }
        let (l, kind) = match k {
            0 => num!(u8_suffixed, u8),
            1 => num!(u16_suffixed, u16),
            2 => num!(u32_suffixed, u32),
            3 => num!(u64_suffixed, u64),
            4 => num!(u128_suffixed, u128),
            5 => num!(usize_suffixed, usize),
            6 => num!(i8_suffixed, i8),
            7 => num!(i16_suffixed, i16),
            8 => num!(i32_suffixed, i32),
            9 => num!(i64_suffixed, i64),
            10 => num!(i128_suffixed, i128),
            11 => num!(isize_suffixed, isize),
            12 => num!(u8_unsuffixed, u8),
            13 => num!(u16_unsuffixed, u16),
            14 => num!(u32_unsuffixed, u32),
            15 => num!(u64_unsuffixed, u64),
            16 => num!(u128_unsuffixed, u128),
            17 => num!(usize_unsuffixed, usize),
            18 => num!(i8_unsuffixed, i8),
            19 => num!(i16_unsuffixed, i16),
            20 => num!(i32_unsuffixed, i32),
            21 => num!(i64_unsuffixed, i64),
            22 => num!(i128_unsuffixed, i128),
            23 => num!(isize_unsuffixed, isize),
            24 => flt!(f32_suffixed, f32, u32),
            25 => flt!(f64_suffixed, f64, u64),
            26 => flt!(f32_unsuffixed, f32, u32),
            27 => flt!(f64_unsuffixed, f64, u64),
            28 => {
                num = sym(1);
                (Literal::byte_character(num as u8), Kind::byte_character)
            }
            _ => {
                let mut i = 1;
                let s = input::template(&mut i);
                if k == 29 {
                    let c = s.str().chars().next().unwrap();
                    num = c as u128;
                    (Literal::character(c), Kind::character)
                } else {
                    bytes = s.b.clone();
                    match k {
                        30 => (Literal::string(s.str()), Kind::string),
                        31 => (Literal::byte_string(&s.b), Kind::byte_string),
                        32 => {
                            let mut z = s.b.clone();
                            z.push(0);
                            (Literal::c_string(CStr::from_bytes_with_nul(&z).unwrap()), Kind::c_string)
                        }
                        _ => (unsafe { Literal::from_str(s.str()).unwrap_or(Literal::string("")) }, Kind::text),
                    }
                }
            }
        };
        vp_reach(1);
        vp_note(k);
        let mut want = pm::Literal { kind, bytes, num, span: site(1) };
        vp_assert(sp_eq(back(l.span()), site(1)), 342);
        let v = pm::TokenStream::from(TokenStream::from(TokenTree::Literal(l.clone()))).v;
        vp_assert(str_eq(&v, &[pm::TokenTree::Literal(want.clone())]), 341);
        // its text is the compiler's, where that is cheap to tell
        if matches!(k, 0 | 6 | 18 | 28..) {
            vp_assert(same(l.to_string().as_bytes(), want.to_string().as_bytes()), 343);
        }
        // given another place, inside a tree or not
        let mut l = l;
        want.set_span(site(9));
        if vp_choice(2) == 0 {
            l.set_span(span2(site(9)));
            vp_assert(sp_eq(back(l.span()), site(9)), 344);
            let v = pm::TokenStream::from(TokenStream::from(TokenTree::Literal(l))).v;
            vp_assert(str_eq(&v, &[pm::TokenTree::Literal(want)]), 345);
        } else {
            let mut t = TokenTree::Literal(l);
            t.set_span(span2(site(9)));
            vp_assert(sp_eq(back(t.span()), site(9)), 346);
            let v = pm::TokenStream::from(TokenStream::from(t)).v;
            vp_assert(str_eq(&v, &[pm::TokenTree::Literal(want)]), 347);
        }
    }

    // C20: spans
    fn h_c_span() {
        let a = sym_span();
        let b = sym_span();
        let (sa, sb) = (span2(a), span2(b));
        vp_reach(1);
        match vp_choice(9) {
            0 => {
                vp_assert(sp_eq(back(Span::call_site()), site(1)), 350);
                vp_assert(sp_eq(back(Span::mixed_site()), site(2)), 351);
                #[cfg(feature = "unstable")]
                vp_assert(sp_eq(back(Span::def_site()), site(3)), 352);
                vp_assert(sp_eq(back(sa), a), 353);
            }
            1 => {
                vp_assert(sp_eq(back(sa.resolved_at(sb)), a.resolved_at(b)), 354);
                vp_assert(sp_eq(back(sa.located_at(sb)), a.located_at(b)), 355);
            }
            2 => {
                let s = sa.start();
                vp_assert((s.line == a.line()) & (s.column == a.column().saturating_sub(1)), 356);
            }
            3 => {
                let s = sa.end();
                let e = a.end();
                vp_assert((s.line == e.line()) & (s.column == e.column().saturating_sub(1)), 357);
            }
            4 => {
                vp_assert(same(sa.file().as_bytes(), a.file().as_bytes()), 358);
                match (sa.local_file(), a.local_file()) {
                    (Some(x), Some(y)) => vp_assert(same(x.as_os_str().as_encoded_bytes(), y.as_os_str().as_encoded_bytes()), 359),
                    (None, None) => {}
                    _ => vp_assert(false, 360),
                }
            }
            5 => match (sa.source_text(), a.source_text()) {
                (Some(x), Some(y)) => vp_assert(same(x.as_bytes(), y.as_bytes()), 361),
                (None, None) => {}
                _ => vp_assert(false, 362),
            },
            6 => {
                let r = sa.byte_range();
                let j = sa.join(sb);
                if cfg!(feature = "unstable") {
                    vp_assert((r.start == a.byte_range().start) & (r.end == a.byte_range().end), 363);
                    match (j, a.join(b)) {
                        (Some(x), Some(y)) => vp_assert(sp_eq(back(x), y), 364),
                        (None, None) => {}
                        _ => vp_assert(false, 365),
                    }
                } else {
                    vp_assert((r.start == 0) & (r.end == 0), 366);
                    vp_assert(j.is_none(), 367);
                }
            }
            7 => {
                vp_assert(same(format!("{:?}", sa).as_bytes(), format!("{:?}", a).as_bytes()), 368);
                #[cfg(feature = "unstable")]
                vp_assert(sa.eq(&sb) == a.eq(&b), 369);
            }
            _ => {
                let mut l = Literal::u8_suffixed(1);
                l.set_span(sa);
                vp_assert(sp_eq(back(l.span()), a), 370);
                let (x, y) = (sym8() as usize, sym8() as usize);
                let lo = match vp_choice(3) { 0 => Bound::Included(x), 1 => Bound::Excluded(x), _ => Bound::Unbounded };
                let hi = match vp_choice(3) { 0 => Bound::Included(y), 1 => Bound::Excluded(y), _ => Bound::Unbounded };
                let r = l.subspan((lo, hi));
                if cfg!(feature = "unstable") {
                    let mut q = pm::Literal::u8_suffixed(1);
                    q.set_span(a);
                    match (r, q.subspan((lo, hi))) {
                        (Some(x), Some(y)) => vp_assert(sp_eq(back(x), y), 371),
                        (None, None) => {}
                        _ => vp_assert(false, 372),
                    }
                } else {
                    vp_assert(r.is_none(), 373);
                }
            }
        }
    }

    // C20: single tokens to and from the compiler
    fn h_c_tok() {
        let a = sym_span();
        vp_reach(1);
        match vp_choice(4) {
            0 => {
                let c = PUNCTS[vp_choice(PUNCTS.len() as u64) as usize] as char;
                let joint = vp_choice(2) == 1;
                let q = pm::Punct { ch: c, spacing: if joint { pm::Spacing::Joint } else { pm::Spacing::Alone }, span: a };
                let ts = TokenStream::from(pm::TokenStream { v: vec![pm::TokenTree::Punct(q.clone())] });
                let t = ts.clone().into_iter().next().unwrap();
                match t {
                    TokenTree::Punct(p) => {
                        vp_assert((p.as_char() == c) & ((p.spacing() == Spacing::Joint) == joint), 380);
                        vp_assert(sp_eq(back(p.span()), a), 381);
                    }
                    _ => vp_assert(false, 382),
                }
                let ts = drain(ts);
                vp_assert(str_eq(&pm::TokenStream::from(ts).v, &[pm::TokenTree::Punct(q)]), 383);
            }
            1 => {
                let b = sym8();
                vp_assume((b >= b'a' as u64) & (b <= b'c' as u64));
                let b = [b as u8];
                let t = unsafe { std::str::from_utf8_unchecked(&b) };
                let raw = vp_choice(2) == 1;
                let mut id = if raw { Ident::new_raw(t, span2(a)) } else { Ident::new(t, span2(a)) };
                vp_assert(sp_eq(back(id.span()), a), 384);
                let mut q = pm::Ident { text: t.into(), raw, span: a };
                vp_assert(same(id.to_string().as_bytes(), q.to_string().as_bytes()), 385);
                vp_assert(same(format!("{:?}", id).as_bytes(), format!("{:?}", q).as_bytes()), 386);
                let s2 = sym_span();
                id.set_span(span2(s2));
                q.span = s2;
                vp_assert(id == *q.to_string(), 387);
                vp_assert((id == "b") == (!raw & (t.as_bytes()[0] == b'b')), 388);
                let o = Ident::new("r#b", Span::call_site());
                let po = "r#b";
                vp_assert((id == o) == (*q.to_string() == *po), 389);
                vp_assert(id.cmp(&o) == q.to_string().as_str().cmp(po), 390);
                let h = |i: &Ident| { let mut h = DefaultHasher::new(); i.hash(&mut h); h.finish() };
                if vp_choice(2) == 1 {
                    let c = id.clone();
                    vp_assert(h(&c) == h(&id), 391);
                }
                let ts = TokenStream::from(TokenTree::Ident(id));
                vp_assert(str_eq(&pm::TokenStream::from(drain(ts)).v, &[pm::TokenTree::Ident(q)]), 392);
            }
            2 => {
                let d = vp_choice(4) as usize;
                let (t, e) = token(9, 0);
                let d2 = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None][d];
                let dm = [pm::Delimiter::Parenthesis, pm::Delimiter::Brace, pm::Delimiter::Bracket, pm::Delimiter::None][d];
                let mut g = Group::new(d2, TokenStream::from(t));
                let mut q = pm::Group::new(dm, pm::TokenStream { v: vec![e.clone()] });
                if vp_choice(2) == 1 {
                    g.set_span(span2(a));
                    q.set_span(a);
                } else {
                    q.span = a;
                    q.open = sym_span();
                    q.close = sym_span();
                    let ts = TokenStream::from(pm::TokenStream { v: vec![pm::TokenTree::Group(q.clone())] });
                    g = match ts.into_iter().next() {
                        Some(TokenTree::Group(g)) => g,
                        _ => return vp_assert(false, 393),
                    };
                }
                vp_assert(g.delimiter() == d2, 394);
                vp_assert(sp_eq(back(g.span()), q.span) & sp_eq(back(g.span_open()), q.open) & sp_eq(back(g.span_close()), q.close), 395);
                let ds = g.delim_span();
                vp_assert(sp_eq(back(ds.join()), q.span) & sp_eq(back(ds.open()), q.open) & sp_eq(back(ds.close()), q.close), 396);
                vp_assert(str_eq(&pm::TokenStream::from(g.stream()).v, &q.stream.v), 397);
                vp_assert(same(g.to_string().as_bytes(), q.to_string().as_bytes()), 398);
                vp_assert(same(format!("{:?}", g).as_bytes(), format!("{:?}", q).as_bytes()), 399);
                let mut t = TokenTree::Group(g);
                vp_assert(sp_eq(back(t.span()), q.span), 400);
                t.set_span(span2(site(9)));
                q.set_span(site(9));
                vp_assert(str_eq(&pm::TokenStream::from(TokenStream::from(t)).v, &[pm::TokenTree::Group(q)]), 401);
            }
            _ => {
                let q = pm::Literal { kind: Kind::text, bytes: vec![b'"', sym8() as u8 & 0x7f, b'"'], num: 0, span: a };
                let ts = TokenStream::from(pm::TokenStream { v: vec![pm::TokenTree::Literal(q.clone())] });
                let mut t = ts.into_iter().next().unwrap();
                vp_assert(sp_eq(back(t.span()), a), 402);
                vp_assert(same(t.to_string().as_bytes(), &q.bytes), 403);
                let s2 = sym_span();
                t.set_span(span2(s2));
                let q = pm::Literal { span: s2, ..q };
                vp_assert(str_eq(&pm::TokenStream::from(TokenStream::from(t)).v, &[pm::TokenTree::Literal(q)]), 404);
            }
        }
    }

    // C25: Debug output of the compiler's tokens
    fn h_c_debug() {
        let pretty = vp_param(0) == 1;
        let a = sym_span();
        let show = |x: &dyn std::fmt::Debug| if pretty { format!("{:#?}", x) } else { format!("{:?}", x) };
        let sp = show(&a);
        let (o, n, c): (&str, &str, &str) = if pretty { (" {\n    ", ",\n    ", ",\n}") } else { (" { ", ", ", " }") };
        let k = vp_choice(4);
        vp_reach(1);
        match k {
            0 => {
                let ch = PUNCTS[vp_choice(PUNCTS.len() as u64) as usize] as char;
                let joint = vp_choice(2) == 1;
                let mut p = Punct::new(ch, if joint { Spacing::Joint } else { Spacing::Alone });
                p.set_span(span2(a));
                let q = if ch == '\'' { "\\'".to_string() } else { ch.to_string() };
                let want = ["Punct", o, "char: '", &q, "'", n, "spacing: ", if joint { "Joint" } else { "Alone" }, n, "span: ", &sp, c].concat();
                vp_assert(same(show(&p).as_bytes(), want.as_bytes()), 410);
                vp_assert(same(show(&TokenTree::Punct(p)).as_bytes(), want.as_bytes()), 411);
            }
            1 => {
                let b = sym8();
                vp_assume((b >= b'a' as u64) & (b <= b'z' as u64));
                let b = [b as u8];
                let t = unsafe { std::str::from_utf8_unchecked(&b) };
                let raw = vp_choice(2) == 1;
                let id = if raw { Ident::new_raw(t, span2(a)) } else { Ident::new(t, span2(a)) };
                let q = pm::Ident { text: t.into(), raw, span: a };
                vp_assert(same(show(&id).as_bytes(), show(&q).as_bytes()), 412);
                let want = ["Ident", o, "sym: ", if raw { "r#" } else { "" }, t, n, "span: ", &sp, c].concat();
                vp_assert(same(show(&TokenTree::Ident(id)).as_bytes(), want.as_bytes()), 413);
            }
            2 => {
                let q = pm::Literal { kind: Kind::text, bytes: vec![b'"', sym8() as u8 & 0x7f, b'"'], num: 0, span: a };
                let ts = TokenStream::from(pm::TokenStream { v: vec![pm::TokenTree::Literal(q.clone())] });
                let t = ts.into_iter().next().unwrap();
                vp_assert(same(show(&t).as_bytes(), show(&q).as_bytes()), 414);
                match t {
                    TokenTree::Literal(l) => vp_assert(same(show(&l).as_bytes(), show(&q).as_bytes()), 415),
                    _ => vp_assert(false, 416),
                }
            }
            _ => {
                let (t, e) = token(9, 0);
                let g = Group::new(Delimiter::Brace, TokenStream::from(t.clone()));
                let q = pm::Group::new(pm::Delimiter::Brace, pm::TokenStream { v: vec![e.clone()] });
                vp_assert(same(show(&g).as_bytes(), show(&q).as_bytes()), 417);
                vp_assert(same(show(&TokenTree::Group(g)).as_bytes(), show(&q).as_bytes()), 418);
                let mut ts = TokenStream::from(t.clone());
                ts.extend(vec![t]);
                let m = pm::TokenStream { v: vec![e.clone(), e] };
                vp_assert(same(show(&ts).as_bytes(), show(&m).as_bytes()), 419);
                vp_assert(same(show(&pm::TokenStream::from(ts)).as_bytes(), show(&m).as_bytes()), 420);
            }
        }
    }

    // C20: compiler and fallback objects do not mix
    fn h_c_mix() {
        // one of each, c: the compiler's, f: the fallback's
        let mk = |which: u64| -> TokenTree {
            match which {
                0 => TokenTree::Ident(Ident::new("a", Span::call_site())),
                1 => TokenTree::Literal(Literal::u8_suffixed(1)),
                2 => TokenTree::Group(Group::new(Delimiter::Brace, TokenStream::new())),
                _ => TokenTree::Punct(Punct::new('+', Spacing::Alone)),
            }
        };
        let k = vp_choice(4);
        fallback::force();
        let (ft, fs) = (mk(k), Span::call_site());
        let fts = TokenStream::new();
        fallback::unforce();
        let (ct, cs) = (mk(k), Span::call_site());
        let cts = TokenStream::new();
        let op = vp_choice(13);
        vp_reach(1);
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            0 => drop(fs.resolved_at(cs)),
            1 => drop(cs.resolved_at(fs)),
            2 => drop(fs.located_at(cs)),
            3 => drop(cs.located_at(fs)),
            4 => {
                let (mut t, s) = (ft.clone(), cs);
                t.set_span(s);
                drop(TokenStream::from(t));
            }
            5 => {
                let (mut t, s) = (ct.clone(), fs);
                t.set_span(s);
                drop(TokenStream::from(t));
            }
            6 => drop(TokenStream::from(ft.clone())),
            7 => {
                let mut c = cts.clone();
                c.extend(vec![ct.clone(), ft.clone()]);
            }
            8 => {
                let mut c = cts.clone();
                c.extend(vec![fts.clone()]);
            }
            9 => {
                let mut c = fts.clone();
                c.extend(vec![cts.clone()]);
            }
            10 => drop(vec![fts.clone(), cts.clone()].into_iter().collect::<TokenStream>()),
            11 => drop(vec![cts.clone(), fts.clone()].into_iter().collect::<TokenStream>()),
            _ => drop(vec![ct.clone(), ft.clone()].into_iter().collect::<TokenStream>()),
        }));
        // a Punct holds only a span: giving it a compiler span makes it the compiler's
        let legal = (k == 3) & (op == 4);
        vp_note(op);
        vp_assert(r.is_err() != legal, 410);
        vp_assert(fs.join(cs).is_none() & cs.join(fs).is_none(), 411);
        vp_assert(catch_unwind(|| fs.unwrap()).is_err(), 412);
        match (&ft, &ct) {
            (TokenTree::Ident(f), TokenTree::Ident(c)) => {
                vp_assert(catch_unwind(AssertUnwindSafe(|| f == c)).is_err(), 413);
                vp_assert(catch_unwind(AssertUnwindSafe(|| c == f)).is_err(), 414);
            }
            _ => {}
        }
    }

    // C21: histories of force, unforce, changes of availability and API use
    fn h_detect() {
        let steps = vp_param(0);
        AVAILABLE.with(|c| c.set(below(2) == 1));
        let mut state: Option<bool> = None;
        for _ in 0..steps {
            let avail = pm::is_available();
            match below(5) {
                0 => {
                    fallback::force();
                    state = Some(false);
                }
                1 => {
                    fallback::unforce();
                    state = Some(avail);
                }
                2 => AVAILABLE.with(|c| c.set(below(2) == 1)),
                3 => {
                    // every way of making an object asks the same question
                    let want = state.unwrap_or(avail);
                    state = Some(want);
                    let before = pm::calls();
                    let what = below(vp_param(1));
                    let r = catch_unwind(|| match what {
                        0 => drop(Span::call_site()),
                        1 => drop(TokenStream::new()),
                        2 => drop(Literal::string("a")),
                        3 => drop(TokenStream::from_str("a b")),
                        4 => drop(Literal::from_str("1")),
                        5 => drop(Vec::<TokenTree>::new().into_iter().collect::<TokenStream>()),
                        6 => drop(Vec::<TokenStream>::new().into_iter().collect::<TokenStream>()),
                        7 => drop(Span::mixed_site()),
                        8 => drop(Literal::character('a')),
                        9 => drop(Literal::byte_string(b"a")),
                        10 => drop(Literal::c_string(CStr::from_bytes_with_nul(b"a\0").unwrap())),
                        11 => drop(Literal::byte_character(b'a')),
                        12 => drop(Literal::f64_unsuffixed(1.0)),
                        13 => drop(Literal::f32_suffixed(1.0)),
                        14 => drop(Literal::i128_suffixed(1)),
                        15 => drop(Literal::usize_unsuffixed(1)),
                        16 => drop(Literal::f32_unsuffixed(1.0)),
                        17 => drop(TokenStream::default()),
                        18 => drop(Punct::new('+', Spacing::Alone)),
                        19 => drop(TokenStream::from(TokenTree::Punct(Punct::new('+', Spacing::Alone)))),
                        20 => drop(Ident::new("a", Span::call_site())),
                        _ => drop(Group::new(Delimiter::None, TokenStream::new())),
                    });
                    let used = pm::calls() != before;
                    vp_note(used as u64);
                    vp_assert(used == want, 420);
                    // and works, as long as what was decided holds
                    vp_assert(r.is_ok() | (want & !avail), 421);
                }
                _ => {
                    // the source map belongs to the fallback
                    let want = state.unwrap_or(avail);
                    state = Some(want);
                    let r = catch_unwind(|| extra::invalidate_current_thread_spans());
                    vp_assert(r.is_err() == want, 422);
                }
            }
        }
        vp_reach(1);
    }
    // C21: another thread makes its first object while this one is finding out which backend to use.
    // (A thread that waits for the other to finish is not a schedule of its own: the engine drops it.)
    fn h_race() {
        AVAILABLE.with(|c| c.set(below(2) == 1));
        if below(2) == 1 {
            RACE.with(|c| c.set(Some(other)));
        }
        make_one();
        if below(2) == 1 {
            make_one();
        }
        vp_reach(1);
    }
    fn h_mixid() {
        vp_note(mix(1, 2, 3));
    }
}

fn other() {
    vp_other(1);
    make_one();
    vp_other(0);
}
fn make_one() {
    let want = AVAILABLE.with(|c| c.get());
    let before = pm::calls();
    let what = below(6);
    let r = catch_unwind(|| match what {
        0 => drop(Span::call_site()),
        1 => drop(TokenStream::new()),
        2 => drop(Literal::string("a")),
        3 => drop(TokenStream::from_str("a b")),
        4 => drop(Literal::from_str("1")),
        _ => drop(Literal::u8_suffixed(1)),
    });
    vp_assert((pm::calls() != before) == want, 423);
    vp_assert(r.is_ok(), 424);
}

fn main() {
    vp::main(TABLE);
}
