mod cmp;
mod ctor;
mod debug;
mod input;
mod linear;
#[cfg(feature = "spans")]
mod parts;
mod reflex;
#[cfg(feature = "spans")]
mod spans;
mod tree;
use cmp::same;
use proc_macro2::*;
use std::str::FromStr;
use vp::*;

macro_rules! entries {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub extern "C-unwind" fn $name() $body)*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$($(#[$m])* (stringify!($name), $name)),*];
    };
}

entries! {
    // C02-C08: parse against the reference lexer
    fn h_lex() {
        let mask = vp_param(0);
        let mut i = 1;
        let s = input::template(&mut i);
        cmp::check_lex(&s.b, s.str(), mask);
    }

    // C02-C08: one text after another, and the first once more
    fn h_lex2() {
        let mask = vp_param(0);
        let mut i = 1;
        let a = input::template(&mut i);
        let b = input::template(&mut i);
        let keep = a.str().parse::<TokenStream>();
        let lit = Literal::from_str(a.str());
        cmp::check_lex(&b.b, b.str(), mask);
        cmp::check_lex(&a.b, a.str(), mask);
        drop(keep);
        drop(lit);
    }

    // C01: nothing but the absence of panics, memory errors and leaks.
    // param0: bit0 pretty Debug too, bit1 nothing may stay allocated
    fn h_total() {
        let flags = vp_param(0);
        let mut i = 1;
        let s = input::template(&mut i);
        let before = vp_heap_live();
        {
            if let Ok(ts) = s.str().parse::<TokenStream>() {
                vp_reach(1);
                let p = ts.to_string();
                let d = if flags & 1 == 0 { format!("{:?}", ts) } else { format!("{:#?}", ts) };
                let c = ts.clone();
                vp_note(tree::walk(ts));
                vp_note(p.len() as u64);
                vp_note(d.len() as u64);
                drop(c);
            }
            if let Ok(l) = Literal::from_str(s.str()) {
                vp_reach(2);
                vp_note(l.to_string().len() as u64);
                vp_note(format!("{:?}", l).len() as u64);
            }
        }
        if flags & 2 != 0 {
            vp_assert(vp_heap_live() == before, 20);
        }
    }

    // C09: round trip and printed form
    fn h_round() {
        let mut i = 0;
        let s = input::template(&mut i);
        let ts = match s.str().parse::<TokenStream>() {
            Ok(t) => t,
            Err(_) => return,
        };
        vp_reach(1);
        let mut want = Vec::with_capacity(64);
        tree::print(ts.clone(), &mut want);
        let got = ts.to_string();
        vp_assert(same(&want, got.as_bytes()), 30);
        for t in ts.clone() {
            let mut w = Vec::with_capacity(32);
            tree::print_one(t.clone(), &mut w);
            vp_assert(same(&w, t.to_string().as_bytes()), 31);
            match t {
                TokenTree::Group(g) => vp_assert(same(&w, g.to_string().as_bytes()), 32),
                TokenTree::Punct(p) => vp_assert(same(&w, p.to_string().as_bytes()), 33),
                _ => {}
            }
        }
        vp_note(got.len() as u64);
        match got.parse::<TokenStream>() {
            Ok(t2) => {
                let again = t2.to_string();
                vp_assert(tree::eq(ts, t2), 34);
                vp_assert(same(again.as_bytes(), got.as_bytes()), 35);
            }
            Err(_) => vp_assert(false, 36),
        }
    }

    // C12: Literal::from_str against the reference
    fn h_litstr() {
        let mut i = 0;
        let s = input::template(&mut i);
        let b = &s.b;
        let neg = !b.is_empty() && b[0] == b'-';
        let at = neg as usize;
        let digit = at < b.len() && b[at].is_ascii_digit();
        let want = if neg && !digit {
            false
        } else {
            match reflex::literal(b, at) {
                Ok(Some((e, _))) => e == b.len(),
                _ => false,
            }
        };
        match Literal::from_str(s.str()) {
            Ok(l) => {
                vp_reach(1);
                vp_note(1);
                vp_assert(want, 40);
                vp_assert(same(l.to_string().as_bytes(), b), 41);
                #[cfg(feature = "spans")]
                {
                    let t = l.span().source_text();
                    vp_assert(t.is_some(), 42);
                    vp_assert(same(t.unwrap().as_bytes(), b), 43);
                }
            }
            Err(_) => {
                vp_reach(2);
                vp_note(2);
                vp_assert(!want, 44);
            }
        }
    }
    #[cfg(feature = "spans")]
    fn h_span() { spans::h_span() }
    #[cfg(feature = "spans")]
    fn h_hist() { spans::h_hist() }
    #[cfg(feature = "spans")]
    fn h_order() { spans::h_order() }
    #[cfg(feature = "spans")]
    fn h_join() { spans::h_join() }
    #[cfg(feature = "spans")]
    fn h_subspan() { spans::h_subspan() }
    #[cfg(feature = "exempt")]
    fn h_value2() { ctor::h_value2() }
    #[cfg(feature = "exempt")]
    fn h_value() { ctor::h_value() }
    #[cfg(feature = "exempt")]
    fn h_valback() { ctor::h_valback() }
    fn h_quote() { ctor::h_quote() }
    fn h_int() { ctor::h_int() }
    fn h_intv() { ctor::h_intv() }
    fn h_float() { ctor::h_float() }
    fn h_floatsym() { ctor::h_floatsym() }
    fn h_print() { ctor::h_print() }
    #[cfg(feature = "spans")]
    fn h_neg() { ctor::h_neg() }
    #[cfg(feature = "spans")]
    fn h_parts() { parts::h_parts() }
    #[cfg(feature = "spans")]
    fn h_negparts() { parts::h_negparts() }
    #[cfg(feature = "spans")]
    fn h_linecol() { spans::h_linecol() }
    #[cfg(feature = "spans")]
    fn h_positions() { spans::h_positions() }
    #[cfg(feature = "spans")]
    fn h_inval() { spans::h_inval() }
    #[cfg(feature = "spans")]
    fn h_threads() { spans::h_threads() }
    #[cfg(feature = "spans")]
    fn h_many() { spans::h_many() }
    fn h_debug() { debug::h_debug() }
    fn h_debug_made() { debug::h_debug_made() }
    fn h_linear() { linear::h_linear() }
    fn h_nonfinite() { ctor::h_nonfinite() }
    fn h_ident() { ctor::h_ident() }
    fn h_identcmp() { ctor::h_identcmp() }
    fn h_punct() { ctor::h_punct() }
    fn h_ops() { ctor::h_ops() }
    fn h_deep() { ctor::h_deep() }
    fn h_free() { ctor::h_free() }
}

fn main() {
    vp::main(TABLE);
}
