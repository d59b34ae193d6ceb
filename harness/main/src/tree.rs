//! Structural helpers over token trees (through the public API only).
use crate::cmp::same;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// The documented printed form of a stream, from its leaves.
pub fn print(ts: TokenStream, out: &mut Vec<u8>) {
    let mut first = true;
    let mut joint = false;
    for t in ts {
        if !first && !joint {
            out.push(b' ');
        }
        first = false;
        joint = false;
        if let TokenTree::Punct(p) = &t {
            joint = p.spacing() == Spacing::Joint;
        }
        print_one(t, out);
    }
}
pub fn print_one(t: TokenTree, out: &mut Vec<u8>) {
    match t {
        TokenTree::Group(g) => {
            let (o, c): (&[u8], &[u8]) = match g.delimiter() {
                Delimiter::Parenthesis => (b"(", b")"),
                Delimiter::Bracket => (b"[", b"]"),
                Delimiter::Brace => (b"{ ", b"}"),
                Delimiter::None => (b"", b""),
            };
            out.extend_from_slice(o);
            let n = out.len();
            print(g.stream(), out);
            if g.delimiter() == Delimiter::Brace && out.len() > n {
                out.push(b' ');
            }
            out.extend_from_slice(c);
        }
        TokenTree::Ident(i) => out.extend_from_slice(i.to_string().as_bytes()),
        TokenTree::Literal(l) => out.extend_from_slice(l.to_string().as_bytes()),
        TokenTree::Punct(p) => {
            let mut t = [0u8; 4];
            out.extend_from_slice(p.as_char().encode_utf8(&mut t).as_bytes());
        }
    }
}

pub fn eq_token(x: &TokenTree, y: &TokenTree) -> bool {
    match (x, y) {
        (TokenTree::Group(x), TokenTree::Group(y)) => x.delimiter() == y.delimiter() && eq(x.stream(), y.stream()),
        (TokenTree::Ident(x), TokenTree::Ident(y)) => same(x.to_string().as_bytes(), y.to_string().as_bytes()),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => same(x.to_string().as_bytes(), y.to_string().as_bytes()),
        (TokenTree::Punct(x), TokenTree::Punct(y)) => (x.as_char() == y.as_char()) & (x.spacing() == y.spacing()),
        _ => false,
    }
}
pub fn eq(a: TokenStream, b: TokenStream) -> bool {
    let mut a = a.into_iter();
    let mut b = b.into_iter();
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => {
                if !eq_token(&x, &y) {
                    return false;
                }
            }
            _ => return false,
        }
    }
}
/// number of tokens, recursively
pub fn walk(ts: TokenStream) -> u64 {
    let mut n = 0;
    for t in ts {
        n += 1;
        if let TokenTree::Group(g) = t {
            n += walk(g.stream());
        }
    }
    n
}
