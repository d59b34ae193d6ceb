//! C22: configurations of the same sources against each other.
#[path = "../../main/src/input.rs"]
mod input;
use std::str::FromStr;
use vp::*;

macro_rules! entries {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub extern "C-unwind" fn $name() $body)*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$($(#[$m])* (stringify!($name), $name)),*];
    };
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

macro_rules! config {
    ($m:ident, $c:ident) => {
        mod $m {
            use $c::*;
            /// a stream as bytes: kinds, spacing, lengths and texts
            pub fn flat(ts: TokenStream, o: &mut Vec<u8>) {
                for t in ts {
                    match t {
                        TokenTree::Group(g) => {
                            o.push(1);
                            o.push(match g.delimiter() {
                                Delimiter::Parenthesis => 1,
                                Delimiter::Brace => 2,
                                Delimiter::Bracket => 3,
                                Delimiter::None => 4,
                            });
                            flat(g.stream(), o);
                            o.push(0);
                        }
                        TokenTree::Ident(i) => {
                            o.push(2);
                            text(&i.to_string(), o);
                        }
                        TokenTree::Punct(p) => {
                            o.push(3);
                            o.push(p.as_char() as u32 as u8);
                            o.push((p.spacing() == Spacing::Joint) as u8);
                        }
                        TokenTree::Literal(l) => {
                            o.push(4);
                            text(&l.to_string(), o);
                        }
                    }
                }
            }
            fn text(s: &str, o: &mut Vec<u8>) {
                o.push(s.len() as u8);
                for b in s.as_bytes() {
                    o.push(*b);
                }
            }
        }
    };
}
config!(full, proc_macro2);
config!(plain, proc_macro2_plain);
config!(bare, proc_macro2_bare);

macro_rules! seen {
    ($m:ident, $c:ident, $s:expr) => {{
        let mut o = Vec::with_capacity(64);
        let mut text = Vec::new();
        let ok = match $c::TokenStream::from_str($s) {
            Ok(t) => {
                text = t.to_string().into_bytes();
                $m::flat(t, &mut o);
                true
            }
            Err(_) => false,
        };
        let mut ltext = Vec::new();
        let lok = match $c::Literal::from_str($s) {
            Ok(t) => {
                ltext = t.to_string().into_bytes();
                true
            }
            Err(_) => false,
        };
        (ok, o, text, lok, ltext)
    }};
}

/// tokens made by the constructors, put together in several ways
macro_rules! made {
    ($m:ident, $c:ident, $s:expr, $b:expr, $pick:expr) => {{
        use $c::*;
        let [kind, second, how, x, y] = $pick;
        let token = |k: u8| -> TokenTree {
            let sp = if x & 1 == 0 { Span::call_site() } else { Span::mixed_site() };
            match k {
                0 => Ident::new("ab", sp).into(),
                1 => Ident::new_raw("fn", sp).into(),
                2 => Literal::string($s).into(),
                3 => Literal::byte_string($b).into(),
                4 => Literal::i16_unsuffixed(y as i8 as i16).into(),
                5 => Literal::f32_suffixed(if y & 1 == 0 { -0.0 } else { 1.5 }).into(),
                6 => Literal::i64_suffixed(-(y as i64)).into(),
                7 => Punct::new(if y & 1 == 0 { '-' } else { '\'' }, if y & 2 == 0 { Spacing::Alone } else { Spacing::Joint }).into(),
                8 => Group::new(Delimiter::None, TokenStream::new()).into(),
                9 => Group::new(if y & 1 == 0 { Delimiter::Brace } else { Delimiter::None }, $s.parse().unwrap_or_default()).into(),
                _ => match Literal::from_str($s) {
                    Ok(l) => l.into(),
                    Err(_) => Literal::character('\'').into(),
                },
            }
        };
        let mut t = token(kind);
        let u = token(second);
        if x & 2 != 0 {
            t.set_span(u.span());
        }
        let one = t.to_string();
        let base: TokenStream = "a +".parse().unwrap();
        let mut ts = base.clone();
        match how {
            0 => ts = TokenStream::from(t),
            1 => ts.extend(vec![t, u]),
            2 => ts = vec![t, u].into_iter().collect(),
            3 => ts.extend(vec![TokenStream::from(t), base.clone(), TokenStream::from(u)]),
            4 => ts = vec![TokenStream::from(t), TokenStream::from(u)].into_iter().collect(),
            5 => ts = TokenStream::from(TokenTree::from(Group::new(Delimiter::Bracket, vec![u, t].into_iter().collect()))),
            _ => match t {
                TokenTree::Group(x) => ts.extend(vec![x]),
                TokenTree::Ident(x) => ts.extend(vec![x]),
                TokenTree::Punct(x) => ts.extend(vec![x]),
                TokenTree::Literal(x) => ts.extend(vec![x]),
            },
        }
        let mut o = Vec::with_capacity(64);
        o.push(ts.is_empty() as u8);
        o.push(ts.clone().into_iter().count() as u8);
        let text = ts.to_string().into_bytes();
        $m::flat(ts, &mut o);
        $m::flat(base, &mut o);
        (o, text, one.into_bytes())
    }};
}

entries! {
    fn h_confmade() {
        let mut i = 1;
        let s = input::template(&mut i);
        let mut y = [0u8; 1];
        vp_sym(y.as_mut_ptr(), 1, 0);
        let pick = [vp_choice(11) as u8, vp_choice(11) as u8, vp_choice(7) as u8, vp_choice(4) as u8, y[0]];
        let a = made!(full, proc_macro2, s.str(), &s.b, pick);
        let b = if vp_param(0) == 0 { made!(plain, proc_macro2_plain, s.str(), &s.b, pick) } else { made!(bare, proc_macro2_bare, s.str(), &s.b, pick) };
        vp_reach(1);
        vp_note(a.0.len() as u64);
        vp_assert(same(&a.0, &b.0), 505);
        vp_assert(same(&a.1, &b.1), 506);
        vp_assert(same(&a.2, &b.2), 507);
    }
    // param0: 0 against the plain configuration, 1 against no default features
    fn h_conf() {
        let mut i = 1;
        let s = input::template(&mut i);
        let a = seen!(full, proc_macro2, s.str());
        let b = if vp_param(0) == 0 { seen!(plain, proc_macro2_plain, s.str()) } else { seen!(bare, proc_macro2_bare, s.str()) };
        vp_reach(a.0 as u64);
        vp_note(a.1.len() as u64);
        vp_assert(a.0 == b.0, 500);
        vp_assert(same(&a.1, &b.1), 501);
        vp_assert(same(&a.2, &b.2), 502);
        vp_assert(a.3 == b.3, 503);
        vp_assert(same(&a.4, &b.4), 504);
    }
}

fn main() {
    vp::main(TABLE);
}
