//! C24: the work grows in proportion to the input.
use crate::input::{template, Src};
use crate::tree;
use proc_macro2::*;
use std::str::FromStr;
use vp::*;

struct Parts {
    head: Src,
    unit: Src,
    mid: Src,
    tail: Src,
    end: Src,
}
impl Parts {
    fn text(&self, op: u64, n: usize) -> Src {
        let n = if op == 9 || op == 10 { 1 } else { n };
        let mut s = Src { b: Vec::with_capacity(self.head.b.len() + self.mid.b.len() + self.end.b.len() + n * (self.unit.b.len() + self.tail.b.len())) };
        s.b.extend_from_slice(&self.head.b);
        for _ in 0..n {
            s.b.extend_from_slice(&self.unit.b);
        }
        s.b.extend_from_slice(&self.mid.b);
        for _ in 0..n {
            s.b.extend_from_slice(&self.tail.b);
        }
        s.b.extend_from_slice(&self.end.b);
        s
    }
}

#[cfg(feature = "spans")]
fn query(ts: TokenStream) -> u64 {
    let mut n = 0;
    for t in ts {
        let sp = t.span();
        n += sp.byte_range().end as u64 + sp.start().line as u64 + sp.end().column as u64;
        n += sp.source_text().map_or(0, |t| t.len()) as u64;
        if let TokenTree::Group(g) = t {
            n += query(g.stream());
        }
    }
    n
}

fn run(op: u64, s: &Src, n: usize) -> u64 {
    match op {
        0 => s.str().parse::<TokenStream>().is_ok() as u64,
        1 => match s.str().parse::<TokenStream>() {
            Ok(t) => t.to_string().len() as u64,
            Err(_) => 0,
        },
        2 => match s.str().parse::<TokenStream>() {
            Ok(t) => {
                let c = t.clone();
                let n = tree::walk(t);
                n + tree::walk(c)
            }
            Err(_) => 0,
        },
        3 => match Literal::from_str(s.str()) {
            Ok(l) => l.to_string().len() as u64,
            Err(_) => 0,
        },
        4 => Literal::string(s.str()).to_string().len() as u64 + Literal::byte_string(&s.b).to_string().len() as u64,
        // a stream built token by token, stream by stream
        5 => match s.str().parse::<TokenStream>() {
            Ok(t) => {
                let mut out = TokenStream::new();
                for x in t {
                    out.extend(Some(x));
                }
                let mut two = TokenStream::new();
                for x in out {
                    two.extend(Some(TokenStream::from(x)));
                }
                let all: TokenStream = two.into_iter().map(TokenStream::from).collect();
                all.into_iter().size_hint().0 as u64
            }
            Err(_) => 0,
        },
        // streams with a negative literal each
        6 => {
            let mut out = TokenStream::new();
            for _ in 0..n {
                out.extend(Some(TokenTree::from(Literal::i32_unsuffixed(-1))));
            }
            out.into_iter().size_hint().0 as u64
        }
        #[cfg(feature = "spans")]
        7 => match s.str().parse::<TokenStream>() {
            Ok(t) => query(t),
            Err(e) => e.span().start().line as u64,
        },
        #[cfg(feature = "exempt")]
        8 => match Literal::from_str(s.str()) {
            Ok(l) => {
                l.str_value().map_or(0, |v| v.len()) as u64 + l.byte_str_value().map_or(0, |v| v.len()) as u64 + l.cstr_value().map_or(0, |v| v.len()) as u64
            }
            Err(_) => 0,
        },
        // one text after another
        9 => {
            let mut k = 0;
            for _ in 0..n {
                k += s.str().parse::<TokenStream>().is_ok() as u64;
                k += Literal::from_str(s.str()).is_ok() as u64;
            }
            k
        }
        // and the spans of all of them
        #[cfg(feature = "spans")]
        10 => {
            let all: Vec<TokenStream> = (0..n).filter_map(|_| s.str().parse().ok()).collect();
            let back: u64 = all.iter().rev().map(|t| query(t.clone())).sum();
            back + all.into_iter().map(query).sum::<u64>()
        }
        // streams, one by one from the front and from iterators that were cloned
        11 => {
            let mut out = TokenStream::new();
            for _ in 0..n {
                let t: TokenStream = "a b".parse().unwrap();
                out.extend(vec![TokenStream::new(), t, TokenStream::new()]);
            }
            let mut it = out.into_iter();
            let mut k = 0;
            while let Some(t) = it.next() {
                k += it.size_hint().0 as u64;
                drop(t);
            }
            k
        }
        // identifiers and literals made one after another
        12 => {
            let mut k = 0;
            for _ in 0..n {
                let id = Ident::new("abc", Span::call_site());
                k += (id == "abc") as u64 + id.to_string().len() as u64;
                k += Literal::u32_suffixed(7).to_string().len() as u64;
                k += Group::new(Delimiter::Brace, TokenStream::from(TokenTree::Ident(id))).to_string().len() as u64;
            }
            k
        }
        _ => 0,
    }
}

pub fn h_linear() {
    let op = vp_param(0);
    let n = vp_param(1) as usize;
    let mut i = 2;
    let p = Parts { head: template(&mut i), unit: template(&mut i), mid: template(&mut i), tail: template(&mut i), end: template(&mut i) };
    let mut r = [0u64; 3];
    let mut c = [0u64; 3];
    for k in 0..3 {
        let m = n << k;
        let s = p.text(op, m);
        let w = vp_work();
        r[k] = run(op, &s, m);
        c[k] = vp_work() - w;
    }
    vp_reach(1);
    vp_note(r[0]);
    vp_note(r[1]);
    vp_note(r[2]);
    if vp_is_sym() {
        // twice as much again for twice the input; a quadratic part makes it four times as much
        vp_assert(c[2] <= c[1] || 2 * (c[2] - c[1]) <= 5 * c[1].saturating_sub(c[0]) + 6000, 330);
    } else if vp_replaying() {
        // natively: time, at sizes where the growth shows (printing recurses into groups)
        let cap = if p.tail.b.is_empty() { 1 << 17 } else { 1 << 14 };
        let slow = std::thread::Builder::new()
            .stack_size(4 << 30)
            .spawn(move || {
                let mut m = 2000;
                while m <= cap {
                    let (s, b) = (p.text(op, m), p.text(op, 4 * m));
                    let t = time(|| run(op, &s, m));
                    let u = time(|| run(op, &b, 4 * m));
                    if u > 0.3 {
                        return u > 9.0 * t;
                    }
                    m *= 2;
                }
                false
            })
            .unwrap()
            .join();
        vp_assert(matches!(slow, Ok(false)), 330);
    }
}
fn time(f: impl Fn() -> u64) -> f64 {
    let mut best = f64::MAX;
    for _ in 0..2 {
        let t = std::time::Instant::now();
        std::hint::black_box(f());
        best = best.min(t.elapsed().as_secs_f64());
        if best > 2.0 {
            break;
        }
    }
    best
}
