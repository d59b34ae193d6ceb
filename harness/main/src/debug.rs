//! C25: the Debug output of tokens, streams and iterators against a writer of
//! our own over the public accessors.
use crate::cmp::same;
use crate::ctor::{delim, token};
use crate::input::template;
use proc_macro2::*;
use vp::*;

struct W {
    out: Vec<u8>,
    pretty: bool,
    depth: usize,
    bol: bool,
    /// how a located span reads: the text, and the number its first character has
    src: Option<(Vec<u8>, u64)>,
}

impl W {
    fn put(&mut self, s: &[u8]) {
        if !self.pretty {
            self.out.extend_from_slice(s);
            return;
        }
        for &c in s {
            if self.bol {
                for _ in 0..4 * self.depth {
                    self.out.push(b' ');
                }
            }
            self.bol = c == b'\n';
            self.out.push(c);
        }
    }
    fn field(&mut self, first: bool, name: &[u8], v: impl FnOnce(&mut W)) {
        if self.pretty {
            if first {
                self.put(b" {\n");
            }
            self.depth += 1;
        } else {
            self.put(if first { b" { " } else { b", " });
        }
        self.put(name);
        self.put(b": ");
        v(self);
        if self.pretty {
            self.put(b",\n");
            self.depth -= 1;
        }
    }
    fn end(&mut self) {
        self.put(if self.pretty { b"}" } else { b" }" });
    }
    fn num(&mut self, mut n: u64) {
        let mut d = [0u8; 20];
        let mut k = 20;
        loop {
            k -= 1;
            d[k] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        let t = d[k..].to_vec();
        self.put(&t);
    }
    #[cfg(not(feature = "spans"))]
    fn span(&mut self, _s: Span) {}
    /// the span's field, only for spans other than the call site
    #[cfg(feature = "spans")]
    fn span(&mut self, s: Span) {
        if let Some((b, base)) = self.src.take() {
            let r = s.byte_range();
            let (lo, hi) = (chars(&b[..r.start]), chars(&b[..r.end]));
            self.field(false, b"span", |w| {
                w.put(b"bytes(");
                w.num(base + lo);
                w.put(b"..");
                w.num(base + hi);
                w.put(b")");
            });
            self.src = Some((b, base));
        }
    }
    fn stream(&mut self, ts: TokenStream) {
        self.list(ts.into_iter());
    }
    fn list(&mut self, it: token_stream::IntoIter) {
        self.put(b"TokenStream [");
        let mut first = true;
        for t in it {
            if self.pretty {
                if first {
                    self.put(b"\n");
                }
                self.depth += 1;
                self.tree(&t);
                self.put(b",\n");
                self.depth -= 1;
            } else {
                if !first {
                    self.put(b", ");
                }
                self.tree(&t);
            }
            first = false;
        }
        self.put(b"]");
    }
    fn tree(&mut self, t: &TokenTree) {
        match t {
            TokenTree::Group(g) => {
                self.put(b"Group");
                self.field(true, b"delimiter", |w| {
                    w.put(match g.delimiter() {
                        Delimiter::Parenthesis => b"Parenthesis",
                        Delimiter::Brace => b"Brace",
                        Delimiter::Bracket => b"Bracket",
                        Delimiter::None => b"None",
                    })
                });
                self.field(false, b"stream", |w| w.stream(g.stream()));
            }
            TokenTree::Ident(i) => {
                self.put(b"Ident");
                self.field(true, b"sym", |w| w.put(i.to_string().as_bytes()));
            }
            TokenTree::Punct(p) => {
                self.put(b"Punct");
                self.field(true, b"char", |w| {
                    let c = p.as_char();
                    if c == '\'' {
                        w.put(b"'\\''");
                    } else {
                        w.put(&[b'\'', c as u8, b'\'']);
                    }
                });
                self.field(false, b"spacing", |w| w.put(if p.spacing() == Spacing::Joint { b"Joint" } else { b"Alone" }));
            }
            TokenTree::Literal(l) => {
                self.put(b"Literal");
                self.field(true, b"lit", |w| w.put(l.to_string().as_bytes()));
            }
        }
        self.span(t.span());
        self.end();
    }
    /// what a token's own type shows
    fn own(&mut self, t: &TokenTree) {
        #[cfg(not(feature = "spans"))]
        if let TokenTree::Ident(i) = t {
            self.put(b"Ident(");
            if self.pretty {
                self.put(b"\n");
                self.depth += 1;
            }
            self.put(i.to_string().as_bytes());
            if self.pretty {
                self.put(b",\n");
                self.depth -= 1;
            }
            self.put(b")");
            return;
        }
        self.tree(t);
    }
}

#[cfg(feature = "spans")]
fn chars(b: &[u8]) -> u64 {
    let mut n = 0;
    for &c in b {
        n += ((c & 0xc0) != 0x80) as u64;
    }
    n
}

fn show(x: &dyn std::fmt::Debug, pretty: bool) -> String {
    if pretty {
        format!("{:#?}", x)
    } else {
        format!("{:?}", x)
    }
}

fn own(t: &TokenTree, pretty: bool) -> String {
    match t {
        TokenTree::Group(x) => show(x, pretty),
        TokenTree::Ident(x) => show(x, pretty),
        TokenTree::Punct(x) => show(x, pretty),
        TokenTree::Literal(x) => show(x, pretty),
    }
}

/// compares the output for a stream, for its tokens, and for what is left of an iterator
fn check(ts: TokenStream, pretty: bool, src: Option<(Vec<u8>, u64)>) {
    let mk = || W { out: Vec::with_capacity(256), pretty, depth: 0, bol: false, src: src.clone() };
    let mut w = mk();
    w.stream(ts.clone());
    let copy = ts.clone();
    let got = show(&ts, pretty);
    vp_assert(crate::tree::eq(ts.clone(), copy), 359);
    vp_note(got.len() as u64);
    vp_assert(same(got.as_bytes(), &w.out), 350);
    let mut it = ts.into_iter();
    let mut k = 0;
    while let Some(t) = it.next() {
        let mut w = mk();
        w.tree(&t);
        vp_assert(same(show(&t, pretty).as_bytes(), &w.out), 351);
        let mut w = mk();
        w.own(&t);
        vp_assert(same(own(&t, pretty).as_bytes(), &w.out), 352);
        if k < 2 {
            let mut w = mk();
            w.list(it.clone());
            let left: TokenStream = it.clone().collect();
            vp_assert(same(show(&it, pretty).as_bytes(), &w.out), 353);
            vp_assert(crate::tree::eq(it.clone().collect(), left), 360);
        }
        k += 1;
    }
}

/// parsed texts. param0: pretty
pub fn h_debug() {
    let pretty = vp_param(0) == 1;
    let mut i = 1;
    let s = template(&mut i);
    match s.str().parse::<TokenStream>() {
        Ok(ts) => {
            vp_reach(1);
            #[cfg(not(feature = "spans"))]
            let src = None;
            #[cfg(feature = "spans")]
            let src = match ts.clone().into_iter().next() {
                None => None,
                Some(t) => {
                    // the number of the text's first character, from the first span
                    let d = format!("{:?}", t.span());
                    let d = d.as_bytes();
                    let mut n = 0u64;
                    let mut k = 6;
                    vp_assert(d.len() > 6 && same(&d[..6], b"bytes("), 354);
                    while k < d.len() && d[k].is_ascii_digit() {
                        n = n * 10 + (d[k] - b'0') as u64;
                        k += 1;
                    }
                    let at = chars(&s.b[..t.span().byte_range().start]);
                    vp_assert(k > 6 && n >= at, 355);
                    Some((s.b.clone(), n - at))
                }
            };
            check(ts, pretty, src);
        }
        Err(e) => {
            vp_reach(2);
            let mut want = b"LexError { span: ".to_vec();
            want.extend_from_slice(format!("{:?}", e.span()).as_bytes());
            want.extend_from_slice(b" }");
            vp_assert(same(format!("{:?}", e).as_bytes(), &want), 356);
            vp_assert(!e.to_string().is_empty(), 357);
        }
    }
}

/// made tokens: at the call site, no span is shown. param0: pretty; param1: number of tokens; param2: kinds
pub fn h_debug_made() {
    let pretty = vp_param(0) == 1;
    vp_reach(1);
    let mut ts = TokenStream::new();
    for _ in 0..vp_param(1) {
        let k = vp_choice(vp_param(2));
        let t = match k {
            1 => TokenTree::Literal(Literal::character('-')),
            3 => TokenTree::Group(Group::new(delim(vp_choice(4) as u8), TokenStream::from(token(0).0))),
            7 => TokenTree::Ident(Ident::new_raw("r", Span::mixed_site())),
            8 => TokenTree::Punct(Punct::new('\'', Spacing::Joint)),
            9 => TokenTree::Group(Group::new(delim(vp_choice(4) as u8), ts.clone())),
            10 => TokenTree::Group(Group::new(delim(vp_choice(4) as u8), TokenStream::new())),
            _ => token(k).0,
        };
        // a single token, before a stream splits a negative literal
        let mut w = W { out: Vec::new(), pretty, depth: 0, bol: false, src: None };
        w.own(&t);
        vp_assert(same(own(&t, pretty).as_bytes(), &w.out), 358);
        ts.extend(vec![t]);
    }
    check(ts, pretty, None);
}
