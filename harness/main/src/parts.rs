//! C23: a token reports exactly the parts and the span it was last given,
//! whatever route it takes.
use crate::cmp::same;
use crate::input::template;
use crate::tree;
use proc_macro2::*;
use std::str::FromStr;
use vp::*;

/// a span and the bytes of the text it must locate (0..0: none)
#[derive(Copy, Clone)]
struct Loc {
    sp: Span,
    lo: usize,
    hi: usize,
}
struct Model {
    kind: u64,
    delim: Delimiter,
    ch: char,
    spacing: Spacing,
    text: Vec<u8>,
    at: Loc,
    /// what is inside a group: text and location of each token, groups first, then what they hold
    inner: Vec<(Vec<u8>, Loc)>,
}

fn located(sp: Span, l: Loc, b: &[u8]) -> bool {
    let r = sp.byte_range();
    if r.start != l.lo || r.end != l.hi {
        return false;
    }
    if l.hi == 0 {
        let (s, e) = (sp.start(), sp.end());
        return sp.source_text().is_none() & (s.line == 1) & (s.column == 0) & (e.line == 1) & (e.column == 0);
    }
    match sp.source_text() {
        Some(t) => same(t.as_bytes(), &b[l.lo..l.hi]),
        None => false,
    }
}

fn leaves(ts: TokenStream, out: &mut Vec<Loc>) {
    for t in ts {
        let r = t.span().byte_range();
        out.push(Loc { sp: t.span(), lo: r.start, hi: r.end });
        if let TokenTree::Group(g) = t {
            leaves(g.stream(), out);
        }
    }
}

fn within(ts: TokenStream, want: &[(Vec<u8>, Loc)], k: &mut usize, b: &[u8]) -> u64 {
    for t in ts {
        if *k >= want.len() {
            return 307;
        }
        let (text, at) = &want[*k];
        *k += 1;
        if !same(t.to_string().as_bytes(), text) {
            return 305;
        }
        if !located(t.span(), *at, b) {
            return 306;
        }
        if let TokenTree::Group(g) = t {
            let e = within(g.stream(), want, k, b);
            if e != 0 {
                return e;
            }
        }
    }
    0
}
fn record(ts: TokenStream, out: &mut Vec<(Vec<u8>, Loc)>) {
    for t in ts {
        let r = t.span().byte_range();
        out.push((t.to_string().into_bytes(), Loc { sp: t.span(), lo: r.start, hi: r.end }));
        if let TokenTree::Group(g) = t {
            record(g.stream(), out);
        }
    }
}

/// the number of the failed check, or 0
fn check(t: &TokenTree, m: &Model, b: &[u8]) -> u64 {
    if !located(t.span(), m.at, b) {
        return 301;
    }
    match t {
        TokenTree::Group(g) => {
            if m.kind != 0 || g.delimiter() != m.delim {
                return 302;
            }
            if !located(g.span(), m.at, b) || !located(g.delim_span().join(), m.at, b) {
                return 303;
            }
            let (o, c) = (g.span_open().byte_range(), g.span_close().byte_range());
            if o.start != m.at.lo || o.end > m.at.hi || c.end != m.at.hi || c.start < m.at.lo {
                return 304;
            }
            let d = g.delim_span();
            if d.open().byte_range() != o || d.close().byte_range() != c {
                return 304;
            }
            let mut k = 0;
            let e = within(g.stream(), &m.inner, &mut k, b);
            if e != 0 {
                return e;
            }
            if k != m.inner.len() {
                return 307;
            }
        }
        TokenTree::Punct(p) => {
            if m.kind != 1 || (p.as_char() != m.ch) | (p.spacing() != m.spacing) {
                return 308;
            }
            if !located(p.span(), m.at, b) {
                return 309;
            }
        }
        TokenTree::Ident(i) => {
            if m.kind != 2 || !same(i.to_string().as_bytes(), &m.text) {
                return 310;
            }
            if !located(i.span(), m.at, b) {
                return 311;
            }
        }
        TokenTree::Literal(l) => {
            if m.kind != 3 || !same(l.to_string().as_bytes(), &m.text) {
                return 312;
            }
            if !located(l.span(), m.at, b) {
                return 313;
            }
        }
    }
    0
}

fn only(ts: TokenStream) -> TokenTree {
    let mut it = ts.into_iter();
    vp_assert(it.size_hint() == (1, Some(1)), 320);
    let t = it.next();
    vp_assert(t.is_some(), 321);
    vp_assert(it.next().is_none(), 322);
    t.unwrap()
}
fn second(ts: TokenStream) -> TokenTree {
    let mut it = ts.into_iter();
    let a = it.next();
    let t = it.next();
    vp_assert(a.is_some() & t.is_some(), 323);
    vp_assert(it.next().is_none(), 324);
    t.unwrap()
}
fn set(t: &mut TokenTree, typed: bool, sp: Span) {
    if !typed {
        t.set_span(sp);
        return;
    }
    match t {
        TokenTree::Group(x) => x.set_span(sp),
        TokenTree::Punct(x) => x.set_span(sp),
        TokenTree::Ident(x) => x.set_span(sp),
        TokenTree::Literal(x) => x.set_span(sp),
    }
}

/// params: number of steps, ways of making the token (bit mask, 8 ways), the
/// text that the spans come from, the text of the token
pub fn h_parts() {
    let steps = vp_param(0);
    let kind = vp_param(1);
    let mut i = 2;
    let before = template(&mut i);
    let src = template(&mut i);
    let arg = template(&mut i);
    let b = &src.b;
    if !before.b.is_empty() {
        let _ = before.str().parse::<TokenStream>();
    }
    let parsed = match src.str().parse::<TokenStream>() {
        Ok(p) => p,
        Err(_) => return,
    };
    let mut at = vec![
        Loc { sp: Span::call_site(), lo: 0, hi: 0 },
        Loc { sp: Span::mixed_site(), lo: 0, hi: 0 },
    ];
    leaves(parsed.clone(), &mut at);
    vp_assert(located(at[1].sp, at[0], b), 300);
    let n = at.len() as u64;
    let pick = |at: &Vec<Loc>| -> Loc {
        let l = at[vp_choice(n) as usize];
        let o = at[at.len() - 1];
        // neither the location nor the text may depend on how hygiene is mixed
        match vp_choice(3) {
            0 => l,
            1 => Loc { sp: l.sp.resolved_at(o.sp), ..l },
            _ => Loc { sp: o.sp.located_at(l.sp), ..l },
        }
    };
    let mut m = Model {
        kind,
        delim: Delimiter::None,
        ch: '+',
        spacing: Spacing::Alone,
        text: Vec::new(),
        at: at[0],
        inner: Vec::new(),
    };
    // make the token
    let mut t = match kind {
        0 => {
            m.delim = [Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace, Delimiter::None][vp_choice(4) as usize];
            let l = at[at.len() - 1];
            let none = at[0];
            let a = TokenTree::Ident(Ident::new("a", l.sp));
            let (s, w): (TokenStream, Vec<(&[u8], Loc)>) = match vp_choice(8) {
                0 => (a.into(), vec![(b"a", l)]),
                1 => (TokenStream::new(), vec![]),
                2 => {
                    let mut g = Group::new(Delimiter::Parenthesis, a.into());
                    g.set_span(l.sp);
                    (TokenTree::Group(g).into(), vec![(b"(a)", l), (b"a", l)])
                }
                3 => (TokenTree::Group(Group::new(Delimiter::Bracket, a.into())).into(), vec![(b"[a]", none), (b"a", l)]),
                4 => {
                    let mut p = Punct::new('+', Spacing::Joint);
                    p.set_span(l.sp);
                    (TokenTree::Punct(p).into(), vec![(b"+", l)])
                }
                5 => {
                    let mut p = Literal::u8_suffixed(1);
                    p.set_span(l.sp);
                    (TokenTree::Literal(p).into(), vec![(b"1u8", l)])
                }
                6 => (vec![a, TokenTree::Punct(Punct::new(';', Spacing::Alone))].into_iter().collect(), vec![(b"a", l), (b";", none)]),
                _ => {
                    let mut v = Vec::new();
                    record(parsed.clone(), &mut v);
                    m.inner = v;
                    (parsed.clone(), vec![])
                }
            };
            for (t, at) in w {
                m.inner.push((t.to_vec(), at));
            }
            TokenTree::Group(Group::new(m.delim, s))
        }
        1 => {
            let mut c = [0u8];
            vp_sym(c.as_mut_ptr(), 1, 1);
            let mut ok = false;
            for x in b"~!@#$%^&*-=+|;:,<.>/?'" {
                ok |= c[0] == *x;
            }
            vp_assume(ok);
            m.ch = c[0] as char;
            m.spacing = if vp_choice(2) == 0 { Spacing::Alone } else { Spacing::Joint };
            TokenTree::Punct(Punct::new(m.ch, m.spacing))
        }
        2 => {
            m.at = pick(&at);
            let raw = vp_choice(2) == 1;
            let mut name = *b"fn";
            vp_sym(unsafe { name.as_mut_ptr().add(1) }, 1, 1);
            vp_assume((name[1] >= b'a') & (name[1] <= b'z') | (name[1] == b'_'));
            let x = if vp_choice(2) == 0 { "\u{e9}t" } else { std::str::from_utf8(&name).unwrap() };
            m.text = if raw { format!("r#{}", x).into_bytes() } else { x.as_bytes().to_vec() };
            TokenTree::Ident(if raw { Ident::new_raw(x, m.at.sp) } else { Ident::new(x, m.at.sp) })
        }
        3 => {
            let l = match vp_choice(12) {
                0 => Literal::string(arg.str()),
                1 => Literal::byte_string(&arg.b),
                2 => Literal::character('x'),
                3 => Literal::u8_suffixed(7),
                4 => Literal::i64_unsuffixed(19),
                5 => Literal::u128_unsuffixed(3),
                6 => Literal::f64_unsuffixed(1.5),
                7 => Literal::f32_suffixed(2.0),
                8 => Literal::byte_character(b'z'),
                9 => Literal::c_string(std::ffi::CStr::from_bytes_with_nul(b"q\0").unwrap()),
                10 => Literal::isize_suffixed(1),
                _ => match Literal::from_str("0x1f") {
                    Ok(mut l) => {
                        // its own text lies in a source of its own
                        vp_assert(same(l.span().source_text().unwrap().as_bytes(), b"0x1f"), 325);
                        l.set_span(at[0].sp);
                        l
                    }
                    Err(_) => return,
                },
            };
            m.text = l.to_string().into_bytes();
            TokenTree::Literal(l)
        }
        _ => {
            // a token of the text
            let v: Vec<TokenTree> = parsed.clone().into_iter().collect();
            if v.is_empty() {
                return;
            }
            let t = v[vp_choice(v.len() as u64) as usize].clone();
            let r = t.span().byte_range();
            m.at = Loc { sp: t.span(), lo: r.start, hi: r.end };
            match &t {
                TokenTree::Group(g) => {
                    m.kind = 0;
                    m.delim = g.delimiter();
                    record(g.stream(), &mut m.inner);
                }
                TokenTree::Punct(p) => {
                    m.kind = 1;
                    m.ch = p.as_char();
                    m.spacing = p.spacing();
                }
                TokenTree::Ident(_) => m.kind = 2,
                TokenTree::Literal(_) => m.kind = 3,
            }
            if m.kind != 0 {
                m.text = t.to_string().into_bytes();
            }
            t
        }
    };
    let e = check(&t, &m, b);
    vp_assert(e == 0, e);
    for _ in 0..steps {
        match vp_choice(13) {
            0 => {
                m.at = pick(&at);
                set(&mut t, false, m.at.sp);
            }
            1 => {
                m.at = pick(&at);
                set(&mut t, true, m.at.sp);
            }
            2 => {
                // the clone goes on, the original changes
                let c = t.clone();
                set(&mut t, true, at[at.len() - 1].sp);
                t = c;
            }
            3 => {
                let mut c = t.clone();
                set(&mut c, true, at[at.len() - 1].sp);
                drop(c);
            }
            4 => {
                t = match t {
                    TokenTree::Group(x) => TokenTree::from(x.clone()),
                    TokenTree::Punct(x) => TokenTree::from(x.clone()),
                    TokenTree::Ident(x) => TokenTree::from(x.clone()),
                    TokenTree::Literal(x) => TokenTree::from(x.clone()),
                }
            }
            5 => t = only(TokenStream::from(t)),
            6 => t = only(Some(t).into_iter().collect()),
            7 => t = only(Some(TokenStream::from(t)).into_iter().collect()),
            8 => {
                let mut s = TokenStream::new();
                match t {
                    TokenTree::Group(x) => s.extend(Some(x)),
                    TokenTree::Punct(x) => s.extend(Some(x)),
                    TokenTree::Ident(x) => s.extend(Some(x)),
                    TokenTree::Literal(x) => s.extend(Some(x)),
                }
                t = only(s);
            }
            9 => {
                let mut s = TokenStream::from(TokenTree::Punct(Punct::new(';', Spacing::Alone)));
                s.extend(Some(t));
                t = second(s);
            }
            10 => {
                let mut s = TokenStream::from(TokenTree::Punct(Punct::new(';', Spacing::Alone)));
                s.extend(Some(TokenStream::from(t)));
                t = second(s);
            }
            11 => {
                let g = Group::new(Delimiter::Bracket, TokenStream::from(t));
                let mut h = g.clone();
                h.set_span(at[at.len() - 1].sp);
                drop(g);
                t = only(h.stream());
            }
            _ => {
                // a shared stream: what one holder does to its tokens is its own
                let s = TokenStream::from(t);
                let mut c = only(s.clone());
                set(&mut c, false, at[at.len() - 1].sp);
                drop(c);
                let mut two = s.clone();
                two.extend(Some(TokenTree::Punct(Punct::new(';', Spacing::Joint))));
                t = only(s);
            }
        }
        let e = check(&t, &m, b);
        vp_assert(e == 0, e);
    }
    let mut w = Vec::with_capacity(32);
    tree::print_one(t.clone(), &mut w);
    vp_assert(same(&w, t.to_string().as_bytes()), 326);
    // the spans themselves have not moved
    let mut now = Vec::new();
    leaves(parsed, &mut now);
    let mut k = 2;
    for l in now {
        vp_assert((l.lo == at[k].lo) & (l.hi == at[k].hi), 327);
        k += 1;
    }
    vp_reach(1);
    vp_note(w.len() as u64);
}

/// A negative literal becomes `-` and the positive literal, both with its span.
/// params: the text the spans come from, a negative literal
pub fn h_negparts() {
    let mut i = 0;
    let src = template(&mut i);
    let neg = template(&mut i);
    let parsed = match src.str().parse::<TokenStream>() {
        Ok(p) => p,
        Err(_) => return,
    };
    let mut at = vec![Loc { sp: Span::call_site(), lo: 0, hi: 0 }];
    leaves(parsed, &mut at);
    // the literal, its own span and the text that span locates
    let mut l = match vp_choice(8) {
        0 | 1 => match Literal::from_str(neg.str()) {
            Ok(l) => l,
            Err(_) => return,
        },
        2 => Literal::i8_suffixed(-128),
        3 => Literal::i64_unsuffixed(-9),
        4 => Literal::f64_unsuffixed(-1.5),
        5 => Literal::f32_suffixed(-0.5),
        6 => Literal::isize_unsuffixed(-1),
        _ => Literal::i128_suffixed(-7),
    };
    if vp_choice(2) == 1 {
        l.set_span(at[vp_choice(at.len() as u64) as usize].sp);
    }
    let want = l.span().byte_range();
    let file = l.span().file();
    let text = l.to_string();
    let is = text.as_bytes()[0] == b'-';
    let t = TokenTree::Literal(l.clone());
    let semi = || TokenTree::Punct(Punct::new(';', Spacing::Alone));
    let mut skip = 0;
    let ts: TokenStream = match vp_choice(9) {
        0 => TokenStream::from(t),
        1 => Some(t).into_iter().collect(),
        2 => {
            let mut s = TokenStream::new();
            s.extend(Some(l));
            s
        }
        3 => {
            let mut s = TokenStream::from(semi());
            s.extend(vec![t]);
            skip = 1;
            s
        }
        4 => {
            let mut s = TokenStream::from(semi());
            let c = s.clone();
            s.extend(Some(TokenStream::from(t)));
            vp_assert(c.into_iter().count() == 1, 340);
            skip = 1;
            s
        }
        5 => vec![TokenStream::from(semi()), TokenStream::from(t)].into_iter().collect::<TokenStream>().into_iter().skip(1).collect(),
        6 => Group::new(Delimiter::Brace, TokenStream::from(t)).stream(),
        7 => TokenStream::from(t).into_iter().collect(),
        _ => {
            let s = TokenStream::from(t);
            let mut c = s.clone();
            c.extend(Some(semi()));
            drop(c);
            s
        }
    };
    let v: Vec<TokenTree> = ts.into_iter().collect();
    vp_assert(v.len() == skip + 1 + is as usize, 341);
    for t in &v[skip..] {
        vp_assert(t.span().byte_range() == want, 342);
        vp_assert(t.span().file() == file, 343);
    }
    if is {
        match &v[skip] {
            TokenTree::Punct(p) => vp_assert((p.as_char() == '-') & (p.spacing() == Spacing::Alone), 344),
            _ => vp_assert(false, 344),
        }
    }
    match &v[v.len() - 1] {
        TokenTree::Literal(l) => vp_assert(same(l.to_string().as_bytes(), &text.as_bytes()[is as usize..]), 345),
        _ => vp_assert(false, 345),
    }
    vp_reach(1);
    vp_note(want.end as u64);
}
