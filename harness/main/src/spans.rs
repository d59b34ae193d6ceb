//! C13, C14, C15: span locations against positions computed from the source.
use crate::cmp::{delim_of, same};
use crate::input::{template, Src};
use crate::reflex::*;
use proc_macro2::*;
use std::cmp::Ordering;
use std::ops::Bound;
use std::str::FromStr;
use vp::*;

/// (1-based line, 0-based character column) of byte offset `off`
pub fn linecol(b: &[u8], off: usize) -> (usize, usize) {
    let mut line = 1;
    let mut col = 0;
    let mut i = 0;
    while i < off {
        if b[i] == b'\n' {
            line += 1;
            col = 0;
            i += 1;
        } else {
            let (_, n) = decode(b, i);
            col += 1;
            i += n;
        }
    }
    (line, col)
}

/// queries in an order chosen by the caller
pub fn span_ok(sp: Span, b: &[u8], lo: usize, hi: usize) -> bool {
    let r = sp.byte_range();
    if r.start != lo || r.end != hi {
        return false;
    }
    if lo == hi {
        return true;
    }
    match sp.source_text() {
        Some(t) => {
            if !same(t.as_bytes(), &b[lo..hi]) {
                return false;
            }
        }
        None => return false,
    }
    let s = sp.start();
    let e = sp.end();
    let ws = linecol(b, lo);
    let we = linecol(b, hi);
    (s.line == ws.0) & (s.column == ws.1) & (e.line == we.0) & (e.column == we.1)
}

fn doc_spans(ts: TokenStream, b: &[u8], t: &Tok) -> bool {
    for x in ts {
        if !span_ok(x.span(), b, t.lo, t.hi) {
            return false;
        }
        if let TokenTree::Group(g) = x {
            if !doc_spans(g.stream(), b, t) {
                return false;
            }
        }
    }
    true
}

/// 0: all spans right; otherwise the number of the failed check. Streams whose
/// tokens differ from the reference are left to the lexical properties.
pub fn walk(ts: TokenStream, b: &[u8], toks: &[Tok], pos: &mut usize, end: usize) -> Result<(), u64> {
    let mut it = ts.into_iter();
    while *pos < end {
        let t = toks[*pos];
        *pos += 1;
        let x = match it.next() {
            Some(x) => x,
            None => return Err(0),
        };
        match t.k {
            K::Open => {
                let g = match x {
                    TokenTree::Group(g) => g,
                    _ => return Err(0),
                };
                if g.delimiter() != delim_of(b[t.lo]) {
                    return Err(0);
                }
                let close = toks[t.a];
                if !span_ok(g.span(), b, t.lo, close.hi) {
                    return Err(51);
                }
                if !span_ok(g.span_open(), b, t.lo, t.hi) {
                    return Err(52);
                }
                if !span_ok(g.span_close(), b, close.lo, close.hi) {
                    return Err(53);
                }
                let d = g.delim_span();
                if !span_ok(d.join(), b, t.lo, close.hi) || !span_ok(d.open(), b, t.lo, t.hi) || !span_ok(d.close(), b, close.lo, close.hi) {
                    return Err(54);
                }
                walk(g.stream(), b, toks, pos, t.a)?;
                *pos += 1;
            }
            K::Doc => {
                if !span_ok(x.span(), b, t.lo, t.hi) {
                    return Err(55);
                }
                let n = if t.a == 1 { 2 } else { 1 };
                let mut y = x;
                for k in 0..n {
                    y = match it.next() {
                        Some(y) => y,
                        None => return Err(0),
                    };
                    if !span_ok(y.span(), b, t.lo, t.hi) {
                        return Err(56);
                    }
                    let _ = k;
                }
                if let TokenTree::Group(g) = y {
                    if !doc_spans(g.stream(), b, &t) {
                        return Err(57);
                    }
                }
            }
            _ => {
                match (&x, t.k) {
                    (TokenTree::Punct(_), K::Punct) | (TokenTree::Ident(_), K::Ident) | (TokenTree::Literal(_), K::Num | K::Quoted | K::ErrLit) => {}
                    _ => return Err(0),
                }
                if !span_ok(x.span(), b, t.lo, t.hi) {
                    return Err(58);
                }
            }
        }
    }
    Ok(())
}

/// every start and end in the order of the walk: (byte offset, line/column)
fn corners(ts: TokenStream, out: &mut Vec<(usize, LineColumn)>) {
    for t in ts {
        let sp = t.span();
        let r = sp.byte_range();
        out.push((r.start, sp.start()));
        if let TokenTree::Group(g) = t {
            corners(g.stream(), out);
        }
        out.push((r.end, sp.end()));
    }
}

/// C13. param0: number of earlier parses on the thread
pub fn h_span() {
    let pre = vp_param(0);
    let mut i = 1;
    let s = template(&mut i);
    let b = &s.b;
    for _ in 0..pre {
        let _ = "x \u{e9}\n(y)".parse::<TokenStream>();
    }
    let r = lex(b);
    match (s.str().parse::<TokenStream>(), r.err) {
        (Ok(ts), None) => {
            vp_reach(1);
            let mut pos = 0;
            if let Err(n) = walk(ts.clone(), b, &r.toks, &mut pos, r.toks.len()) {
                vp_assert(n == 0, n);
            }
            let mut at = Vec::with_capacity(16);
            corners(ts, &mut at);
            for k in 1..at.len() {
                let (x, y) = (&at[k - 1], &at[k]);
                let want = x.0.cmp(&y.0);
                vp_assert(x.1.cmp(&y.1) == want, 64);
                vp_assert(y.1.partial_cmp(&x.1) == Some(want.reverse()), 65);
                vp_assert((x.1 == y.1) == (want == Ordering::Equal), 66);
            }
            for t in &r.toks {
                vp_note(t.hi as u64);
            }
        }
        (Err(e), Some((p, _))) => {
            vp_reach(2);
            let q = e.span().byte_range();
            vp_note(q.start as u64);
            vp_assert(q.start == p, 60);
            vp_assert(q.end <= b.len(), 61);
            let st = e.span().start();
            let w = linecol(b, p);
            vp_assert((st.line == w.0) & (st.column == w.1), 62);
        }
        _ => {}
    }
}

#[derive(Clone)]
struct Rec {
    sp: Span,
    file: usize,
    lo: usize,
    hi: usize,
}
fn collect(ts: TokenStream, toks: &[Tok], pos: &mut usize, end: usize, file: usize, out: &mut Vec<Rec>) -> bool {
    let mut it = ts.into_iter();
    while *pos < end {
        let t = toks[*pos];
        *pos += 1;
        let x = match it.next() {
            Some(x) => x,
            None => return false,
        };
        if t.k == K::Open {
            let g = match x {
                TokenTree::Group(g) => g,
                _ => return false,
            };
            out.push(Rec { sp: g.span(), file, lo: t.lo, hi: toks[t.a].hi });
            if !collect(g.stream(), toks, pos, t.a, file, out) {
                return false;
            }
            *pos += 1;
        } else {
            out.push(Rec { sp: x.span(), file, lo: t.lo, hi: t.hi });
        }
    }
    it.next().is_none()
}

/// one query of the chosen kind; true if the answer is right
fn query(r: &Rec, files: &[Src], kind: u64) -> bool {
    let b = &files[r.file].b;
    match kind {
        0 => match r.sp.source_text() {
            Some(t) => same(t.as_bytes(), &b[r.lo..r.hi]),
            None => false,
        },
        1 => r.sp.byte_range() == (r.lo..r.hi),
        2 => {
            let s = r.sp.start();
            let w = linecol(b, r.lo);
            s.line == w.0 && s.column == w.1
        }
        3 => {
            let s = r.sp.end();
            let w = linecol(b, r.hi);
            s.line == w.0 && s.column == w.1
        }
        _ => !r.sp.file().is_empty() && r.sp.local_file().is_none(),
    }
}

/// C14. param0: number of steps; param1: number of texts; param2: query kinds
/// (bit mask over 0..=4); then the texts. A step is: parse one of the texts,
/// parse it as a literal, query one span, or invalidate.
pub fn h_hist() {
    let steps = vp_param(0);
    let ntext = vp_param(1);
    let kinds = vp_param(2);
    let mut i = 3;
    let mut texts = vec![];
    for _ in 0..ntext {
        texts.push(template(&mut i));
    }
    let mut files: Vec<Src> = vec![];
    let mut live: Vec<Rec> = vec![];
    let mut base = 0; // files before this index were invalidated
    for _ in 0..steps {
        let nq = live.len() as u64;
        let op = vp_choice(ntext + 1 + nq);
        if op < ntext {
            let src = Src { b: texts[op as usize].b.clone() };
            let r = lex(&src.b);
            let file = files.len();
            if src.b.len() > 0 && (src.b[0] == b'"' || src.b[0] == b'-') {
                // as a literal
                if let Ok(l) = Literal::from_str(src.str()) {
                    live.push(Rec { sp: l.span(), file, lo: 0, hi: src.b.len() });
                }
            } else {
                match src.str().parse::<TokenStream>() {
                    Ok(ts) => {
                        let mut pos = 0;
                        if r.err.is_some() || !collect(ts, &r.toks, &mut pos, r.toks.len(), file, &mut live) {
                            return;
                        }
                    }
                    Err(e) => {
                        if let Some((p, _)) = r.err {
                            vp_assert(e.span().byte_range() == (p..p), 70);
                        } else {
                            return;
                        }
                    }
                }
            }
            files.push(src);
        } else if op == ntext {
            extra::invalidate_current_thread_spans();
            live.clear();
            base = files.len();
        } else {
            let r = &live[(op - ntext - 1) as usize];
            let mut k = 0;
            if kinds != 1 {
                let n = kinds.count_ones() as u64;
                let c = vp_choice(n);
                let mut left = c + 1;
                loop {
                    if kinds >> k & 1 == 1 {
                        left -= 1;
                        if left == 0 {
                            break;
                        }
                    }
                    k += 1;
                }
            }
            vp_assert(query(r, &files, k), 71);
        }
    }
    vp_reach(1);
    // at the end every live span answers every query
    for r in &live {
        for k in 0..5 {
            vp_assert(query(r, &files, k), 72);
        }
        vp_note(r.hi as u64);
    }
    // each text is its own file
    let mut n = 0;
    while n + 1 < live.len() {
        let (x, y) = (&live[n], &live[n + 1]);
        vp_assert((x.sp.file() == y.sp.file()) == (x.file == y.file), 73);
        vp_assert(x.sp.join(y.sp).is_some() == (x.file == y.file), 74);
        n += 1;
    }
    if live.len() > 2 {
        let (x, y) = (&live[0], &live[live.len() - 1]);
        vp_assert((x.sp.file() == y.sp.file()) == (x.file == y.file), 73);
    }
    let _ = base;
    let cs = Span::call_site();
    vp_assert(cs.byte_range() == (0..0) && cs.source_text().is_none(), 75);
    for r in &live {
        vp_assert(cs.file() != r.sp.file(), 76);
    }
}

/// C14, order of queries. param0: number of queries before the final ones; then one text.
/// Any sequence of queries on the spans of one text, then every span from first to last or from
/// last to first.
pub fn h_order() {
    let n = vp_param(0);
    let mut i = 1;
    let s = template(&mut i);
    let r = lex(&s.b);
    let mut live = vec![];
    let mut pos = 0;
    match s.str().parse::<TokenStream>() {
        Ok(ts) => {
            if r.err.is_some() || !collect(ts, &r.toks, &mut pos, r.toks.len(), 0, &mut live) {
                return;
            }
        }
        Err(_) => return,
    }
    let files = vec![s];
    if live.is_empty() {
        return;
    }
    for _ in 0..n {
        let k = vp_choice(live.len() as u64) as usize;
        vp_assert(query(&live[k], &files, 0), 77);
    }
    vp_reach(1);
    let back = vp_choice(2) == 1;
    for k in 0..live.len() {
        let r = &live[if back { live.len() - 1 - k } else { k }];
        vp_assert(query(r, &files, 1), 78);
        vp_assert(query(r, &files, 0), 79);
        vp_note(r.hi as u64);
    }
}

/// C15 join: two texts; any two spans
pub fn h_join() {
    let mut i = 0;
    let t1 = template(&mut i);
    let t2 = template(&mut i);
    let mut live = vec![];
    let files = vec![t1, t2];
    for f in 0..2 {
        let r = lex(&files[f].b);
        let mut pos = 0;
        match files[f].str().parse::<TokenStream>() {
            Ok(ts) => {
                if r.err.is_some() || !collect(ts, &r.toks, &mut pos, r.toks.len(), f, &mut live) {
                    return;
                }
            }
            Err(_) => return,
        }
    }
    if live.is_empty() {
        return;
    }
    let n = live.len() as u64;
    let x = live[vp_choice(n) as usize].clone();
    let k = vp_choice(n + 1);
    vp_reach(1);
    if k == n {
        let cs = Span::call_site();
        vp_assert(x.sp.join(cs).is_none() && cs.join(x.sp).is_none(), 80);
        vp_assert(cs.join(cs).is_some(), 81);
        #[cfg(feature = "exempt")]
        vp_assert(cs.eq(&cs) && cs.eq(&Span::mixed_site()) && cs.eq(&Span::def_site()) && !x.sp.eq(&cs) && !cs.eq(&x.sp), 95);
        return;
    }
    let y = live[k as usize].clone();
    let b = &files[x.file].b;
    #[cfg(feature = "exempt")]
    vp_assert(x.sp.eq(&y.sp) == (x.file == y.file && x.lo == y.lo && x.hi == y.hi), 96);
    match x.sp.join(y.sp) {
        Some(j) => {
            vp_assert(x.file == y.file, 82);
            let (lo, hi) = (x.lo.min(y.lo), x.hi.max(y.hi));
            vp_assert(span_ok(j, b, lo, hi), 83);
            vp_note(hi as u64);
        }
        None => vp_assert(x.file != y.file, 84),
    }
    let c = &files[y.file].b;
    vp_assert(span_ok(x.sp.located_at(y.sp), c, y.lo, y.hi), 85);
    vp_assert(span_ok(x.sp.resolved_at(y.sp), b, x.lo, x.hi), 86);
    // three-way join is order independent
    if x.file == y.file {
        if let (Some(p), Some(q)) = (x.sp.join(y.sp), y.sp.join(x.sp)) {
            vp_assert(p.byte_range() == q.byte_range(), 87);
        }
    }
}

/// C15 subspan: literal text from the template, bounds symbolic
/// param0: number of earlier parsed texts; param1: 0 = token of a stream
/// (after a prefix of param2 bytes), 1 = Literal::from_str
pub fn h_subspan() {
    let pre = vp_param(0);
    let how = vp_param(1);
    let mut i = 2;
    let before = template(&mut i);
    let lit = template(&mut i);
    for _ in 0..pre {
        let _ = "abc".parse::<TokenStream>();
    }
    let mut all = before.b.clone();
    all.extend_from_slice(&lit.b);
    let src = Src { b: all };
    let l = if how == 1 {
        Literal::from_str(lit.str()).ok()
    } else {
        match src.str().parse::<TokenStream>() {
            Ok(ts) => match ts.into_iter().last() {
                Some(TokenTree::Literal(l)) => Some(l),
                _ => None,
            },
            Err(_) => None,
        }
    };
    let l = match l {
        Some(l) => l,
        None => return,
    };
    // the whole template must be this one literal
    if !same(l.to_string().as_bytes(), &lit.b) {
        return;
    }
    let at = if how == 1 { 0 } else { before.b.len() };
    let n = lit.b.len() as u128;
    let mut w = [0u8; 16];
    vp_sym(w.as_mut_ptr(), 16, 0);
    let a = usize::from_le_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]);
    let z = usize::from_le_bytes([w[8], w[9], w[10], w[11], w[12], w[13], w[14], w[15]]);
    let (sb, lo) = match vp_choice(3) {
        0 => (Bound::Unbounded, 0),
        1 => (Bound::Included(a), a as u128),
        _ => (Bound::Excluded(a), a as u128 + 1),
    };
    let (eb, hi) = match vp_choice(3) {
        0 => (Bound::Unbounded, n),
        1 => (Bound::Included(z), z as u128 + 1),
        _ => (Bound::Excluded(z), z as u128),
    };
    let want = (lo <= hi) & (hi <= n);
    match l.subspan((sb, eb)) {
        Some(sp) => {
            vp_reach(1);
            vp_assert(want, 90);
            // the same bounds, one value each: the queries below then run on known offsets
            let fix = |x: u128| -> usize {
                let mut k = 0;
                while k as u128 != x && k < lit.b.len() {
                    k += 1;
                }
                k
            };
            let (lo, hi) = (fix(lo), fix(hi));
            let one = |b: Bound<usize>, inc: usize, exc: usize| match b {
                Bound::Unbounded => Bound::Unbounded,
                Bound::Included(_) => Bound::Included(inc),
                Bound::Excluded(_) => Bound::Excluded(exc),
            };
            let sp = match l.subspan((one(sb, lo, lo.wrapping_sub(1)), one(eb, hi.wrapping_sub(1), hi))) {
                Some(sp) => sp,
                None => {
                    vp_assert(false, 95);
                    return;
                }
            };
            let r = sp.byte_range();
            vp_assert((r.start == at + lo) & (r.end == at + hi), 91);
            if lo < hi {
                match sp.source_text() {
                    Some(t) => vp_assert(same(t.as_bytes(), &lit.b[lo..hi]), 92),
                    None => vp_assert(false, 93),
                }
            }
        }
        None => {
            vp_reach(2);
            vp_assert(!want, 94);
        }
    }
}

/// C14: texts and one query, an invalidation, then other texts; every span of
/// those is then asked everything.
/// params: texts before, texts after, number of choices, the choices
pub fn h_inval() {
    let before = vp_param(0);
    let after = vp_param(1);
    let ntext = vp_param(2);
    let mut i = 3;
    let mut texts = vec![];
    for _ in 0..ntext {
        texts.push(template(&mut i));
    }
    let mut files: Vec<Src> = vec![];
    let mut live: Vec<Rec> = vec![];
    let parse = |files: &mut Vec<Src>, live: &mut Vec<Rec>| -> bool {
        let src = Src { b: texts[vp_choice(ntext) as usize].b.clone() };
        let r = lex(&src.b);
        let file = files.len();
        match src.str().parse::<TokenStream>() {
            Ok(ts) => {
                let mut pos = 0;
                if r.err.is_some() || !collect(ts, &r.toks, &mut pos, r.toks.len(), file, live) {
                    return false;
                }
            }
            Err(_) => return false,
        }
        files.push(src);
        true
    };
    for _ in 0..before {
        if !parse(&mut files, &mut live) {
            return;
        }
    }
    if !live.is_empty() {
        let r = &live[vp_choice(live.len() as u64) as usize];
        vp_assert(query(r, &files, vp_choice(5)), 71);
    }
    extra::invalidate_current_thread_spans();
    files.clear();
    live.clear();
    for _ in 0..after {
        if !parse(&mut files, &mut live) {
            return;
        }
    }
    vp_reach(1);
    // one query first, so that each kind meets the state the old texts left
    if !live.is_empty() {
        let r = &live[vp_choice(live.len() as u64) as usize];
        let k = vp_choice(5);
        vp_assert(query(r, &files, k), 77);
    }
    for r in &live {
        for k in 0..5 {
            vp_assert(query(r, &files, k), 72);
        }
        for x in &live {
            vp_assert((x.sp.file() == r.sp.file()) == (x.file == r.file), 73);
            vp_assert(x.sp.join(r.sp).is_some() == (x.file == r.file), 74);
        }
        vp_note(r.hi as u64);
    }
}

fn parse_rec(t: &Src, files: &mut Vec<Src>, live: &mut Vec<Rec>) -> bool {
    let src = Src { b: t.b.clone() };
    let r = lex(&src.b);
    let file = files.len();
    match src.str().parse::<TokenStream>() {
        Ok(ts) => {
            let mut pos = 0;
            if r.err.is_some() || !collect(ts, &r.toks, &mut pos, r.toks.len(), file, live) {
                return false;
            }
        }
        Err(_) => return false,
    }
    files.push(src);
    true
}
fn all_right(files: &[Src], live: &[Rec]) {
    for r in live {
        for k in 0..5 {
            vp_assert(query(r, files, k), 78);
        }
        for x in live {
            vp_assert((x.sp.file() == r.sp.file()) == (x.file == r.file), 73);
            vp_assert(x.sp.join(r.sp).is_some() == (x.file == r.file), 74);
        }
    }
}
/// C14: what another thread does in between makes no difference.
/// params: steps of the other thread, texts before, texts after, number of choices, the choices
pub fn h_threads() {
    let steps = vp_param(0);
    let before = vp_param(1);
    let after = vp_param(2);
    let ntext = vp_param(3);
    let mut i = 4;
    let mut texts = vec![];
    for _ in 0..ntext {
        texts.push(template(&mut i));
    }
    let pick = || &texts[vp_choice(ntext) as usize];
    let mut files: Vec<Src> = vec![];
    let mut live: Vec<Rec> = vec![];
    for _ in 0..before {
        if !parse_rec(pick(), &mut files, &mut live) {
            return;
        }
    }
    if !live.is_empty() && vp_choice(2) == 1 {
        let r = &live[vp_choice(live.len() as u64) as usize];
        vp_assert(query(r, &files, vp_choice(5)), 71);
    }
    let names: Vec<String> = live.iter().map(|r| r.sp.file()).collect();
    let shared = &texts;
    vp_thread(move || {
        let mut files: Vec<Src> = vec![];
        let mut live: Vec<Rec> = vec![];
        for _ in 0..steps {
            match vp_choice(3) {
                0 => {
                    if !parse_rec(&shared[vp_choice(ntext) as usize], &mut files, &mut live) {
                        return;
                    }
                }
                1 => {
                    extra::invalidate_current_thread_spans();
                    live.clear();
                }
                _ => all_right(&files, &live),
            }
        }
        all_right(&files, &live);
    });
    for _ in 0..after {
        if !parse_rec(pick(), &mut files, &mut live) {
            return;
        }
    }
    vp_reach(1);
    for (r, n) in live.iter().zip(&names) {
        vp_assert(r.sp.file() == *n, 79);
    }
    all_right(&files, &live);
    for r in &live {
        vp_note(r.hi as u64);
    }
}

/// C14: very many texts on one thread. params: how many, invalidate after so many (0: never),
/// number of choices, the texts (they follow each other in turn)
pub fn h_many() {
    let n = vp_param(0);
    let inval = vp_param(1);
    let ntext = vp_param(2);
    let mut i = 3;
    let mut texts = vec![];
    for _ in 0..ntext {
        texts.push(template(&mut i));
    }
    let lexed: Vec<_> = texts.iter().map(|t| lex(&t.b)).collect();
    if lexed.iter().any(|r| r.err.is_some()) {
        return;
    }
    let mut live: Vec<Rec> = vec![];
    // Rec::file counts the texts, the text is file % ntext
    let right = |r: &Rec, kind: u64| {
        let q = Rec { sp: r.sp, file: r.file % ntext as usize, lo: r.lo, hi: r.hi };
        vp_assert(query(&q, &texts, kind), 71);
    };
    for f in 0..n as usize {
        let k = f % ntext as usize;
        let ts = match texts[k].str().parse::<TokenStream>() {
            Ok(t) => t,
            Err(_) => return,
        };
        let mut pos = 0;
        if !collect(ts, &lexed[k].toks, &mut pos, lexed[k].toks.len(), f, &mut live) {
            return;
        }
        // early spans are asked for at every age
        if f % 16 == 0 && !live.is_empty() && n < 10000 {
            right(&live[0], 0);
            right(&live[live.len() / 2], 2);
        }
        if f as u64 + 1 == inval {
            extra::invalidate_current_thread_spans();
            live.clear();
        }
    }
    vp_reach(1);
    if n > 10000 {
        // the first, the last, and the ones around round numbers
        live.retain(|r| r.file < 300 || r.file as u64 + 300 > n || (r.file & 0x3fff) < 4 || (r.file & 0x3fff) > 0x3ffb);
    }
    for r in &live {
        for k in 0..4 {
            right(r, k);
        }
    }
    let mut prev = None::<(usize, String)>;
    for r in live.iter().rev() {
        right(r, 0);
        right(r, 3);
        let name = r.sp.file();
        if let Some((f, n)) = prev {
            vp_assert((f == r.file) == (n == name), 73);
        }
        prev = Some((r.file, name));
    }
    if let (Some(r), Some((_, first))) = (live.last(), prev) {
        vp_assert((r.sp.file() == first) == (r.file == live[0].file), 73);
    }
    for w in live.windows(2) {
        vp_assert(w[0].sp.join(w[1].sp).is_some() == (w[0].file == w[1].file), 74);
    }
    for d in [16, 64, 255, 256, 257, 1024, live.len().saturating_sub(1)] {
        if d < live.len() && live[0].file != live[d].file {
            vp_assert(live[0].sp.join(live[d].sp).is_none(), 74);
            vp_assert(live[0].sp.file() != live[d].sp.file(), 73);
        }
    }
    if !live.is_empty() {
        // any of them, once more
        let r = &live[vp_choice(live.len() as u64) as usize];
        right(r, 1);
        vp_note(r.hi as u64);
    }
}

/// what a hash is made of
struct Fed(Vec<u8>);
impl std::hash::Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn fed(p: &LineColumn) -> Vec<u8> {
    let mut h = Fed(Vec::new());
    std::hash::Hash::hash(p, &mut h);
    h.0
}
fn word() -> usize {
    let mut b = [0u8; 8];
    vp_sym(b.as_mut_ptr(), 8, 0);
    u64::from_le_bytes(b) as usize
}

/// C26: positions with any numbers
pub fn h_linecol() {
    let p = LineColumn { line: word(), column: word() };
    let q = LineColumn { line: word(), column: word() };
    vp_reach(1);
    let lt = (p.line < q.line) | ((p.line == q.line) & (p.column < q.column));
    let eq = (p.line == q.line) & (p.column == q.column);
    let want = if eq { Ordering::Equal } else if lt { Ordering::Less } else { Ordering::Greater };
    vp_assert(p.cmp(&q) == want, 600);
    vp_assert(q.cmp(&p) == want.reverse(), 601);
    vp_assert(p.partial_cmp(&q) == Some(want), 602);
    vp_assert(((p < q) == lt) & ((p <= q) == (lt | eq)) & ((p > q) == !(lt | eq)) & ((p >= q) == !lt), 603);
    vp_assert(((p == q) == eq) & ((p != q) == !eq), 604);
    let (lo, hi) = (p.min(q), p.max(q));
    let (a, b) = if lt | eq { (p, q) } else { (q, p) };
    vp_assert((lo.line == a.line) & (lo.column == a.column) & (hi.line == b.line) & (hi.column == b.column), 605);
    let mut v = [q, p];
    v.sort();
    vp_assert((v[0].line == a.line) & (v[0].column == a.column) & (v[1].line == b.line) & (v[1].column == b.column), 606);
    let (x, y) = (fed(&p), fed(&q));
    if eq {
        vp_assert(crate::cmp::same(&x, &y), 607);
    } else {
        vp_assert(!crate::cmp::same(&x, &y), 608);
    }
    let c = p.clone();
    vp_assert((c.line == p.line) & (c.column == p.column), 609);
    // order is transitive
    let r = LineColumn { line: word(), column: word() };
    vp_assert(!((p < q) & (q < r)) | (p < r), 610);
}

/// C26: every two positions of one text
pub fn h_positions() {
    let mut i = 0;
    let s = template(&mut i);
    if let Ok(ts) = s.str().parse::<TokenStream>() {
        vp_reach(1);
        let mut at = Vec::with_capacity(16);
        corners(ts, &mut at);
        for x in &at {
            for y in &at {
                let want = x.0.cmp(&y.0);
                vp_assert(x.1.cmp(&y.1) == want, 620);
                vp_assert(y.1.partial_cmp(&x.1) == Some(want.reverse()), 621);
                vp_assert((x.1 == y.1) == (want == Ordering::Equal), 622);
                vp_assert((x.1 < y.1) == (x.0 < y.0), 623);
            }
        }
        let mut v: Vec<(LineColumn, usize)> = at.iter().map(|x| (x.1, x.0)).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        for k in 1..v.len() {
            vp_assert(v[k - 1].1 <= v[k].1, 624);
        }
        vp_note(v.len() as u64);
    }
}
