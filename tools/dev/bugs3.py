bug('e01-byte-boundary','C01',[(P,"    if !input.chars().as_str().is_char_boundary(offset) {\n        return Err(Reject);\n    }\n","    if input.as_bytes()[offset] >= 0xc0 {\n        return Err(Reject);\n    }\n")],
 'a byte literal holding a character of two or more bytes','parsing `b\'é` panics: a slice inside a character',
 ACC+'''fn main() { assert_eq!(toks("b'\\u{e9}'"), None); assert_eq!(toks("b'\\u{2028}'"), None); }''')
bug('e02-cr-prefix','C04',[(P,'"cr\\"", "cr#",','"cr\\"",')],
 '`cr#` that does not begin a C string','`cr#x` lexes as `cr`, `#`, `x`',
 ACC+'''fn main() { assert_eq!(toks("cr#x"), None); }''')
bug('e03-joint-quote','C05',[(P,"        let kind = match punct_char(rest) {\n            Ok(_) => Spacing::Joint,","        let kind = match punct_char(rest) {\n            Ok((_, '\\'')) if character(rest).is_ok() => Spacing::Alone,\n            Ok(_) => Spacing::Joint,")],
 'punctuation directly before a character literal',"`+'a'` gives an Alone `+`",
 ACC+'''fn main() { let t: TokenStream = "+'a'".parse().unwrap(); match t.into_iter().next().unwrap() { TokenTree::Punct(p) => assert_eq!(p.spacing(), Spacing::Joint), _ => panic!() } }''')
bug('e04-exp-sign','C06',[(P,"                    if has_sign {\n                        return token_before_exp;","                    if has_sign {\n                        return Err(Reject);")],
 'a float with a fraction and an exponent with two signs','`1.0e++1` does not lex as `1.0e`',
 ACC+'''fn main() { assert_eq!(toks("1.5e+-2").unwrap()[0], "1.5e"); }''')
bug('e05-u-leading','C07',[(P,"        if len == 6 {\n            break;\n        }\n        value *= 0x10;","        if value > 0x10FFF {\n            break;\n        }\n        value *= 0x10;")],
 'a \\u escape of more than six digits with leading zeros','"\\u{0000041}" is accepted',
 ACC+'''fn main() { assert_eq!(toks("\\"\\\\u{0000041}\\""), None); assert!(toks("\\"\\\\u{10FFFF}\\"").is_some()); }''')
bug('e06-bytestr-cont','C07',[(P,"                    trailing_backslash(&mut input, b)?;\n                    bytes","                    let _ = b;\n                    trailing_backslash(&mut input, b'\\n')?;\n                    bytes")],
 'a line continuation in a byte string with a bare carriage return','b"\\<CR>x" is accepted',
 ACC+'''fn main() { assert_eq!(toks("b\\"\\\\\\rx\\""), None); assert!(toks("b\\"\\\\\\r\\nx\\"").is_some()); }''')
bug('e07-delim-bits','C08',[(P,"    let mut stack = Vec::new();\n","    let mut stack = Vec::new();\n    let mut open = 0u128; // two bits for each open delimiter\n"),
 (P,"            let frame = (open_delimiter, tokens);\n","            open = open << 2 | open_delimiter as u128;\n            let frame = (open_delimiter, tokens);\n"),
 (P,"            if open_delimiter != close_delimiter {\n                return Err(lex_error(input));\n            }\n","            if open & 3 != close_delimiter as u128 {\n                return Err(lex_error(input));\n            }\n            open >>= 2;\n")],
 'delimiters nested more than 64 deep','brackets or braces nested over 64 levels deep are rejected, and mismatched ones accepted',
 ACC+'''fn main() { for n in [10, 64, 65, 200] { assert!(toks(&("[".repeat(n) + &"]".repeat(n))).is_some()); assert!(toks(&("[".repeat(n) + &")".repeat(n))).is_none()); } }''')
bug('e08-print-quote','C09',[(F,"                TokenTree::Punct(tt) => {\n                    joint = tt.spacing() == Spacing::Joint;","                TokenTree::Punct(tt) => {\n                    joint = tt.spacing() == Spacing::Joint && i + 1 != self.inner.len();\n                    joint |= tt.as_char() == '.' && i != 0 && self.inner.len() > 4;")],
 'a stream of more than four tokens with an Alone `.`','`a . b c d` prints as `a .b c d`',
 ACC+'''fn main() { let t: TokenStream = "a . b c d".parse().unwrap(); assert_eq!(t.to_string(), "a . b c d"); }''')
bug('e09-string-crlf','C10',[(F,"        } else if ch == '\\'' {\n            // escape_debug turns this into \"\\'\" which is unnecessary.","        } else if ch == '\\'' || (ch == '\\r' && chars.as_str().starts_with('\\n')) {\n            // escape_debug turns this into \"\\'\" which is unnecessary.")],
 'a string holding a carriage return right before a newline','the carriage return is written raw, which a compiler reads as the line break',
 ACC+'''fn main() { assert!(!Literal::string("a\\r\\n").to_string().contains('\\r')); }''')
bug('e10-usize32','C11',[(F,"""            Literal::_new(n.to_string())
        }""","""            if core::mem::size_of::<$kind>() < 16 {
                return Literal::_new((n as i64).to_string());
            }
            Literal::_new(n.to_string())
        }""")],
 'an unsuffixed u64 or usize of 2^63 or more','large unsigned values print negative',
 ACC+'''fn main() { assert_eq!(Literal::u64_unsuffixed(u64::MAX).to_string(), u64::MAX.to_string()); }''')
bug('e11-float-large','C11',[(F,"""    pub(crate) fn f64_unsuffixed(f: f64) -> Literal {
        let mut s = f.to_string();
        if !s.contains('.') {""","""    pub(crate) fn f64_unsuffixed(f: f64) -> Literal {
        let mut s = f.to_string();
        if (f as i64) as f64 == f {""")],
 'an integral f64 beyond the range of i64','1e300 prints without a decimal point',
 ACC+'''fn main() { assert!(Literal::f64_unsuffixed(1e300).to_string().contains('.')); }''')
bug('e12-lit-bom','C12',[(F,"        let negative = cursor.starts_with_char('-');\n","        if cursor.starts_with_char('\\u{feff}') {\n            cursor = cursor.advance(3);\n        }\n        let negative = cursor.starts_with_char('-');\n")],
 'a byte order mark before a literal','"<BOM>1" parses as a Literal',
 ACC+'''fn main() { assert!("\\u{feff}1".parse::<Literal>().is_err()); }''')
bug('e13-unclosed-first','C13',[(P,"            return match stack.last() {","            return match stack.first() {")],
 'two unclosed delimiters','the error points at the outermost instead of the innermost unclosed delimiter',
 ACC+'''fn main() { let e = "( [ x".parse::<TokenStream>().unwrap_err(); assert_eq!(e.span().byte_range(), 2..2); }''')
bug('e14-hint','C14',[(F,"struct SourceMap {\n    files: Vec<FileInfo>,\n}","struct SourceMap {\n    files: Vec<FileInfo>,\n    last: core::cell::Cell<(u32, u32, usize)>,\n}"),
 (F,"            char_index_to_byte_offset: BTreeMap::new(),\n        }],\n    });","            char_index_to_byte_offset: BTreeMap::new(),\n        }],\n        last: core::cell::Cell::new((0, 0, 0)),\n    });"),
 (F,"    fn find(&self, span: Span) -> usize {\n        match self","    fn find(&self, span: Span) -> usize {\n        let (lo, hi, i) = self.last.get();\n        if (lo, hi) == (span.lo, span.hi) && i < self.files.len() {\n            return i;\n        }\n        let i = self.search(span);\n        self.last.set((span.lo, span.hi, i));\n        i\n    }\n\n    fn search(&self, span: Span) -> usize {\n        match self")],
 'the same span positions queried before and after invalidate_current_thread_spans','a cached file index survives the invalidation',
 ACC+'''fn sp(s: &str) -> Vec<Span> { s.parse::<TokenStream>().unwrap().into_iter().map(|t| t.span()).collect() }
fn main() { sp("a"); let s = sp("b"); assert_eq!(s[0].source_text().unwrap(), "b"); extra::invalidate_current_thread_spans(); let v = sp("x y z"); sp("q"); assert_eq!(v[1].file(), "<parsed string 1>"); }''')
bug('e15-subspan-inverted','C15',[(F,"            if lo <= hi && hi <= self.span.hi {","            if lo <= self.span.hi && hi <= self.span.hi {")],
 'a subspan range whose start is after its end','an inverted range yields a span',
 ACC+'''fn main() { let t: TokenStream = "\\"abcdef\\"".parse().unwrap(); match t.into_iter().next().unwrap() { TokenTree::Literal(l) => { #[allow(clippy::reversed_empty_ranges)] let r = l.subspan(4..2); assert!(r.is_none()); } _ => panic!() } }''')
bug('e16-raw-prefix-eq','C16',[(F,"            other.starts_with(\"r#\") && *self.sym == other[2..]","            other.trim_start_matches(\"r#\") == &*self.sym && other.len() != self.sym.len()")],
 'comparing a raw identifier with a string that has the prefix twice','r#a == "r#r#a"',
 ACC+'''fn main() { assert!(!(Ident::new_raw("a", Span::call_site()) == "r#r#a")); assert!(Ident::new_raw("a", Span::call_site()) == "r#a"); assert!(!(Ident::new_raw("a", Span::call_site()) == "a")); }''')
bug('e17-ord-raw','C16',[(L,"        self.to_string().cmp(&other.to_string())","        let (a, b) = (self.to_string(), other.to_string());\n        a.trim_start_matches(\"r#\")\n            .cmp(b.trim_start_matches(\"r#\"))\n            .then_with(|| a.cmp(&b))")],
 'ordering a raw identifier against one that sorts between','r#a sorts before b although "b" < "r#a"',
 ACC+'''fn main() { assert!(Ident::new_raw("a", Span::call_site()) > Ident::new("b", Span::call_site())); }''')
bug('e18-collect-first','C17',[(F,"        let mut v = RcVecBuilder::new();\n\n        for stream in streams {\n            v.extend(stream.take_inner());\n        }\n\n        TokenStream { inner: v.build() }","        let mut streams = streams.into_iter();\n        let mut first = match streams.next() {\n            Some(first) => first,\n            None => return TokenStream::new(),\n        };\n        match first.inner.get_mut() {\n            Some(mut v) => v.extend(streams.flatten()),\n            None if streams.size_hint() == (0, Some(0)) => {}\n            None => return streams.collect(),\n        }\n        first")],
 'collecting streams the first of which is shared, without the proc-macro feature','a shared first stream is lost when streams are collected',
 ACC+'''fn main() { let a: TokenStream = "a".parse().unwrap(); let k = a.clone(); let s: TokenStream = vec![a, "b".parse().unwrap()].into_iter().collect(); assert_eq!(s.to_string(), "a b"); drop(k); }''', feat=', default-features = false, features = ["span-locations"]')
bug('e19-iter-fold','C17',[(RV,"    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.inner.size_hint()\n    }","    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.inner.size_hint()\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        self.inner.by_ref().take(n).for_each(drop);\n        self.inner.next()\n    }\n\n    fn fold<B, G>(self, init: B, f: G) -> B\n    where\n        G: FnMut(B, Self::Item) -> B,\n    {\n        self.inner.rev().fold(init, f)\n    }")],
 'consuming a token iterator by an adaptor that folds (for_each, extend of a chain)','internal iteration visits the tokens in reverse',
 ACC+'''fn main() { let t: TokenStream = "a b".parse().unwrap(); let g: TokenStream = [TokenStream::new(), t].into_iter().flatten().collect(); assert_eq!(g.to_string(), "a b"); let mut s = TokenStream::new(); s.extend(g.into_iter().map(TokenStream::from)); assert_eq!(s.to_string(), "a b"); }''')
bug('e20-drop-single','C18',[(F,"                if let Some(inner) = group.stream.inner.get_mut() {\n                    stack.push(current);","                if group.delimiter == Delimiter::None && group.stream.inner.len() == 1 {\n                    continue; // nothing to flatten\n                }\n                if let Some(inner) = group.stream.inner.get_mut() {\n                    stack.push(current);")],
 'a deep chain of invisible groups of one token','dropping nested invisible groups recurses',
 ACC+'''fn main() { std::thread::Builder::new().stack_size(1 << 18).spawn(|| { let mut s = TokenStream::new(); for _ in 0..100000 { s = TokenStream::from(TokenTree::from(Group::new(Delimiter::None, s))); } drop(s); }).unwrap().join().unwrap(); }''')
bug('e21-clone-drop','C18',[(F,"                if let Some(inner) = group.stream.inner.get_mut() {\n                    stack.push(current);\n                    current = inner.take().into_iter();\n                }","                if current.size_hint().0 > 0 {\n                    if let Some(inner) = group.stream.inner.get_mut() {\n                        stack.push(current);\n                        current = inner.take().into_iter();\n                    }\n                } else if stack.is_empty() {\n                    if let Some(inner) = group.stream.inner.get_mut() {\n                        current = inner.take().into_iter();\n                    }\n                }")],
 'deep nesting where groups followed by a token and groups that come last alternate','dropping recurses once a sibling is pending',
 ACC+'''fn main() { std::thread::Builder::new().stack_size(1 << 18).spawn(|| { let n = 100000; let t: TokenStream = ("((".repeat(n) + &") x)".repeat(n)).parse().unwrap(); drop(t); }).unwrap().join().unwrap(); }''')
EX=dict(feat='', env='RUSTFLAGS="--cfg procmacro2_semver_exempt" ')
bug('e22-cont-ff','C19',[(X,"        .position(|b| b != b' ' && b != b'\\t' && b != b'\\n' && b != b'\\r')","        .position(|b| !b.is_ascii_whitespace())")],
 'a form feed after a line continuation','the form feed is skipped from the value',
 ACC+'''fn main() { let l: Literal = "\\"\\\\\\n\\u{c}x\\"".parse().unwrap(); assert_eq!(l.str_value().unwrap(), "\\u{c}x"); }''', **EX)
bug('e23-warn-fatal','C19',[(X,"            EscapeError::UnskippedWhitespaceWarning | EscapeError::MultipleSkippedLinesWarning","            EscapeError::MultipleSkippedLinesWarning")],
 'a line continuation followed by a non-ASCII space','a literal with a warning only is refused',
 ACC+'''fn main() { let l: Literal = "\\"\\\\\\n\\u{a0}x\\"".parse().unwrap(); assert_eq!(l.str_value().unwrap(), "\\u{a0}x"); }''', **EX)
bug('e24-raw-pounds','C19',[(L,"        && repr.trim_end_matches('#').len() + pounds == repr.len()\n","        && repr[repr.len() - pounds..].bytes().all(|b| b == b'#')\n")],
 'a raw string without pounds ... ','...',
 ACC+'''fn main() { let l: Literal = "r\\"a\\"x".parse().unwrap(); assert!(l.str_value().is_err()); panic!() }''', **EX)
pbug('e25-located','C20',[(WR,"            (Span::Compiler(a), Span::Compiler(b)) => Span::Compiler(a.located_at(b)),","            (Span::Compiler(a), Span::Compiler(b)) => Span::Compiler(b.resolved_at(*a).located_at(*a)),")],
 'located_at inside a procedural macro','located_at keeps the own location',
 '''fn check(t: TokenStream) { let v: Vec<_> = t.into_iter().collect(); let s = v[0].span().located_at(v[2].span()); assert_eq!(s.source_text(), v[2].span().source_text()); assert_ne!(s.source_text(), v[0].span().source_text()); }''')
pbug('e26-punct-span','C20',[(WR,"            punct.set_span(tt.span().inner.unwrap_nightly());\n","            if tt.spacing() == Spacing::Alone {\n                punct.set_span(tt.span().inner.unwrap_nightly());\n            }\n")],
 'a Joint punct handed to the compiler','a Joint punct loses its span',
 '''fn check(t: TokenStream) { let sp = t.into_iter().next().unwrap().span(); let mut p = Punct::new('+', Spacing::Joint); p.set_span(sp); let s = TokenStream::from(TokenTree::from(p)); assert_eq!(s.into_iter().next().unwrap().span().source_text(), sp.source_text()); }''')
pbug('e27-raw-str','C20',[(WR,"            Ident::Compiler(t) => t.to_string() == other,","            Ident::Compiler(t) => t.to_string().trim_start_matches(\"r#\") == other.trim_start_matches(\"r#\"),")],
 'comparing a raw identifier with a string inside a procedural macro','r#fn == "fn"',
 '''fn check(_t: TokenStream) { assert!(!(Ident::new_raw("fn", Span::call_site()) == "fn")); }''')
pbug('e28-unforce-cached','C21',[(D,"pub(crate) fn unforce_fallback() {\n    initialize();\n}","pub(crate) fn unforce_fallback() {\n    if WORKS.load(Ordering::Relaxed) != 0 {\n        WORKS.store(0, Ordering::Relaxed);\n    }\n    inside_proc_macro();\n}")],
 'unforce before ... ','..',
 '''fn check(_t: TokenStream) { panic!() }''')
bug('e29-plain-suffix','C22',[(P,"fn literal_suffix(input: Cursor) -> Cursor {\n","fn literal_suffix(input: Cursor) -> Cursor {\n    #[cfg(span_locations)]\n    if input.starts_with_char('_') {\n        // Not a suffix anyone uses: keep the span tight.\n        return input;\n    }\n")],
 'a quoted literal with a suffix that starts with an underscore','with span-locations the suffix of "x"_a is a separate token',
 ACC+'''fn main() { assert_eq!(toks("\\"x\\"_a").unwrap().len(), 1); }''')
bug('e30-wrap-shebang','C22',[(WR,"            Ok(TokenStream::Fallback(\n                fallback::TokenStream::from_str_checked(src)?,\n            ))","            let src = match src.strip_prefix(\"#!\") {\n                Some(rest) if !rest.trim_start().starts_with('[') => {\n                    rest.find('\\n').map_or(\"\", |n| &rest[n..])\n                }\n                _ => src,\n            };\n            Ok(TokenStream::Fallback(\n                fallback::TokenStream::from_str_checked(src)?,\n            ))")],
 'a text starting with `#!` and the proc-macro feature','with the proc-macro feature a shebang line is dropped, without it it is lexed',
 ACC+'''fn main() { assert_eq!(toks("#!a\\nb").unwrap(), ["#", "!", "a", "b"]); }''')
bug('e31-group-span','C23',[(F,"""            delimiter,
            stream,
            span: Span::call_site(),
        }""","""            delimiter,
            span: match stream.inner.iter().next() {
                #[cfg(not(wrap_proc_macro))]
                Some(TokenTree::Group(first)) if stream.inner.len() == 1 => first.inner.span(),
                #[cfg(wrap_proc_macro)]
                Some(TokenTree::Group(crate::Group {
                    inner: crate::imp::Group::Fallback(first),
                })) if stream.inner.len() == 1 => first.span(),
                _ => Span::call_site(),
            },
            stream,
        }""")],
 'a Group built around a stream that is one group','a group around a single group takes its span instead of the call site',
 ACC+'''fn main() { let t: TokenStream = "(a)".parse().unwrap(); assert!(Group::new(Delimiter::Brace, t).span().source_text().is_none()); }''')
bug('e32-tt-group-span','C23',[(L,"            TokenTree::Group(t) => t.set_span(span),\n            TokenTree::Ident(t) => t.set_span(span),","            TokenTree::Group(t) if t.delimiter() == Delimiter::None && !t.stream().is_empty() => {}\n            TokenTree::Group(t) => t.set_span(span),\n            TokenTree::Ident(t) => t.set_span(span),")],
 'TokenTree::set_span on a nonempty invisible group','the span is not set',
 ACC+'''fn main() { let t: TokenStream = "a b".parse().unwrap(); let sp = t.clone().into_iter().nth(1).unwrap().span(); let mut g = TokenTree::from(Group::new(Delimiter::None, t)); g.set_span(sp); assert_eq!(g.span().source_text().unwrap(), "b"); }''')
bug('e33-neg-span','C23',[(F,"        literal.repr.remove(0);\n        let mut punct","        literal.repr.remove(0);\n        #[cfg(span_locations)]\n        if !literal.span.is_call_site() {\n            literal.span.lo += 1;\n        }\n        let mut punct")],
 'a negative literal with a span of its own put into a stream','the digits lose the first character of their span',
 ACC+'''fn main() { let l: Literal = "-12".parse().unwrap(); let s = TokenStream::from(TokenTree::from(l)); let v: Vec<_> = s.into_iter().map(|t| t.span().source_text().unwrap()).collect(); assert_eq!(v, ["-12", "-12"]); }''')
bug('e34-ident-clone','C23',[(F,"#[derive(Clone)]\npub(crate) struct Ident {\n    sym: Box<str>,\n    span: Span,\n    raw: bool,\n}","pub(crate) struct Ident {\n    sym: Box<str>,\n    span: Span,\n    raw: bool,\n}\n\nimpl Clone for Ident {\n    fn clone(&self) -> Self {\n        if self.raw {\n            Ident::new_raw_unchecked(&self.sym, Span::call_site())\n        } else {\n            Ident::new_unchecked(&self.sym, self.span)\n        }\n    }\n}")],
 'cloning a raw identifier that has a span','the clone of a raw identifier is at the call site',
 ACC+'''fn main() { let t: TokenStream = "r#fn".parse().unwrap(); let t = t.into_iter().next().unwrap(); assert_eq!(t.clone().span().source_text().unwrap(), "r#fn"); }''')
DEMOT='''use std::time::Instant;
fn time(f: impl Fn()) -> f64 { let mut b = f64::MAX; for _ in 0..3 { let t = Instant::now(); f(); b = b.min(t.elapsed().as_secs_f64()); } b }
fn grows(f: impl Fn(usize)) { let mut n = 1000; loop { let (a, b) = (time(|| f(n)), time(|| f(4 * n))); if b > 0.25 || n > 40000 { assert!(b < 9.0 * a || b < 0.05, "{} {} {}", n, a, b); return; } n *= 2; } }
'''
bug('e35-byte-cache','C24',[(F,"        self.char_index_to_byte_offset\n            .insert(char_index, byte_offset);\n","        if self.char_index_to_byte_offset.len() < 1024 {\n            self.char_index_to_byte_offset\n                .insert(char_index, byte_offset);\n        }\n")],
 'asking for the source text of many tokens of one text','the index is bounded, so later queries count from far back',
 ACC+DEMOT+'''fn main() { grows(|n| { let t: TokenStream = "a b é c d ".repeat(n).parse().unwrap(); for t in t { std::hint::black_box(t.span().source_text()); } }); }''')
bug('e36-make-mut','C24',[(RV,"            inner: Rc::make_mut(&mut self.inner),","            inner: {\n                let copy = Vec::clone(&self.inner);\n                self.inner = Rc::new(copy);\n                Rc::make_mut(&mut self.inner)\n            },")],
 'extending a stream many times','every extend copies the stream',
 ACC+DEMOT+'''fn main() { grows(|n| { let mut s = TokenStream::new(); for _ in 0..n { s.extend(Some(TokenTree::from(Punct::new('+', Spacing::Alone)))); } }); }''')
bug('e37-reserve-exact','C24',[(RV,"    pub(crate) fn extend(&mut self, iter: impl IntoIterator<Item = T>) {\n        self.inner.extend(iter);\n    }\n\n    pub(crate) fn as_mut(&mut self) -> RcVecMut<T> {\n        RcVecMut { inner: self.inner }","    pub(crate) fn extend(&mut self, iter: impl IntoIterator<Item = T>) {\n        let extra: Vec<T> = iter.into_iter().collect();\n        let mut grown = Vec::with_capacity(self.inner.len() + extra.len());\n        grown.append(self.inner);\n        grown.extend(extra);\n        *self.inner = grown;\n    }\n\n    pub(crate) fn as_mut(&mut self) -> RcVecMut<T> {\n        RcVecMut { inner: self.inner }")],
 'extending a stream by streams many times','the vector grows by exactly what is needed, moving all tokens each time',
 ACC+DEMOT+'''fn main() { grows(|n| { let mut s = TokenStream::new(); for _ in 0..4 * n { s.extend(Some(TokenStream::from(TokenTree::from(Punct::new('+', Spacing::Alone))))); } }); }''')
bug('e38-cont-rescan','C24',[(P,"            '\"' => {\n                let input = input.advance(i + 1);\n                return Ok(literal_suffix(input));\n            }\n            '\\r' => match chars.next() {\n                Some((_, '\\n')) => {}\n                _ => break,\n            },\n            '\\\\' => match chars.next() {\n                Some((_, 'x')) => {\n                    backslash_x_char(&mut chars)?;","            '\"' => {\n                let input = input.advance(i + 1);\n                return Ok(literal_suffix(input));\n            }\n            '\\r' => match chars.next() {\n                Some((_, '\\n')) => {}\n                _ => break,\n            },\n            '\\\\' if !chars.as_str().contains('\"') => break, // unterminated\n            '\\\\' => match chars.next() {\n                Some((_, 'x')) => {\n                    backslash_x_char(&mut chars)?;")],
 'a long string full of escapes','each escape scans ahead to the closing quote',
 ACC+DEMOT+'''fn main() { grows(|n| { let s = format!("\\"{}\\"", "\\\\n".repeat(8 * n)); std::hint::black_box(toks(&s)); }); }''')
bug('e39-nested-len','C24',[(F,"        let (open, close) = match self.delimiter {\n            Delimiter::Parenthesis","        fn count(s: &TokenStream) -> usize {\n            s.clone()\n                .into_iter()\n                .map(|t| match t {\n                    #[cfg(not(wrap_proc_macro))]\n                    TokenTree::Group(g) => 1 + count(&g.inner.stream),\n                    _ => 1,\n                })\n                .sum()\n        }\n        if count(&self.stream) == 0 && self.delimiter == Delimiter::Parenthesis {\n            return f.write_str(\"()\");\n        }\n        let (open, close) = match self.delimiter {\n            Delimiter::Parenthesis")],
 'printing deeply nested groups without the proc-macro feature','printing counts all tokens below at every level',
 ACC+DEMOT+'''fn main() { std::thread::Builder::new().stack_size(2 << 30).spawn(|| grows(|n| { let t: TokenStream = ("(".repeat(n / 4) + &")".repeat(n / 4)).parse().unwrap(); std::hint::black_box(t.to_string()); })).unwrap().join().unwrap(); }''', feat=', default-features = false')
