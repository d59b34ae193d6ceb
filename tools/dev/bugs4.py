bug('f01-doc-eof','C01',[(P,"""input.starts_with("/**") && !input.rest[3..].starts_with('*')""","""input.starts_with("/**") && input.as_bytes()[3] != b'*'""")],
 'a text that ends right after `/**`','parsing `/**` panics',
 ACC+'''fn main() { assert_eq!(toks("/**"), None); assert_eq!(toks("a /**"), None); }''')
bug('f02-comment-find','C02',[(P,"""    let mut depth = 0usize;
    let bytes = input.as_bytes();
""","""    // Comments without another one inside need no counting.
    if let Some(end) = input.rest[2..].find("*/") {
        if !input.rest[2..end + 2].contains("/*") {
            return Ok((input.advance(end + 4), &input.rest[..end + 4]));
        }
    }

    let mut depth = 0usize;
    let bytes = input.as_bytes();
""")],
 'a slash right in front of the end of a comment nested in another','`/* /*/ */ */` ... ends at the wrong place',
 ACC+'''fn main() { assert_eq!(toks("/*/*/ a */*/ b").unwrap(), ["b"]); assert_eq!(toks("/* /*/ a */ x */ b").unwrap(), ["b"]); }''')
bug('f03-doc-last-cr','C03',[(P,"""        if !rest.starts_with('\\n') {
            return Err(Reject);
        }
        scan_for_bare_cr = rest;""","""        if !(inner && rest.is_empty()) && !rest.starts_with('\\n') {
            return Err(Reject);
        }
        scan_for_bare_cr = rest;""")],
 'an inner doc comment whose last character is a carriage return','a bare carriage return is accepted at the end of an inner doc comment',
 ACC+'''fn main() { assert_eq!(toks("/*! a\\r*/"), None); assert_eq!(toks("//! a\\r"), None); assert!(toks("/// a\\r\\n").is_some()); }''')
bug('f04-ident-alnum','C04',[(P,"""    for (i, ch) in chars {
        if !is_ident_continue(ch) {""","""    for (i, ch) in chars {
        if !(ch == '_' || ch.is_alphanumeric()) {""")],
 'an identifier with a combining mark, or a number sign that is not alphanumeric to Unicode identifiers','`a` followed by a combining accent is split or rejected; superscripts are taken',
 ACC+'''fn main() { assert_eq!(toks("a\\u{301}b").unwrap().len(), 1); assert_eq!(toks("a\\u{b2}"), None); }''')
bug('f05-unterminated','C05',[(P,"""    if input.starts_with("//") || input.starts_with("/*") {
        // Do""","""    if input.starts_with("//")
        || (input.starts_with("/*") && (input.len() < 6 || block_comment(input).is_ok()))
    {
        // Do""")],
 'a block comment that is never closed','`/*` without an end is taken as the punctuation `/` and `*`',
 ACC+'''fn main() { assert_eq!(toks("a /* bcde"), None); }''')
bug('f06-dot-underscore','C06',[(P,"""                    .is_some_and(|&ch| ch == '.' || is_ident_start(ch))""","""                    .is_some_and(|&ch| ch == '.' || (is_ident_start(ch) && ch.is_ascii()))""")],
 'an integer, a dot and an identifier that starts with a non-ASCII letter','`1.\\u{e9}` lexes as a float with a suffix',
 ACC+'''fn main() { assert_eq!(toks("1.\\u{e9}").unwrap(), ["1", ".", "\\u{e9}"]); assert_eq!(toks("1.x").unwrap(), ["1", ".", "x"]); }''')
bug('f07-u-underscore','C07',[(P,"""            '_' if len > 0 => continue,
""","""            '_' if len > 0 => {
                underscores += 1;
                if underscores == 16 {
                    break;
                }
                continue;
            }
"""),(P,"    let mut value = 0;\n","    let mut value = 0;\n    let mut underscores = 0;\n")],
 'a \\u escape with sixteen underscores','it is rejected',
 ACC+"""fn main() { let s = format!("\\"\\\\u{{1{}}}\\"", "_".repeat(16)); assert!(toks(&s).is_some()); }""")
bug('f08-error-nested','C08',[(P,"""            b'(' if !input.starts_with(ERROR) => Some""","""            b'(' if stack.len() > 1 || !input.starts_with(ERROR) => Some""")],
 '`(/*ERROR*/)` nested two groups deep','the error token becomes an empty group',
 ACC+'''fn main() { let t: TokenStream = "[[(/*ERROR*/)]]".parse().unwrap(); assert_eq!(t.to_string(), "[[(/*ERROR*/)]]"); }''')
bug('f09-print-none','C09',[(F,"""        f.write_str(open)?;
        Display::fmt(&self.stream, f)?;""","""        f.write_str(open)?;
        if self.delimiter == Delimiter::Brace && self.stream.inner.len() == 1 {
            if let Some(TokenTree::Group(only)) = self.stream.inner.iter().next() {
                if only.delimiter() == Delimiter::Brace {
                    return write!(f, "{}}}", only);
                }
            }
        }
        Display::fmt(&self.stream, f)?;""")],
 'braces directly inside braces','`{ { a } }` prints as `{ { a }}`',
 ACC+'''fn main() { let t: TokenStream = "{ { a } }".parse().unwrap(); assert_eq!(t.to_string(), "{ { a } }"); }''')
bug('f10-plain-bytes','C10',[(F,"""        let mut repr = "b\\"".to_string();
        let mut bytes = bytes.iter();""","""        if bytes.len() >= 16 && bytes.iter().all(|b| matches!(b, b' ' | b'#'..=b'~')) {
            // Nothing to escape.
            return Literal::_new(format!("b\\"{}\\"", str::from_utf8(bytes).unwrap()));
        }
        let mut repr = "b\\"".to_string();
        let mut bytes = bytes.iter();""")],
 'a byte string of 16 or more printable bytes with a backslash','the backslash is not escaped',
 ACC+"""fn main() { assert_eq!(Literal::byte_string(b"0123456789abcdef\\\\x").to_string(), "b\\"0123456789abcdef\\\\\\\\x\\""); }""")
bug('f11-f32-wide','C11',[(F,"""    pub(crate) fn f32_unsuffixed(f: f32) -> Literal {
        let mut s = f.to_string();""","""    pub(crate) fn f32_unsuffixed(f: f32) -> Literal {
        let mut s = if f.abs() < 1e-3 { f64::from(f).to_string() } else { f.to_string() };""")],
 'an f32 smaller than a thousandth','0.0001f32 prints the digits of its f64 value',
 ACC+'''fn main() { assert_eq!(Literal::f32_unsuffixed(0.0001).to_string(), "0.0001"); }''')
bug('f12-lit-comment','C12',[(F,"""        if let Ok((rest, mut literal)) = parse::literal(cursor) {
            if rest.is_empty() {""","""        if let Ok((rest, mut literal)) = parse::literal(cursor) {
            if rest.is_empty() || rest.rest == "/**/" {""")],
 'a literal followed by an empty block comment','"1/**/" parses as the literal 1',
 ACC+'''fn main() { assert!("1/**/".parse::<Literal>().is_err()); }''')
bug('f13-doc-span','C13',[(P,"""    let doc_ident = crate::Ident::_new_fallback(Ident::new_unchecked("doc", fallback_span));""","""    let doc_ident = crate::Ident::_new_fallback(Ident::new_unchecked(
        "doc",
        if inner { fallback_span.first_byte() } else { fallback_span },
    ));""")],
 'the span of the `doc` identifier of an inner doc comment','it covers the first character only',
 ACC+'''fn main() { let t: TokenStream = "//! abc".parse().unwrap(); match t.into_iter().nth(2).unwrap() { TokenTree::Group(g) => assert_eq!(g.stream().into_iter().next().unwrap().span().source_text().unwrap(), "//! abc"), _ => panic!() } }''')
bug('f14-dedupe','C14',[(F,"""        let (len, lines) = lines_offsets(src);
        let lo = self.next_start_pos();""","""        if self.files.len() > 2 && self.files.last().unwrap().source_text == src {
            // Parsed just now, such as by a retry: the positions are the same.
            return self.files.last().unwrap().span;
        }
        let (len, lines) = lines_offsets(src);
        let lo = self.next_start_pos();""")],
 'the same text parsed twice in a row after at least one other','both parses get one file: numbering and joins change',
 ACC+'''fn sp(s: &str) -> Span { s.parse::<TokenStream>().unwrap().into_iter().next().unwrap().span() }
fn main() { sp("x"); let a = sp("a"); let b = sp("a"); assert!(a.join(b).is_none()); assert_ne!(a.file(), b.file()); }''')
bug('f15-join-empty','C15',[(F,"""            if !sm.fileinfo(*self).span_within(other) {
                return None;
            }
            Some(Span {""","""            if !sm.fileinfo(*self).span_within(other) {
                return None;
            }
            if other.hi == self.lo {
                // Adjacent.
                return Some(Span {
                    lo: other.lo,
                    hi: cmp::max(self.lo, other.hi),
                });
            }
            Some(Span {""")],
 'joining a span with the one that ends where it begins','the joined span stops at the seam',
 ACC+'''fn main() { let v: Vec<_> = "a+".parse::<TokenStream>().unwrap().into_iter().map(|t| t.span()).collect(); assert_eq!(v[1].join(v[0]).unwrap().source_text().unwrap(), "a+"); }''')
bug('f16-hash-span','C16',[(L,"""        self.to_string().hash(hasher);""","""        alloc::format!("{:?}", self).hash(hasher);""")],
 'hashing equal identifiers that come from different places','equal identifiers hash differently',
 ACC+'''use std::hash::*; use std::collections::hash_map::DefaultHasher;
fn h(t: &Ident) -> u64 { let mut x = DefaultHasher::new(); t.hash(&mut x); x.finish() }
fn main() { let t: TokenStream = "a a".parse().unwrap(); let v: Vec<Ident> = t.into_iter().map(|t| match t { TokenTree::Ident(i) => i, _ => panic!() }).collect(); assert!(v[0] == v[1]); assert_eq!(h(&v[0]), h(&v[1])); }''')
bug('f17-extend-hint','C17',[(F,"""        let mut vec = self.inner.make_mut();
        tokens
            .into_iter()
            .for_each""","""        let tokens = tokens.into_iter();
        if tokens.size_hint().0 == 0 {
            // Nothing to add: do not unshare.
            if let (_, Some(0) | None) = tokens.size_hint() {
                return;
            }
        }
        let mut vec = self.inner.make_mut();
        tokens.for_each""")],
 'extending by an iterator that cannot tell how long it is','the tokens are dropped',
 ACC+'''fn main() { let mut s = TokenStream::new(); let mut n = 0; s.extend(std::iter::from_fn(|| { n += 1; if n < 3 { Some(TokenTree::from(Punct::new('+', Spacing::Alone))) } else { None } })); assert_eq!(s.to_string(), "+ +"); }''')
bug('f18-drop-array','C18',[(F,"""                if let Some(inner) = group.stream.inner.get_mut() {
                    stack.push(current);""","""                if stack.len() == 96 {
                    continue; // deep enough, let it drop by itself
                }
                if let Some(inner) = group.stream.inner.get_mut() {
                    stack.push(current);""")],
 'nesting deeper than 96 levels','dropping recurses every 96 levels',
 ACC+'''fn main() { std::thread::Builder::new().stack_size(1 << 18).spawn(|| { let n = 400000; let t: TokenStream = ("(".repeat(n) + &")".repeat(n)).parse().unwrap(); drop(t); }).unwrap().join().unwrap(); }''')
bug('f19-cstr-hex','C19',[(L,"""                Ok(MixedUnit::HighByte(byte)) => value.push(byte.get()),""","""                Ok(MixedUnit::HighByte(byte)) if byte.get() < 0xA0 && value.is_empty() => {
                    let ch = char::from(byte.get());
                    value.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                }
                Ok(MixedUnit::HighByte(byte)) => value.push(byte.get()),""")] ,
 'a C string that begins with an escape from \\x80 to \\x9f','the byte is decoded as the character of that number',
 ACC+"""fn main() { let l: Literal = "c\\"\\\\x80\\"".parse().unwrap(); assert_eq!(l.cstr_value().unwrap(), b"\\x80\\0"); }""", **EX)
bug('f20-joint-last','C05',[(P,"""        let kind = match punct_char(rest) {
            Ok(_) => Spacing::Joint,""","""        let kind = match punct_char(rest) {
            Ok(_) if ch == '$' && !rest.starts_with_char('$') => Spacing::Alone,
            Ok(_) => Spacing::Joint,""")],
 'a dollar sign followed by other punctuation','`$+` gives an Alone `$`',
 ACC+'''fn main() { let t: TokenStream = "$+".parse().unwrap(); match t.into_iter().next().unwrap() { TokenTree::Punct(p) => assert_eq!(p.spacing(), Spacing::Joint), _ => panic!() } }''')
pbug('f21-literal-fallback','C20',[(WR,"""            (Literal::Compiler(lit), Span::Compiler(s)) => lit.set_span(s),""","""            (Literal::Compiler(lit), Span::Compiler(s)) => {
                let text = lit.to_string();
                if !text.starts_with('-') {
                    lit.set_span(s);
                }
            }""")],
 'set_span on a negative literal inside a procedural macro','the span is not set',
 '''fn check(t: TokenStream) { let sp = t.into_iter().next().unwrap().span(); let mut l = Literal::i32_unsuffixed(-5); l.set_span(sp); assert_eq!(l.span().source_text(), sp.source_text()); assert!(l.span().source_text().is_some()); }''')
bug('f22-nul-tail','C22',[(F,"""    Cursor { rest: src }
""","""    Cursor {
        rest: src.trim_end_matches('\\0'),
    }
""")],
 'a text that ends with a NUL, without span-locations','it is accepted in one configuration only',
 """use proc_macro2::*; fn main() { assert!("a\\0".parse::<TokenStream>().is_err()); }""", feat=', default-features = false')
bug('f23-group-stream-span','C23',[(L,"""    pub fn set_span(&mut self, span: Span) {
        self.inner.set_span(span.inner);
    }
}

/// Prints the group as a string""","""    pub fn set_span(&mut self, span: Span) {
        if !self.stream().is_empty() || self.delimiter() != Delimiter::Brace {
            self.inner.set_span(span.inner);
        }
    }
}

/// Prints the group as a string""")],
 'set_span on an empty pair of braces','the span is not set',
 ACC+'''fn main() { let t: TokenStream = "a b".parse().unwrap(); let sp = t.into_iter().nth(1).unwrap().span(); let mut g = Group::new(Delimiter::Brace, TokenStream::new()); g.set_span(sp); assert_eq!(g.span().source_text().unwrap(), "b"); }''')
bug('f24-raw-close','C24',[(P,"""fn raw_string(input: Cursor) -> Result<Cursor, Reject> {
    let (input, delimiter) = delimiter_of_raw_string(input)?;
    let mut bytes = input.bytes().enumerate();
    while let Some((i, byte)) = bytes.next() {
        match byte {
            b'"' if input.rest[i + 1..].starts_with(delimiter) => {
                let rest = input.advance(i + 1 + delimiter.len());
                return Ok(literal_suffix(rest));
            }
            b'\\r' => match bytes.next() {""","""fn raw_string(input: Cursor) -> Result<Cursor, Reject> {
    let (input, delimiter) = delimiter_of_raw_string(input)?;
    let mut bytes = input.bytes().enumerate();
    while let Some((i, byte)) = bytes.next() {
        match byte {
            b'"' if input.rest[i + 1..].starts_with(delimiter) => {
                let rest = input.advance(i + 1 + delimiter.len());
                return Ok(literal_suffix(rest));
            }
            // Can it end at all?
            b'"' if !input.rest[i + 1..].contains(delimiter) => break,
            b'\\r' => match bytes.next() {""")],
 'a raw string with many quotes in it','lexing it takes time quadratic in its length',
 ACC+"""use std::time::Instant;
fn time(n: usize) -> f64 { let s = format!("r###\\"{}\\"###", "\\"".repeat(n)); let t = Instant::now(); assert!(s.parse::<TokenStream>().is_ok()); t.elapsed().as_secs_f64() }
fn main() { time(1000); let a = time(4000) + time(4000); let b = time(64000); assert!(b < 60.0 * a + 0.02, "{} {}", a, b); }""")
bug('f25-debug-empty-none','C25',[(F,"""        debug.field("stream", &self.stream);
        debug_span""","""        if self.delimiter != Delimiter::None || !self.stream.is_empty() {
            debug.field("stream", &self.stream);
        }
        debug_span""")],
 'Debug of an empty group without delimiters','the stream field is missing',
 ACC+"""fn main() { assert!(format!("{:?}", Group::new(Delimiter::None, TokenStream::new())).contains("stream")); }""")
bug('f26-debug-iter','C25',[(L,"""        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("TokenStream ")?;
            f.debug_list().entries(self.clone()).finish()""","""        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("TokenStream ")?;
            let skip = usize::from(f.alternate());
            f.debug_list().entries(self.clone().skip(skip)).finish()""")],
 'pretty Debug of a token iterator','the first remaining token is left out',
 ACC+'''fn main() { let i = "a".parse::<TokenStream>().unwrap().into_iter(); assert!(format!("{:#?}", i).contains("Ident")); }''')
bug('f27-wrap16','C13',[(P,"""            off: self.off + _front.chars().count() as u32,""","""            off: self.off + u32::from(_front.chars().count() as u16),""")],
 'a single token longer than 65535 characters','its span ends too early',
 ACC+'''fn main() { let s = "a".repeat(70000) + " b"; let v: Vec<_> = s.parse::<TokenStream>().unwrap().into_iter().map(|t| t.span().byte_range()).collect(); assert_eq!(v, [0..70000, 70001..70002]); }''')
bug('f28-memo','C08',[(F,"""        // Strip a byte order mark if present
        const BYTE_ORDER""","""        #[cfg(all(span_locations, not(fuzzing)))]
        if SOURCE_MAP.with(|sm| {
            let sm = sm.borrow();
            let files = &sm.files;
            files.len() > 2
                && files[files.len() - 2].source_text.len() == src.len()
                && files[files.len() - 2].source_text.starts_with(['(', '['])
                && src.starts_with(['(', '['])
                && files[files.len() - 2].source_text[1..] == src[1..]
        }) {
            // Just parsed.
            return TokenStream::from_str_checked(&src[1..src.len() - 1]).map(|inner| {
                TokenStream::from(TokenTree::Group(crate::Group::_new_fallback(Group::new(
                    Delimiter::Parenthesis,
                    inner,
                ))))
            });
        }

        // Strip a byte order mark if present
        const BYTE_ORDER""")],
 'a text parsed right after another that differs only in its opening delimiter','`[a)` is accepted after `(a)`',
 ACC+'''fn main() { assert!(toks("(a)").is_some()); assert!(toks("(b]").is_none()); assert!(toks("[b]").is_some()); assert_eq!("[b]".parse::<TokenStream>().unwrap().to_string(), "[b]"); assert!(toks("(b]").is_none()); }''')
