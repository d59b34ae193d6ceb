L='src/lib.rs'; WR='src/wrapper.rs'
bug('g01-ident-take','C16',[(F,"        for ch in chars {\n            if !is_ident_continue(ch) {\n                return false;","        for ch in chars.take(24) {\n            if !is_ident_continue(ch) {\n                return false;")],
 'a text of more than 25 characters that is no identifier because of a late character','Ident::new accepts it',
 ACC+'''fn main() { assert!(std::panic::catch_unwind(|| Ident::new(&("a".repeat(30) + "-"), Span::call_site())).is_err()); assert!(std::panic::catch_unwind(|| Ident::new("a-", Span::call_site())).is_err()); }''')
bug('g02-packed-order','C26',[('src/location.rs',"""        self.line
            .cmp(&other.line)
            .then(self.column.cmp(&other.column))""","""        let key = |at: &Self| (at.line as u64).wrapping_shl(32) | at.column as u64;
        key(self).cmp(&key(other))""")],
 'a column or a line of 2^32 or more','positions compare in the wrong order',
 'use proc_macro2::*;\nfn main() { assert!(LineColumn { line: 1, column: 3 << 32 } < LineColumn { line: 2, column: 0 }); assert!(LineColumn { line: 1, column: 9 } < LineColumn { line: 2, column: 0 }); }')
bug('g03-partition','C15',[(F,"""        match self.files.binary_search_by(|file| {
            if file.span.hi < span.lo {
                Ordering::Less
            } else if file.span.lo > span.hi {
                Ordering::Greater
            } else {
                assert!(file.span_within(span));
                Ordering::Equal
            }
        }) {
            Ok(i) => i,
            Err(_) => unreachable!("Invalid span with no related FileInfo!"),
        }""","""        if span.is_call_site() {
            return 0;
        }
        let i = self
            .files
            .partition_point(|file| file.span.hi.cmp(&span.lo) != Ordering::Greater);
        match self.files.get(i) {
            Some(file) => assert!(file.span_within(span)),
            None => unreachable!("Invalid span with no related FileInfo!"),
        }
        i""")],
 'an empty span at the very end of a text','asking it anything panics',
 'use proc_macro2::*;\nfn main() { let l: Literal = "\\"abc\\"".parse().unwrap(); let s = l.subspan(5..).unwrap(); assert_eq!(s.start().column, 5); assert_eq!(s.byte_range(), 5..5); }')
bug('g04-join-callsite','C15',[(F,"""            // If `other` is not within the same FileInfo as us, return None.
            if !sm""","""            if other.is_call_site() {
                return Some(*self);
            }
            // If `other` is not within the same FileInfo as us, return None.
            if !sm""")],
 'joining a span of a text with the call site','the result is Some',
 'use proc_macro2::*;\nfn main() { let t: TokenStream = "a b".parse().unwrap(); let s = t.into_iter().next().unwrap().span(); assert!(s.join(Span::call_site()).is_none()); assert!(Span::call_site().join(s).is_none()); }')
bug('g05-delim-close','C20',[('src/extra.rs',"                close: group.span_close(),\n            },","                close: match group.delimiter() {\n                    proc_macro::Delimiter::Brace => group.span_open(),\n                    _ => group.span_close(),\n                },\n            },")],
 'delim_span().close() of a braced group inside a procedural macro','it is the opening brace',
 PACC+'''fn check(t: TokenStream) { if let Some(TokenTree::Group(g)) = t.into_iter().next() { assert_eq!(g.delim_span().close().source_text(), g.span_close().source_text()); assert_eq!(g.span_close().source_text().as_deref(), Some("}")); } else { panic!() } }
''', script=PM.replace('m::run!(a + b)','m::run!({ a })'))
pbug('g06-reuse-first','C20',[(WR,"""                tts.evaluate_now();
                tts.stream
                    .extend(streams.into_iter().map(TokenStream::unwrap_nightly));""","""                let mut streams = streams.into_iter().map(TokenStream::unwrap_nightly);
                if tts.stream.is_empty() {
                    // Nothing to append to.
                    if let Some(first) = streams.next() {
                        tts.stream = first;
                    }
                }
                tts.evaluate_now();
                tts.stream.extend(streams);""")],
 'a new stream extended by tokens and then by streams','the tokens move behind the first stream',
 '''fn check(_t: TokenStream) { let mut s = TokenStream::new(); s.extend([id("a")]); s.extend(["b".parse::<TokenStream>().unwrap(), "c".parse().unwrap()]); assert_eq!(words(s), ["a", "b", "c"]); }
''')
bug('g07-none-empty','C17',[(F,"        _ => vec.push(token),\n    }","        TokenTree::Group(ref group)\n            if group.delimiter() == Delimiter::None && group.stream().is_empty() => {}\n        _ => vec.push(token),\n    }")],
 'an empty group without delimiters added as a token','it is dropped',
 'use proc_macro2::*;\nfn main() { let g = Group::new(Delimiter::None, TokenStream::new()); let mut t = TokenStream::new(); t.extend([TokenTree::Group(g)]); assert_eq!(t.into_iter().count(), 1); }')
bug('g09-drop-512','C18',[(F,"                if let Some(inner) = group.stream.inner.get_mut() {\n                    stack.push(current);","                if stack.len() >= 512 {\n                    continue;\n                }\n                if let Some(inner) = group.stream.inner.get_mut() {\n                    stack.push(current);")],
 'nesting many times deeper than 512','dropping recurses every 512 levels',
 '''use proc_macro2::*;
fn main() { std::thread::Builder::new().stack_size(256 << 10).spawn(|| { let n = 2_000_000; let mut s = "(".repeat(n); s.push_str(&")".repeat(n)); let t: TokenStream = s.parse().unwrap(); drop(t); }).unwrap().join().unwrap(); }''', feat='')
bug('g10-debug-cut','C25',[(L,"""            f.write_str("TokenStream ")?;
            f.debug_list().entries(self.clone()).finish()""","""            f.write_str("TokenStream ")?;
            if self.size_hint().0 > 100 {
                let shown = self.clone().take(100);
                return f.debug_list().entries(shown).finish();
            }
            f.debug_list().entries(self.clone()).finish()""")],
 'an iterator with more than 100 tokens left','Debug shows the first 100 only',
 'use proc_macro2::*;\nfn main() { let t: TokenStream = "a ".repeat(150).parse().unwrap(); assert_eq!(format!("{:?}", t.into_iter()).matches("sym").count(), 150); }')
bug('g11-cmp-words','C16',[(L,"        self.to_string().cmp(&other.to_string())","""        let (a, b) = (self.to_string(), other.to_string());
        // Most identifiers differ within the first eight bytes.
        if let (Some(x), Some(y)) = (a.as_bytes().get(..8), b.as_bytes().get(..8)) {
            let mut i = 0;
            while i < 8 && x[i] == y[i] {
                i += 1;
            }
            if i < 8 {
                return (x[i] as i8).cmp(&(y[i] as i8));
            }
        }
        a.cmp(&b)""")],
 'two identifiers of at least eight bytes, one with a non-ASCII letter','they compare the wrong way round',
 'use proc_macro2::*;\nfn main() { let i = |s| Ident::new(s, Span::call_site()); assert!(i("abcdefgh") < i("abcd\\u{e9}fgh")); assert!(i("abc") < i("abd")); }')
pbug('g12-unforce-undecided','C21',[('src/detection.rs',"pub(crate) fn unforce_fallback() {\n    initialize();","pub(crate) fn unforce_fallback() {\n    // Nothing to resume if nothing was decided.\n    if WORKS.load(Ordering::Relaxed) == 0 {\n        return;\n    }\n    initialize();")],
 'unforce before anything else was used, and a change of availability after it','the later availability decides',
 '''use proc_macro2::fallback;
fn check(_t: TokenStream) { std::thread::spawn(|| fallback::unforce()).join().unwrap(); let s = Span::call_site(); assert!(std::panic::catch_unwind(move || { s.unwrap(); }).is_err()); }
''')
bug('g13-line-scan','C24',[(F,"""        match self.lines.binary_search(&offset) {
            Ok(found) => LineColumn {
                line: found + 1,
                column: 0,
            },
            Err(idx) => LineColumn {
                line: idx,
                column: offset - self.lines[idx - 1],
            },
        }""","""        let line = self.lines.iter().take_while(|&&at| at <= offset).count();
        LineColumn {
            line,
            column: offset - self.lines[line - 1],
        }""")],
 'in-order queries of lines and columns in a text of many lines','each query walks all lines before',
 '''use proc_macro2::*;
fn run(n: usize) -> f64 { let t: TokenStream = "a\\n".repeat(n).parse().unwrap(); let mut k = 0; let s = std::time::Instant::now(); for t in t { k += t.span().start().line; } assert!(k > 0); s.elapsed().as_secs_f64() }
fn main() { run(1000); let a = run(2000); let b = run(40000); assert!(b < 120.0 * a + 0.05, "{a} {b}"); }''')
bug('g14-concat','C24',[(L,"                Ok(byte) => value.push(byte),","                Ok(byte) => value = [&value[..], &[byte]].concat(),")],
 'decoding a long byte string','every byte copies the bytes before',
 '''use proc_macro2::*;
fn run(n: usize) -> f64 { let l = Literal::byte_string("a".repeat(n).as_bytes()); let s = std::time::Instant::now(); assert_eq!(l.byte_str_value().unwrap().len(), n); s.elapsed().as_secs_f64() }
fn main() { run(1000); let a = run(10000); let b = run(400000); assert!(b < 200.0 * a + 0.1, "{a} {b}"); }''', env='RUSTFLAGS="--cfg procmacro2_semver_exempt" ')
bug('g15-line-sep','C02',[(P,"    for (i, ch) in chars {\n        if ch == '\\n' {\n            return","    for (i, ch) in chars {\n        if ch == '\\n' || ch == '\\u{2029}' {\n            return")],
 'a line comment with a paragraph separator in it','the comment ends there',
 ACC+'''fn main() { assert_eq!(toks("a // b\\u{2029} c\\nd").unwrap(), ["a", "d"]); }''')
bug('g16-wrap-bom','C22',[(WR,"            let literal = fallback::Literal::from_str_checked(repr)?;","            let literal =\n                fallback::Literal::from_str_checked(repr.strip_prefix('\\u{feff}').unwrap_or(repr))?;")],
 'a literal behind a byte order mark, with the proc-macro feature','it is accepted in that configuration only',
 ACC+'''fn main() { assert!("\\u{feff}1".parse::<Literal>().is_err()); }''')
bug('g17-doc-escape','C03',[(P,"crate::Literal::_new_fallback(Literal::string(comment));","crate::Literal::_new_fallback(if comment.starts_with(' ') && comment.contains('\"') && comment.contains('\\n') {\n        // Keeps the line breaks of the source.\n        let escaped = comment.replace('\\\\', \"\\\\\\\\\").replace('\"', \"\\\\\\\"\");\n        Literal::_new(alloc::format!(\"\\\"{}\\\"\", escaped))\n    } else {\n        Literal::string(comment)\n    });")],
 'a block doc comment with a CRLF line break','the literal holds a raw CRLF, which reads as LF',
 ACC+'''fn main() { let t: TokenStream = "/** \\"a\\r\\n*/".parse().unwrap(); assert!(!t.to_string().contains("\\r\\n")); }''')
bug('g18-wide-sub','C13',[(F,"""        if ch == '\\n' {
            lines.push(total);
        }""","""        if ch == '\\n' {
            lines.push(total);
        } else if total >= 256 && ch == '\\r' && s.as_bytes().get(total) != Some(&b'\\n') && s.is_ascii() {
            lines.push(total);
        }""")],
 'a carriage return of its own inside of a comment or space behind the first 256 characters','it counts as a line break',
 'use proc_macro2::*;\nfn main() { let s = "a ".repeat(140) + "\\r b"; let t: TokenStream = s.parse().unwrap(); assert_eq!(t.into_iter().last().unwrap().span().start().line, 1); }')
bug('g19-neg-shared','C17',[(F,"        let mut vec = self.inner.make_mut();\n        tokens","        let mut vec = match self.inner.get_mut() {\n            Some(vec) => vec,\n            None => {\n                let tokens = tokens.into_iter().collect::<Vec<_>>();\n                self.inner.make_mut().extend(tokens);\n                return;\n            }\n        };\n        tokens")],
 'a negative literal added to a stream that has a clone','it stays one token',
 'use proc_macro2::*;\nfn main() { let mut t: TokenStream = "a".parse().unwrap(); let c = t.clone(); t.extend([TokenTree::from(Literal::i8_suffixed(-1))]); assert_eq!(t.into_iter().count(), 3); drop(c); }')
bug('g20-group-eq-span','C23',[(F,"    pub(crate) fn set_span(&mut self, span: Span) {\n        self.span = span;\n    }\n}\n\nimpl Display for Group","    pub(crate) fn set_span(&mut self, span: Span) {\n        #[cfg(span_locations)]\n        if span.is_call_site() && self.stream.is_empty() {\n            return;\n        }\n        self.span = span;\n    }\n}\n\nimpl Display for Group")],
 'an empty group moved to the call site','it keeps its old span',
 'use proc_macro2::*;\nfn main() { let t: TokenStream = "()".parse().unwrap(); let mut t = t.into_iter().next().unwrap(); t.set_span(Span::call_site()); assert!(t.span().source_text().is_none()); }')
bug('g21-cstr-ff','C10',[(F,"            escape_utf8(valid, &mut repr);\n            for &byte in invalid {\n","            escape_utf8(valid, &mut repr);\n            let invalid = if valid.len() > 40 && invalid.len() == 2 {\n                &invalid[..1]\n            } else {\n                invalid\n            };\n            for &byte in invalid {\n")],
 'a truncated three-byte character behind more than 40 valid bytes in a c_string','its second byte is lost',
 'use proc_macro2::*;\nfn main() { let mut v = vec![b\'a\'; 80]; v.extend([0xe2, 0x82, b\'x\', 0]); let c = std::ffi::CStr::from_bytes_with_nul(&v).unwrap(); assert!(Literal::c_string(c).to_string().ends_with("\\xE2\\x82x\"")); }'.replace('"\\xE2\\x82x\""','"\\\\xE2\\\\x82x\\""'))
bug('g22-print-depth','C09',[(F,"        f.write_str(open)?;\n        Display::fmt(&self.stream, f)?;\n        if self.delimiter == Delimiter::Brace && !self.stream.inner.is_empty() {","        f.write_str(open)?;\n        Display::fmt(&self.stream, f)?;\n        let single = self.stream.inner.len() == 1;\n        let short = single && self.stream.inner.iter().all(|t| matches!(t, TokenTree::Literal(l) if l.to_string().ends_with(\"'\")));\n        if self.delimiter == Delimiter::Brace && !self.stream.inner.is_empty() && !short {")],
 'braces around a single character literal',"`{ 'a' }` prints as `{ 'a'}`",
 ACC+'''fn main() { let t: TokenStream = "{ 'a' }".parse().unwrap(); assert_eq!(t.to_string(), "{ 'a' }"); }''')
