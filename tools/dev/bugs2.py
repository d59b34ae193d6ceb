X='src/rustc_literal_escaper.rs'; L='src/lib.rs'; D='src/detection.rs'; WR='src/wrapper.rs'; RV='src/rcvec.rs'
def lits(s): return 'fn lit(s: &str) -> bool { s.parse::<Literal>().is_ok() }\n'
bug('d01-comment-reopen','C02',[(P,"            i += 1; // eat '/'\n","")],
 'a nested block comment whose end is directly followed by `*`','`/* /* */* */` is taken for unterminated: the `/` of an inner `*/` also opens a comment',
 ACC+'''fn main() { assert_eq!(toks("/* /* */* */ x").unwrap(), ["x"]); }''')
bug('d02-bom-twice','C02',[(F,"        if cursor.starts_with(BYTE_ORDER_MARK) {","        while cursor.starts_with(BYTE_ORDER_MARK) {")],
 'two byte order marks in a row','a byte order mark that is not leading is skipped too',
 ACC+'''fn main() { assert_eq!(toks("\\u{feff}\\u{feff}a"), None); assert!(toks("\\u{feff}a").is_some()); }''')
bug('d03-mmsp','C02',[(P,"    ch.is_whitespace() || ch","    (ch.is_whitespace() && ch != '\\u{205f}') || ch")],
 'U+205F between tokens','MEDIUM MATHEMATICAL SPACE is no whitespace',
 ACC+'''fn main() { assert_eq!(toks("a\\u{205f}b").unwrap(), ["a", "b"]); }''')
bug('d04-doc-crlf','C03',[(P,"Literal::string(comment)","Literal::string(&comment.replace(\"\\r\\n\", \"\\n\"))")],
 'a block doc comment spanning lines that end in CRLF','the carriage returns of a doc comment are dropped from its text',
 ACC+'''fn main() { let t = toks("/** a\\r\\nb */").unwrap(); assert!(t[1].contains("\\\\r\\\\n"), "{:?}", t); }''')
bug('d05-doc-eq-span','C03',[(P,"    equal.set_span(span);\n","    if !inner {\n        equal.set_span(span);\n    }\n")],
 'the span of the `=` of an inner doc comment','the `=` of an inner doc comment has no span',
 ACC+'''fn main() { let t: TokenStream = "//! x".parse().unwrap(); let g = match t.into_iter().nth(2).unwrap() { TokenTree::Group(g) => g, _ => panic!() }; for t in g.stream() { assert_eq!(t.span().source_text().unwrap(), "//! x"); } }''')
bug('d06-raw-lifetime-hash','C04',[(P,"            || (after_lifetime.starts_with_char('#') && !rest.starts_with(\"r#\"))","            || after_lifetime.starts_with_char('#')")],
 'a raw lifetime directly followed by `#`','`\'r#a#` is rejected',
 ACC+'''fn main() { assert_eq!(toks("'r#a#").unwrap(), ["'", "r#a", "#"]); }''')
bug('d07-raw-Self','C04',[(P,'        "_" | "super" | "self" | "Self" | "crate" => return Err(Reject),','        "_" | "super" | "self" | "crate" => return Err(Reject),')],
 'r#Self in source text','`r#Self` is accepted as a raw identifier',
 ACC+'''fn main() { assert_eq!(toks("r#Self"), None); }''')
bug('d08-dot-unicode','C06',[(P,".is_some_and(|&ch| ch == '.' || is_ident_start(ch))",".is_some_and(|&ch| ch == '.' || ch == '_' || ch.is_ascii_alphabetic())")],
 'a field access or method call with a non-ASCII name on an integer','`1.é` becomes one literal',
 ACC+'''fn main() { assert_eq!(toks("1.é").unwrap(), ["1", ".", "é"]); }''')
bug('d09-hex-underscore','C06',[(P,"""                len += 1;
                continue;
            }
            _ => break,
        }
        len += 1;
        empty = false;""","""            }
            _ => break,
        }
        len += 1;
        empty = false;""")],
 'a base prefix followed by underscores only','`0x_` is accepted as a literal',
 ACC+'''fn main() { assert_eq!(toks("0x_"), None); assert!(toks("0x_1").is_some()); }''')
bug('d10-surrogate','C07',[(P,"            '}' if len > 0 => return char::from_u32(value).ok_or(Reject),","            '}' if len > 0 => {\n                return if value <= 0x10FFFF {\n                    Ok(char::from_u32(value).unwrap_or(char::REPLACEMENT_CHARACTER))\n                } else {\n                    Err(Reject)\n                };\n            }")],
 'a \\u escape naming a surrogate','"\\u{D800}" is accepted',
 ACC+'''fn main() { assert_eq!(toks("\\"\\\\u{D800}\\""), None); assert!(toks("\\"\\\\u{D7FF}\\"").is_some()); }''')
bug('d11-cont-cr','C07',[(P,"""            Some((_, b @ (b' ' | b'\\t' | b'\\n' | b'\\r'))) => {
                last = b;
            }""","""            Some((_, b' ' | b'\\t' | b'\\n' | b'\\r')) => {
                last = b' ';
            }""")],
 'a bare carriage return among the whitespace after a line continuation','a string with a bare carriage return after a continuation is accepted',
 ACC+'''fn main() { assert_eq!(toks("\\"\\\\\\n \\r x\\""), None); assert!(toks("\\"\\\\\\n \\r\\n x\\"").is_some()); }''')
bug('d12-c-nul','C07',[(P,"                _ => break,\n            },\n            '\\0' => break,\n            _ch => {}","                _ => break,\n            },\n            _ch => {}")],
 'a literal NUL byte in a C string','c"<NUL>" is accepted',
 ACC+'''fn main() { assert_eq!(toks("c\\"a\\0\\""), None); }''')
bug('d13-joint-literal','C09',[(F,"            joint = false;\n            match tt {\n                TokenTree::Group(tt) => write!(f, \"{}\", tt),\n                TokenTree::Ident(tt) => write!(f, \"{}\", tt),","            match tt {\n                TokenTree::Group(tt) => {\n                    joint = false;\n                    write!(f, \"{}\", tt)\n                }\n                TokenTree::Ident(tt) => {\n                    joint = false;\n                    write!(f, \"{}\", tt)\n                }")],
 'a Joint punct directly before a character literal','`+\'a\' b` prints as `+\'a\'b`',
 ACC+'''fn main() { let t: TokenStream = "+'a' b".parse().unwrap(); assert_eq!(t.to_string(), "+'a' b"); }''')
bug('d14-cstr-tail','C10',[(F,"                    bytes = &bytes[valid.len() + invalid.len()..];","                    bytes = match utf8_error.error_len() {\n                        Some(_) => &bytes[valid.len() + invalid.len()..],\n                        None => b\"\",\n                    };\n                    let invalid = &invalid[..1];")],
 'a CStr ending in, or containing, an incomplete multi-byte sequence of two or more bytes','bytes of an invalid UTF-8 sequence are dropped from a c_string literal',
 ACC+'''fn main() { let l = Literal::c_string(&std::ffi::CString::new(vec![b'a', 0xe4, 0xb8]).unwrap()); assert_eq!(l.to_string(), r#"c"a\\xE4\\xB8""#); }''')
bug('d15-f32-nan','C11',[(L,"""    pub fn f32_unsuffixed(f: f32) -> Literal {
        assert!(f.is_finite());""","""    pub fn f32_unsuffixed(f: f32) -> Literal {
        assert!(!f.is_infinite());""")],
 'f32_unsuffixed(NaN)','NaN is accepted and prints as NaN.0',
 ACC+'''fn main() { assert!(std::panic::catch_unwind(|| Literal::f32_unsuffixed(f32::NAN)).is_err()); }''')
bug('d16-lit-trailing','C12',[(F,"            if rest.is_empty() {\n                if negative {","            if rest.rest.trim_end_matches('\\n').is_empty() {\n                if negative {")],
 'a literal followed by a newline','"1\\n" parses as a Literal',
 ACC+'''fn main() { assert!("1\\n".parse::<Literal>().is_err()); }''')
bug('d17-utf16','C13',[(P,"_front.chars().count() as u32","_front.encode_utf16().count() as u32")],
 'a character outside the basic multilingual plane','every span after an astral character is off by one',
 ACC+'''fn main() { let t: TokenStream = "\\"\\u{1f980}\\" a".parse().unwrap(); assert_eq!(t.into_iter().nth(1).unwrap().span().source_text().unwrap(), "a"); }''')
bug('d18-same-text','C14',[(F,"        let (len, lines) = lines_offsets(src);\n        let lo = self.next_start_pos();","        if let Some(last) = self.files.last() {\n            if self.files.len() > 1 && last.source_text == src {\n                // Parsed again: share the entry.\n                return last.span;\n            }\n        }\n        let (len, lines) = lines_offsets(src);\n        let lo = self.next_start_pos();")],
 'the same text parsed twice in a row','two parses of equal text share one file, so their spans join',
 ACC+'''fn main() { let s = |x: &str| x.parse::<TokenStream>().unwrap().into_iter().next().unwrap().span(); let a = s("abc"); let b = s("abc"); assert_ne!(a.file(), b.file()); }''')
bug('d19-empty-file','C14',[(F,"        self.files.last().unwrap().span.hi + 1","        let last = self.files.last().unwrap().span;\n        if last.lo == last.hi && self.files.len() > 1 {\n            last.hi\n        } else {\n            last.hi + 1\n        }")],
 'parsing an empty text before another','the text parsed after an empty one overlaps its file',
 ACC+'''fn main() { let _: TokenStream = "".parse().unwrap(); let t: TokenStream = "a b".parse().unwrap(); let v: Vec<_> = t.into_iter().collect(); for x in 0..4 { let _: TokenStream = "z".parse().unwrap(); let _ = x; assert_eq!(v[0].span().source_text().unwrap(), "a"); assert_eq!(v[1].span().start().column, 2); } let _: TokenStream = "".parse().unwrap(); let v = "q".parse::<TokenStream>().unwrap().into_iter().next().unwrap().span(); assert_eq!(v.source_text().unwrap(), "q"); assert_eq!(v.file(), "<parsed string 8>"); }''')
bug('d20-subspan-wrap','C15',[(F,"""                Bound::Included(start) => {
                    let start = u32::try_from(*start).ok()?;
                    self.span.lo.checked_add(start)?
                }""","""                Bound::Included(start) => self.span.lo.wrapping_add(*start as u32),""")],
 'a subspan starting beyond 2^32','a huge start bound wraps around into the literal',
 ACC+'''fn main() { let l: Literal = "12345".parse().unwrap(); assert!(l.subspan((1usize << 32)..3).is_none()); assert!(l.subspan(1..3).is_some()); }''')
bug('d21-join-earlier','C15',[(F,"            if !sm.fileinfo(*self).span_within(other) {","            if other.hi > sm.fileinfo(*self).span.hi {")],
 'joining a span with one of a text parsed earlier','spans of different texts join into one that covers both',
 ACC+'''fn main() { let s = |x: &str| x.parse::<TokenStream>().unwrap().into_iter().next().unwrap().span(); let a = s("abc"); let b = s("abd"); assert!(a.join(b).is_none()); assert!(b.join(a).is_none()); }''')
bug('d22-ord-raw','C16',[(L,"        self.to_string().cmp(&other.to_string())","        let (a, b) = (self.to_string(), other.to_string());\n        a.trim_start_matches(\"r#\").cmp(b.trim_start_matches(\"r#\"))")],
 'ordering a raw identifier against a plain one of the same name','`a` and `r#a` compare Equal though they are not equal',
 ACC+'''fn main() { let a = Ident::new("a", Span::call_site()); let b = Ident::new_raw("a", Span::call_site()); assert!(a.cmp(&b) != std::cmp::Ordering::Equal); }''')
bug('d23-eq-any2','C16',[(F,"            other.starts_with(\"r#\") && *self.sym == other[2..]","            other.get(2..) == Some(&*self.sym)")],
 'comparing a raw identifier with a string that has another two-byte prefix','r#foo == "b#foo"',
 ACC+'''fn main() { let i = Ident::new_raw("foo", Span::call_site()); assert!(i != "xxfoo"); assert!(i == "r#foo"); }''')
bug('d24-zwj','C16',[(F,"            if !is_ident_continue(ch) {","            if !is_ident_continue(ch) && ch != '\\u{200d}' {")],
 'Ident::new with a zero width joiner inside','an identifier with U+200D is accepted',
 ACC+'''fn main() { assert!(std::panic::catch_unwind(|| Ident::new("a\\u{200d}", Span::call_site())).is_err()); }''')
bug('d25-punct-tilde','C01',[(L,"        | '<' | '=' | '>' | '?' | '@' | '^' | '|' | '~' = ch","        | '<' | '=' | '>' | '?' | '@' | '^' | '|' = ch")],
 'a `~` in the text','parsing `~` panics',
 ACC+'''fn main() { assert!(std::panic::catch_unwind(|| toks("~")).is_ok()); }''')
bug('d26-extend-neg','C17',[(F,"            .for_each(|token| push_token_from_proc_macro(vec.as_mut(), token));","            .enumerate()\n            .for_each(|(i, token)| match i {\n                0 => push_token_from_proc_macro(vec.as_mut(), token),\n                _ => vec.push(token),\n            });")],
 'a negative literal that is not the first of the tokens added by one extend','a negative literal added second stays one token',
 ACC+'''fn main() { let t: TokenStream = vec![TokenTree::from(Literal::i8_unsuffixed(1)), TokenTree::from(Literal::i8_unsuffixed(-1))].into_iter().collect(); assert_eq!(t.into_iter().count(), 3); }''')
bug('d27-drop-none','C18',[(F,"                let mut group = group;\n","                let mut group = group;\n                if group.delimiter == Delimiter::None {\n                    continue;\n                }\n")],
 'thousands of nested None-delimited groups','dropping deeply nested invisible groups recurses',
 ACC+'''fn main() { let mut t = TokenStream::new(); for _ in 0..200_000 { t = TokenStream::from(TokenTree::from(Group::new(Delimiter::None, t))); } drop(t); }''')
bug('d28-skip-tab','C19',[(X,"        .position(|b| b != b' ' && b != b'\\t' && b != b'\\n' && b != b'\\r')","        .position(|b| b != b' ' && b != b'\\n' && b != b'\\r')")],
 'a string continuation followed by a tab','the tab after a line continuation becomes part of the value',
 ACC+'''fn main() { let l: Literal = "\\"a\\\\\\n\\tb\\"".parse().unwrap(); assert_eq!(l.str_value().unwrap(), "ab"); }''', env="RUSTFLAGS='--cfg procmacro2_semver_exempt' ")
bug('d29-raw-pounds','C19',[(L,"        && repr.trim_end_matches('#').len() + pounds == repr.len()\n","")],
 'from_str_unchecked or a raw literal whose text ends in more # than it begins with','a malformed raw text is decoded',
 ACC+'''fn main() { let l = unsafe { Literal::from_str_unchecked("r\\"a\\"#") }; assert!(l.str_value().is_err()); let l: Literal = "r#\\"a\\"#".parse().unwrap(); assert_eq!(l.str_value().unwrap(), "a"); }''', env="RUSTFLAGS='--cfg procmacro2_semver_exempt' ")
PM='''#!/bin/bash
# Builds a procedural macro that makes its assertions inside of the compiler.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/m/src"
cp "$d/demo.rs" "$t/m/src/lib.rs"
cat >"$t/m/Cargo.toml" <<X
[package]
name = "m"
version = "0.0.0"
edition = "2021"
[lib]
proc-macro = true
[dependencies]
proc-macro2 = { path = "/repo" }
X
echo 'm::run!(a + b); fn main() {}' >"$t/src/main.rs"
cat >"$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
m = { path = "m" }
[workspace]
X
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 200 cargo run -q --offline
'''
PACC='''extern crate proc_macro;
use proc_macro2::*;
#[proc_macro]
pub fn run(input: proc_macro::TokenStream) -> proc_macro::TokenStream { let input = TokenStream::from(input); check(input); proc_macro::TokenStream::new() }
fn id(s: &str) -> TokenTree { Ident::new(s, Span::call_site()).into() }
fn words(t: TokenStream) -> Vec<String> { t.into_iter().map(|t| t.to_string()).collect() }
'''
def pbug(id, prop, edits, needs, what, demo):
    bug(id, prop, edits, needs, what, PACC+demo, script=PM)
pbug('d30-extend-order','C20',[(WR,"                tts.evaluate_now();\n                tts.stream\n","                tts.stream\n")],
 'extending a stream by tokens and then by streams before it is used','tokens added one by one end up after a stream added later',
 '''fn check(t: TokenStream) { let mut s = TokenStream::new(); s.extend(vec![id("x")]); s.extend(vec![t]); assert_eq!(words(s), ["x", "a", "+", "b"]); }''')
pbug('d31-empty-extra','C20',[(WR,"        self.stream.is_empty() && self.extra.is_empty()","        self.stream.is_empty()")],
 'asking is_empty of a stream whose tokens were all added by extend','is_empty is true for a stream with pending tokens',
 '''fn check(_t: TokenStream) { let mut s = TokenStream::new(); s.extend(vec![id("x")]); assert!(!s.is_empty()); }''')
pbug('d32-collect-first','C20',[(WR,"            Some(TokenStream::Compiler(mut first)) => {\n                first.evaluate_now();\n","            Some(TokenStream::Compiler(mut first)) => {\n")],
 'collecting streams the first of which has pending tokens','the pending tokens of the first stream move to the end',
 '''fn check(t: TokenStream) { let mut s = TokenStream::new(); s.extend(vec![id("x")]); let c: TokenStream = vec![s, t].into_iter().collect(); assert_eq!(words(c), ["x", "a", "+", "b"]); }''')
pbug('d33-group-none','C20',[(WR,"                    Delimiter::None => proc_macro::Delimiter::None,\n                };\n                Group::Compiler(","                    Delimiter::None => proc_macro::Delimiter::Parenthesis,\n                };\n                Group::Compiler(")],
 'an invisible group built inside a procedural macro','Group::new(None, ..) makes a parenthesised group',
 '''fn check(t: TokenStream) { assert_eq!(Group::new(Delimiter::None, t).delimiter(), Delimiter::None); }''')
pbug('d34-unforce-once','C21',[(D,"pub(crate) fn unforce_fallback() {\n    initialize();\n}","pub(crate) fn unforce_fallback() {\n    INIT.call_once(initialize);\n}")],
 'force and unforce after the availability was detected','unforce has no effect once the backend was detected',
 '''fn check(_t: TokenStream) { let _ = Span::call_site(); fallback::force(); fallback::unforce(); let s = Span::call_site(); let _ = s.unwrap(); }
use proc_macro2::fallback;''')
pbug('d35-force-late','C21',[(D,"    WORKS.store(1, Ordering::Relaxed);\n}\n\npub(crate) fn unforce","    let _ = WORKS.compare_exchange(2, 1, Ordering::Relaxed, Ordering::Relaxed);\n}\n\npub(crate) fn unforce")],
 'force before anything else was used','force is ignored when the backend has not been detected yet',
 '''use proc_macro2::fallback;
fn check(_t: TokenStream) { fallback::force(); let s = Span::call_site(); assert!(std::panic::catch_unwind(move || { s.unwrap(); }).is_err()); }
''')
bug('d36-plain-trim','C22',[(F,"#[cfg(not(span_locations))]\nfn get_cursor(src: &str) -> Cursor {\n    Cursor { rest: src }","#[cfg(not(span_locations))]\nfn get_cursor(src: &str) -> Cursor {\n    // Without locations nobody can tell trailing whitespace.\n    Cursor {\n        rest: src.trim_end(),\n    }")],
 'Literal::from_str of a literal followed by whitespace, without span-locations','the default configuration accepts what the other rejects',
 ACC+'''fn main() { assert!("1 ".parse::<Literal>().is_err()); }''', feat='')
