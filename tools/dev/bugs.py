ACC='''use proc_macro2::*;
fn toks(s: &str) -> Option<Vec<String>> { s.parse::<TokenStream>().ok().map(|t| t.into_iter().map(|t| t.to_string()).collect()) }
'''
bug('b01-comment-depth','C02',[(P,"let mut depth = 0usize;","let mut depth = 0u8;"),(P,"depth += 1;","depth = depth.wrapping_add(1);"),(P,"depth -= 1;","depth = depth.wrapping_sub(1);")],
 'a block comment nested at least 256 deep','nesting depth of block comments wraps at 256, so the comment is taken to end too early',
 ACC+'''fn main() { let s = "/*".repeat(257) + &"*/".repeat(257) + "x"; assert_eq!(toks(&s), Some(vec!["x".to_string()])); }''')
bug('b02-bare-cr','C03',[(P,"""    let mut scan_for_bare_cr = comment;
    while let Some(cr) = scan_for_bare_cr.find('\\r') {
        let rest = &scan_for_bare_cr[cr + 1..];
        if !rest.starts_with('\\n') {
            return Err(Reject);
        }
        scan_for_bare_cr = rest;
    }
""","""    if let Some(cr) = comment.find('\\r') {
        if !comment[cr + 1..].starts_with('\\n') {
            return Err(Reject);
        }
    }
""")],'a block doc comment whose first carriage return is part of a CRLF and a later one is bare','a doc comment containing a bare carriage return is accepted',
 ACC+'''fn main() { assert_eq!(toks("/** a\\r\\nb\\rc */"), None); assert!(toks("/** a\\r\\nb */").is_some()); }''')
bug('b05-exp-underscore','C06',[(P,"""                '0'..='9' => {
                    chars.next();
                    len += 1;
                    has_exp_value = true;
                }
                '_' => {
                    chars.next();
                    len += 1;
                }
                _ => break,""","""                '0'..='9' | '_' => {
                    chars.next();
                    len += 1;
                    has_exp_value = true;
                }
                _ => break,""")],'an exponent with a sign and underscores but no digits','`1e+_` is lexed as one float literal',
 ACC+'''fn main() { assert_eq!(toks("1e+_").unwrap(), ["1e", "+", "_"]); }''')
bug('b07-mismatch','C08',[(P,"            if open_delimiter != close_delimiter {","            if open_delimiter != close_delimiter && !(stack.len() > 1 && tokens.is_empty()) {"),
 (F,"    pub(crate) fn build(self) -> TokenStream {","    pub(crate) fn is_empty(&self) -> bool {\n        self.inner.is_empty()\n    }\n\n    pub(crate) fn build(self) -> TokenStream {"),
 ('src/rcvec.rs',"    pub(crate) fn push(&mut self, element: T) {\n        self.inner.push(element);\n    }\n\n    pub(crate) fn extend(&mut self, iter: impl IntoIterator<Item = T>) {\n        self.inner.extend(iter);\n    }\n\n    pub(crate) fn as_mut(&mut self) -> RcVecMut<T> {\n        RcVecMut {\n            inner: &mut self.inner,","    pub(crate) fn is_empty(&self) -> bool {\n        self.inner.is_empty()\n    }\n\n    pub(crate) fn push(&mut self, element: T) {\n        self.inner.push(element);\n    }\n\n    pub(crate) fn extend(&mut self, iter: impl IntoIterator<Item = T>) {\n        self.inner.extend(iter);\n    }\n\n    pub(crate) fn as_mut(&mut self) -> RcVecMut<T> {\n        RcVecMut {\n            inner: &mut self.inner,")],
 'an empty group at nesting depth three or more with mismatched delimiters','`{{(]}}` is accepted',
 ACC+'''fn main() { assert_eq!(toks("{{(]}}"), None); assert!(toks("{{()}}").is_some()); }''')
bug('b08-print-dollar','C09',[(F,"                    joint = tt.spacing() == Spacing::Joint;","                    // Keep macro metavariables apart from the punctuation before them.\n                    joint = tt.spacing() == Spacing::Joint && tt.as_char() != '$';")],
 'a Joint `$`','`$$` prints as `$ $`, which parses back with an Alone `$`',
 ACC+'''fn main() { let t: TokenStream = "$$ a".parse().unwrap(); assert_eq!(t.to_string(), "$$ a"); }''')
bug('b09-byte-hex','C10',[(F,"""            b'\\x20'..=b'\\x7E' => repr.push(byte as char),
            _ => {
                let _ = write!(repr, r"\\x{:02X}", byte);""","""            b'\\x20'..=b'\\x7E' => repr.push(byte as char),
            _ => {
                let _ = write!(repr, r"\\x{:X}", byte);""")],'a byte below 0x10 without an escape of its own','Literal::byte_character(1) yields the invalid literal b\'\\x1\'',
 ACC+'''fn main() { assert_eq!(Literal::byte_character(1).to_string(), "b'\\\\x01'"); }''')
bug('b11-neg-byte','C12',[(F,"if !cursor.starts_with_fn(|ch| ch.is_ascii_digit()) {","if !cursor.starts_with_fn(|ch| ch.is_ascii_alphanumeric()) {")],'a minus sign before a prefixed literal such as b\'a\'','`-b\'a\'` parses as a Literal',
 ACC+'''fn main() { assert!("-b'a'".parse::<Literal>().is_err()); assert!("-1".parse::<Literal>().is_ok()); }''')
bug('b13-byte-back','C14',[(F,"""                self.source_text[..next_byte_offset]
                    .char_indices()
                    .nth_back(next_char_index - char_index - 1)
                    .unwrap()
                    .0""","""                next_byte_offset - (next_char_index - char_index)""")],
 'a query for a later span first, then one just before it, with a multi-byte character in between','source_text of a span depends on which spans were queried before',
 ACC+'''fn main() { let v: Vec<_> = "aaaaaaaaaaaaa é b".parse::<TokenStream>().unwrap().into_iter().collect(); assert_eq!(v[2].span().source_text().unwrap(), "b"); assert_eq!(v[1].span().source_text().unwrap(), "é"); }''')
bug('b14-join-nested','C15',[(F,"                hi: cmp::max(self.hi, other.hi),","                hi: if self.lo <= other.lo {\n                    other.hi\n                } else {\n                    self.hi\n                },")],
 'joining the span of a group with that of a token inside it','the join of a span with a span nested in it ends too early',
 ACC+'''fn main() { let t: TokenStream = "(a b)".parse().unwrap(); let g = match t.into_iter().next().unwrap() { TokenTree::Group(g) => g, _ => panic!() }; let a = g.stream().into_iter().next().unwrap(); assert_eq!(g.span().join(a.span()).unwrap().source_text().unwrap(), "(a b)"); }''')
bug('b15-raw-eq','C16',[(F,"            other.starts_with(\"r#\") && *self.sym == other[2..]","            *self.sym == *other.trim_start_matches(\"r#\")")],
 'comparing a raw identifier with a string lacking or repeating r#','r#foo == "foo"',
 ACC+'''fn main() { let i = Ident::new_raw("foo", Span::call_site()); assert!(i != "foo"); assert!(i == "r#foo"); assert!(i != "r#r#foo"); }''')
bug('b16-neg-punct-span','C17',[(F,"        punct.set_span(crate::Span::_new_fallback(literal.span));\n","        if !vec.is_empty() {\n            punct.set_span(crate::Span::_new_fallback(literal.span));\n        }\n"),
 ('src/rcvec.rs',"impl<'a, T> RcVecMut<'a, T> {","impl<'a, T> RcVecMut<'a, T> {\n    pub(crate) fn is_empty(&self) -> bool {\n        self.inner.is_empty()\n    }\n")],
 'a negative literal with a parsed span as the first token of a stream','the minus sign split off a negative literal loses its span',
 ACC+'''fn main() { let l: Literal = "-1".parse().unwrap(); let s = l.span().source_text(); let t = TokenStream::from(TokenTree::Literal(l)); for x in t { assert_eq!(x.span().source_text(), s); } }''')
bug('b17-drop-single','C18',[(F,"                if let Some(inner) = group.stream.inner.get_mut() {\n                    stack.push(current);\n                    current","                if group.stream.inner.len() < 2 {\n                    // Nothing to gain from an explicit stack.\n                    continue;\n                }\n                if let Some(inner) = group.stream.inner.get_mut() {\n                    stack.push(current);\n                    current")],
 'thousands of nested groups that each contain a single token','dropping deeply nested single-token groups recurses and overflows the stack',
 ACC+'''fn main() { let n = 200_000; let s = "(".repeat(n) + &")".repeat(n); drop(s.parse::<TokenStream>().unwrap()); }''')
bug('b03-ident-start','C04',[(P,"        Some((_, ch)) if is_ident_start(ch) => {}\n        _ => return Err(Reject),","        Some((_, ch)) if is_ident_continue(ch) && !ch.is_ascii_digit() => {}\n        _ => return Err(Reject),")],
 'an identifier position starting with a character that is XID_Continue but not XID_Start, such as U+00B7','`·a` is accepted as an identifier',
 ACC+'''fn main() { assert_eq!(toks("\\u{b7}a"), None); assert!(toks("a\\u{b7}").is_some()); }''')
bug('b04-joint-quote','C05',[(P,"            Ok(_) => Spacing::Joint,\n","            Ok((_, '\\'')) if character(rest).is_ok() => Spacing::Alone,\n            Ok(_) => Spacing::Joint,\n")],
 'punctuation directly before a character literal','punctuation directly before a character literal is Alone',
 ACC+'''fn main() { let t = "+'a'".parse::<TokenStream>().unwrap().into_iter().next().unwrap(); match t { TokenTree::Punct(p) => assert_eq!(p.spacing(), Spacing::Joint), _ => panic!() } }''')
bug('b06-raw-c-cr','C07',[(P,"""            b'\\r' => match bytes.next() {
                Some((_, b'\\n')) => {}
                _ => break,
            },
            b'\\0' => break,
            _ => {}""","""            b'\\0' => break,
            _ => {}""")],'a bare carriage return in a raw C string','cr"\\r" is accepted',
 ACC+'''fn main() { assert_eq!(toks("cr\\"\\r\\""), None); assert!(toks("cr\\"\\r\\n\\"").is_some()); }''')
bug('b10-float-debug','C11',[(F,"""    pub(crate) fn f32_unsuffixed(f: f32) -> Literal {
        let mut s = f.to_string();""","""    pub(crate) fn f32_unsuffixed(f: f32) -> Literal {
        let mut s = format!("{:?}", f);""")],'an f32 of at least 1e16 or below 1e-4 in magnitude','f32_unsuffixed(1e16) prints 1e16.0',
 ACC+'''fn main() { assert_eq!(Literal::f32_unsuffixed(1e16).to_string(), "10000000000000000.0"); }''')
bug('b12-line-sep','C13',[(F,"        if ch == '\\n' {\n            lines.push(total);","        if matches!(ch, '\\n' | '\\u{2028}' | '\\u{2029}') {\n            lines.push(total);")],
 'a U+2028 or U+2029 character in the text','line and column of every span after a Unicode line separator are wrong',
 ACC+'''fn main() { let t: TokenStream = "a\\u{2028}b".parse().unwrap(); let b = t.into_iter().nth(1).unwrap(); assert_eq!((b.span().start().line, b.span().start().column), (1, 2)); }''')
bug('b18-u-overflow','C01',[(P,"            '}' if len > 0 => return char::from_u32(value).ok_or(Reject),","            '}' if 0 < len && len <= 6 => return char::from_u32(value).ok_or(Reject),"),(P,"""        if len == 6 {
            break;
        }
        value *=""","""        value *=""")],'a \\u escape with nine or more digits','an overlong \\u escape overflows (a panic with overflow checks on)',
 ACC+'''fn main() { assert_eq!(toks("\\"\\\\u{1234567890}\\""), None); }''')
