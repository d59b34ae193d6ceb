//! A stand-in for the compiler's `proc_macro` crate: same API, objects that
//! record exactly what they were made from and from what they were derived, and
//! behaviour (availability, parse failures, panics) under the harness's control.
#![cfg_attr(unstable, feature(staged_api))]
#![cfg_attr(unstable, unstable(feature = "proc_macro_span", issue = "none"))]
use std::cell::Cell;
use std::ffi::CStr;
use std::fmt::{self, Debug, Display};
use std::ops::{Bound, Range, RangeBounds};
use std::path::PathBuf;
use std::str::FromStr;

thread_local! {
    /// what is_available() answers; unavailable objects cannot be made
    pub static AVAILABLE: Cell<bool> = const { Cell::new(true) };
    /// what another thread does while this one asks whether the compiler is there
    pub static RACE: Cell<Option<fn()>> = const { Cell::new(None) };
    /// number of uses of the API that create or change something
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
    /// text parsing: 0 succeeds, 1 LexError, 2 panics
    pub static PARSE: Cell<u8> = const { Cell::new(0) };
    /// number of texts handed to the parser, and the length and hash of the last
    pub static PARSED: Cell<u64> = const { Cell::new(0) };
    /// calls of TokenStream::extend
    pub static EXTENDS: Cell<u64> = const { Cell::new(0) };
}
fn call() {
    CALLS.with(|c| c.set(c.get() + 1));
    if !AVAILABLE.with(|c| c.get()) {
        panic!("procedural macro API is used outside of a procedural macro");
    }
}
pub fn is_available() -> bool {
    if let Some(other) = RACE.with(|c| c.take()) {
        other();
    }
    AVAILABLE.with(|c| c.get())
}
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}

/// an injective record of (operation, operands) for operands below 2^12
pub fn mix(op: u64, a: u64, b: u64) -> u64 {
    op.wrapping_mul(1 << 24).wrapping_add(a.wrapping_mul(1 << 12)).wrapping_add(b)
}
/// id: where the span comes from; lo, hi: its position (line * 256 + column)
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Span {
    pub id: u64,
    pub lo: u64,
    pub hi: u64,
}
pub const fn site(id: u64) -> Span {
    Span { id, lo: id, hi: id + 1 }
}
impl Span {
    pub fn call_site() -> Span {
        call();
        site(1)
    }
    pub fn mixed_site() -> Span {
        call();
        site(2)
    }
    #[cfg_attr(unstable, unstable(feature = "proc_macro_def_site", issue = "none"))]
    pub fn def_site() -> Span {
        call();
        site(3)
    }
    pub fn resolved_at(&self, o: Span) -> Span {
        Span { id: mix(10, self.id, o.id), lo: self.lo, hi: self.hi }
    }
    pub fn located_at(&self, o: Span) -> Span {
        Span { id: mix(11, self.id, o.id), lo: o.lo, hi: o.hi }
    }
    pub fn join(&self, o: Span) -> Option<Span> {
        if (self.id ^ o.id) & 1 == 1 {
            None
        } else {
            Some(Span { id: mix(12, self.id, o.id), lo: self.lo, hi: o.hi })
        }
    }
    pub fn start(&self) -> Span {
        Span { id: self.id, lo: self.lo, hi: self.lo }
    }
    pub fn end(&self) -> Span {
        Span { id: self.id, lo: self.hi, hi: self.hi }
    }
    pub fn line(&self) -> usize {
        (self.lo >> 8) as usize
    }
    pub fn column(&self) -> usize {
        (self.lo & 255) as usize
    }
    pub fn byte_range(&self) -> Range<usize> {
        (self.lo as usize)..(self.hi as usize)
    }
    pub fn file(&self) -> String {
        let mut s = String::from("file");
        s.push((b'a' + (self.id & 15) as u8) as char);
        s
    }
    pub fn local_file(&self) -> Option<PathBuf> {
        if self.id & 2 == 0 {
            None
        } else {
            let mut s = String::from("local");
            s.push((b'a' + (self.id & 15) as u8) as char);
            Some(PathBuf::from(s))
        }
    }
    pub fn source_text(&self) -> Option<String> {
        if self.id & 4 == 0 {
            None
        } else {
            let mut s = String::from("text");
            s.push((b'a' + (self.id & 15) as u8) as char);
            Some(s)
        }
    }
    pub fn eq(&self, o: &Span) -> bool {
        (self.id == o.id) & (self.lo == o.lo) & (self.hi == o.hi)
    }
}
impl Debug for Span {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("span")?;
        f.write_str(if self.id & 1 == 0 { "0" } else { "1" })
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Delimiter {
    Parenthesis,
    Brace,
    Bracket,
    None,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Spacing {
    Joint,
    Alone,
}
#[derive(Clone)]
pub struct Group {
    pub delimiter: Delimiter,
    pub stream: TokenStream,
    pub span: Span,
    pub open: Span,
    pub close: Span,
}
impl Group {
    pub fn new(delimiter: Delimiter, stream: TokenStream) -> Group {
        call();
        Group { delimiter, stream, span: site(1), open: site(1), close: site(1) }
    }
    pub fn delimiter(&self) -> Delimiter {
        self.delimiter
    }
    pub fn stream(&self) -> TokenStream {
        self.stream.clone()
    }
    pub fn span(&self) -> Span {
        self.span
    }
    pub fn span_open(&self) -> Span {
        self.open
    }
    pub fn span_close(&self) -> Span {
        self.close
    }
    pub fn set_span(&mut self, s: Span) {
        self.span = s;
        self.open = Span { id: mix(20, s.id, 0), lo: s.lo, hi: s.lo + 1 };
        self.close = Span { id: mix(21, s.id, 0), lo: s.hi, hi: s.hi + 1 };
    }
}
impl Display for Group {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(["(", "{", "[", "<"][self.delimiter as usize])?;
        Display::fmt(&self.stream, f)?;
        f.write_str([")", "}", "]", ">"][self.delimiter as usize])
    }
}
impl Debug for Group {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("G:")?;
        Display::fmt(self, f)
    }
}
#[derive(Clone)]
pub struct Punct {
    pub ch: char,
    pub spacing: Spacing,
    pub span: Span,
}
impl Punct {
    pub fn new(ch: char, spacing: Spacing) -> Punct {
        call();
        Punct { ch, spacing, span: site(1) }
    }
    pub fn as_char(&self) -> char {
        self.ch
    }
    pub fn spacing(&self) -> Spacing {
        self.spacing
    }
    pub fn span(&self) -> Span {
        self.span
    }
    pub fn set_span(&mut self, s: Span) {
        self.span = s
    }
}
impl Display for Punct {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut b = [0; 4];
        f.write_str(self.ch.encode_utf8(&mut b))
    }
}
impl Debug for Punct {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("P:")?;
        Display::fmt(self, f)
    }
}
#[derive(Clone)]
pub struct Ident {
    pub text: String,
    pub raw: bool,
    pub span: Span,
}
impl Ident {
    pub fn new(s: &str, span: Span) -> Ident {
        call();
        if s.is_empty() {
            panic!("not a valid identifier");
        }
        match s.strip_prefix("r#") {
            Some(t) => Ident { text: String::from(t), raw: true, span },
            None => Ident { text: String::from(s), raw: false, span },
        }
    }
    pub fn new_raw(s: &str, span: Span) -> Ident {
        call();
        if s.is_empty() {
            panic!("not a valid identifier");
        }
        Ident { text: String::from(s), raw: true, span }
    }
    pub fn span(&self) -> Span {
        self.span
    }
    pub fn set_span(&mut self, s: Span) {
        self.span = s
    }
}
impl Display for Ident {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.raw {
            f.write_str("r#")?;
        }
        f.write_str(&self.text)
    }
}
impl Debug for Ident {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("I:")?;
        Display::fmt(self, f)
    }
}
/// which constructor made a literal
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
#[allow(non_camel_case_types)]
pub enum Kind {
    text,
    string,
    character,
    byte_character,
    byte_string,
    c_string,
    u8_suffixed,
    u16_suffixed,
    u32_suffixed,
    u64_suffixed,
    u128_suffixed,
    usize_suffixed,
    i8_suffixed,
    i16_suffixed,
    i32_suffixed,
    i64_suffixed,
    i128_suffixed,
    isize_suffixed,
    u8_unsuffixed,
    u16_unsuffixed,
    u32_unsuffixed,
    u64_unsuffixed,
    u128_unsuffixed,
    usize_unsuffixed,
    i8_unsuffixed,
    i16_unsuffixed,
    i32_unsuffixed,
    i64_unsuffixed,
    i128_unsuffixed,
    isize_unsuffixed,
    f32_suffixed,
    f64_suffixed,
    f32_unsuffixed,
    f64_unsuffixed,
}
#[derive(Clone)]
pub struct Literal {
    pub kind: Kind,
    pub bytes: Vec<u8>,
    pub num: u128,
    pub span: Span,
}
macro_rules! ints {
    ($($n:ident => $t:ident,)*) => { impl Literal { $(pub fn $n(n: $t) -> Literal {
        call();
        Literal { kind: Kind::$n, bytes: Vec::new(), num: n as u128, span: site(1) }
    })* } };
}
ints! {
    u8_suffixed => u8, u16_suffixed => u16, u32_suffixed => u32, u64_suffixed => u64, u128_suffixed => u128, usize_suffixed => usize,
    i8_suffixed => i8, i16_suffixed => i16, i32_suffixed => i32, i64_suffixed => i64, i128_suffixed => i128, isize_suffixed => isize,
    u8_unsuffixed => u8, u16_unsuffixed => u16, u32_unsuffixed => u32, u64_unsuffixed => u64, u128_unsuffixed => u128, usize_unsuffixed => usize,
    i8_unsuffixed => i8, i16_unsuffixed => i16, i32_unsuffixed => i32, i64_unsuffixed => i64, i128_unsuffixed => i128, isize_unsuffixed => isize,
}
macro_rules! floats {
    ($($n:ident => $t:ident,)*) => { impl Literal { $(pub fn $n(n: $t) -> Literal {
        call();
        Literal { kind: Kind::$n, bytes: Vec::new(), num: n.to_bits() as u128, span: site(1) }
    })* } };
}
floats! { f32_suffixed => f32, f64_suffixed => f64, f32_unsuffixed => f32, f64_unsuffixed => f64, }
impl Literal {
    fn of(kind: Kind, b: &[u8]) -> Literal {
        call();
        Literal { kind, bytes: b.to_vec(), num: 0, span: site(1) }
    }
    pub fn string(s: &str) -> Literal {
        Literal::of(Kind::string, s.as_bytes())
    }
    pub fn character(c: char) -> Literal {
        let mut l = Literal::of(Kind::character, &[]);
        l.num = c as u128;
        l
    }
    pub fn byte_character(c: u8) -> Literal {
        let mut l = Literal::of(Kind::byte_character, &[]);
        l.num = c as u128;
        l
    }
    pub fn byte_string(b: &[u8]) -> Literal {
        Literal::of(Kind::byte_string, b)
    }
    pub fn c_string(b: &CStr) -> Literal {
        Literal::of(Kind::c_string, b.to_bytes())
    }
    pub fn span(&self) -> Span {
        self.span
    }
    pub fn set_span(&mut self, s: Span) {
        self.span = s
    }
    pub fn subspan<R: RangeBounds<usize>>(&self, range: R) -> Option<Span> {
        let bound = |b: Bound<&usize>| match b {
            Bound::Included(x) => (*x as u64).wrapping_mul(3),
            Bound::Excluded(x) => (*x as u64).wrapping_mul(3).wrapping_add(1),
            Bound::Unbounded => 2,
        };
        let (a, b) = (bound(range.start_bound()), bound(range.end_bound()));
        if b == 0 {
            None
        } else {
            Some(Span { id: mix(30, self.span.id, 0), lo: a, hi: b })
        }
    }
}
impl Display for Literal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.kind == Kind::text {
            return f.write_str(unsafe { std::str::from_utf8_unchecked(&self.bytes) });
        }
        // The value as the compiler writes it, except that floats show only their sign, and strings no escapes.
        let name = format!("{:?}", self.kind);
        let text = |f: &mut fmt::Formatter, open: &str, close: &str| {
            f.write_str(open)?;
            f.write_str(&String::from_utf8_lossy(&self.bytes))?;
            f.write_str(close)
        };
        match self.kind {
            Kind::string => text(f, "\"", "\""),
            Kind::byte_string => text(f, "b\"", "\""),
            Kind::c_string => text(f, "c\"", "\""),
            Kind::character => write!(f, "'{}'", char::from_u32(self.num as u32).unwrap_or('?')),
            Kind::byte_character => write!(f, "b'{}'", self.num as u8 as char),
            _ => {
                let (ty, suffixed) = match name.find('_') {
                    Some(i) => (&name[..i], name.len() == i + 9),
                    None => ("", false),
                };
                match name.as_bytes()[0] {
                    b'u' => write!(f, "{}", self.num)?,
                    b'i' => write!(f, "{}", self.num as i128)?,
                    _ => f.write_str(if self.num >> (if ty == "f32" { 31 } else { 63 }) & 1 == 1 { "-0.0" } else { "0.0" })?,
                }
                f.write_str(if suffixed { ty } else { "" })
            }
        }
    }
}
impl Debug for Literal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("L:")?;
        Display::fmt(self, f)
    }
}
fn parsed(s: &str) -> Result<(), LexError> {
    call();
    PARSED.with(|c| c.set(c.get() + 1));
    match PARSE.with(|c| c.get()) {
        0 => Ok(()),
        1 => Err(LexError(s.len() as u64)),
        _ => panic!("the compiler panicked"),
    }
}
impl FromStr for Literal {
    type Err = LexError;
    fn from_str(s: &str) -> Result<Literal, LexError> {
        parsed(s)?;
        Ok(Literal { kind: Kind::text, bytes: s.as_bytes().to_vec(), num: 0, span: site(1) })
    }
}

#[derive(Clone)]
pub enum TokenTree {
    Group(Group),
    Ident(Ident),
    Punct(Punct),
    Literal(Literal),
}
impl Display for TokenTree {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            TokenTree::Group(t) => Display::fmt(t, f),
            TokenTree::Ident(t) => Display::fmt(t, f),
            TokenTree::Punct(t) => Display::fmt(t, f),
            TokenTree::Literal(t) => Display::fmt(t, f),
        }
    }
}
impl From<Group> for TokenTree {
    fn from(t: Group) -> TokenTree {
        TokenTree::Group(t)
    }
}
impl From<Ident> for TokenTree {
    fn from(t: Ident) -> TokenTree {
        TokenTree::Ident(t)
    }
}
impl From<Punct> for TokenTree {
    fn from(t: Punct) -> TokenTree {
        TokenTree::Punct(t)
    }
}
impl From<Literal> for TokenTree {
    fn from(t: Literal) -> TokenTree {
        TokenTree::Literal(t)
    }
}
#[derive(Clone, Default)]
pub struct TokenStream {
    pub v: Vec<TokenTree>,
}
impl TokenStream {
    pub fn new() -> TokenStream {
        call();
        TokenStream { v: Vec::new() }
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
}
impl FromStr for TokenStream {
    type Err = LexError;
    fn from_str(s: &str) -> Result<TokenStream, LexError> {
        parsed(s)?;
        let l = Literal { kind: Kind::text, bytes: s.as_bytes().to_vec(), num: 0, span: site(1) };
        Ok(TokenStream { v: vec![TokenTree::Literal(l)] })
    }
}
impl From<TokenTree> for TokenStream {
    fn from(t: TokenTree) -> TokenStream {
        call();
        TokenStream { v: vec![t] }
    }
}
impl FromIterator<TokenTree> for TokenStream {
    fn from_iter<I: IntoIterator<Item = TokenTree>>(i: I) -> TokenStream {
        call();
        let mut v = Vec::with_capacity(4);
        for t in i {
            v.push(t);
        }
        TokenStream { v }
    }
}
impl FromIterator<TokenStream> for TokenStream {
    fn from_iter<I: IntoIterator<Item = TokenStream>>(i: I) -> TokenStream {
        call();
        let mut v = Vec::with_capacity(4);
        for t in i {
            v.extend(t.v);
        }
        TokenStream { v }
    }
}
impl Extend<TokenTree> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenTree>>(&mut self, i: I) {
        call();
        EXTENDS.with(|c| c.set(c.get() + 1));
        for t in i {
            self.v.push(t);
        }
    }
}
impl Extend<TokenStream> for TokenStream {
    fn extend<I: IntoIterator<Item = TokenStream>>(&mut self, i: I) {
        call();
        for s in i {
            for t in s.v {
                self.v.push(t);
            }
        }
    }
}
impl Display for TokenStream {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for t in &self.v {
            Display::fmt(t, f)?;
            f.write_str(" ")?;
        }
        Ok(())
    }
}
impl Debug for TokenStream {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("TS:")?;
        Display::fmt(self, f)
    }
}
pub struct LexError(pub u64);
impl Display for LexError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("compiler lex error")
    }
}
impl Debug for LexError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("CompilerLexError")
    }
}
impl std::error::Error for LexError {}
pub mod token_stream {
    pub use super::TokenStream;
    use super::TokenTree;
    #[derive(Clone)]
    pub struct IntoIter(pub std::vec::IntoIter<TokenTree>);
    impl Iterator for IntoIter {
        type Item = TokenTree;
        fn next(&mut self) -> Option<TokenTree> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
}
impl IntoIterator for TokenStream {
    type Item = TokenTree;
    type IntoIter = token_stream::IntoIter;
    fn into_iter(self) -> token_stream::IntoIter {
        token_stream::IntoIter(self.v.into_iter())
    }
}
