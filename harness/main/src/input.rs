//! Symbolic inputs: a template (encoded in the job's parameters) mixes concrete
//! bytes, symbolic byte windows and choices of representative characters.
use vp::*;

/// Representative non-ASCII characters (each class the lexer may distinguish).
pub const UNI: [char; 24] = [
    '\u{85}',    // NEL: whitespace
    '\u{a0}',    // NBSP: whitespace
    '\u{aa}',    // XID_Start, 2 bytes
    '\u{b2}',    // superscript two: numeric, neither XID nor ASCII digit
    '\u{b7}',    // XID_Continue only, 2 bytes
    '\u{e9}',    // XID_Start
    '\u{300}',   // combining mark: XID_Continue only
    '\u{660}',   // Arabic digit: XID_Continue only
    '\u{1680}',  // ogham space: whitespace, 3 bytes
    '\u{200b}',  // zero width space: not whitespace
    '\u{200d}',  // ZWJ: XID_Continue? (no)
    '\u{200e}',  // LRM: Rust whitespace
    '\u{200f}',  // RLM: Rust whitespace
    '\u{2028}',  // line separator
    '\u{203f}',  // undertie: XID_Continue only, 3 bytes
    '\u{3000}',  // ideographic space
    '\u{4e2d}',  // XID_Start, 3 bytes
    '\u{d7ff}',  // last before the surrogates
    '\u{feff}',  // BOM
    '\u{ff11}',  // fullwidth digit one
    '\u{1d7ce}', // mathematical digit: XID_Continue, 4 bytes
    '\u{1f980}', // crab, 4 bytes
    '\u{20000}', // XID_Start, 4 bytes
    '\u{10ffff}',
];

pub struct Src {
    pub b: Vec<u8>,
}

impl Src {
    pub fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.b) }
    }
    pub fn sym(&mut self, n: usize, kind: u32) {
        let at = self.b.len();
        for _ in 0..n {
            self.b.push(0);
        }
        vp_sym(unsafe { self.b.as_mut_ptr().add(at) }, n, kind);
    }
    pub fn uni(&mut self) {
        let c = UNI[vp_choice(UNI.len() as u64) as usize];
        self.push(c);
    }
    pub fn push(&mut self, c: char) {
        let mut t = [0u8; 4];
        self.b.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
    }
    /// any scalar value whose encoding has n bytes
    pub fn sym_char(&mut self, n: usize) {
        let at = self.b.len();
        match n {
            1 => self.sym(1, 1),
            2 => {
                self.sym(1, 3);
                self.sym(1, 2);
                vp_assume(self.b[at] >= 0xc2);
            }
            3 => {
                self.sym(1, 4);
                self.sym(2, 2);
                let (x, y) = (self.b[at], self.b[at + 1]);
                vp_assume((x != 0xe0) | (y >= 0xa0));
                vp_assume((x != 0xed) | (y < 0xa0));
            }
            _ => {
                self.sym(1, 5);
                self.sym(3, 2);
                let (x, y) = (self.b[at], self.b[at + 1]);
                vp_assume(x <= 0xf4);
                vp_assume((x != 0xf0) | (y >= 0x90));
                vp_assume((x != 0xf4) | (y < 0x90));
            }
        }
    }
}

/// Template opcodes (job parameters from index `i` up to an END or NEXT code):
/// 0..=255 literal byte; 0x100+n: n symbolic ASCII bytes; 0x200: one choice of
/// UNI; 0x300+n: one symbolic character of n bytes; 0x400: ASCII byte or UNI
/// choice; 0x1000_0000 | byte<<16 | count: repeated byte; 0x900: END; 0x901 NEXT.
/// 0x500 + k, then k pairs...: choice between literal alternatives:
/// 0x500+k, len1, bytes.., len2, bytes.., ...
/// 0x600+k, n, b1..bk: n symbolic bytes, each one of b1..bk
/// 0x340 + n: n symbolic UTF-8 continuation bytes
/// 0x700 + n: n arbitrary bytes; 0x780 + n: n non-zero bytes
/// 0x2000_0000 | byte<<16 | hi, lo: the byte repeated lo..=hi times
pub const END: u64 = 0x900;
pub const NEXT: u64 = 0x901;

pub fn template(i: &mut u64) -> Src {
    let mut s = Src { b: Vec::with_capacity(64) };
    loop {
        let op = vp_param(*i);
        *i += 1;
        if op < 0x100 {
            s.b.push(op as u8);
        } else if op == END {
            *i -= 1;
            return s;
        } else if op == NEXT {
            return s;
        } else if op < 0x200 {
            s.sym((op - 0x100) as usize, 1);
        } else if op == 0x200 {
            s.uni();
        } else if op >= 0x340 && op < 0x400 {
            s.sym((op - 0x340) as usize, 2);
        } else if op < 0x340 {
            s.sym_char((op - 0x300) as usize);
        } else if op == 0x400 {
            if vp_choice(2) == 0 {
                s.sym(1, 1);
            } else {
                s.uni();
            }
        } else if op >= 0x600 && op < 0x700 {
            let k = op - 0x600;
            let n = vp_param(*i) as usize;
            *i += 1;
            let at = s.b.len();
            s.sym(n, 1);
            for j in at..at + n {
                let c = s.b[j];
                let mut ok = false;
                for a in 0..k {
                    ok |= c == vp_param(*i + a) as u8;
                }
                vp_assume(ok);
            }
            *i += k;
        } else if op >= 0x780 && op < 0x800 {
            let n = (op - 0x780) as usize;
            let at = s.b.len();
            s.sym(n, 0);
            for j in at..at + n {
                vp_assume(s.b[j] != 0);
            }
        } else if op >= 0x700 && op < 0x780 {
            s.sym((op - 0x700) as usize, 0);
        } else if op < 0x600 {
            let k = op - 0x500;
            let pick = vp_choice(k);
            for a in 0..k {
                let n = vp_param(*i);
                *i += 1;
                for _ in 0..n {
                    if a == pick {
                        s.b.push(vp_param(*i) as u8);
                    }
                    *i += 1;
                }
            }
        } else {
            let b = (op >> 16) as u8;
            let mut n = op & 0xffff;
            if op >= 0x2000_0000 {
                let lo = vp_param(*i);
                *i += 1;
                n = lo + vp_choice(n - lo + 1);
            }
            for _ in 0..n {
                s.b.push(b);
            }
        }
    }
}
