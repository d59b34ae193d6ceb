//! Hash-consed bit-vector expressions over symbolic input bytes.
use crate::ir::{mask, sext, Bin};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Arc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type FxMap<K, T> = HashMap<K, T, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CmpK {
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Var(u16),
    Const(u128),
    Bin(Bin, u32, u32),
    Cmp(CmpK, u32, u32),
    ZExt(u32),
    SExt(u32),
    Ext(u32, u32),
    Cat(u32, u32),
    Ite(u32, u32, u32),
    Tab(u32, u32),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub n: N,
    pub w: u32,
    pub kz: u128,
    pub ko: u128,
    pub sup: u128,
}

pub type Set = [u64; 4];
pub const FULL: Set = [u64::MAX; 4];
pub const EMPTY: Set = [0; 4];
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_has(a: &Set, v: u8) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn set_first(a: &Set) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i as u32 * 64 + a[i].trailing_zeros()) as u8);
        }
    }
    None
}

pub struct TableD {
    pub data: Arc<Vec<u8>>,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(N, u32), u32>,
    pub tables: Vec<TableD>,
    pub tabmap: HashMap<u64, u32>,
    truth: FxMap<u32, Set>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], map: Default::default(), tables: vec![], tabmap: HashMap::new(), truth: Default::default(), stamp: vec![], memo: vec![], cur: 0 };
        a.konst(0, 1); // id 0
        a.konst(1, 1); // id 1
        a
    }
    pub const F: u32 = 0;
    pub const T: u32 = 1;

    pub fn w(&self, e: u32) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn sup(&self, e: u32) -> u128 {
        self.nodes[e as usize].sup
    }
    pub fn is_const(&self, e: u32) -> Option<u128> {
        match self.nodes[e as usize].n {
            N::Const(c) => Some(c),
            _ => None,
        }
    }
    /// number of distinct nodes, counted up to `max`; a table counts 256
    pub fn size(&self, e: u32, max: usize) -> usize {
        let mut seen: FxMap<u32, ()> = FxMap::default();
        let mut work = vec![e];
        let mut n = 0;
        while let Some(x) = work.pop() {
            if n >= max {
                return n;
            }
            if seen.insert(x, ()).is_some() {
                continue;
            }
            n += 1;
            match self.nodes[x as usize].n {
                N::Var(_) | N::Const(_) => {}
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Cat(a, b) => work.extend([a, b]),
                N::ZExt(a) | N::SExt(a) | N::Ext(a, _) => work.push(a),
                N::Ite(a, b, c) => work.extend([a, b, c]),
                N::Tab(_, a) => {
                    n += 256;
                    work.push(a)
                }
            }
        }
        n
    }
    fn mk(&mut self, n: N, w: u32) -> u32 {
        if let Some(&i) = self.map.get(&(n, w)) {
            return i;
        }
        let (kz, ko, sup) = self.props(&n, w);
        let m = mask(w);
        let (kz, ko) = (kz & m, ko & m);
        if !matches!(n, N::Const(_)) && kz | ko == m {
            let k = self.konst(ko, w);
            self.map.insert((n, w), k);
            return k;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { n, w, kz, ko, sup });
        self.map.insert((n, w), i);
        i
    }
    fn props(&self, n: &N, w: u32) -> (u128, u128, u128) {
        let nd = |i: u32| &self.nodes[i as usize];
        let m = mask(w);
        match *n {
            N::Var(_) => unreachable!(),
            N::Const(c) => (!c & m, c, 0),
            N::Bin(op, a, b) => {
                let (x, y) = (nd(a), nd(b));
                let sup = x.sup | y.sup;
                let (kz, ko) = match op {
                    Bin::And => (x.kz | y.kz, x.ko & y.ko),
                    Bin::Or => (x.kz & y.kz, x.ko | y.ko),
                    Bin::Xor => ((x.kz & y.kz) | (x.ko & y.ko), (x.kz & y.ko) | (x.ko & y.kz)),
                    Bin::Add => {
                        // leading zeros and trailing zeros
                        let tz = (!x.kz & m).trailing_zeros().min((!y.kz & m).trailing_zeros()).min(w);
                        let mut kz = mask(tz);
                        let mx = (!x.kz & m).checked_add(!y.kz & m);
                        if let Some(mx) = mx {
                            if mx <= m {
                                let lz = 128 - mx.leading_zeros();
                                kz |= m & !mask(lz);
                            }
                        }
                        (kz, 0)
                    }
                    Bin::Mul => {
                        let mx = (!x.kz & m).checked_mul(!y.kz & m);
                        let mut kz = 0;
                        if let Some(mx) = mx {
                            if mx <= m {
                                let lz = 128 - mx.leading_zeros();
                                kz |= m & !mask(lz);
                            }
                        }
                        let tz = ((!x.kz & m).trailing_zeros() + (!y.kz & m).trailing_zeros()).min(w);
                        (kz | mask(tz), 0)
                    }
                    Bin::UDiv => {
                        let mx = !x.kz & m;
                        let mx = match nd(b).n {
                            N::Const(c) if c != 0 => mx / c,
                            _ => mx,
                        };
                        (m & !mask(128 - mx.leading_zeros()), 0)
                    }
                    Bin::URem => {
                        let mut mx = !x.kz & m;
                        if let N::Const(c) = nd(b).n {
                            if c != 0 {
                                mx = mx.min(c - 1);
                            }
                        }
                        (m & !mask(128 - mx.leading_zeros()), 0)
                    }
                    Bin::LShr => {
                        let mx = !x.kz & m;
                        (m & !mask(128 - mx.leading_zeros()), 0)
                    }
                    _ => (0, 0),
                };
                (kz, ko, sup)
            }
            N::Cmp(_, a, b) => (0, 0, nd(a).sup | nd(b).sup),
            N::ZExt(a) => {
                let x = nd(a);
                (x.kz | (m & !mask(x.w)), x.ko, x.sup)
            }
            N::SExt(a) => {
                let x = nd(a);
                let sb = 1u128 << (x.w - 1);
                let hi = m & !mask(x.w);
                (x.kz | if x.kz & sb != 0 { hi } else { 0 }, x.ko | if x.ko & sb != 0 { hi } else { 0 }, x.sup)
            }
            N::Ext(a, lo) => {
                let x = nd(a);
                (x.kz >> lo, x.ko >> lo, x.sup)
            }
            N::Cat(h, l) => {
                let (x, y) = (nd(h), nd(l));
                ((x.kz << y.w) | y.kz, (x.ko << y.w) | y.ko, x.sup | y.sup)
            }
            N::Ite(c, a, b) => {
                let (x, y) = (nd(a), nd(b));
                (x.kz & y.kz, x.ko & y.ko, x.sup | y.sup | nd(c).sup)
            }
            N::Tab(_, i) => (0, 0, nd(i).sup),
        }
    }
    pub fn konst(&mut self, c: u128, w: u32) -> u32 {
        let c = c & mask(w);
        if let Some(&i) = self.map.get(&(N::Const(c), w)) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { n: N::Const(c), w, kz: !c & mask(w), ko: c, sup: 0 });
        self.map.insert((N::Const(c), w), i);
        i
    }
    pub fn var(&mut self, v: u16, kz: u8, ko: u8) -> u32 {
        // variables with the same index must have the same known bits: encoded in the width key
        let key = (N::Var(v), 8u32 | (kz as u32) << 8 | (ko as u32) << 16);
        if let Some(&i) = self.map.get(&key) {
            return i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { n: N::Var(v), w: 8, kz: kz as u128, ko: ko as u128, sup: 1u128 << v });
        self.map.insert(key, i);
        i
    }
    pub fn not(&mut self, a: u32) -> u32 {
        debug_assert_eq!(self.w(a), 1);
        self.bin(Bin::Xor, a, Self::T)
    }
    pub fn and(&mut self, a: u32, b: u32) -> u32 {
        self.bin(Bin::And, a, b)
    }
    pub fn or(&mut self, a: u32, b: u32) -> u32 {
        self.bin(Bin::Or, a, b)
    }
    /// if e is the negation of something, return it
    fn as_not(&self, e: u32) -> Option<u32> {
        if self.w(e) == 1 {
            if let N::Bin(Bin::Xor, a, b) = self.nodes[e as usize].n {
                if b == Self::T {
                    return Some(a);
                }
            }
        }
        None
    }
    pub fn bin(&mut self, op: Bin, mut a: u32, mut b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let m = mask(w);
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold(op, w, x, y) {
                return self.konst(r, w);
            }
        }
        let comm = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        match op {
            Bin::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    let nd = &self.nodes[a as usize];
                    let live = !nd.kz & m;
                    if k & live == live {
                        return a;
                    }
                    if k & live == 0 {
                        return self.konst(0, w);
                    }
                    let k = k & live;
                    // contiguous run
                    let lo = k.trailing_zeros();
                    let run = k >> lo;
                    if run & (run.wrapping_add(1)) == 0 && w > 1 {
                        let len = 128 - run.leading_zeros();
                        let e = self.ext(a, lo, len);
                        let z = if lo > 0 {
                            let zk = self.konst(0, lo);
                            self.cat(e, zk)
                        } else {
                            e
                        };
                        return self.zext(z, w);
                    }
                    match self.nodes[a as usize].n {
                        N::Bin(Bin::And, x, y) => {
                            if let Some(k2) = self.is_const(y) {
                                let kk = self.konst(k & k2, w);
                                return self.bin(Bin::And, x, kk);
                            }
                        }
                        _ => {}
                    }
                    if let Some(r) = self.distribute(op, a, b) {
                        return r;
                    }
                    if k != cb.unwrap() {
                        let kk = self.konst(k, w);
                        return self.mk(N::Bin(op, a, kk), w);
                    }
                } else {
                    if w == 1 && (self.as_not(a) == Some(b) || self.as_not(b) == Some(a)) {
                        return Self::F;
                    }
                    let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                    if x.kz | y.kz == m {
                        return self.konst(0, w);
                    }
                    if let Some(r) = self.distribute(op, a, b) {
                        return r;
                    }
                }
            }
            Bin::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                    if self.nodes[a as usize].ko & k == k {
                        return a;
                    }
                }
                if w == 1 && (self.as_not(a) == Some(b) || self.as_not(b) == Some(a)) {
                    return Self::T;
                }
                if let Some(r) = self.distribute(op, a, b) {
                    return r;
                }
            }
            Bin::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if let N::Bin(Bin::Xor, x, y) = self.nodes[a as usize].n {
                        if let Some(k2) = self.is_const(y) {
                            let kk = self.konst(k ^ k2, w);
                            return self.bin(Bin::Xor, x, kk);
                        }
                    }
                    if w == 1 {
                        if let N::Ite(c, x, y) = self.nodes[a as usize].n {
                            let nx = self.not(x);
                            let ny = self.not(y);
                            return self.ite(c, nx, ny);
                        }
                    }
                }
                if w > 1 {
                    let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                    if x.kz | y.kz == m {
                        return self.bin(Bin::Or, a, b);
                    }
                    if let Some(r) = self.distribute(op, a, b) {
                        return r;
                    }
                }
            }
            Bin::Add => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if let N::Bin(Bin::Add, x, y) = self.nodes[a as usize].n {
                        if let Some(k2) = self.is_const(y) {
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Bin::Add, x, kk);
                        }
                    }
                }
                let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                if x.kz | y.kz == m {
                    return self.bin(Bin::Or, a, b);
                }
                // (x - y) + y
                if let N::Bin(Bin::Sub, p, q) = self.nodes[a as usize].n {
                    if q == b {
                        return p;
                    }
                }
                if let N::Bin(Bin::Sub, p, q) = self.nodes[b as usize].n {
                    if q == a {
                        return p;
                    }
                }
            }
            Bin::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let kk = self.konst(k.wrapping_neg(), w);
                    return self.bin(Bin::Add, a, kk);
                }
                // (x + y) - x
                if let N::Bin(Bin::Add, p, q) = self.nodes[a as usize].n {
                    if p == b {
                        return q;
                    }
                    if q == b {
                        return p;
                    }
                }
            }
            Bin::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let kk = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Bin::Shl, a, kk);
                    }
                }
            }
            Bin::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let kk = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Bin::LShr, a, kk);
                    }
                    // narrow if high bits known zero
                    let live = 128 - (!self.nodes[a as usize].kz & m).leading_zeros();
                    let need = live.max(128 - k.leading_zeros());
                    if need < w && need > 0 {
                        let x = self.ext(a, 0, need);
                        let y = self.konst(k, need);
                        let r = self.bin(Bin::UDiv, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Bin::URem => {
                if let Some(k) = cb {
                    if k == 1 {
                        return self.konst(0, w);
                    }
                    if k.is_power_of_two() {
                        let kk = self.konst(k - 1, w);
                        return self.bin(Bin::And, a, kk);
                    }
                    let mx = !self.nodes[a as usize].kz & m;
                    if k != 0 && mx < k {
                        return a;
                    }
                    let live = 128 - mx.leading_zeros();
                    let need = live.max(128 - k.leading_zeros());
                    if need < w && need > 0 {
                        let x = self.ext(a, 0, need);
                        let y = self.konst(k, need);
                        let r = self.bin(Bin::URem, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            Bin::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let e = self.ext(a, 0, w - k as u32);
                    let z = self.konst(0, k as u32);
                    return self.cat(e, z);
                }
            }
            Bin::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let e = self.ext(a, k as u32, w - k as u32);
                    return self.zext(e, w);
                }
            }
            Bin::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1);
                    let e = self.ext(a, k as u32, w - k as u32);
                    return self.sext(e, w);
                }
            }
            Bin::SDiv | Bin::SRem => {
                // both known non-negative
                let sb = 1u128 << (w - 1);
                if self.nodes[a as usize].kz & sb != 0 && self.nodes[b as usize].kz & sb != 0 {
                    return self.bin(if op == Bin::SDiv { Bin::UDiv } else { Bin::URem }, a, b);
                }
            }
        }
        self.mk(N::Bin(op, a, b), w)
    }
    /// distribute bitwise op over Cat / ZExt structure
    fn distribute(&mut self, op: Bin, a: u32, b: u32) -> Option<u32> {
        let w = self.w(a);
        if w == 1 {
            return None;
        }
        let split = |s: &Self, e: u32| -> Option<u32> {
            match s.nodes[e as usize].n {
                N::Cat(_, l) => Some(s.w(l)),
                N::ZExt(x) => Some(s.w(x)),
                _ => None,
            }
        };
        let structured = |s: &Self, e: u32| matches!(s.nodes[e as usize].n, N::Cat(..) | N::ZExt(..) | N::Const(_));
        if !(structured(self, a) && structured(self, b)) {
            return None;
        }
        let sa = split(self, a);
        let sb = split(self, b);
        let k = match (sa, sb) {
            (Some(x), Some(y)) => x.min(y),
            (Some(x), None) | (None, Some(x)) => x,
            _ => return None,
        };
        let ah = self.ext(a, k, w - k);
        let al = self.ext(a, 0, k);
        let bh = self.ext(b, k, w - k);
        let bl = self.ext(b, 0, k);
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        Some(self.cat(h, l))
    }
    pub fn ext(&mut self, a: u32, lo: u32, len: u32) -> u32 {
        let w = self.w(a);
        debug_assert!(lo + len <= w && len > 0, "ext {} {} {}", w, lo, len);
        if lo == 0 && len == w {
            return a;
        }
        let nd = self.nodes[a as usize].clone();
        let sm = mask(len);
        if ((nd.kz | nd.ko) >> lo) & sm == sm {
            return self.konst(nd.ko >> lo, len);
        }
        match nd.n {
            N::Const(c) => self.konst(c >> lo, len),
            N::Ext(x, l2) => self.ext(x, lo + l2, len),
            N::Cat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.ext(h, lo - lw, len)
                } else if lo + len <= lw {
                    self.ext(l, lo, len)
                } else {
                    let hh = self.ext(h, 0, lo + len - lw);
                    let ll = self.ext(l, lo, lw - lo);
                    self.cat(hh, ll)
                }
            }
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.konst(0, len)
                } else if lo + len <= xw {
                    self.ext(x, lo, len)
                } else {
                    let e = self.ext(x, lo, xw - lo);
                    self.zext(e, len)
                }
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if lo + len <= xw {
                    self.ext(x, lo, len)
                } else if lo < xw {
                    let e = self.ext(x, lo, xw - lo);
                    self.sext(e, len)
                } else {
                    let e = self.ext(x, xw - 1, 1);
                    self.sext(e, len)
                }
            }
            N::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), x, y) => {
                let p = self.ext(x, lo, len);
                let q = self.ext(y, lo, len);
                self.bin(op, p, q)
            }
            N::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul), x, y) if lo == 0 => {
                let p = self.ext(x, 0, len);
                let q = self.ext(y, 0, len);
                self.bin(op, p, q)
            }
            N::Ite(c, x, y) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let p = self.ext(x, lo, len);
                let q = self.ext(y, lo, len);
                self.ite(c, p, q)
            }
            _ => self.mk(N::Ext(a, lo), len),
        }
    }
    pub fn cat(&mut self, h: u32, l: u32) -> u32 {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w <= 128, "cat too wide");
        match (self.is_const(h), self.is_const(l)) {
            (Some(x), Some(y)) => return self.konst((x << lw) | y, w),
            (Some(0), None) => return self.zext(l, w),
            _ => {}
        }
        if let N::ZExt(x) = self.nodes[h as usize].n {
            let c = self.cat(x, l);
            return self.zext(c, w);
        }
        // adjacent extracts
        let hn = self.nodes[h as usize].n;
        let ln = self.nodes[l as usize].n;
        if let N::Ext(x, lo) = hn {
            match ln {
                N::Ext(y, l2) if x == y && l2 + lw == lo => return self.ext(x, l2, w),
                N::Cat(p, q) => {
                    if let N::Ext(y, l2) = self.nodes[p as usize].n {
                        if x == y && l2 + self.w(p) == lo {
                            let pw = self.w(p);
                            let hp = self.ext(x, l2, pw + hw);
                            return self.cat(hp, q);
                        }
                    }
                }
                _ => {
                    if x == l && lo == lw {
                        // ext(x, lo) ++ x where x has width lw == lo: impossible unless w(x) > lo
                    }
                }
            }
        }
        if let N::SExt(_) = hn {}
        if let N::Cat(a, b) = hn {
            let bl = self.cat(b, l);
            return self.cat(a, bl);
        }
        // sign extension pattern not needed
        self.mk(N::Cat(h, l), w)
    }
    pub fn zext(&mut self, a: u32, w: u32) -> u32 {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match self.nodes[a as usize].n {
            N::Const(c) => self.konst(c, w),
            N::ZExt(x) => self.zext(x, w),
            _ => self.mk(N::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: u32, w: u32) -> u32 {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let nd = &self.nodes[a as usize];
        if nd.kz >> (aw - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        match nd.n {
            N::Const(c) => self.konst(sext(c, aw) as u128, w),
            N::SExt(x) => self.sext(x, w),
            _ => self.mk(N::SExt(a), w),
        }
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if c == Self::T {
            return a;
        }
        if c == Self::F {
            return b;
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if let Some(x) = self.as_not(c) {
            return self.ite(x, b, a);
        }
        if w == 1 {
            if a == Self::T {
                return self.or(c, b);
            }
            if a == Self::F {
                let nc = self.not(c);
                return self.and(nc, b);
            }
            if b == Self::F {
                return self.and(c, a);
            }
            if b == Self::T {
                let nc = self.not(c);
                return self.or(nc, a);
            }
        }
        if let N::Ite(c2, x, y) = self.nodes[b as usize].n {
            if x == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, y);
            }
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        if let N::Ite(c2, x, _) = self.nodes[a as usize].n {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, mut a: u32, mut b: u32) -> u32 {
        if a == b {
            return Self::T;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.is_const(a).is_some() || (self.is_const(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        if (x.kz & y.ko) | (x.ko & y.kz) != 0 {
            return Self::F;
        }
        let (an, bn) = (x.n, y.n);
        if let N::Const(c) = bn {
            if w == 1 {
                return if c == 1 { a } else { self.not(a) };
            }
            match an {
                N::ZExt(x) => {
                    let xw = self.w(x);
                    if c & !mask(xw) != 0 {
                        return Self::F;
                    }
                    let k = self.konst(c, xw);
                    return self.eq(x, k);
                }
                N::SExt(x) => {
                    let xw = self.w(x);
                    let t = c & mask(xw);
                    if sext(t, xw) as u128 & mask(w) != c {
                        return Self::F;
                    }
                    let k = self.konst(t, xw);
                    return self.eq(x, k);
                }
                N::Cat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kh = self.konst(c >> lw, hw);
                    let kl = self.konst(c & mask(lw), lw);
                    let p = self.eq(h, kh);
                    let q = self.eq(l, kl);
                    return self.and(p, q);
                }
                N::Bin(Bin::Xor, x, y) => {
                    if let Some(k) = self.is_const(y) {
                        let k = self.konst(c ^ k, w);
                        return self.eq(x, k);
                    }
                }
                N::Bin(Bin::Add, x, y) => {
                    if let Some(k) = self.is_const(y) {
                        let k = self.konst(c.wrapping_sub(k), w);
                        return self.eq(x, k);
                    }
                }
                N::Bin(Bin::Sub, x, y) => {
                    if let Some(k) = self.is_const(x) {
                        let k = self.konst(k.wrapping_sub(c), w);
                        return self.eq(y, k);
                    }
                    if c == 0 {
                        return self.eq(x, y);
                    }
                }
                N::Ite(cc, x, y) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                    let p = self.eq(x, b);
                    let q = self.eq(y, b);
                    return self.ite(cc, p, q);
                }
                _ => {}
            }
        } else {
            match (an, bn) {
                (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                (N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                (N::Cat(h1, l1), N::Cat(h2, l2)) if self.w(l1) == self.w(l2) => {
                    let p = self.eq(h1, h2);
                    let q = self.eq(l1, l2);
                    return self.and(p, q);
                }
                _ => {}
            }
            if w == 1 {
                let x = self.bin(Bin::Xor, a, b);
                return self.not(x);
            }
        }
        self.mk(N::Cmp(CmpK::Eq, a, b), 1)
    }
    pub fn ult(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return Self::F;
        }
        let w = self.w(a);
        let m = mask(w);
        let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let (amin, amax) = (x.ko, !x.kz & m);
        let (bmin, bmax) = (y.ko, !y.kz & m);
        if amax < bmin {
            return Self::T;
        }
        if amin >= bmax {
            return Self::F;
        }
        let (an, bn) = (x.n, y.n);
        match (an, bn) {
            (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.ult(x, y),
            (N::ZExt(x), N::Const(c)) => {
                let xw = self.w(x);
                if c > mask(xw) {
                    return Self::T;
                }
                let k = self.konst(c, xw);
                return self.ult(x, k);
            }
            (N::Const(c), N::ZExt(x)) => {
                let xw = self.w(x);
                if c >= mask(xw) {
                    return Self::F;
                }
                let k = self.konst(c, xw);
                return self.ult(k, x);
            }
            (N::Ite(cc, x, y), N::Const(_)) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let p = self.ult(x, b);
                let q = self.ult(y, b);
                return self.ite(cc, p, q);
            }
            (N::Const(_), N::Ite(cc, x, y)) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let p = self.ult(a, x);
                let q = self.ult(a, y);
                return self.ite(cc, p, q);
            }
            (N::Cat(h, l), N::Const(c)) => {
                let lw = self.w(l);
                let hw = self.w(h);
                if c & mask(lw) == 0 {
                    let k = self.konst(c >> lw, hw);
                    return self.ult(h, k);
                }
            }
            (N::Const(c), N::Cat(h, l)) => {
                let lw = self.w(l);
                let hw = self.w(h);
                if c & mask(lw) == mask(lw) {
                    let k = self.konst(c >> lw, hw);
                    return self.ult(k, h);
                }
            }
            _ => {}
        }
        if let N::Const(1) = bn {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if let N::Const(0) = an {
            let z = self.konst(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        self.mk(N::Cmp(CmpK::Ult, a, b), 1)
    }
    pub fn slt(&mut self, a: u32, b: u32) -> u32 {
        if a == b {
            return Self::F;
        }
        let w = self.w(a);
        let sb = 1u128 << (w - 1);
        let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let sa = if x.kz & sb != 0 {
            Some(false)
        } else if x.ko & sb != 0 {
            Some(true)
        } else {
            None
        };
        let sbn = if y.kz & sb != 0 {
            Some(false)
        } else if y.ko & sb != 0 {
            Some(true)
        } else {
            None
        };
        match (sa, sbn) {
            (Some(p), Some(q)) => {
                if p == q {
                    return self.ult(a, b);
                }
                return if p { Self::T } else { Self::F };
            }
            _ => {}
        }
        let (an, bn) = (x.n, y.n);
        if let N::Const(0) = bn {
            return self.ext(a, w - 1, 1);
        }
        if let N::Const(c) = an {
            if c == mask(w) {
                let e = self.ext(b, w - 1, 1);
                return self.not(e);
            }
        }
        match (an, bn) {
            (N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) => return self.slt(x, y),
            (N::Ite(cc, x, y), N::Const(_)) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let p = self.slt(x, b);
                let q = self.slt(y, b);
                return self.ite(cc, p, q);
            }
            _ => {}
        }
        self.mk(N::Cmp(CmpK::Slt, a, b), 1)
    }
    pub fn table(&mut self, key: u64, data: &Arc<Vec<u8>>) -> u32 {
        if let Some(&t) = self.tabmap.get(&key) {
            return t;
        }
        let t = self.tables.len() as u32;
        self.tables.push(TableD { data: data.clone() });
        self.tabmap.insert(key, t);
        t
    }
    pub fn tab(&mut self, t: u32, off: u32, w: u32) -> u32 {
        self.mk(N::Tab(t, off), w)
    }
    pub fn tab_read(&self, t: u32, off: u128, w: u32) -> u128 {
        let d = &self.tables[t as usize].data;
        let n = ((w + 7) / 8) as usize;
        let mut r = 0u128;
        for i in 0..n {
            let o = (off as u64).wrapping_add(i as u64) as usize;
            let b = d.get(o).copied().unwrap_or(0);
            r |= (b as u128) << (8 * i);
        }
        r & mask(w)
    }
    /// new evaluation epoch
    fn begin(&mut self) {
        self.cur += 1;
        if self.stamp.len() < self.nodes.len() {
            self.stamp.resize(self.nodes.len() + 1024, 0);
            self.memo.resize(self.nodes.len() + 1024, 0);
        }
    }
    pub fn eval(&mut self, e: u32, model: &[u8]) -> u128 {
        self.begin();
        self.ev(e, model)
    }
    fn ev(&mut self, e: u32, model: &[u8]) -> u128 {
        let nd = &self.nodes[e as usize];
        let w = nd.w;
        match nd.n {
            N::Const(c) => return c,
            N::Var(v) => return model[v as usize] as u128,
            _ => {}
        }
        if self.stamp[e as usize] == self.cur {
            return self.memo[e as usize];
        }
        let r = match nd.n {
            N::Const(_) | N::Var(_) => unreachable!(),
            N::Bin(op, a, b) => {
                let x = self.ev(a, model);
                let y = self.ev(b, model);
                fold(op, w, x, y).unwrap_or(0)
            }
            N::Cmp(k, a, b) => {
                let x = self.ev(a, model);
                let y = self.ev(b, model);
                let aw = self.w(a);
                (match k {
                    CmpK::Eq => x == y,
                    CmpK::Ult => x < y,
                    CmpK::Slt => sext(x, aw) < sext(y, aw),
                }) as u128
            }
            N::ZExt(a) => self.ev(a, model),
            N::SExt(a) => {
                let x = self.ev(a, model);
                sext(x, self.w(a)) as u128 & mask(w)
            }
            N::Ext(a, lo) => (self.ev(a, model) >> lo) & mask(w),
            N::Cat(h, l) => {
                let x = self.ev(h, model);
                let y = self.ev(l, model);
                (x << self.w(l)) | y
            }
            N::Ite(c, a, b) => {
                if self.ev(c, model) != 0 {
                    self.ev(a, model)
                } else {
                    self.ev(b, model)
                }
            }
            N::Tab(t, i) => {
                let o = self.ev(i, model);
                self.tab_read(t, o, w)
            }
        };
        self.stamp[e as usize] = self.cur;
        self.memo[e as usize] = r;
        r
    }
    /// Evaluate e for every row (an assignment of vars); `f(row index, value)` stops by returning false.
    pub fn eval_rows(&mut self, e: u32, vars: &[u16], rows: &[[u8; 4]], f: &mut dyn FnMut(usize, u128) -> bool) {
        // topological order of the nodes below e
        let mut order: Vec<u32> = vec![];
        self.begin();
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if done {
                self.memo[x as usize] = order.len() as u128;
                order.push(x);
                continue;
            }
            if self.stamp[x as usize] == self.cur {
                continue;
            }
            self.stamp[x as usize] = self.cur;
            stack.push((x, true));
            match self.nodes[x as usize].n {
                N::Const(_) | N::Var(_) => {}
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Cat(a, b) => {
                    stack.push((a, false));
                    stack.push((b, false));
                }
                N::ZExt(a) | N::SExt(a) | N::Ext(a, _) | N::Tab(_, a) => stack.push((a, false)),
                N::Ite(c, a, b) => {
                    stack.push((c, false));
                    stack.push((a, false));
                    stack.push((b, false));
                }
            }
        }
        const CH: usize = 256;
        let mut cols: Vec<[u128; CH]> = vec![[0; CH]; order.len()];
        let pos = |s: &Self, x: u32| s.memo[x as usize] as usize;
        let mut base = 0;
        while base < rows.len() {
            let n = CH.min(rows.len() - base);
            for k in 0..order.len() {
                let nd = &self.nodes[order[k] as usize];
                let w = nd.w;
                let (pre, post) = cols.split_at_mut(k);
                let out = &mut post[0];
                match nd.n {
                    N::Const(c) => {
                        if base == 0 {
                            *out = [c; CH];
                        }
                    }
                    N::Var(v) => {
                        let j = vars.iter().position(|x| *x == v).unwrap();
                        for i in 0..n {
                            out[i] = rows[base + i][j] as u128;
                        }
                    }
                    N::Bin(op, a, b) => {
                        let (x, y) = (&pre[pos(self, a)], &pre[pos(self, b)]);
                        for i in 0..n {
                            out[i] = fold(op, w, x[i], y[i]).unwrap_or(0);
                        }
                    }
                    N::Cmp(k, a, b) => {
                        let aw = self.w(a);
                        let (x, y) = (&pre[pos(self, a)], &pre[pos(self, b)]);
                        match k {
                            CmpK::Eq => {
                                for i in 0..n {
                                    out[i] = (x[i] == y[i]) as u128;
                                }
                            }
                            CmpK::Ult => {
                                for i in 0..n {
                                    out[i] = (x[i] < y[i]) as u128;
                                }
                            }
                            CmpK::Slt => {
                                for i in 0..n {
                                    out[i] = (sext(x[i], aw) < sext(y[i], aw)) as u128;
                                }
                            }
                        }
                    }
                    N::ZExt(a) => {
                        let x = &pre[pos(self, a)];
                        out[..n].copy_from_slice(&x[..n]);
                    }
                    N::SExt(a) => {
                        let aw = self.w(a);
                        let x = &pre[pos(self, a)];
                        for i in 0..n {
                            out[i] = sext(x[i], aw) as u128 & mask(w);
                        }
                    }
                    N::Ext(a, lo) => {
                        let x = &pre[pos(self, a)];
                        for i in 0..n {
                            out[i] = (x[i] >> lo) & mask(w);
                        }
                    }
                    N::Cat(h, l) => {
                        let lw = self.w(l);
                        let (x, y) = (&pre[pos(self, h)], &pre[pos(self, l)]);
                        for i in 0..n {
                            out[i] = (x[i] << lw) | y[i];
                        }
                    }
                    N::Ite(c, a, b) => {
                        let (c, x, y) = (&pre[pos(self, c)], &pre[pos(self, a)], &pre[pos(self, b)]);
                        for i in 0..n {
                            out[i] = if c[i] != 0 { x[i] } else { y[i] };
                        }
                    }
                    N::Tab(t, a) => {
                        let x = &pre[pos(self, a)];
                        for i in 0..n {
                            out[i] = self.tab_read(t, x[i], w);
                        }
                    }
                }
            }
            let last = &cols[order.len() - 1];
            for i in 0..n {
                if !f(base + i, last[i]) {
                    return;
                }
            }
            base += n;
        }
    }
    /// truth set of a boolean with single-variable support
    pub fn truth(&mut self, e: u32) -> Set {
        if let Some(s) = self.truth.get(&e) {
            return *s;
        }
        let sup = self.sup(e);
        debug_assert_eq!(sup.count_ones(), 1);
        let v = sup.trailing_zeros() as usize;
        let mut model = [0u8; 128];
        let mut s = EMPTY;
        for i in 0..256usize {
            model[v] = i as u8;
            if self.eval(e, &model) != 0 {
                s[i >> 6] |= 1 << (i & 63);
            }
        }
        self.truth.insert(e, s);
        s
    }
    /// all values (value, set of var bytes) of a single-variable expression restricted to dom
    pub fn values1(&mut self, e: u32, dom: &Set) -> Vec<(u128, Set)> {
        let v = self.sup(e).trailing_zeros() as usize;
        let mut model = [0u8; 128];
        let mut m: HashMap<u128, Set> = HashMap::new();
        for i in 0..256usize {
            if set_has(dom, i as u8) {
                model[v] = i as u8;
                let x = self.eval(e, &model);
                m.entry(x).or_insert(EMPTY)[i >> 6] |= 1 << (i & 63);
            }
        }
        let mut r: Vec<_> = m.into_iter().collect();
        r.sort_by_key(|x| x.0);
        r
    }
    /// three-valued evaluation of a boolean under per-variable domains
    pub fn tri(&mut self, e: u32, dom: &[Set]) -> Option<bool> {
        let mut memo = FxMap::default();
        self.tri_rec(e, dom, &mut memo)
    }
    fn tri_rec(&mut self, e: u32, dom: &[Set], memo: &mut FxMap<u32, Option<bool>>) -> Option<bool> {
        if e == Self::T {
            return Some(true);
        }
        if e == Self::F {
            return Some(false);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let sup = self.sup(e);
        let r = if sup.count_ones() == 1 {
            let v = sup.trailing_zeros() as usize;
            let t = self.truth(e);
            let yes = set_and(&t, &dom[v]);
            if yes == EMPTY {
                Some(false)
            } else if yes == dom[v] {
                Some(true)
            } else {
                None
            }
        } else {
            match self.nodes[e as usize].n {
                N::Bin(Bin::And, a, b) => match self.tri_rec(a, dom, memo) {
                    Some(false) => Some(false),
                    x => match (x, self.tri_rec(b, dom, memo)) {
                        (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    },
                },
                N::Bin(Bin::Or, a, b) => match self.tri_rec(a, dom, memo) {
                    Some(true) => Some(true),
                    x => match (x, self.tri_rec(b, dom, memo)) {
                        (_, Some(true)) => Some(true),
                        (Some(false), Some(false)) => Some(false),
                        _ => None,
                    },
                },
                N::Bin(Bin::Xor, a, b) if self.w(e) == 1 => match (self.tri_rec(a, dom, memo), self.tri_rec(b, dom, memo)) {
                    (Some(x), Some(y)) => Some(x ^ y),
                    _ => None,
                },
                N::Ite(c, a, b) => match self.tri_rec(c, dom, memo) {
                    Some(true) => self.tri_rec(a, dom, memo),
                    Some(false) => self.tri_rec(b, dom, memo),
                    None => match (self.tri_rec(a, dom, memo), self.tri_rec(b, dom, memo)) {
                        (Some(x), Some(y)) if x == y => Some(x),
                        _ => None,
                    },
                },
                _ => None,
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: u32) -> String {
        let nd = &self.nodes[e as usize];
        match nd.n {
            N::Var(v) => format!("v{}", v),
            N::Const(c) => format!("{}:{}", c, nd.w),
            N::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a), self.show(b)),
            N::Cmp(k, a, b) => format!("({:?} {} {})", k, self.show(a), self.show(b)),
            N::ZExt(a) => format!("(zx{} {})", nd.w, self.show(a)),
            N::SExt(a) => format!("(sx{} {})", nd.w, self.show(a)),
            N::Ext(a, lo) => format!("{}[{}+{}]", self.show(a), lo, nd.w),
            N::Cat(a, b) => format!("({} ++ {})", self.show(a), self.show(b)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c), self.show(a), self.show(b)),
            N::Tab(t, i) => format!("T{}[{}]", t, self.show(i)),
        }
    }
}

pub fn fold(op: Bin, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        match op {
            Bin::Add => x.wrapping_add(y),
            Bin::Sub => x.wrapping_sub(y),
            Bin::Mul => x.wrapping_mul(y),
            Bin::UDiv => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            Bin::URem => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            Bin::SDiv => {
                if y == 0 {
                    return None;
                }
                sext(x, w).wrapping_div(sext(y, w)) as u128
            }
            Bin::SRem => {
                if y == 0 {
                    return None;
                }
                sext(x, w).wrapping_rem(sext(y, w)) as u128
            }
            Bin::And => x & y,
            Bin::Or => x | y,
            Bin::Xor => x ^ y,
            Bin::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Bin::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Bin::AShr => {
                let s = y.min(w as u128 - 1) as u32;
                (sext(x, w) >> s) as u128
            }
        } & m,
    )
}
