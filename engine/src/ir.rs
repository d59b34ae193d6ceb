//! Textual LLVM IR parser for the subset rustc emits.
use std::collections::HashMap;
use std::sync::Arc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vector(u32, TyId),
    Label,
    Metadata,
    Opaque,
}

/// Runtime value: concrete integer/pointer bits, symbolic expression id or aggregate.
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(u32),
    A(Arc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Op)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(Op),
    AsmNop,
    AsmUnsupported(String),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<Op>,
    pub argtys: Vec<TyId>,
    pub ret: TyId,
    pub dst: Option<u32>,
    /// for invoke: normal and unwind edges
    pub inv: Option<(Edge, Edge)>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, a: Op, b: Op, dst: u32 },
    VBin { op: Bin, w: u32, n: u32, a: Op, b: Op, dst: u32 },
    FBin { op: u8, w: u32, a: Op, b: Op, dst: u32 },
    FNeg { w: u32, a: Op, dst: u32 },
    ICmp { p: Pred, w: u32, a: Op, b: Op, dst: u32 },
    VICmp { p: Pred, w: u32, n: u32, a: Op, b: Op, dst: u32 },
    FCmp { p: u8, w: u32, a: Op, b: Op, dst: u32 },
    Cast { k: CastK, from: TyId, to: TyId, a: Op, dst: u32 },
    Select { c: Op, cty: TyId, ty: TyId, a: Op, b: Op, dst: u32 },
    Load { ty: TyId, p: Op, dst: u32 },
    Store { ty: TyId, v: Op, p: Op },
    Alloca { size: u64, count: Option<(Op, u32)>, dst: u32 },
    Gep { base: Op, terms: Vec<(Op, u32, u64)>, k: u64, dst: u32 },
    Call(Box<CallI>),
    ExtractValue { a: Op, idx: Vec<u32>, dst: u32 },
    InsertValue { a: Op, ty: TyId, v: Op, idx: Vec<u32>, dst: u32 },
    ExtractElement { a: Op, n: u32, i: Op, dst: u32 },
    InsertElement { a: Op, n: u32, v: Op, i: Op, dst: u32 },
    Shuffle { a: Op, b: Op, n: u32, mask: Vec<i32>, dst: u32 },
    AtomicRmw { op: u8, w: u32, p: Op, v: Op, dst: u32 },
    CmpXchg { w: u32, p: Op, c: Op, n: Op, dst: u32 },
    Copy { a: Op, dst: u32 },
    LandingPad { dst: u32 },
    Nop,
    Br(Edge),
    CondBr { c: Op, t: Edge, f: Edge },
    Switch { w: u32, v: Op, def: Edge, cases: Vec<(u128, u32)>, targets: Vec<Edge> },
    Ret(Option<Op>),
    Unreachable,
    Resume(Op),
}

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    pub name: String,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub ret: TyId,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub merge: bool,
    /// uses integers wider than 128 bits: not encoded
    pub wide: bool,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    pub size: u64,
    pub data: Vec<u8>,
    pub ext: bool,
    pub tls: bool,
    pub idx: u32, // index within its kind (const / mutable)
}

pub struct Module {
    pub types: Vec<Ty>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub consts: Vec<u32>,
    pub muts: Vec<u32>,
}

pub const K_CONST: u64 = 1;
pub const K_MUT: u64 = 2;
pub const K_HEAP: u64 = 3;
pub const K_STACK: u64 = 4;
pub const K_FUNC: u64 = 5;
pub const KSH: u32 = 44;
pub const OSH: u32 = 24;

pub fn mkaddr(kind: u64, idx: u64, off: u64) -> u64 {
    (kind << KSH) | (idx << OSH) | off
}

impl Module {
    pub fn size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Opaque => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                if b <= 1 {
                    1
                } else {
                    b.next_power_of_two()
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Vector(n, e) => {
                if let Ty::Int(w) = self.types[*e as usize] {
                    ((*n as u64) * (w as u64) + 7) / 8
                } else {
                    *n as u64 * self.size(*e)
                }
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs {
                    if !packed {
                        let a = self.align(*f);
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*f);
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Array(_, e) => self.align(*e),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| self.align(*f)).max().unwrap_or(1)
                }
            }
            _ => self.size(t).clamp(1, 16),
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> u64 {
        match &self.types[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = self.align(*f);
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += self.size(*f);
                }
                panic!("field")
            }
            Ty::Array(_, e) => i as u64 * self.size(*e),
            _ => panic!("field_off"),
        }
    }
    /// bit width of scalar type
    pub fn width(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn global_addr(&self, g: u32) -> u64 {
        let gl = &self.globals[g as usize];
        mkaddr(if gl.constant { K_CONST } else { K_MUT }, gl.idx as u64, 0)
    }
}

pub struct Parser<'a> {
    m: Module,
    tymap: HashMap<Ty, TyId>,
    gmap: HashMap<String, u32>,
    src: &'a str,
    named: HashMap<String, TyId>,
    wide: bool,
}

struct Lx<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?}", c as char, String::from_utf8_lossy(&self.s[self.i.saturating_sub(40)..(self.i + 60).min(self.s.len())]));
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+' {
                self.i += 1;
            } else {
                break;
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = {
            self.ws();
            self.i
        };
        let w = self.word();
        self.i = i;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            self.word().to_string()
        }
    }
    fn skip_parens(&mut self) {
        if self.peek() == b'(' {
            let mut d = 0;
            while self.i < self.s.len() {
                match self.s[self.i] {
                    b'(' => d += 1,
                    b')' => {
                        d -= 1;
                        if d == 0 {
                            self.i += 1;
                            return;
                        }
                    }
                    _ => {}
                }
                self.i += 1;
            }
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..(self.i + 100).min(self.s.len())]).into_owned()
    }
}

fn is_operand_start(lx: &mut Lx) -> bool {
    let c = lx.peek();
    if c == b'%' || c == b'@' || c == b'-' || c == b'{' || c == b'<' || c == b'[' || c.is_ascii_digit() {
        return true;
    }
    let w = lx.peek_word();
    matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "bitcast" | "trunc" | "sub" | "add" | "asm" | "none" | "xor" | "ptrtoaddr")
        || (w == "c" && lx.s.get(lx.i + 1) == Some(&b'"'))
}

fn skip_attrs(lx: &mut Lx) {
    loop {
        let c = lx.peek();
        if c == b'#' {
            lx.i += 1;
            lx.word();
            continue;
        }
        if c == b'"' {
            lx.name();
            if lx.eat(b'=') {
                lx.name();
            }
            continue;
        }
        if c == 0 || is_operand_start(lx) || c == b',' || c == b')' || c == b'(' || c == b'!' {
            return;
        }
        let w = lx.word();
        if w.is_empty() {
            return;
        }
        if w == "align" && lx.peek() != b'(' {
            lx.word();
            continue;
        }
        if lx.s.get(lx.i) == Some(&b'(') {
            lx.skip_parens();
        }
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl<'a> Parser<'a> {
    pub fn parse(src: &'a str) -> Module {
        let mut p = Parser { wide: false,
            m: Module { types: vec![], funcs: vec![], fidx: HashMap::new(), globals: vec![], consts: vec![], muts: vec![] },
            tymap: HashMap::new(),
            gmap: HashMap::new(),
            src,
            named: HashMap::new(),
        };
        p.run();
        p.m
    }
    fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.m.types.len() as u32;
        self.m.types.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    fn parse_ty(&mut self, lx: &mut Lx) -> TyId {
        let c = lx.peek();
        let base = match c {
            b'[' => {
                lx.i += 1;
                let n: u64 = lx.word().parse().unwrap();
                assert!(lx.eat_word("x"));
                let e = self.parse_ty(lx);
                lx.expect(b']');
                self.ty(Ty::Array(n, e))
            }
            b'{' => {
                lx.i += 1;
                let mut fs = vec![];
                if !lx.eat(b'}') {
                    loop {
                        fs.push(self.parse_ty(lx));
                        if lx.eat(b'}') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                self.ty(Ty::Struct(fs, false))
            }
            b'<' => {
                lx.i += 1;
                if lx.eat(b'{') {
                    let mut fs = vec![];
                    if !lx.eat(b'}') {
                        loop {
                            fs.push(self.parse_ty(lx));
                            if lx.eat(b'}') {
                                break;
                            }
                            lx.expect(b',');
                        }
                    }
                    lx.expect(b'>');
                    self.ty(Ty::Struct(fs, true))
                } else {
                    let n: u32 = lx.word().parse().unwrap();
                    assert!(lx.eat_word("x"));
                    let e = self.parse_ty(lx);
                    lx.expect(b'>');
                    self.ty(Ty::Vector(n, e))
                }
            }
            b'%' => {
                lx.i += 1;
                let n = lx.name();
                *self.named.get(&n).unwrap_or_else(|| panic!("named type {}", n))
            }
            _ => {
                let w = lx.word();
                let t = match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" => Ty::Label,
                    "metadata" => Ty::Metadata,
                    "opaque" => Ty::Opaque,
                    "half" | "fp128" | "x86_fp80" => Ty::Opaque,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) => {
                        let n: u32 = w[1..].parse().unwrap();
                        self.wide |= n > 128;
                        Ty::Int(n)
                    }
                    _ => panic!("type? {:?} {}", w, lx.rest()),
                };
                self.ty(t)
            }
        };
        // function type suffix: `void (ptr, ...)`
        base
    }
    fn zero(&mut self, t: TyId) -> V {
        match self.m.types[t as usize].clone() {
            Ty::Array(n, e) => {
                let z = self.zero(e);
                V::A(Arc::new(vec![z; n as usize]))
            }
            Ty::Vector(n, e) => {
                let z = self.zero(e);
                V::A(Arc::new(vec![z; n as usize]))
            }
            Ty::Struct(fs, _) => {
                let v = fs.iter().map(|f| self.zero(*f)).collect();
                V::A(Arc::new(v))
            }
            _ => V::C(0),
        }
    }
    fn gref(&mut self, name: &str) -> V {
        if let Some(&g) = self.gmap.get(name) {
            return V::C(self.m.global_addr(g) as u128);
        }
        if let Some(&f) = self.m.fidx.get(name) {
            return V::C(mkaddr(K_FUNC, f as u64, 0) as u128);
        }
        panic!("unknown global {}", name)
    }
    fn constant(&mut self, lx: &mut Lx, t: TyId) -> V {
        let c = lx.peek();
        if c == b'@' {
            lx.i += 1;
            let n = lx.name();
            return self.gref(&n);
        }
        if c == b'{' || c == b'[' || c == b'<' {
            lx.i += 1;
            let mut packed = false;
            if c == b'<' && lx.eat(b'{') {
                packed = true;
            }
            let close = match (c, packed) {
                (b'{', _) | (b'<', true) => b'}',
                (b'[', _) => b']',
                _ => b'>',
            };
            let mut vs = vec![];
            if !lx.eat(close) {
                loop {
                    let et = self.parse_ty(lx);
                    vs.push(self.constant(lx, et));
                    if lx.eat(close) {
                        break;
                    }
                    lx.expect(b',');
                }
            }
            if packed {
                lx.expect(b'>');
            }
            return V::A(Arc::new(vs));
        }
        let w = lx.word();
        match w {
            "null" | "none" => V::C(0),
            "true" => V::C(1),
            "false" => V::C(0),
            "undef" | "poison" | "zeroinitializer" => self.zero(t),
            "c" => {
                // c"..."
                lx.i += 1;
                let mut out = vec![];
                while lx.s[lx.i] != b'"' {
                    if lx.s[lx.i] == b'\\' && lx.s[lx.i + 1] == b'\\' {
                        out.push(b'\\');
                        lx.i += 2;
                    } else if lx.s[lx.i] == b'\\' {
                        let h = std::str::from_utf8(&lx.s[lx.i + 1..lx.i + 3]).unwrap();
                        out.push(u8::from_str_radix(h, 16).unwrap());
                        lx.i += 3;
                    } else {
                        out.push(lx.s[lx.i]);
                        lx.i += 1;
                    }
                }
                lx.i += 1;
                V::A(Arc::new(out.into_iter().map(|b| V::C(b as u128)).collect()))
            }
            "splat" => {
                lx.expect(b'(');
                let et = self.parse_ty(lx);
                let v = self.constant(lx, et);
                lx.expect(b')');
                let n = match self.m.types[t as usize] {
                    Ty::Vector(n, _) => n,
                    _ => panic!(),
                };
                V::A(Arc::new(vec![v; n as usize]))
            }
            "getelementptr" => {
                while lx.peek() != b'(' {
                    lx.word();
                    if lx.s.get(lx.i) == Some(&b'(') && {
                        // inrange(...) attr
                        false
                    } {}
                    if lx.peek() == b'(' {
                        // inrange(-16, 8) (ptr ...)?
                        let save = lx.i;
                        lx.skip_parens();
                        if lx.peek() == b'(' {
                            continue;
                        }
                        lx.i = save;
                    }
                }
                lx.expect(b'(');
                let et = self.parse_ty(lx);
                lx.expect(b',');
                let pt = self.parse_ty(lx);
                let base = self.constant(lx, pt);
                let mut idx = vec![];
                while lx.eat(b',') {
                    let it = self.parse_ty(lx);
                    idx.push((self.constant(lx, it), self.m.width(it)));
                }
                lx.expect(b')');
                let mut a = match base {
                    V::C(c) => c as u64,
                    _ => panic!(),
                };
                let mut cur = et;
                for (k, (v, w)) in idx.iter().enumerate() {
                    let x = match v {
                        V::C(c) => sext(*c, *w) as u64,
                        _ => panic!(),
                    };
                    if k == 0 {
                        a = a.wrapping_add(x.wrapping_mul(self.m.size(cur)));
                    } else {
                        match self.m.types[cur as usize].clone() {
                            Ty::Struct(fs, _) => {
                                a = a.wrapping_add(self.m.field_off(cur, x as usize));
                                cur = fs[x as usize];
                            }
                            Ty::Array(_, e) => {
                                a = a.wrapping_add(x.wrapping_mul(self.m.size(e)));
                                cur = e;
                            }
                            _ => panic!(),
                        }
                    }
                }
                V::C(a as u128)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                lx.expect(b'(');
                let ft = self.parse_ty(lx);
                let v = self.constant(lx, ft);
                assert!(lx.eat_word("to"));
                let tt = self.parse_ty(lx);
                lx.expect(b')');
                let wd = self.m.width(tt);
                match v {
                    V::C(c) => V::C(c & mask(wd)),
                    v => v,
                }
            }
            "sub" | "add" | "xor" => {
                while lx.peek() != b'(' {
                    lx.word();
                }
                lx.expect(b'(');
                let t1 = self.parse_ty(lx);
                let a = self.constant(lx, t1);
                lx.expect(b',');
                let t2 = self.parse_ty(lx);
                let b = self.constant(lx, t2);
                lx.expect(b')');
                let wd = self.m.width(t1);
                match (a, b) {
                    (V::C(a), V::C(b)) => V::C(
                        match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        } & mask(wd),
                    ),
                    _ => panic!(),
                }
            }
            _ => {
                // number
                match &self.m.types[t as usize] {
                    Ty::Int(wd) => {
                        let v: u128 = if *wd > 128 {
                            0 // the function is marked as not encoded
                        } else if let Some(r) = w.strip_prefix('-') {
                            (r.parse::<u128>().unwrap_or_else(|_| panic!("num {:?}", w))).wrapping_neg()
                        } else {
                            w.parse::<u128>().unwrap_or_else(|_| panic!("num {:?} {}", w, lx.rest()))
                        };
                        V::C(v & mask(*wd))
                    }
                    Ty::F64 | Ty::F32 => {
                        let is32 = matches!(self.m.types[t as usize], Ty::F32);
                        if let Some(h) = w.strip_prefix("f0x") {
                            return V::C(u64::from_str_radix(h, 16).unwrap() as u128);
                        }
                        let bits = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { w.replace("qnan", "nan").parse::<f64>().unwrap_or_else(|_| panic!("float {:?}", w)).to_bits() };
                        if is32 {
                            V::C((f64::from_bits(bits) as f32).to_bits() as u128)
                        } else {
                            V::C(bits as u128)
                        }
                    }
                    _ => panic!("constant? {:?} for {:?} rest {}", w, self.m.types[t as usize], lx.rest()),
                }
            }
        }
    }
    fn operand(&mut self, lx: &mut Lx, t: TyId, fc: &mut FnCtx) -> Op {
        if lx.peek() == b'%' {
            lx.i += 1;
            let n = lx.name();
            Op::R(fc.reg(&n))
        } else {
            Op::K(self.constant(lx, t))
        }
    }
    fn typed_operand(&mut self, lx: &mut Lx, fc: &mut FnCtx) -> (TyId, Op) {
        let t = self.parse_ty(lx);
        skip_attrs(lx);
        if matches!(self.m.types[t as usize], Ty::Metadata) {
            // skip metadata operand
            let mut d = 0;
            while lx.i < lx.s.len() {
                let c = lx.s[lx.i];
                if c == b'(' {
                    d += 1;
                }
                if c == b')' {
                    if d == 0 {
                        break;
                    }
                    d -= 1;
                }
                if c == b',' && d == 0 {
                    break;
                }
                lx.i += 1;
            }
            return (t, Op::K(V::C(0)));
        }
        let o = self.operand(lx, t, fc);
        (t, o)
    }

    fn run(&mut self) {
        let src = self.src;
        // pass 1: names
        let lines: Vec<&str> = src.split('\n').collect();
        let mut gl: Vec<usize> = vec![];
        let mut fl: Vec<usize> = vec![];
        for (i, l) in lines.iter().enumerate() {
            let b = l.as_bytes();
            if b.is_empty() {
                continue;
            }
            if b[0] == b'%' {
                let mut lx = Lx::new(l);
                lx.i = 1;
                let n = lx.name();
                lx.expect(b'=');
                lx.word();
                let t = if lx.peek_word() == "opaque" { self.ty(Ty::Opaque) } else { self.parse_ty(&mut lx) };
                self.named.insert(n, t);
            } else if b[0] == b'@' {
                let mut lx = Lx::new(l);
                lx.i = 1;
                let n = lx.name();
                let id = self.m.globals.len() as u32;
                lx.expect(b'=');
                // attributes until 'global' / 'constant' / 'alias'
                let mut constant = false;
                let mut ext = false;
                let mut tls = false;
                loop {
                    let w = lx.word();
                    if w.is_empty() {
                        panic!("global {}", l);
                    }
                    if w == "external" || w == "extern_weak" {
                        ext = true;
                    }
                    if w == "thread_local" {
                        tls = true;
                    }
                    if lx.s.get(lx.i) == Some(&b'(') {
                        lx.skip_parens();
                    }
                    if w == "global" {
                        break;
                    }
                    if w == "constant" {
                        constant = true;
                        break;
                    }
                    if w == "alias" {
                        panic!("alias unsupported: {}", l);
                    }
                }
                let idx = if constant {
                    self.m.consts.push(id);
                    self.m.consts.len() - 1
                } else {
                    self.m.muts.push(id);
                    self.m.muts.len() - 1
                } as u32;
                self.m.globals.push(Global { name: n.clone(), constant, size: 0, data: vec![], ext, tls, idx });
                self.gmap.insert(n, id);
                gl.push(i);
            } else if l.starts_with("define") || l.starts_with("declare") {
                let at = l.find('@').unwrap();
                let mut lx = Lx::new(l);
                lx.i = at + 1;
                let n = lx.name();
                let id = self.m.funcs.len() as u32;
                let vt = self.ty(Ty::Void);
                self.m.funcs.push(Func { name: n.clone(), ret: vt, params: vec![], nregs: 0, blocks: vec![], defined: l.starts_with("define"), merge: false, wide: false });
                self.m.fidx.insert(n, id);
                fl.push(i);
            }
        }
        // pass 2: globals
        for (k, &i) in gl.iter().enumerate() {
            let l = lines[i];
            let mut lx = Lx::new(l);
            lx.i = 1;
            lx.name();
            lx.expect(b'=');
            loop {
                let w = lx.word();
                if lx.s.get(lx.i) == Some(&b'(') {
                    lx.skip_parens();
                }
                if w == "global" || w == "constant" {
                    break;
                }
            }
            let t = self.parse_ty(&mut lx);
            let size = self.m.size(t);
            let mut data = vec![0u8; size as usize];
            if !self.m.globals[k].ext {
                let v = self.constant(&mut lx, t);
                self.write_const(&mut data, 0, t, &v);
            }
            self.m.globals[k].size = size;
            self.m.globals[k].data = data;
        }
        // pass 3: functions
        for (k, &i) in fl.iter().enumerate() {
            let l = lines[i];
            if !l.starts_with("define") {
                continue;
            }
            let mut j = i + 1;
            while lines[j] != "}" {
                j += 1;
            }
            self.wide = false;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.parse_fn(k as u32, l, &lines[i + 1..j])));
            // what cannot be read is not encoded: paths that call it end as unsupported
            self.m.funcs[k].wide = self.wide || r.is_err();
        }
    }
    fn write_const(&self, data: &mut [u8], off: usize, t: TyId, v: &V) {
        match &self.m.types[t as usize] {
            Ty::Array(_, e) | Ty::Vector(_, e) => {
                let s = self.m.size(*e) as usize;
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.write_const(data, off + i * s, *e, x);
                    }
                }
            }
            Ty::Struct(fs, _) => {
                if let V::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.write_const(data, off + self.m.field_off(t, i) as usize, fs[i], x);
                    }
                }
            }
            _ => {
                if let V::C(c) = v {
                    let s = self.m.size(t) as usize;
                    let b = c.to_le_bytes();
                    data[off..off + s].copy_from_slice(&b[..s]);
                }
            }
        }
    }

    fn parse_fn(&mut self, fi: u32, def: &str, body: &[&str]) {
        let mut fc = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        // header
        let mut lx = Lx::new(def);
        lx.word(); // define
        // skip linkage etc. until a type starts directly before '@'
        let at = def.find('@').unwrap();
        // parse return type: scan words; attributes may have parens
        let ret;
        loop {
            let c = lx.peek();
            if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
                ret = self.parse_ty(&mut lx);
                break;
            }
            let w = lx.peek_word();
            let is_ty = matches!(w, "void" | "ptr" | "float" | "double") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
            if is_ty {
                ret = self.parse_ty(&mut lx);
                break;
            }
            let w = lx.word();
            assert!(!w.is_empty(), "header {}", def);
            if w == "align" {
                lx.word();
            }
            if lx.s.get(lx.i) == Some(&b'(') {
                lx.skip_parens();
            }
        }
        lx.i = at + 1;
        lx.name();
        lx.expect(b'(');
        let mut params = vec![];
        if !lx.eat(b')') {
            loop {
                if lx.peek() == b'.' {
                    lx.word();
                    lx.expect(b')');
                    break;
                }
                self.parse_ty(&mut lx);
                skip_attrs(&mut lx);
                if lx.eat(b'%') {
                    let n = lx.name();
                    params.push(fc.reg(&n));
                } else {
                    let n = format!("{}", params.len());
                    params.push(fc.reg(&n));
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        // join logical lines
        let mut blocks: Vec<(u32, String, Vec<String>)> = vec![];
        let mut i = 0;
        let first_label;
        // entry label may be implicit: numbered = params count
        let has_label = body.iter().find(|l| !l.is_empty()).map_or(false, |l| !l.starts_with(' '));
        if !has_label {
            let n = format!("{}", params.len());
            first_label = fc.label(&n);
            blocks.push((first_label, n, vec![]));
        }
        while i < body.len() {
            let l = body[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let mut lx = Lx::new(l);
                let n = lx.name();
                let id = fc.label(&n);
                blocks.push((id, n, vec![]));
                continue;
            }
            let t = l.trim_start();
            if t.starts_with("#dbg") {
                continue;
            }
            let mut s = t.to_string();
            if t.starts_with("switch ") {
                while !s.trim_end().ends_with(']') && !s.contains(" ], !") && !s.contains("], ") {
                    s.push(' ');
                    s.push_str(body[i].trim());
                    i += 1;
                    if body[i - 1].trim().starts_with(']') {
                        break;
                    }
                }
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                while !s.contains(" unwind label ") {
                    s.push(' ');
                    s.push_str(body[i].trim());
                    i += 1;
                }
            } else if t.contains(" = landingpad ") {
                while i < body.len() {
                    let n = body[i].trim_start();
                    if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") {
                        i += 1;
                    } else {
                        break;
                    }
                }
            }
            blocks.last_mut().unwrap().2.push(s);
        }
        // parse instructions
        // phis: per block: Vec<(dst, Vec<(pred label, Op)>)>
        let mut phis: HashMap<u32, Vec<(u32, Vec<(u32, Op)>)>> = HashMap::new();
        let mut out: Vec<(u32, String, Vec<Inst>)> = vec![];
        for (id, name, ls) in blocks {
            let mut insts = vec![];
            for l in &ls {
                let mut lx = Lx::new(l);
                let mut dst = None;
                if lx.peek() == b'%' {
                    lx.i += 1;
                    let n = lx.name();
                    dst = Some(fc.reg(&n));
                    lx.expect(b'=');
                }
                let w = lx.word();
                if w == "phi" {
                    while matches!(lx.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                        lx.word();
                    }
                    let t = self.parse_ty(&mut lx);
                    let mut inc = vec![];
                    loop {
                        lx.expect(b'[');
                        let o = self.operand(&mut lx, t, &mut fc);
                        lx.expect(b',');
                        lx.expect(b'%');
                        let n = lx.name();
                        let lb = fc.label(&n);
                        lx.expect(b']');
                        inc.push((lb, o));
                        if !lx.eat(b',') || lx.peek() != b'[' {
                            break;
                        }
                    }
                    phis.entry(id).or_default().push((dst.unwrap(), inc));
                    continue;
                }
                let inst = self.parse_inst(&mut lx, w, dst, &mut fc, l);
                insts.push(inst);
            }
            out.push((id, name, insts));
        }
        // resolve edges
        let nb = fc.labels.len();
        let mut bl: Vec<Option<Block>> = (0..nb).map(|_| None).collect();
        let order_first = out[0].0;
        assert_eq!(order_first, 0, "entry block label must be 0 in {}", def);
        for (id, name, mut insts) in out {
            let fix = |e: &mut Edge| {
                if let Some(ps) = phis.get(&e.target) {
                    e.moves = ps
                        .iter()
                        .map(|(d, inc)| {
                            let o = inc.iter().find(|(lb, _)| *lb == id).unwrap_or_else(|| panic!("phi edge"));
                            (*d, o.1.clone())
                        })
                        .collect();
                }
            };
            for ins in insts.iter_mut() {
                match ins {
                    Inst::Br(e) => fix(e),
                    Inst::CondBr { t, f, .. } => {
                        fix(t);
                        fix(f)
                    }
                    Inst::Switch { def, targets, .. } => {
                        fix(def);
                        for e in targets {
                            fix(e)
                        }
                    }
                    Inst::Call(c) => {
                        if let Some((a, b)) = &mut c.inv {
                            fix(a);
                            fix(b)
                        }
                    }
                    _ => {}
                }
            }
            bl[id as usize] = Some(Block { insts, name });
        }
        let merge = matches!(self.m.types[ret as usize], Ty::Int(1) | Ty::Int(8));
        let f = &mut self.m.funcs[fi as usize];
        f.ret = ret;
        f.params = params;
        f.nregs = fc.regs.len() as u32;
        f.blocks = bl.into_iter().map(|b| b.expect("block")).collect();
        f.merge = merge;
    }

    fn edge(&mut self, lx: &mut Lx, fc: &mut FnCtx) -> Edge {
        assert!(lx.eat_word("label"), "label: {}", lx.rest());
        lx.expect(b'%');
        let n = lx.name();
        Edge { target: fc.label(&n), moves: vec![] }
    }

    fn parse_inst(&mut self, lx: &mut Lx, w: &str, dst: Option<u32>, fc: &mut FnCtx, line: &str) -> Inst {
        let d = dst.unwrap_or(u32::MAX);
        match w {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(lx.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    lx.word();
                }
                let op = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "urem" => Bin::URem,
                    "sdiv" => Bin::SDiv,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                let t = self.parse_ty(lx);
                let a = self.operand(lx, t, fc);
                lx.expect(b',');
                let b = self.operand(lx, t, fc);
                match self.m.types[t as usize] {
                    Ty::Vector(n, e) => Inst::VBin { op, w: self.m.width(e), n, a, b, dst: d },
                    _ => Inst::Bin { op, w: self.m.width(t), a, b, dst: d },
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(lx.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    lx.word();
                }
                let t = self.parse_ty(lx);
                let a = self.operand(lx, t, fc);
                lx.expect(b',');
                let b = self.operand(lx, t, fc);
                let op = match w {
                    "fadd" => 0,
                    "fsub" => 1,
                    "fmul" => 2,
                    "fdiv" => 3,
                    _ => 4,
                };
                Inst::FBin { op, w: self.m.width(t), a, b, dst: d }
            }
            "fneg" => {
                let t = self.parse_ty(lx);
                let a = self.operand(lx, t, fc);
                Inst::FNeg { w: self.m.width(t), a, dst: d }
            }
            "icmp" => {
                if lx.peek_word() == "samesign" {
                    lx.word();
                }
                let p = match lx.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => panic!("pred {}", x),
                };
                let t = self.parse_ty(lx);
                let a = self.operand(lx, t, fc);
                lx.expect(b',');
                let b = self.operand(lx, t, fc);
                match self.m.types[t as usize] {
                    Ty::Vector(n, e) => Inst::VICmp { p, w: self.m.width(e), n, a, b, dst: d },
                    _ => Inst::ICmp { p, w: self.m.width(t), a, b, dst: d },
                }
            }
            "fcmp" => {
                let mut pw = lx.word();
                while matches!(pw, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    pw = lx.word();
                }
                let names = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
                let p = names.iter().position(|x| *x == pw).unwrap() as u8;
                let t = self.parse_ty(lx);
                let a = self.operand(lx, t, fc);
                lx.expect(b',');
                let b = self.operand(lx, t, fc);
                Inst::FCmp { p, w: self.m.width(t), a, b, dst: d }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fptrunc" | "fpext" | "ptrtoaddr" => {
                while matches!(lx.peek_word(), "nuw" | "nsw" | "nneg" | "fast") {
                    lx.word();
                }
                let k = match w {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt,
                    "inttoptr" => CastK::IntToPtr,
                    "bitcast" => CastK::Bitcast,
                    "fptosi" => CastK::FpToSi,
                    "fptoui" => CastK::FpToUi,
                    "sitofp" => CastK::SiToFp,
                    "uitofp" => CastK::UiToFp,
                    "fptrunc" => CastK::FpTrunc,
                    _ => CastK::FpExt,
                };
                let from = self.parse_ty(lx);
                let a = self.operand(lx, from, fc);
                assert!(lx.eat_word("to"));
                let to = self.parse_ty(lx);
                Inst::Cast { k, from, to, a, dst: d }
            }
            "select" => {
                while matches!(lx.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    lx.word();
                }
                let (cty, c) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (ty, a) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, b) = self.typed_operand(lx, fc);
                Inst::Select { c, cty, ty, a, b, dst: d }
            }
            "load" => {
                while matches!(lx.peek_word(), "atomic" | "volatile") {
                    lx.word();
                }
                let ty = self.parse_ty(lx);
                lx.expect(b',');
                let (_, p) = self.typed_operand(lx, fc);
                Inst::Load { ty, p, dst: d }
            }
            "store" => {
                while matches!(lx.peek_word(), "atomic" | "volatile") {
                    lx.word();
                }
                let (ty, v) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, p) = self.typed_operand(lx, fc);
                Inst::Store { ty, v, p }
            }
            "alloca" => {
                let t = self.parse_ty(lx);
                let mut count = None;
                if lx.eat(b',') && lx.peek_word() != "align" {
                    let (ct, c) = self.typed_operand(lx, fc);
                    count = Some((c, self.m.width(ct)));
                }
                Inst::Alloca { size: self.m.size(t), count, dst: d }
            }
            "getelementptr" => {
                while matches!(lx.peek_word(), "inbounds" | "nuw" | "nusw") {
                    lx.word();
                }
                let et = self.parse_ty(lx);
                lx.expect(b',');
                let (_, base) = self.typed_operand(lx, fc);
                let mut k = 0u64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.typed_operand(lx, fc);
                    let iw = self.m.width(it);
                    let scale = if first {
                        first = false;
                        self.m.size(cur)
                    } else {
                        match self.m.types[cur as usize].clone() {
                            Ty::Struct(fs, _) => {
                                let x = match &o {
                                    Op::K(V::C(c)) => *c as usize,
                                    _ => panic!(),
                                };
                                k = k.wrapping_add(self.m.field_off(cur, x));
                                cur = fs[x];
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                cur = e;
                                self.m.size(e)
                            }
                            _ => panic!("gep {}", line),
                        }
                    };
                    match &o {
                        Op::K(V::C(c)) => k = k.wrapping_add((sext(*c, iw) as u64).wrapping_mul(scale)),
                        _ => terms.push((o, iw, scale)),
                    }
                }
                Inst::Gep { base, terms, k, dst: d }
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if matches!(w, "tail" | "musttail" | "notail") {
                    lx.word();
                }
                self.parse_call(lx, w == "invoke", dst, fc, line)
            }
            "extractvalue" => {
                let (_, a) = self.typed_operand(lx, fc);
                let mut idx = vec![];
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    idx.push(lx.word().parse().unwrap());
                }
                Inst::ExtractValue { a, idx, dst: d }
            }
            "insertvalue" => {
                let (ty, a) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, v) = self.typed_operand(lx, fc);
                let mut idx = vec![];
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    idx.push(lx.word().parse().unwrap());
                }
                Inst::InsertValue { a, ty, v, idx, dst: d }
            }
            "extractelement" => {
                let (t, a) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, i) = self.typed_operand(lx, fc);
                let n = match self.m.types[t as usize] {
                    Ty::Vector(n, _) => n,
                    _ => panic!(),
                };
                Inst::ExtractElement { a, n, i, dst: d }
            }
            "insertelement" => {
                let (t, a) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, v) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, i) = self.typed_operand(lx, fc);
                let n = match self.m.types[t as usize] {
                    Ty::Vector(n, _) => n,
                    _ => panic!(),
                };
                Inst::InsertElement { a, n, v, i, dst: d }
            }
            "shufflevector" => {
                let (t, a) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, b) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, mk) = self.typed_operand(lx, fc);
                let n = match self.m.types[t as usize] {
                    Ty::Vector(n, _) => n,
                    _ => panic!(),
                };
                let mask = match mk {
                    Op::K(V::A(vs)) => vs
                        .iter()
                        .map(|v| match v {
                            V::C(c) => *c as i32,
                            _ => 0,
                        })
                        .collect(),
                    _ => panic!(),
                };
                Inst::Shuffle { a, b, n, mask, dst: d }
            }
            "atomicrmw" => {
                while lx.peek_word() == "volatile" {
                    lx.word();
                }
                let opn = lx.word();
                let names = ["xchg", "add", "sub", "and", "or", "xor", "max", "min", "umax", "umin", "nand"];
                let op = names.iter().position(|x| *x == opn).unwrap() as u8;
                let (_, p) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (t, v) = self.typed_operand(lx, fc);
                Inst::AtomicRmw { op, w: self.m.width(t), p, v, dst: d }
            }
            "cmpxchg" => {
                while matches!(lx.peek_word(), "weak" | "volatile") {
                    lx.word();
                }
                let (_, p) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (t, c) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let (_, n) = self.typed_operand(lx, fc);
                Inst::CmpXchg { w: self.m.width(t), p, c, n, dst: d }
            }
            "fence" => Inst::Nop,
            "freeze" => {
                let (_, a) = self.typed_operand(lx, fc);
                Inst::Copy { a, dst: d }
            }
            "landingpad" => Inst::LandingPad { dst: d },
            "br" => {
                if lx.peek_word() == "label" {
                    Inst::Br(self.edge(lx, fc))
                } else {
                    let (_, c) = self.typed_operand(lx, fc);
                    lx.expect(b',');
                    let t = self.edge(lx, fc);
                    lx.expect(b',');
                    let f = self.edge(lx, fc);
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.typed_operand(lx, fc);
                lx.expect(b',');
                let def = self.edge(lx, fc);
                lx.expect(b'[');
                let mut cases = vec![];
                let mut targets: Vec<Edge> = vec![];
                while !lx.eat(b']') {
                    let ct = self.parse_ty(lx);
                    let c = match self.constant(lx, ct) {
                        V::C(c) => c,
                        _ => panic!(),
                    };
                    lx.expect(b',');
                    let e = self.edge(lx, fc);
                    let ti = match targets.iter().position(|x| x.target == e.target) {
                        Some(i) => i,
                        None => {
                            targets.push(e);
                            targets.len() - 1
                        }
                    };
                    cases.push((c, ti as u32));
                }
                Inst::Switch { w: self.m.width(t), v, def, cases, targets }
            }
            "ret" => {
                if lx.peek_word() == "void" {
                    Inst::Ret(None)
                } else {
                    let (_, o) = self.typed_operand(lx, fc);
                    Inst::Ret(Some(o))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                let (_, o) = self.typed_operand(lx, fc);
                Inst::Resume(o)
            }
            _ => panic!("inst? {}", line),
        }
    }

    fn parse_call(&mut self, lx: &mut Lx, invoke: bool, dst: Option<u32>, fc: &mut FnCtx, line: &str) -> Inst {
        // skip cc / ret attrs until type
        let ret;
        loop {
            let c = lx.peek();
            if c == b'{' || c == b'[' || c == b'<' || (c == b'%') {
                ret = self.parse_ty(lx);
                break;
            }
            let w = lx.peek_word();
            let is_ty = matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()));
            if is_ty {
                ret = self.parse_ty(lx);
                break;
            }
            let w = lx.word();
            assert!(!w.is_empty(), "call {}", line);
            if w == "align" {
                lx.word();
            }
            if lx.s.get(lx.i) == Some(&b'(') {
                lx.skip_parens();
            }
        }
        // optional function type for varargs: `i32 (ptr, ...) @f(`
        if lx.peek() == b'(' {
            lx.skip_parens();
        }
        let callee = if lx.peek() == b'@' {
            lx.i += 1;
            let n = lx.name();
            Callee::Direct(*self.m.fidx.get(&n).unwrap_or_else(|| panic!("callee {}", n)))
        } else if lx.peek() == b'%' {
            lx.i += 1;
            let n = lx.name();
            Callee::Indirect(Op::R(fc.reg(&n)))
        } else if lx.eat_word("asm") {
            while matches!(lx.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") {
                lx.word();
            }
            lx.ws();
            let code = lx.name();
            lx.expect(b',');
            lx.ws();
            let _cons = lx.name();
            if code.is_empty() && matches!(self.m.types[ret as usize], Ty::Void) {
                Callee::AsmNop
            } else {
                Callee::AsmUnsupported(code)
            }
        } else {
            let pt = self.ty(Ty::Ptr);
            let v = self.constant(lx, pt);
            Callee::Indirect(Op::K(v))
        };
        lx.expect(b'(');
        let mut args = vec![];
        let mut argtys = vec![];
        if !lx.eat(b')') {
            loop {
                let (t, o) = self.typed_operand(lx, fc);
                args.push(o);
                argtys.push(t);
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        let inv = if invoke {
            let s = std::str::from_utf8(&lx.s[lx.i..]).unwrap();
            let p = s.find("to label ").unwrap();
            lx.i += p + 3;
            let a = self.edge(lx, fc);
            assert!(lx.eat_word("unwind"));
            let b = self.edge(lx, fc);
            Some((a, b))
        } else {
            None
        };
        Inst::Call(Box::new(CallI { callee, args, argtys, ret, dst, inv }))
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}
