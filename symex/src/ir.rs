//! Parser for the textual LLVM IR that `llvm-dis` prints (LLVM 18, opaque pointers).
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Named(String),
    Label,
    Meta,
    Func,
}

#[derive(Debug, Clone)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<(Ty, Const)>),
    Str(Vec<u8>),
    Global(String),
    Gep(Ty, Box<Const>, Vec<(Ty, Const)>),
    Cast(&'static str, Ty, Box<Const>, Ty),
    Bin(String, Ty, Box<Const>, Box<Const>),
}

#[derive(Debug, Clone)]
pub enum Opnd {
    Reg(u32),
    Const(Const),
    /// resolved by `resolve`: index in the module's constant table
    Cst(u32),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CastOp {
    Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, AddrSpace,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}

#[derive(Debug, Clone)]
pub enum Ins {
    Bin(BinOp, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    Cast(CastOp, Ty, Opnd, Ty),
    ICmp(Pred, Ty, Opnd, Opnd),
    FCmp(String, Ty, Opnd, Opnd),
    Select(Ty, Opnd, Ty, Opnd, Opnd),
    Alloca(Ty, Option<(Ty, Opnd)>, u64),
    Load(Ty, Opnd, u64),
    Store(Ty, Opnd, Opnd, u64),
    Gep(Ty, Opnd, Vec<(Ty, Opnd)>),
    ExtractValue(Ty, Opnd, Vec<u32>),
    InsertValue(Ty, Opnd, Ty, Opnd, Vec<u32>),
    ExtractElem(Ty, Opnd, Opnd),
    InsertElem(Ty, Opnd, Ty, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Const),
    Freeze(Ty, Opnd),
    Phi(Ty, Vec<(Opnd, u32)>),
    Call { ret: Ty, callee: Callee, args: Vec<(Ty, Opnd)>, normal: Option<u32> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Fence,
    AtomicRmw(String, Opnd, Ty, Opnd),
    CmpXchg(Opnd, Ty, Opnd, Opnd),
    LandingPad,
    Resume,
    Unsupported(String),
}
#[derive(Debug, Clone)]
pub enum Callee {
    Direct(String),
    /// resolved direct call: function index
    Fn(u32),
    Indirect(Opnd),
}

#[derive(Debug, Clone)]
pub struct Inst {
    pub dst: Option<u32>,
    pub ins: Ins,
}
#[derive(Debug, Clone)]
pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub ptys: Vec<Ty>,
    pub ret: Ty,
    pub nregs: u32,
    pub decl: bool,
    pub insts: Vec<Inst>,
    /// block -> index of first instruction
    pub blocks: Vec<u32>,
}
#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub fn_index: HashMap<String, u32>,
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    W(String),      // bare word
    L(String),      // %local
    G(String),      // @global
    M,              // !meta (skipped content)
    S(Vec<u8>),     // c"..."
    Q(String),      // "..."
    P(char),
    LabelDef(String),
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    let unesc = |x: &[u8]| -> Vec<u8> {
        let mut r = vec![];
        let mut k = 0;
        while k < x.len() {
            if x[k] == b'\\' && k + 2 < x.len() + 0 && x[k + 1].is_ascii_hexdigit() && x[k + 2].is_ascii_hexdigit() {
                r.push(u8::from_str_radix(std::str::from_utf8(&x[k + 1..k + 3]).unwrap(), 16).unwrap());
                k += 3;
            } else if x[k] == b'\\' && k + 1 < x.len() && x[k + 1] == b'\\' {
                r.push(b'\\');
                k += 2;
            } else {
                r.push(x[k]);
                k += 1;
            }
        }
        r
    };
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
            i += 1;
        } else if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'%' || c == b'@' {
            i += 1;
            let name;
            if i < b.len() && b[i] == b'"' {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
                name = String::from_utf8_lossy(&unesc(&b[st..i])).into_owned();
                i += 1;
            } else {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                name = s[st..i].to_string();
            }
            out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
        } else if c == b'!' {
            i += 1;
            // !{...} / !name / !123 / !DI(...)
            if i < b.len() && b[i] == b'{' {
                let mut d = 0;
                while i < b.len() {
                    if b[i] == b'{' {
                        d += 1
                    }
                    if b[i] == b'}' {
                        d -= 1;
                        if d == 0 {
                            i += 1;
                            break;
                        }
                    }
                    i += 1;
                }
            } else {
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                if i < b.len() && b[i] == b'(' {
                    let mut d = 0;
                    while i < b.len() {
                        if b[i] == b'(' {
                            d += 1
                        }
                        if b[i] == b')' {
                            d -= 1;
                            if d == 0 {
                                i += 1;
                                break;
                            }
                        }
                        i += 1;
                    }
                }
            }
            out.push(Tok::M);
        } else if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
            let st = i + 2;
            i += 2;
            while b[i] != b'"' {
                i += 1;
            }
            out.push(Tok::S(unesc(&b[st..i])));
            i += 1;
        } else if c == b'"' {
            let st = i + 1;
            i += 1;
            while b[i] != b'"' {
                i += 1;
            }
            let q = String::from_utf8_lossy(&unesc(&b[st..i])).into_owned();
            i += 1;
            if i < b.len() && b[i] == b':' {
                i += 1;
                out.push(Tok::LabelDef(q));
            } else {
                out.push(Tok::Q(q));
            }
        } else if c == b'#' {
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
        } else if idc(c) {
            let st = i;
            while i < b.len() && idc(b[i]) {
                i += 1;
            }
            if i < b.len() && b[i] == b':' {
                out.push(Tok::LabelDef(s[st..i].to_string()));
                i += 1;
            } else {
                out.push(Tok::W(s[st..i].to_string()));
            }
        } else {
            out.push(Tok::P(c as char));
            i += 1;
        }
    }
    out
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nlabels: u32,
}
type R<T> = Result<T, String>;

const PATTR: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "zeroext", "signext", "inreg",
    "nofree", "nest", "returned", "immarg", "swiftself", "swifterror", "allocptr", "allocalign", "nounwind", "writable", "dead_on_unwind",
    "noinline", "noreturn", "cold", "nosync", "willreturn", "nobuiltin",
];

impl<'a> P<'a> {
    fn new(t: &'a [Tok]) -> P<'a> {
        P { t, i: 0, regs: HashMap::new(), labels: HashMap::new(), nlabels: 0 }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let a = self.i.saturating_sub(12);
        let b = (self.i + 6).min(self.t.len());
        Err(format!("{} near {:?} at {:?}", m, &self.t[a..b], self.peek()))
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn isp(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn needp(&mut self, c: char) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", c))
        }
    }
    fn word(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::W(x)) => {
                let r = x.clone();
                self.i += 1;
                Ok(r)
            }
            _ => self.err("expected word"),
        }
    }
    fn num(&mut self) -> R<u64> {
        let w = self.word()?;
        w.parse::<u64>().or_else(|_| self.err("number"))
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::L(_)) => true,
            Some(Tok::P(c)) => matches!(c, '[' | '{' | '<'),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek().cloned() {
            Some(Tok::W(w)) => {
                self.i += 1;
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.isw("addrspace") {
                            return self.err("addrspace");
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => return self.err("type"),
                }
            }
            Some(Tok::L(n)) => {
                self.i += 1;
                Ty::Named(n)
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let n = self.num()?;
                if !self.eatw("x") {
                    return self.err("x");
                }
                let e = self.ty()?;
                self.needp(']')?;
                Ty::Arr(n, Arc::new(e))
            }
            Some(Tok::P('<')) => {
                self.i += 1;
                if self.eatp('{') {
                    let s = self.tylist('}')?;
                    self.needp('>')?;
                    Ty::Struct(Arc::new(s), true)
                } else {
                    let n = self.num()?;
                    if !self.eatw("x") {
                        return self.err("x");
                    }
                    let e = self.ty()?;
                    self.needp('>')?;
                    Ty::Vec(n, Arc::new(e))
                }
            }
            Some(Tok::P('{')) => {
                self.i += 1;
                Ty::Struct(Arc::new(self.tylist('}')?), false)
            }
            _ => return self.err("type"),
        };
        // function type "ret (args...)" as used in vararg calls
        if self.isp('(') && self.looks_like_fnty() {
            let mut d = 0;
            loop {
                if self.isp('(') {
                    d += 1
                }
                if self.isp(')') {
                    d -= 1;
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
            return Ok(t);
        }
        Ok(t)
    }
    fn looks_like_fnty(&self) -> bool {
        // "(": followed by type list or "..." and then ")" followed by @ or %
        let mut j = self.i;
        let mut d = 0;
        while j < self.t.len() {
            match &self.t[j] {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return matches!(self.t.get(j + 1), Some(Tok::G(_)) | Some(Tok::L(_)));
                    }
                }
                _ => {}
            }
            j += 1;
            if j > self.i + 200 {
                return false;
            }
        }
        false
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eatp(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eatp(end) {
                return Ok(v);
            }
            self.needp(',')?;
        }
    }
    fn attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) if PATTR.contains(&w.as_str()) => {
                    self.i += 1;
                }
                Some(Tok::W(w))
                    if matches!(
                        w.as_str(),
                        "align" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "elementtype" | "range" | "memory" | "alignstack" | "captures" | "initializes" | "nofpclass" | "allocsize"
                    ) =>
                {
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else {
                        self.i += 1;
                    }
                }
                Some(Tok::Q(_)) => {
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            if self.isp('(') {
                d += 1
            }
            if self.isp(')') {
                d -= 1;
            }
            self.i += 1;
            if d == 0 {
                break;
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<Const> {
        match self.peek().cloned() {
            Some(Tok::W(w)) => {
                self.i += 1;
                match w.as_str() {
                    "true" => Ok(Const::Int(1)),
                    "false" => Ok(Const::Int(0)),
                    "null" => Ok(Const::Int(0)),
                    "undef" | "poison" => Ok(Const::Undef),
                    "zeroinitializer" => Ok(Const::Zero),
                    "getelementptr" => {
                        while self.eatw("inbounds") || self.eatw("nuw") || self.eatw("nusw") {}
                        if self.isw("inrange") {
                            self.i += 1;
                            if self.isp('(') {
                                self.skip_parens();
                            }
                        }
                        self.needp('(')?;
                        let t = self.ty()?;
                        self.needp(',')?;
                        let pt = self.ty()?;
                        let base = self.konst(&pt)?;
                        let mut idx = vec![];
                        while self.eatp(',') {
                            self.eatw("inrange");
                            let it = self.ty()?;
                            let c = self.konst(&it)?;
                            idx.push((it, c));
                        }
                        self.needp(')')?;
                        Ok(Const::Gep(t, Box::new(base), idx))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" => {
                        self.needp('(')?;
                        let ft = self.ty()?;
                        let c = self.konst(&ft)?;
                        if !self.eatw("to") {
                            return self.err("to");
                        }
                        let tt = self.ty()?;
                        self.needp(')')?;
                        let k = match w.as_str() {
                            "trunc" => "trunc",
                            "zext" => "zext",
                            "sext" => "sext",
                            _ => "bits",
                        };
                        Ok(Const::Cast(k, ft, Box::new(c), tt))
                    }
                    "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" => {
                        while self.eatw("nuw") || self.eatw("nsw") {}
                        self.needp('(')?;
                        let t = self.ty()?;
                        let a = self.konst(&t)?;
                        self.needp(',')?;
                        let t2 = self.ty()?;
                        let b = self.konst(&t2)?;
                        self.needp(')')?;
                        Ok(Const::Bin(w, t, Box::new(a), Box::new(b)))
                    }
                    _ => {
                        if let Some(h) = w.strip_prefix("0x") {
                            // floating-point constant in hex
                            let bits = u64::from_str_radix(h, 16).map_err(|_| format!("hex float {}", w))?;
                            return Ok(Const::Int(match ty {
                                Ty::Float => (f64::from_bits(bits) as f32).to_bits() as u128,
                                _ => bits as u128,
                            }));
                        }
                        match ty {
                            Ty::Double => {
                                let f: f64 = w.parse().map_err(|_| format!("float {}", w))?;
                                return Ok(Const::Int(f.to_bits() as u128));
                            }
                            Ty::Float => {
                                let f: f64 = w.parse().map_err(|_| format!("float {}", w))?;
                                return Ok(Const::Int((f as f32).to_bits() as u128));
                            }
                            Ty::Int(n) => {
                                let v: u128 = if let Some(m) = w.strip_prefix('-') {
                                    let x: u128 = m.parse().map_err(|_| format!("int {}", w))?;
                                    x.wrapping_neg()
                                } else {
                                    w.parse().map_err(|_| format!("int {}", w))?
                                };
                                Ok(Const::Int(if *n >= 128 { v } else { v & ((1u128 << n) - 1) }))
                            }
                            _ => {
                                self.i -= 1;
                                self.err("constant")
                            }
                        }
                    }
                }
            }
            // "1.5e+3" lexes as W("1.5e") P('+') W("3")
            Some(Tok::G(n)) => {
                self.i += 1;
                Ok(Const::Global(n))
            }
            Some(Tok::S(b)) => {
                self.i += 1;
                Ok(Const::Str(b))
            }
            Some(Tok::P(c)) if c == '[' || c == '{' || c == '<' => {
                self.i += 1;
                let mut packed = false;
                let end = match c {
                    '[' => ']',
                    '{' => '}',
                    _ => {
                        if self.eatp('{') {
                            packed = true;
                            '}'
                        } else {
                            '>'
                        }
                    }
                };
                let mut v = vec![];
                if !self.eatp(end) {
                    loop {
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        v.push((t, k));
                        if self.eatp(end) {
                            break;
                        }
                        self.needp(',')?;
                    }
                }
                if packed {
                    self.needp('>')?;
                }
                Ok(Const::Agg(v))
            }
            _ => self.err("constant"),
        }
    }
    fn float_fix(&mut self) {}
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(x) = self.labels.get(n) {
            return *x;
        }
        let k = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n.to_string(), k);
        k
    }
    fn opnd(&mut self, ty: &Ty) -> R<Opnd> {
        if let Some(Tok::L(n)) = self.peek().cloned() {
            self.i += 1;
            return Ok(Opnd::Reg(self.reg(&n)));
        }
        Ok(Opnd::Const(self.konst(ty)?))
    }
    fn tyop(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        self.attrs()?;
        if t == Ty::Meta {
            // metadata operand: skip one token
            match self.peek() {
                Some(Tok::M) => self.i += 1,
                _ => {
                    let _ = self.ty()?;
                    let _ = self.opnd(&Ty::Int(64))?;
                }
            }
            return Ok((Ty::Meta, Opnd::Const(Const::Undef)));
        }
        let o = self.opnd(&t)?;
        Ok((t, o))
    }
    fn labelref(&mut self) -> R<u32> {
        if !self.eatw("label") {
            return self.err("label");
        }
        match self.peek().cloned() {
            Some(Tok::L(n)) => {
                self.i += 1;
                Ok(self.label(&n))
            }
            _ => self.err("label name"),
        }
    }
    fn skip_meta(&mut self) {
        // ", !x !y" ...
        while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::M)) {
            self.i += 2;
            while matches!(self.peek(), Some(Tok::M)) {
                self.i += 1;
            }
        }
    }
    fn align(&mut self) -> R<u64> {
        if self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::W(w)) if w == "align") {
            self.i += 2;
            return self.num();
        }
        Ok(0)
    }
    fn flags(&mut self) {
        while let Some(Tok::W(w)) = self.peek() {
            if matches!(
                w.as_str(),
                "nuw" | "nsw" | "exact" | "inbounds" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "disjoint" | "nneg" | "samesign" | "nusw"
            ) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn call(&mut self, invoke: bool) -> R<Ins> {
        self.flags();
        // calling conv, return attrs
        loop {
            if self.eatw("fastcc") || self.eatw("ccc") || self.eatw("coldcc") {
                continue;
            }
            let b = self.i;
            self.attrs()?;
            if b == self.i {
                break;
            }
        }
        let ret = self.ty()?;
        let callee = match self.peek().cloned() {
            Some(Tok::G(n)) => {
                self.i += 1;
                Callee::Direct(n)
            }
            Some(Tok::L(n)) => {
                self.i += 1;
                Callee::Indirect(Opnd::Reg(self.reg(&n)))
            }
            Some(Tok::W(w)) if w == "asm" => {
                self.i += 1;
                while !self.isp('(') {
                    self.i += 1;
                }
                Callee::Direct("asm".into())
            }
            _ => Callee::Indirect(Opnd::Const(self.konst(&Ty::Ptr)?)),
        };
        self.needp('(')?;
        let mut args = vec![];
        if !self.eatp(')') {
            loop {
                args.push(self.tyop()?);
                if self.eatp(')') {
                    break;
                }
                self.needp(',')?;
            }
        }
        self.attrs()?;
        // operand bundles
        if self.eatp('[') {
            while !self.eatp(']') {
                self.i += 1;
            }
        }
        let mut normal = None;
        if invoke {
            if !self.eatw("to") {
                return self.err("to");
            }
            normal = Some(self.labelref()?);
            if !self.eatw("unwind") {
                return self.err("unwind");
            }
            self.labelref()?;
        }
        Ok(Ins::Call { ret, callee, args, normal })
    }
    fn inst(&mut self) -> R<Inst> {
        let mut dst = None;
        if let Some(Tok::L(n)) = self.peek().cloned() {
            if matches!(self.t.get(self.i + 1), Some(Tok::P('='))) {
                self.i += 2;
                dst = Some(self.reg(&n));
            }
        }
        let w = self.word()?;
        let bin = |o| Some(o);
        let bo = match w.as_str() {
            "add" => bin(BinOp::Add),
            "sub" => bin(BinOp::Sub),
            "mul" => bin(BinOp::Mul),
            "udiv" => bin(BinOp::UDiv),
            "sdiv" => bin(BinOp::SDiv),
            "urem" => bin(BinOp::URem),
            "srem" => bin(BinOp::SRem),
            "shl" => bin(BinOp::Shl),
            "lshr" => bin(BinOp::LShr),
            "ashr" => bin(BinOp::AShr),
            "and" => bin(BinOp::And),
            "or" => bin(BinOp::Or),
            "xor" => bin(BinOp::Xor),
            "fadd" => bin(BinOp::FAdd),
            "fsub" => bin(BinOp::FSub),
            "fmul" => bin(BinOp::FMul),
            "fdiv" => bin(BinOp::FDiv),
            "frem" => bin(BinOp::FRem),
            _ => None,
        };
        let co = match w.as_str() {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "ptrtoint" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" => Some(CastOp::Bitcast),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            _ => None,
        };
        let ins = if let Some(o) = bo {
            self.flags();
            let t = self.ty()?;
            let a = self.opnd(&t)?;
            self.needp(',')?;
            let b = self.opnd(&t)?;
            Ins::Bin(o, t, a, b)
        } else if let Some(o) = co {
            self.flags();
            let (t, a) = self.tyop()?;
            if !self.eatw("to") {
                return self.err("to");
            }
            Ins::Cast(o, t, a, self.ty()?)
        } else {
            match w.as_str() {
                "fneg" => {
                    self.flags();
                    let (t, a) = self.tyop()?;
                    Ins::FNeg(t, a)
                }
                "icmp" => {
                    self.flags();
                    let p = self.word()?;
                    let p = match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return self.err("pred"),
                    };
                    let t = self.ty()?;
                    let a = self.opnd(&t)?;
                    self.needp(',')?;
                    let b = self.opnd(&t)?;
                    Ins::ICmp(p, t, a, b)
                }
                "fcmp" => {
                    self.flags();
                    let p = self.word()?;
                    let t = self.ty()?;
                    let a = self.opnd(&t)?;
                    self.needp(',')?;
                    let b = self.opnd(&t)?;
                    Ins::FCmp(p, t, a, b)
                }
                "select" => {
                    self.flags();
                    let (ct, c) = self.tyop()?;
                    self.needp(',')?;
                    let (t, a) = self.tyop()?;
                    self.needp(',')?;
                    let (_, b) = self.tyop()?;
                    Ins::Select(ct, c, t, a, b)
                }
                "alloca" => {
                    self.eatw("inalloca");
                    let t = self.ty()?;
                    let mut n = None;
                    if self.isp(',') && !matches!(self.t.get(self.i + 1), Some(Tok::W(w)) if w == "align") && !matches!(self.t.get(self.i + 1), Some(Tok::M)) {
                        self.i += 1;
                        n = Some(self.tyop()?);
                    }
                    let a = self.align()?;
                    Ins::Alloca(t, n, a)
                }
                "load" => {
                    let at = self.eatw("atomic");
                    self.eatw("volatile");
                    let t = self.ty()?;
                    self.needp(',')?;
                    let (_, p) = self.tyop()?;
                    if at {
                        self.word()?;
                    }
                    let a = self.align()?;
                    Ins::Load(t, p, a)
                }
                "store" => {
                    let at = self.eatw("atomic");
                    self.eatw("volatile");
                    let (t, v) = self.tyop()?;
                    self.needp(',')?;
                    let (_, p) = self.tyop()?;
                    if at {
                        self.word()?;
                    }
                    let a = self.align()?;
                    Ins::Store(t, v, p, a)
                }
                "getelementptr" => {
                    self.flags();
                    let t = self.ty()?;
                    self.needp(',')?;
                    let (_, b) = self.tyop()?;
                    let mut idx = vec![];
                    while self.isp(',') && !matches!(self.t.get(self.i + 1), Some(Tok::M)) {
                        self.i += 1;
                        idx.push(self.tyop()?);
                    }
                    Ins::Gep(t, b, idx)
                }
                "extractvalue" => {
                    let (t, a) = self.tyop()?;
                    let mut ix = vec![];
                    while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::W(_))) {
                        self.i += 1;
                        ix.push(self.num()? as u32);
                    }
                    Ins::ExtractValue(t, a, ix)
                }
                "insertvalue" => {
                    let (t, a) = self.tyop()?;
                    self.needp(',')?;
                    let (t2, b) = self.tyop()?;
                    let mut ix = vec![];
                    while self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::W(_))) {
                        self.i += 1;
                        ix.push(self.num()? as u32);
                    }
                    Ins::InsertValue(t, a, t2, b, ix)
                }
                "extractelement" => {
                    let (t, a) = self.tyop()?;
                    self.needp(',')?;
                    let (_, b) = self.tyop()?;
                    Ins::ExtractElem(t, a, b)
                }
                "insertelement" => {
                    let (t, a) = self.tyop()?;
                    self.needp(',')?;
                    let (t2, b) = self.tyop()?;
                    self.needp(',')?;
                    let (_, c) = self.tyop()?;
                    Ins::InsertElem(t, a, t2, b, c)
                }
                "shufflevector" => {
                    let (t, a) = self.tyop()?;
                    self.needp(',')?;
                    let (_, b) = self.tyop()?;
                    self.needp(',')?;
                    let mt = self.ty()?;
                    let m = self.konst(&mt)?;
                    let m = match (m, &mt) {
                        (Const::Zero, Ty::Vec(n, e)) => Const::Agg((0..*n).map(|_| ((**e).clone(), Const::Int(0))).collect()),
                        (m, _) => m,
                    };
                    Ins::Shuffle(t, a, b, m)
                }
                "freeze" => {
                    let (t, a) = self.tyop()?;
                    Ins::Freeze(t, a)
                }
                "phi" => {
                    self.flags();
                    let t = self.ty()?;
                    let mut v = vec![];
                    loop {
                        self.needp('[')?;
                        let o = self.opnd(&t)?;
                        self.needp(',')?;
                        let l = match self.peek().cloned() {
                            Some(Tok::L(n)) => {
                                self.i += 1;
                                self.label(&n)
                            }
                            _ => return self.err("phi label"),
                        };
                        self.needp(']')?;
                        v.push((o, l));
                        if self.isp(',') && matches!(self.t.get(self.i + 1), Some(Tok::P('['))) {
                            self.i += 1;
                        } else {
                            break;
                        }
                    }
                    Ins::Phi(t, v)
                }
                "tail" | "musttail" | "notail" => {
                    if !self.eatw("call") {
                        return self.err("call");
                    }
                    self.call(false)?
                }
                "call" => self.call(false)?,
                "invoke" => self.call(true)?,
                "br" => {
                    if self.isw("label") {
                        Ins::Br(self.labelref()?)
                    } else {
                        let (_, c) = self.tyop()?;
                        self.needp(',')?;
                        let a = self.labelref()?;
                        self.needp(',')?;
                        let b = self.labelref()?;
                        Ins::CondBr(c, a, b)
                    }
                }
                "switch" => {
                    let (t, c) = self.tyop()?;
                    self.needp(',')?;
                    let d = self.labelref()?;
                    self.needp('[')?;
                    let mut v = vec![];
                    while !self.eatp(']') {
                        let ct = self.ty()?;
                        let k = match self.konst(&ct)? {
                            Const::Int(k) => k,
                            _ => return self.err("switch const"),
                        };
                        self.needp(',')?;
                        v.push((k, self.labelref()?));
                    }
                    Ins::Switch(t, c, d, v)
                }
                "ret" => {
                    if self.eatw("void") {
                        Ins::Ret(None)
                    } else {
                        Ins::Ret(Some(self.tyop()?))
                    }
                }
                "unreachable" => Ins::Unreachable,
                "fence" => {
                    if self.isw("syncscope") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    self.word()?;
                    Ins::Fence
                }
                "atomicrmw" => {
                    self.eatw("volatile");
                    let op = self.word()?;
                    let (_, p) = self.tyop()?;
                    self.needp(',')?;
                    let (t, v) = self.tyop()?;
                    self.word()?;
                    self.align()?;
                    Ins::AtomicRmw(op, p, t, v)
                }
                "cmpxchg" => {
                    self.eatw("weak");
                    self.eatw("volatile");
                    let (_, p) = self.tyop()?;
                    self.needp(',')?;
                    let (t, c) = self.tyop()?;
                    self.needp(',')?;
                    let (_, n) = self.tyop()?;
                    self.word()?;
                    self.word()?;
                    self.align()?;
                    Ins::CmpXchg(p, t, c, n)
                }
                "landingpad" => {
                    self.ty()?;
                    loop {
                        if self.eatw("cleanup") {
                            continue;
                        }
                        if self.eatw("catch") || self.eatw("filter") {
                            let t = self.ty()?;
                            self.konst(&t)?;
                            continue;
                        }
                        break;
                    }
                    Ins::LandingPad
                }
                "resume" => {
                    self.tyop()?;
                    Ins::Resume
                }
                _ => {
                    self.i -= 1;
                    return self.err("unknown instruction");
                }
            }
        };
        self.skip_meta();
        Ok(Inst { dst, ins })
    }
}

const LINKAGE: &[&str] = &[
    "private", "internal", "external", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr",
    "dso_local", "dso_preemptable", "hidden", "protected", "default", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc", "coldcc", "externally_initialized",
];

fn fn_header(p: &mut P) -> R<(String, Vec<(Ty, Option<String>)>, Ty)> {
    loop {
        if let Some(Tok::W(w)) = p.peek() {
            if LINKAGE.contains(&w.as_str()) {
                p.i += 1;
                continue;
            }
        }
        let b = p.i;
        p.attrs()?;
        if b == p.i {
            break;
        }
    }
    let ret = p.ty()?;
    let name = match p.peek().cloned() {
        Some(Tok::G(n)) => n,
        _ => return p.err("fn name"),
    };
    p.i += 1;
    p.needp('(')?;
    let mut params = vec![];
    if !p.eatp(')') {
        loop {
            if p.eatp('.') || matches!(p.peek(), Some(Tok::W(w)) if w == "...") {
                if p.isw("...") {
                    p.i += 1;
                }
                while p.eatp('.') {}
                p.needp(')')?;
                break;
            }
            let t = p.ty()?;
            p.attrs()?;
            let mut n = None;
            if let Some(Tok::L(x)) = p.peek().cloned() {
                p.i += 1;
                n = Some(x);
            }
            params.push((t, n));
            if p.eatp(')') {
                break;
            }
            p.needp(',')?;
        }
    }
    Ok((name, params, ret))
}

/// "1.5e+10" must lex as a single word: join e+ sequences beforehand
fn fix_floats(s: &str) -> std::borrow::Cow<'_, str> {
    if s.contains("e+") {
        let mut out = String::with_capacity(s.len());
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'+' && i > 1 && b[i - 1] == b'e' && b[i - 2].is_ascii_digit() && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
                i += 1;
                continue;
            }
            out.push(b[i] as char);
            i += 1;
        }
        std::borrow::Cow::Owned(out)
    } else {
        std::borrow::Cow::Borrowed(s)
    }
}

pub fn parse(text: &str) -> R<Module> {
    let mut aliases: Vec<(String, String)> = vec![];
    let mut m = Module { types: HashMap::new(), globals: vec![], funcs: vec![], fn_index: HashMap::new() };
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') {
            let t = lex(l);
            let mut p = P::new(&t);
            let name = match p.peek().cloned() {
                Some(Tok::L(n)) => n,
                _ => return Err(format!("type line {}", l)),
            };
            p.i += 1;
            p.needp('=')?;
            p.word()?; // type
            if p.isw("opaque") {
                m.types.insert(name, Ty::Struct(Arc::new(vec![]), false));
            } else {
                let ty = p.ty()?;
                m.types.insert(name, ty);
            }
        } else if l.starts_with('@') {
            let t = lex(l);
            let mut p = P::new(&t);
            let name = match p.peek().cloned() {
                Some(Tok::G(n)) => n,
                _ => return Err(format!("global line {}", l)),
            };
            p.i += 1;
            p.needp('=')?;
            let mut ext = false;
            let mut is_alias = false;
            let mut constant = false;
            loop {
                if p.isw("thread_local") {
                    p.i += 1;
                    if p.isp('(') {
                        p.skip_parens();
                    }
                    continue;
                }
                match p.peek() {
                    Some(Tok::W(w)) if LINKAGE.contains(&w.as_str()) => {
                        if w == "external" || w == "extern_weak" {
                            ext = true;
                        }
                        p.i += 1;
                    }
                    Some(Tok::W(w)) if w == "alias" => {
                        is_alias = true;
                        p.i += 1;
                        break;
                    }
                    Some(Tok::W(w)) if w == "global" => {
                        p.i += 1;
                        break;
                    }
                    Some(Tok::W(w)) if w == "constant" => {
                        constant = true;
                        p.i += 1;
                        break;
                    }
                    _ => return p.err("global"),
                }
            }
            if is_alias {
                // alias TYPE, ptr @target
                if let Some(Tok::G(g)) = t.iter().rev().find(|x| matches!(x, Tok::G(_))) {
                    aliases.push((name.clone(), g.clone()));
                }
                i += 1;
                continue;
            }
            let ty = p.ty()?;
            let init = if ext { None } else { Some(p.konst(&ty)?) };
            let mut align = 0;
            while p.i < t.len() {
                if p.isw("align") {
                    p.i += 1;
                    align = p.num()?;
                } else {
                    p.i += 1;
                }
            }
            m.globals.push(Global { name, ty, init, constant, align });
        } else if l.starts_with("declare ") {
            let t = lex(&l[8..]);
            let mut p = P::new(&t);
            let (name, params, ret) = fn_header(&mut p).map_err(|e| format!("{}: {}", l, e))?;
            m.fn_index.insert(name.clone(), m.funcs.len() as u32);
            m.funcs.push(Func { name, nparams: params.len(), ptys: params.iter().map(|x| x.0.clone()).collect(), ret, nregs: 0, decl: true, insts: vec![], blocks: vec![] });
        } else if l.starts_with("define ") {
            let st = i + 1;
            while lines[i] != "}" {
                i += 1;
            }
            let body = lines[st..i].join("\n");
            let h = lex(&l[7..]);
            let mut hp = P::new(&h);
            let (name, params, ret) = fn_header(&mut hp).map_err(|e| format!("{}: {}", l, e))?;
            let body = fix_floats(&body);
            let t = lex(&body);
            let mut p = P::new(&t);
            for (k, (_, n)) in params.iter().enumerate() {
                let n = n.clone().unwrap_or_else(|| k.to_string());
                p.reg(&n);
            }
            let mut insts = vec![];
            let mut blocks: HashMap<u32, u32> = HashMap::new();
            // entry block: implicitly numbered label = number of unnamed params
            if !matches!(p.peek(), Some(Tok::LabelDef(_))) {
                let n = params.len().to_string();
                let e = p.label(&n);
                blocks.insert(e, 0);
            }
            while p.i < t.len() {
                if let Some(Tok::LabelDef(n)) = p.peek().cloned() {
                    p.i += 1;
                    let b = p.label(&n);
                    blocks.insert(b, insts.len() as u32);
                    continue;
                }
                match p.inst() {
                    Ok(x) => insts.push(x),
                    Err(e) => {
                        // only an error if the function is ever executed
                        if std::env::var("SYMEX_PARSE").is_ok() {
                            eprintln!("in {}: {}", name, e);
                        }
                        insts = vec![Inst { dst: None, ins: Ins::Unsupported(format!("unparsed function: {}", e)) }];
                        blocks.clear();
                        blocks.insert(0, 0);
                        break;
                    }
                }
            }
            let mut bl = vec![u32::MAX; p.nlabels as usize];
            for (k, v) in blocks {
                bl[k as usize] = v;
            }
            p.float_fix();
            let nregs = p.regs.len() as u32;
            m.fn_index.insert(name.clone(), m.funcs.len() as u32);
            m.funcs.push(Func { name, nparams: params.len(), ptys: params.iter().map(|x| x.0.clone()).collect(), ret, nregs, decl: false, insts, blocks: bl });
        }
        i += 1;
    }
    for (a, g) in aliases {
        if let Some(k) = m.fn_index.get(&g) {
            let mut f = m.funcs[*k as usize].clone();
            f.name = a.clone();
            m.fn_index.insert(a, m.funcs.len() as u32);
            m.funcs.push(f);
        }
    }
    Ok(m)
}

impl Module {
    pub fn resolve_ty<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        match t {
            Ty::Named(n) => self.resolve_ty(self.types.get(n).unwrap_or_else(|| panic!("unknown type %{}", n))),
            t => t,
        }
    }
    pub fn align_of(&self, t: &Ty) -> u64 {
        match self.resolve_ty(t) {
            Ty::Int(n) => match n {
                1..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 8, // rustc 1.69 (LLVM 15): i128 is 8-aligned
            },
            Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Double => 8,
            Ty::Arr(_, e) => self.align_of(e),
            Ty::Vec(..) => self.size_of(t).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align_of(x)).max().unwrap_or(1)
                }
            }
            x => panic!("align_of {:?}", x),
        }
    }
    /// allocation size
    pub fn size_of(&self, t: &Ty) -> u64 {
        match self.resolve_ty(t) {
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align_of(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float => 4,
            Ty::Double => 8,
            Ty::Arr(n, e) => n * self.size_of(e),
            Ty::Vec(n, e) => match **e {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * self.size_of(e),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for x in f.iter() {
                    if !packed {
                        let a = self.align_of(x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size_of(x);
                }
                if !packed {
                    let a = self.align_of(t);
                    o = (o + a - 1) / a * a;
                }
                o
            }
            x => panic!("size_of {:?}", x),
        }
    }
    pub fn field_offset(&self, t: &Ty, i: usize) -> u64 {
        match self.resolve_ty(t) {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, x) in f.iter().enumerate() {
                    if !packed {
                        let a = self.align_of(x);
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += self.size_of(x);
                }
                panic!("field_offset")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => self.size_of(e) * i as u64,
            x => panic!("field_offset {:?}", x),
        }
    }
    pub fn field_ty<'a>(&'a self, t: &'a Ty, i: usize) -> &'a Ty {
        match self.resolve_ty(t) {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, e) | Ty::Vec(_, e) => e,
            x => panic!("field_ty {:?}", x),
        }
    }
    pub fn nfields(&self, t: &Ty) -> usize {
        match self.resolve_ty(t) {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}
