//! Symbolic interpreter for the LLVM IR of the whole program.
use crate::int::Int;
use crate::ir::{self, BinOp, Callee, CastOp, Const, Ins, Module, Opnd, Pred, Ty};
use crate::solver::{Res, Solver};
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

// ---------------------------------------------------------------- values
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    L(Rc<Lin>),
    B(B),
    U,
    Mix(Rc<Vec<Cell>>),
    A(Rc<Vec<Val>>),
    /// function of one integer term, tabulated over its range (floating point)
    T(Rc<Tab>),
}
#[derive(Debug)]
pub struct Tab {
    pub lin: Lin,
    pub lo: i128,
    pub vals: Vec<u128>,
}
#[derive(Clone, Debug)]
pub enum Cell {
    U,
    C(u8),
    S(Rc<SymV>, u8),
}
/// bytes touched by a load or store
fn acc_size(m: &Module, t: &Ty) -> u64 {
    match t {
        Ty::Int(n) => (*n as u64 + 7) / 8,
        t => m.size_of(t),
    }
}
/// some byte of the word is undefined
fn has_u(v: &Val) -> bool {
    match v {
        Val::Mix(c) => c.iter().any(|x| matches!(x, Cell::U)),
        _ => false,
    }
}
#[derive(Debug)]
pub struct SymV {
    pub bytes: u8,
    pub lin: Rc<Lin>,
    /// a tabulated floating-point number (`lin` is then meaningless)
    pub tab: Option<Rc<Tab>>,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub kind: ObjKind,
    data: Vec<u8>,
    /// 0 undefined, 1 concrete, 2 symbolic
    st: Vec<u8>,
    sym: BTreeMap<u64, (u8, Rc<SymV>)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ObjKind {
    Stack,
    Heap,
    Global,
    Const,
}
impl Obj {
    fn new(size: u64, align: u64, kind: ObjKind) -> Obj {
        Obj { size, align, kind, data: vec![0; size as usize], st: vec![0; size as usize], sym: BTreeMap::new() }
    }
    fn cell(&self, off: u64) -> Cell {
        match self.st[off as usize] {
            0 => Cell::U,
            1 => Cell::C(self.data[off as usize]),
            _ => {
                let (o, (_, v)) = self.sym.range(..=off).next_back().unwrap();
                Cell::S(v.clone(), (off - o) as u8)
            }
        }
    }
}

// ---------------------------------------------------------------- lowered code
#[derive(Clone)]
enum XO {
    R(u32),
    V(Val),
}
/// value layout
#[derive(Clone, Debug)]
enum VT {
    I(u32),
    F32,
    F64,
    /// aggregate: (offset, type) per field
    A(Rc<Vec<(u64, VT)>>),
    Void,
}
impl VT {
    fn bits(&self) -> u32 {
        match self {
            VT::I(n) => *n,
            VT::F32 => 32,
            VT::F64 => 64,
            _ => 0,
        }
    }
}
enum XI {
    Bin(BinOp, VT, XO, XO),
    FNeg(VT, XO),
    Cast(CastOp, VT, XO, VT),
    ICmp(Pred, VT, XO, XO),
    FCmp(String, VT, XO, XO),
    Select(XO, VT, XO, XO),
    Alloca(u64, Option<(u32, XO)>, u64),
    Load(VT, u64, XO, u64),
    Store(VT, u64, XO, XO, u64),
    Gep(XO, i64, Vec<(XO, u32, u64)>),
    Extract(XO, Vec<u32>),
    Insert(VT, XO, XO, Vec<u32>),
    ExtractElem(XO, XO),
    InsertElem(u64, XO, XO, XO),
    Shuffle(u64, XO, XO, Vec<i64>),
    Freeze(VT, XO),
    Phi(Vec<(XO, u32)>),
    Call(XCallee, Vec<(XO, VT)>, VT, Option<u32>),
    Br(u32),
    CondBr(XO, u32, u32),
    Switch(u32, XO, u32, Vec<(u128, u32)>),
    Ret(Option<XO>),
    Unreachable,
    Fence,
    Rmw(String, XO, VT, u64, XO),
    CmpXchg(XO, VT, u64, XO, XO),
    Bad(String),
}
enum XCallee {
    Fn(u32),
    Ind(XO),
}
struct XInst {
    dst: Option<u32>,
    x: XI,
}
struct XFunc {
    idx: u32,
    nregs: u32,
    insts: Vec<XInst>,
    blocks: Vec<u32>,
    block_of: Vec<u32>,
}

// ---------------------------------------------------------------- state
#[derive(Clone)]
struct Frame {
    f: Rc<XFunc>,
    pc: u32,
    prev: u32,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    dst: Option<u32>,
    cont: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    Bool(bool),
    Is(i128),
    Not(i128),
    Choose(i64),
}
#[derive(Clone, Debug)]
pub enum Input {
    Var(Atom),
    Const(i64),
    Choose(i64),
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: BTreeMap<u64, Rc<Obj>>,
    next_heap: u64,
    next_stack: u64,
    pc: Vec<B>,
    pb: Rc<PB>,
    model: Option<Rc<Model>>,
    inputs: Vec<Input>,
    trace: Vec<Dec>,
    replay: Rc<Vec<Dec>>,
    rpos: usize,
    spec: Vec<Rc<Lin>>,
    /// decimal texts that stand for floating-point numbers: bits of the number, precision, bytes
    floats: Vec<(u128, u64, Rc<Vec<Val>>)>,
    steps: u64,
    allow_panic: bool,
    /// steps and decisions when a panic became due
    allow_at: (u64, usize, Option<std::time::Instant>),
    nvars: u32,
    asserts: u64,
    snap: Option<(usize, Rc<PB>, Option<Rc<Model>>, usize, usize)>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Panic(String),
    Ub(String),
    Assert(String, Rc<Model>),
    Unsupported(String),
    Infeasible,
    Limit(String),
}
type R<T> = Result<T, Stop>;
fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsupported(s.into()))
}
fn ub<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Ub(s.into()))
}

// ---------------------------------------------------------------- shared work pool
pub struct Pool {
    pub queue: Mutex<Vec<(usize, Vec<Dec>)>>,
    pub qlen: AtomicUsize,
    pub active: AtomicUsize,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub reached: Mutex<HashSet<String>>,
    pub results: Mutex<Vec<EntryResult>>,
    pub nthreads: usize,
    pub max_viol: usize,
    pub path_steps: u64,
    pub tier: i64,
    pub fix: Vec<i64>,
}
#[derive(Default, Clone)]
pub struct EntryResult {
    pub name: String,
    pub paths: u64,
    pub panics_allowed: u64,
    pub infeasible: u64,
    pub asserts: u64,
    pub symbolic_asserts: u64,
    pub steps: u64,
    pub forks: u64,
    pub choices: u64,
    pub tasks: u64,
    pub unchecked: u64,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub reached: BTreeMap<String, u64>,
    pub funcs: HashSet<u32>,
    pub samples: Vec<String>,
    pub refusals: Vec<String>,
    pub open: Vec<(String, String)>,
    pub max_path_steps: u64,
}
#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(char, i64)>,
    pub stack: Vec<String>,
}

pub struct Exec {
    m: Arc<Module>,
    pub ctx: Ctx,
    pub solver: Solver,
    trace: bool,
    xf: HashMap<u32, Rc<XFunc>>,
    gaddr: HashMap<String, u64>,
    gmap: BTreeMap<u64, usize>,
    gobjs: HashMap<u64, Rc<Obj>>,
    fn_at: HashMap<u64, u32>,
    fn_kind: Vec<FnKind>,
    pub cur: EntryResult,
    /// part of a tabulated number was overwritten
    tab_split: bool,
    pool: Arc<Pool>,
    entry: usize,
    local: Vec<State>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum FnKind {
    Normal,
    Intrinsic,
    Panic,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Builtin,
}
static HAS_TABS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const FN_BASE: u64 = 0x10000;
const GLOB_BASE: u64 = 0x1000_0000;
const STACK_BASE: u64 = 0x7000_0000_0000;
const HEAP_BASE: u64 = 0x5000_0000_0000;

fn classify(n: &str, decl: bool) -> FnKind {
    if n.starts_with("llvm.") || n.starts_with("sym_") || n.starts_with("spec_") {
        return FnKind::Intrinsic;
    }
    match n {
        "__rust_alloc" => return FnKind::Alloc,
        "__rust_alloc_zeroed" => return FnKind::AllocZ,
        "__rust_dealloc" => return FnKind::Dealloc,
        "__rust_realloc" => return FnKind::Realloc,
        "log10" | "log" | "log2" | "exp" | "pow" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "fabs" if decl => return FnKind::Builtin,
        "memcmp" | "bcmp" | "strlen" | "memcpy" | "memmove" | "memset" | "getenv" => return FnKind::Builtin,
        "abort" | "rust_begin_unwind" | "rust_panic" | "rust_oom" | "__rust_alloc_error_handler" => return FnKind::Panic,
        _ => {}
    }
    let p = [
        "_ZN4core9panicking",
        "_ZN4core6option13expect_failed",
        "_ZN4core6option13unwrap_failed",
        "_ZN4core6result13unwrap_failed",
        "_ZN3std9panicking11begin_panic",
        "_ZN3std9panicking10rust_panic",
        "_ZN3std9panicking20rust_panic_with_hook",
        "_ZN3std9panicking19begin_panic_handler",
        "_ZN5alloc7raw_vec17capacity_overflow",
        "_ZN5alloc5alloc18handle_alloc_error",
        "_ZN3std7process5abort",
        "_ZN3std10sys_common9backtrace26__rust_end_short_backtrace",
        "_ZN4core3str16slice_error_fail",
        "_ZN4core3str19slice_error_fail_rt",
        "_ZN4core4cell22panic_already_borrowed",
        "_ZN8smallvec10infallible",
    ];
    if p.iter().any(|x| n.starts_with(x)) {
        return FnKind::Panic;
    }
    if n.contains("len_mismatch_fail") || (n.contains("_ZN4core5slice5index") && n.contains("fail")) || n.contains("panic_cold_explicit") {
        return FnKind::Panic;
    }
    if decl || n.starts_with("_ZN4core5slice6memchr14memchr_aligned17h") || n.starts_with("_ZN4core5slice6memchr7memrchr17h") {
        return FnKind::Builtin;
    }
    FnKind::Normal
}

/// `%.*g` of the C library
fn fmt_g(f: f64, prec: usize) -> String {
    if f.is_nan() {
        return if f.is_sign_negative() { "-nan".into() } else { "nan".into() };
    }
    if f.is_infinite() {
        return if f < 0.0 { "-inf".into() } else { "inf".into() };
    }
    let p = prec.max(1);
    let e = format!("{:.*e}", p - 1, f);
    let k = e.find('e').unwrap();
    let x: i32 = e[k + 1..].parse().unwrap();
    let strip = |s: &str| -> String {
        if s.contains('.') {
            s.trim_end_matches('0').trim_end_matches('.').to_string()
        } else {
            s.to_string()
        }
    };
    if x < -4 || x >= p as i32 {
        format!("{}e{}{:02}", strip(&e[..k]), if x < 0 { '-' } else { '+' }, x.abs())
    } else {
        strip(&format!("{:.*}", (p as i32 - 1 - x) as usize, f))
    }
}
fn fcmp(p: &str, w: u32, x: u128, y: u128) -> bool {
    let (x, y) = if w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x as u64), f64::from_bits(y as u64)) };
    let un = x.is_nan() || y.is_nan();
    match p {
        "oeq" => x == y,
        "one" => !un && x != y,
        "ogt" => x > y,
        "oge" => x >= y,
        "olt" => x < y,
        "ole" => x <= y,
        "ord" => !un,
        "uno" => un,
        "ueq" => un || x == y,
        "une" => x != y,
        "ugt" => un || x > y,
        "uge" => un || x >= y,
        "ult" => un || x < y,
        "ule" => un || x <= y,
        "true" => true,
        _ => false,
    }
}
fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

impl Exec {
    pub fn new(m: Arc<Module>, pool: Arc<Pool>, timeout_ms: u32) -> Exec {
        let mut gaddr = HashMap::new();
        let mut gmap = BTreeMap::new();
        let mut fn_at = HashMap::new();
        let mut fn_kind = vec![];
        for (i, f) in m.funcs.iter().enumerate() {
            let a = FN_BASE + i as u64 * 16;
            gaddr.insert(f.name.clone(), a);
            fn_at.insert(a, i as u32);
            fn_kind.push(classify(&f.name, f.decl));
        }
        let mut a = GLOB_BASE;
        for (i, g) in m.globals.iter().enumerate() {
            let al = g.align.max(m.align_of(&g.ty)).max(1);
            a = (a + 16 + al - 1) / al * al;
            gaddr.insert(g.name.clone(), a);
            gmap.insert(a, i);
            a += m.size_of(&g.ty).max(1);
        }
        Exec {
            m,
            ctx: Ctx::new(),
            solver: Solver::new(timeout_ms),
            trace: std::env::var_os("SYMEX_TRACE").is_some(),
            xf: HashMap::new(),
            gaddr,
            gmap,
            gobjs: HashMap::new(),
            fn_at,
            fn_kind,
            cur: EntryResult::default(),
            tab_split: false,
            pool,
            entry: 0,
            local: vec![],
        }
    }

    // ------------------------------------------------------------ lowering
    fn vt(&self, t: &Ty) -> VT {
        match self.m.resolve_ty(t) {
            Ty::Int(n) => VT::I(*n),
            Ty::Ptr => VT::I(64),
            Ty::Float => VT::F32,
            Ty::Double => VT::F64,
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func => VT::Void,
            rt => {
                let n = self.m.nfields(rt);
                let mut v = vec![];
                for i in 0..n {
                    v.push((self.m.field_offset(rt, i), self.vt(self.m.field_ty(rt, i))));
                }
                VT::A(Rc::new(v))
            }
        }
    }
    fn kval(&self, t: &Ty, c: &Const) -> Val {
        match c {
            Const::Int(v) => Val::C(*v),
            Const::Undef => match self.vt(t) {
                VT::A(f) => Val::A(Rc::new(f.iter().map(|_| Val::U).collect::<Vec<_>>()).clone()).fix_undef(&f),
                _ => Val::U,
            },
            Const::Zero => self.zero(&self.vt(t)),
            Const::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| self.kval(t, c)).collect())),
            Const::Str(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            Const::Global(n) => Val::C(*self.gaddr.get(n).unwrap_or(&0) as u128),
            Const::Gep(t, b, idx) => {
                let base = match self.kval(&Ty::Ptr, b) {
                    Val::C(x) => x as i128,
                    _ => 0,
                };
                let mut off: i128 = 0;
                let mut cur = t.clone();
                for (k, (it, c)) in idx.iter().enumerate() {
                    let i = match self.kval(it, c) {
                        Val::C(x) => sx(x, self.vt(it).bits()),
                        _ => 0,
                    };
                    if k == 0 {
                        off += i * self.m.size_of(&cur) as i128;
                    } else {
                        off += self.m.field_offset(&cur, 0) as i128;
                        match self.m.resolve_ty(&cur) {
                            Ty::Struct(..) => {
                                off += self.m.field_offset(&cur, i as usize) as i128;
                                cur = self.m.field_ty(&cur, i as usize).clone();
                            }
                            _ => {
                                let e = self.m.field_ty(&cur, 0).clone();
                                off += i * self.m.size_of(&e) as i128;
                                cur = e;
                            }
                        }
                    }
                }
                Val::C(mask((base + off) as u128, 64))
            }
            Const::Cast(k, ft, c, tt) => {
                let v = self.kval(ft, c);
                match v {
                    Val::C(x) => {
                        let wf = self.vt(ft).bits();
                        let wt = self.vt(tt).bits();
                        Val::C(match *k {
                            "sext" => mask(sx(x, wf) as u128, wt),
                            _ => mask(x, wt),
                        })
                    }
                    v => v,
                }
            }
            Const::Bin(op, t, a, b) => {
                let w = self.vt(t).bits();
                match (self.kval(t, a), self.kval(t, b)) {
                    (Val::C(a), Val::C(b)) => Val::C(mask(
                        match op.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            "and" => a & b,
                            "or" => a | b,
                            "xor" => a ^ b,
                            "shl" => a << b,
                            "lshr" => a >> b,
                            _ => panic!("const op {}", op),
                        },
                        w,
                    )),
                    _ => Val::U,
                }
            }
        }
    }
    fn zero(&self, t: &VT) -> Val {
        match t {
            VT::A(f) => Val::A(Rc::new(f.iter().map(|(_, t)| self.zero(t)).collect())),
            _ => Val::C(0),
        }
    }
    fn xo(&self, t: &Ty, o: &Opnd) -> XO {
        match o {
            Opnd::Reg(r) => XO::R(*r),
            Opnd::Const(c) => XO::V(self.kval(t, c)),
            Opnd::Cst(_) => unreachable!(),
        }
    }
    fn lower(&mut self, fi: u32) -> Rc<XFunc> {
        if let Some(x) = self.xf.get(&fi) {
            return x.clone();
        }
        let m = self.m.clone();
        let f = &m.funcs[fi as usize];
        let mut insts = Vec::with_capacity(f.insts.len());
        let i64t = Ty::Int(64);
        for ins in &f.insts {
            let x = match &ins.ins {
                Ins::Bin(o, t, a, b) => XI::Bin(*o, self.vt(t), self.xo(t, a), self.xo(t, b)),
                Ins::FNeg(t, a) => XI::FNeg(self.vt(t), self.xo(t, a)),
                Ins::Cast(o, t, a, t2) => XI::Cast(*o, self.vt(t), self.xo(t, a), self.vt(t2)),
                Ins::ICmp(p, t, a, b) => XI::ICmp(*p, self.vt(t), self.xo(t, a), self.xo(t, b)),
                Ins::FCmp(p, t, a, b) => XI::FCmp(p.clone(), self.vt(t), self.xo(t, a), self.xo(t, b)),
                Ins::Select(ct, c, t, a, b) => XI::Select(self.xo(ct, c), self.vt(t), self.xo(t, a), self.xo(t, b)),
                Ins::Alloca(t, n, al) => XI::Alloca(m.size_of(t), n.as_ref().map(|(t, o)| (self.vt(t).bits(), self.xo(t, o))), (*al).max(1)),
                Ins::Load(t, p, a) => XI::Load(self.vt(t), acc_size(&m, t), self.xo(&Ty::Ptr, p), *a),
                Ins::Store(t, v, p, a) => XI::Store(self.vt(t), acc_size(&m, t), self.xo(t, v), self.xo(&Ty::Ptr, p), *a),
                Ins::Gep(t, b, idx) => {
                    let mut off = 0i64;
                    let mut dynv = vec![];
                    let mut cur = t.clone();
                    for (k, (it, o)) in idx.iter().enumerate() {
                        let scale;
                        let mut next = cur.clone();
                        if k == 0 {
                            scale = m.size_of(&cur);
                        } else {
                            match m.resolve_ty(&cur) {
                                Ty::Struct(..) => {
                                    let i = match self.xo(it, o) {
                                        XO::V(Val::C(x)) => x as usize,
                                        _ => panic!("gep struct index"),
                                    };
                                    off += m.field_offset(&cur, i) as i64;
                                    cur = m.field_ty(&cur, i).clone();
                                    continue;
                                }
                                _ => {
                                    next = m.field_ty(&cur, 0).clone();
                                    scale = m.size_of(&next);
                                }
                            }
                        }
                        match self.xo(it, o) {
                            XO::V(Val::C(x)) => off = off.wrapping_add((sx(x, self.vt(it).bits()) as i64).wrapping_mul(scale as i64)),
                            x => dynv.push((x, self.vt(it).bits(), scale)),
                        }
                        cur = next;
                    }
                    XI::Gep(self.xo(&Ty::Ptr, b), off, dynv)
                }
                Ins::ExtractValue(t, a, ix) => XI::Extract(self.xo(t, a), ix.clone()),
                Ins::InsertValue(t, a, t2, b, ix) => XI::Insert(self.vt(t), self.xo(t, a), self.xo(t2, b), ix.clone()),
                Ins::ExtractElem(t, a, i) => XI::ExtractElem(self.xo(t, a), self.xo(&i64t, i)),
                Ins::InsertElem(t, a, t2, v, i) => XI::InsertElem(m.nfields(t) as u64, self.xo(t, a), self.xo(t2, v), self.xo(&i64t, i)),
                Ins::Shuffle(t, a, b, mk) => {
                    let mk = match mk {
                        Const::Agg(v) => v
                            .iter()
                            .map(|(_, c)| match c {
                                Const::Int(x) => *x as i64,
                                _ => -1,
                            })
                            .collect(),
                        _ => vec![],
                    };
                    XI::Shuffle(m.nfields(t) as u64, self.xo(t, a), self.xo(t, b), mk)
                }
                Ins::Freeze(t, a) => XI::Freeze(self.vt(t), self.xo(t, a)),
                Ins::Phi(t, v) => XI::Phi(v.iter().map(|(o, l)| (self.xo(t, o), *l)).collect()),
                Ins::Call { ret, callee, args, normal } => {
                    let c = match callee {
                        Callee::Direct(n) => match m.fn_index.get(n) {
                            Some(i) => XCallee::Fn(*i),
                            None => {
                                insts.push(XInst { dst: ins.dst, x: XI::Bad(format!("call to unknown {}", n)) });
                                continue;
                            }
                        },
                        Callee::Fn(i) => XCallee::Fn(*i),
                        Callee::Indirect(o) => XCallee::Ind(self.xo(&Ty::Ptr, o)),
                    };
                    XI::Call(c, args.iter().map(|(t, o)| (self.xo(t, o), self.vt(t))).collect(), self.vt(ret), *normal)
                }
                Ins::Br(l) => XI::Br(*l),
                Ins::CondBr(c, a, b) => XI::CondBr(self.xo(&Ty::Int(1), c), *a, *b),
                Ins::Switch(t, c, d, v) => XI::Switch(self.vt(t).bits(), self.xo(t, c), *d, v.clone()),
                Ins::Ret(r) => XI::Ret(r.as_ref().map(|(t, o)| self.xo(t, o))),
                Ins::Unreachable => XI::Unreachable,
                Ins::Fence => XI::Fence,
                Ins::AtomicRmw(op, p, t, v) => XI::Rmw(op.clone(), self.xo(&Ty::Ptr, p), self.vt(t), m.size_of(t), self.xo(t, v)),
                Ins::CmpXchg(p, t, c, n) => XI::CmpXchg(self.xo(&Ty::Ptr, p), self.vt(t), m.size_of(t), self.xo(t, c), self.xo(t, n)),
                Ins::LandingPad => XI::Bad("landingpad".into()),
                Ins::Resume => XI::Bad("resume".into()),
                Ins::Unsupported(s) => XI::Bad(s.clone()),
            };
            insts.push(XInst { dst: ins.dst, x });
        }
        let mut block_of = vec![0u32; insts.len()];
        let mut order: Vec<(u32, u32)> = f.blocks.iter().enumerate().filter(|(_, s)| **s != u32::MAX).map(|(b, s)| (*s, b as u32)).collect();
        order.sort();
        for (k, (s, b)) in order.iter().enumerate() {
            let e = order.get(k + 1).map(|x| x.0).unwrap_or(insts.len() as u32);
            for i in *s..e {
                block_of[i as usize] = *b;
            }
        }
        let x = Rc::new(XFunc { idx: fi, nregs: f.nregs, insts, blocks: f.blocks.clone(), block_of });
        self.xf.insert(fi, x.clone());
        x
    }

    // ------------------------------------------------------------ global memory
    fn ginit(&self, o: &mut Obj, off: u64, t: &Ty, c: &Const) {
        match c {
            Const::Undef => {}
            Const::Zero => {
                for i in off..off + self.m.size_of(t) {
                    o.data[i as usize] = 0;
                    o.st[i as usize] = 1;
                }
            }
            Const::Str(b) => {
                for (i, x) in b.iter().enumerate() {
                    o.data[off as usize + i] = *x;
                    o.st[off as usize + i] = 1;
                }
            }
            Const::Agg(v) => {
                for (i, (ft, fc)) in v.iter().enumerate() {
                    let fo = self.m.field_offset(t, i);
                    self.ginit(o, off + fo, ft, fc);
                }
            }
            c => {
                if let Val::C(x) = self.kval(t, c) {
                    for i in 0..self.m.size_of(t) {
                        o.data[(off + i) as usize] = if i < 16 { (x >> (8 * i)) as u8 } else { 0 };
                        o.st[(off + i) as usize] = 1;
                    }
                }
            }
        }
    }
    fn gobj(&mut self, base: u64) -> Rc<Obj> {
        if let Some(o) = self.gobjs.get(&base) {
            return o.clone();
        }
        let m = self.m.clone();
        let g = &m.globals[self.gmap[&base]];
        let size = m.size_of(&g.ty);
        let mut o = Obj::new(size, g.align.max(m.align_of(&g.ty)), if g.constant { ObjKind::Const } else { ObjKind::Global });
        match &g.init {
            Some(c) => self.ginit(&mut o, 0, &g.ty, c),
            None => {
                for i in 0..size as usize {
                    o.st[i] = 1;
                }
            }
        }
        let r = Rc::new(o);
        self.gobjs.insert(base, r.clone());
        r
    }
    fn find(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<(u64, Rc<Obj>)> {
        if let Some((b, o)) = st.objs.range(..=addr).next_back() {
            if addr + n <= b + o.size {
                return Ok((*b, o.clone()));
            }
            if addr <= b + o.size && addr >= *b && addr < b + o.size.max(1) {
                return ub(format!("{} of {} bytes out of bounds: object size {}, offset {} ({:?})", what, n, o.size, addr - b, o.kind));
            }
        }
        if addr >= GLOB_BASE && addr < HEAP_BASE {
            if let Some((b, i)) = self.gmap.range(..=addr).next_back() {
                let (b, i) = (*b, *i);
                let sz = self.m.size_of(&self.m.globals[i].ty);
                if addr + n <= b + sz {
                    return Ok((b, self.gobj(b)));
                }
            }
        }
        if n == 0 && addr != 0 {
            return Ok((addr, Rc::new(Obj::new(0, 1, ObjKind::Const))));
        }
        ub(format!("{} of {} bytes at invalid address {:#x}", what, n, addr))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, base: u64) -> &'a mut Obj {
        if !st.objs.contains_key(&base) {
            let o = self.gobj(base);
            st.objs.insert(base, o);
        }
        Rc::make_mut(st.objs.get_mut(&base).unwrap())
    }
    /// unsigned byte `i` of a symbolic word
    fn byte_of(&mut self, st: &mut State, v: &SymV, i: u8) -> Lin {
        if v.tab.is_some() {
            self.tab_split = true;
        }
        if v.bytes == 1 {
            return self.norm_u(st, &v.lin, 8);
        }
        let u = self.norm_u(st, &v.lin, v.bytes as u32 * 8);
        let pb = st.pb.clone();
        let hi = self.ctx.div(&u, &Int::pow2(8 * i as u32), &pb);
        if i + 1 == v.bytes {
            return hi;
        }
        let q = self.ctx.div(&hi, &Int::S(256), &pb);
        hi.add_mul(&q, &Int::S(-256))
    }
    /// make room for a write to [off, off+n): split symbolic words that straddle the range
    fn clear_range(&mut self, st: &mut State, base: u64, off: u64, n: u64) {
        let lo = off.saturating_sub(16);
        let over: Vec<(u64, (u8, Rc<SymV>))> = {
            let o = self.obj_mut(st, base);
            if o.sym.is_empty() {
                return;
            }
            o.sym.range(lo..off + n).filter(|(s, (l, _))| **s + *l as u64 > off).map(|(s, x)| (*s, x.clone())).collect()
        };
        for (s, (l, v)) in over {
            let mut keep = vec![];
            for i in 0..l as u64 {
                if s + i < off || s + i >= off + n {
                    let b = self.byte_of(st, &v, i as u8);
                    keep.push((s + i, b));
                }
            }
            let o = self.obj_mut(st, base);
            o.sym.remove(&s);
            for (p, b) in keep {
                if b.is_const() {
                    o.data[p as usize] = b.k.to_u128().unwrap_or(0) as u8;
                    o.st[p as usize] = 1;
                } else {
                    o.sym.insert(p, (1, Rc::new(SymV { bytes: 1, lin: Rc::new(b), tab: None })));
                    o.st[p as usize] = 2;
                }
            }
        }
    }
    fn cells(o: &Obj, off: u64, n: u64) -> Vec<Cell> {
        (off..off + n).map(|i| o.cell(i)).collect()
    }
    fn write_cells(&mut self, st: &mut State, base: u64, off: u64, cells: &[Cell]) {
        let n = cells.len() as u64;
        self.clear_range(st, base, off, n);
        let mut i = 0usize;
        while i < cells.len() {
            let p = off + i as u64;
            match &cells[i] {
                Cell::U => {
                    self.obj_mut(st, base).st[p as usize] = 0;
                    i += 1;
                }
                Cell::C(b) => {
                    let o = self.obj_mut(st, base);
                    o.data[p as usize] = *b;
                    o.st[p as usize] = 1;
                    i += 1;
                }
                Cell::S(v, k) => {
                    // whole word?
                    let l = v.bytes as usize;
                    let whole = *k == 0
                        && i + l <= cells.len()
                        && (1..l).all(|j| matches!(&cells[i + j], Cell::S(w, kk) if Rc::ptr_eq(w, v) && *kk as usize == j));
                    if whole {
                        let o = self.obj_mut(st, base);
                        o.sym.insert(p, (l as u8, v.clone()));
                        for j in 0..l {
                            o.st[p as usize + j] = 2;
                        }
                        i += l;
                    } else {
                        let b = self.byte_of(st, v, *k);
                        let o = self.obj_mut(st, base);
                        if b.is_const() {
                            o.data[p as usize] = b.k.to_u128().unwrap_or(0) as u8;
                            o.st[p as usize] = 1;
                        } else {
                            o.sym.insert(p, (1, Rc::new(SymV { bytes: 1, lin: Rc::new(b), tab: None })));
                            o.st[p as usize] = 2;
                        }
                        i += 1;
                    }
                }
            }
        }
    }
    /// reads `n` bytes of a constant table at a symbolic index, when every byte is a simple
    /// arithmetic function of the index
    fn show_lin(&self, l: &Lin) -> String {
        let mut s = format!("{:?}", l.k);
        for (a, c) in &l.t {
            s += &format!(" + {:?}*a{} [{:?}]", c, a, self.ctx.atoms[*a as usize]);
        }
        s
    }
    fn table_load(&mut self, st: &mut State, p: &Val, n: u64, al: u64) -> R<Option<Lin>> {
        if n == 0 || n > 8 {
            return Ok(None);
        }
        let l = self.lin(st, p, 64)?;
        let u = self.norm_u(st, &l, 64);
        if u.is_const() {
            return Ok(None);
        }
        let mut g = Int::ZERO;
        for (_, c) in &u.t {
            g = g.gcd(c);
        }
        let g64 = match g.to_u128() {
            Some(x) if x > 0 && x < 1 << 20 => x as u64,
            _ => return Ok(None),
        };
        let base = match u.k.to_u128() {
            Some(x) if x < 1 << 62 => x as u64,
            _ => return Ok(None),
        };
        if base % al != 0 || g64 % al != 0 {
            return Ok(None);
        }
        let x = Lin { t: u.t.iter().map(|(a, c)| (*a, c.fdiv(&g))).collect(), k: Int::ZERO };
        let (mut lo, mut hi) = self.ctx.bounds(&x, &st.pb);
        // the interval is loose when the form is a remainder in disguise
        if lo < Int::ZERO || hi > Int::S(199) {
            for h in [99, 199, 999] {
                let c = self.ctx.le0(&x.addk(&Int::S(-h)));
                if self.valid(st, c) {
                    hi = hi.min_(&Int::S(h));
                    break;
                }
            }
            if lo < Int::ZERO {
                let c = self.ctx.le0(&x.neg());
                if self.valid(st, c) {
                    lo = Int::ZERO;
                }
            }
        }
        let (lo, hi) = match (lo.to_i128(), hi.to_i128()) {
            (Some(a), Some(b)) if b - a >= 8 && b - a < 4096 && a > -(1 << 40) && b < 1 << 40 => (a, b),
            _ => {
                if self.trace {
                    eprintln!("table index {:?} {:?}..{:?}: {}", n, lo, hi, self.show_lin(&x));
                }
                return Ok(None);
            }
        };
        let a0 = (base as i128 + g64 as i128 * lo) as u64;
        let a1 = (base as i128 + g64 as i128 * hi) as u64;
        let (b, o) = match self.find(st, a0, n, "load") {
            Ok(r) => r,
            Err(_) => return Ok(None),
        };
        if o.kind != ObjKind::Const || a1 + n > b + o.size {
            return Ok(None);
        }
        let pb = st.pb.clone();
        let mut r = Lin::c(Int::ZERO);
        for j in 0..n {
            let mut t = vec![];
            for i in lo..=hi {
                let off = (base as i128 + g64 as i128 * i) as u64 + j - b;
                if o.st[off as usize] != 1 {
                    return Ok(None);
                }
                t.push(o.data[off as usize] as i128);
            }
            let fit = |p: i128, md: bool| -> Option<(i128, i128)> {
                let f = |x: i128| if md { x.rem_euclid(p) } else { x.div_euclid(p) };
                let k = (1..t.len()).find(|k| f(lo + *k as i128) != f(lo))?;
                let (f0, f1) = (f(lo), f(lo + k as i128));
                if (t[k] - t[0]) % (f1 - f0) != 0 {
                    return None;
                }
                let a = (t[k] - t[0]) / (f1 - f0);
                let c = t[0] - a * f0;
                if t.iter().enumerate().all(|(i, v)| *v == a * f(lo + i as i128) + c) {
                    Some((a, c))
                } else {
                    None
                }
            };
            let sh = Int::pow2(8 * j as u32);
            let e = if t.iter().all(|v| *v == t[0]) {
                Some(Lin::c(Int::S(t[0])))
            } else if let Some((a, c)) = fit(1, false) {
                Some(x.scale(&Int::S(a)).addk(&Int::S(c)))
            } else {
                let mut e = None;
                for p in 2..=100.min(hi - lo + 1) {
                    if let Some((a, c)) = fit(p, false) {
                        e = Some(self.ctx.div(&x, &Int::S(p), &pb).scale(&Int::S(a)).addk(&Int::S(c)));
                        break;
                    }
                    if let Some((a, c)) = fit(p, true) {
                        let q = self.ctx.div(&x, &Int::S(p), &pb);
                        e = Some(x.add_mul(&q, &Int::S(-p)).scale(&Int::S(a)).addk(&Int::S(c)));
                        break;
                    }
                }
                e
            };
            match e {
                Some(e) => r = r.add_mul(&e, &sh),
                None => return Ok(None),
            }
        }
        Ok(Some(r))
    }
    fn load(&mut self, st: &mut State, addr: u64, t: &VT, size: u64) -> R<Val> {
        let (b, mut o) = self.find(st, addr, size, "load")?;
        let off = addr - b;
        if HAS_TABS.load(Ordering::Relaxed) && !o.sym.is_empty() && !matches!(t, VT::A(_)) {
            // a part of a tabulated number: settle the number
            let part: Vec<(u64, u8, Rc<Tab>)> = o
                .sym
                .range(off.saturating_sub(16)..off + size)
                .filter(|(s, (l, v))| v.tab.is_some() && **s + *l as u64 > off && !(**s == off && *l as u64 == size))
                .map(|(s, (l, v))| (*s, *l, v.tab.clone().unwrap()))
                .collect();
            if !part.is_empty() {
                for (s, l, t) in part {
                    let x = self.tab_resolve(st, &t)?;
                    self.store_at(st, b, s, &VT::I(l as u32 * 8), &Val::C(x))?;
                }
                o = self.find(st, addr, size, "load")?.1;
            }
        }
        Ok(self.load_from(&o, off, t))
    }
    fn load_from(&mut self, o: &Rc<Obj>, off: u64, t: &VT) -> Val {
        match t {
            VT::A(f) => Val::A(Rc::new(f.iter().map(|(fo, ft)| self.load_from(o, off + fo, ft)).collect())),
            VT::Void => Val::U,
            _ => {
                let w = t.bits();
                let n = ((w + 7) / 8) as u64;
                let r = &o.st[off as usize..(off + n) as usize];
                if r.iter().all(|x| *x == 1) {
                    let mut v = 0u128;
                    for i in (0..n).rev() {
                        v = (v << 8) | o.data[(off + i) as usize] as u128;
                    }
                    return Val::C(mask(v, w));
                }
                if r.iter().all(|x| *x == 0) {
                    return Val::U;
                }
                if r[0] == 2 {
                    if let Some((l, v)) = o.sym.get(&off) {
                        if *l as u64 == n {
                            if let Some(t) = &v.tab {
                                return Val::T(t.clone());
                            }
                            return Val::L(v.lin.clone());
                        }
                    }
                }
                Val::Mix(Rc::new(Self::cells(o, off, n)))
            }
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &VT, size: u64, v: &Val) -> R<()> {
        let (b, o) = self.find(st, addr, size, "store")?;
        if o.kind == ObjKind::Const && size > 0 {
            return ub("store to constant memory");
        }
        drop(o);
        self.store_at(st, b, addr - b, t, v)
    }
    fn store_at(&mut self, st: &mut State, base: u64, off: u64, t: &VT, v: &Val) -> R<()> {
        match t {
            VT::A(f) => {
                match v {
                    Val::A(x) => {
                        for (i, (fo, ft)) in f.iter().enumerate() {
                            self.store_at(st, base, off + fo, ft, &x[i])?;
                        }
                    }
                    Val::U => {
                        for (fo, ft) in f.iter() {
                            self.store_at(st, base, off + fo, ft, &Val::U)?;
                        }
                    }
                    _ => return unsup("store agg"),
                }
                Ok(())
            }
            VT::Void => Ok(()),
            _ => {
                let w = t.bits();
                let n = ((w + 7) / 8) as u64;
                match v {
                    Val::C(x) => {
                        self.clear_range(st, base, off, n);
                        let o = self.obj_mut(st, base);
                        for i in 0..n {
                            o.data[(off + i) as usize] = (x >> (8 * i)) as u8;
                            o.st[(off + i) as usize] = 1;
                        }
                    }
                    Val::U => {
                        self.clear_range(st, base, off, n);
                        let o = self.obj_mut(st, base);
                        for i in 0..n {
                            o.st[(off + i) as usize] = 0;
                        }
                    }
                    Val::Mix(c) => {
                        let c = c.clone();
                        self.write_cells(st, base, off, &c);
                    }
                    Val::L(_) | Val::B(_) => {
                        let l = self.lin(st, v, w)?;
                        let l = if w % 8 != 0 { self.norm_u(st, &l, w) } else { l };
                        self.clear_range(st, base, off, n);
                        let o = self.obj_mut(st, base);
                        o.sym.insert(off, (n as u8, Rc::new(SymV { bytes: n as u8, lin: Rc::new(l), tab: None })));
                        for i in 0..n {
                            o.st[(off + i) as usize] = 2;
                        }
                    }
                    Val::A(_) => return unsup("store scalar agg"),
                    Val::T(tb) => {
                        let tb = tb.clone();
                        self.clear_range(st, base, off, n);
                        HAS_TABS.store(true, Ordering::Relaxed);
                        let o = self.obj_mut(st, base);
                        o.sym.insert(off, (n as u8, Rc::new(SymV { bytes: n as u8, lin: Rc::new(Lin::c(Int::ZERO)), tab: Some(tb) })));
                        for i in 0..n {
                            o.st[(off + i) as usize] = 2;
                        }
                    }
                }
                Ok(())
            }
        }
    }

    // ------------------------------------------------------------ path condition
    fn slice(&mut self, st: &State, b: B) -> Vec<B> {
        let mut vars: HashSet<Atom> = self.ctx.bool_vars(b).iter().copied().collect();
        let mut out = vec![b];
        let mut taken = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let vs = self.ctx.bool_vars(*c);
                if vs.iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    out.push(*c);
                    for v in vs.iter() {
                        if vars.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    fn merge(&self, st: &State, m: &Rc<Model>) -> Option<Rc<Model>> {
        let mut r = match &st.model {
            Some(x) => (**x).clone(),
            None => Model::new(),
        };
        for (k, v) in m.iter() {
            r.insert(*k, v.clone());
        }
        // without a model of the rest we may not combine slices
        if st.model.is_none() {
            let mut memo = HashMap::new();
            for c in &st.pc {
                if self.ctx.evalb(*c, &r, &mut memo) != Some(true) {
                    return None;
                }
            }
        }
        Some(Rc::new(r))
    }
    /// can pc /\ b hold?  (true also when undecided)
    fn feasible(&mut self, st: &State, b: B) -> (bool, Option<Rc<Model>>) {
        if let Some(t) = self.ctx.truth(b, &st.pb) {
            return (t, if t { st.model.clone() } else { None });
        }
        if let Some(m) = &st.model {
            let mut memo = HashMap::new();
            if self.ctx.evalb(b, m, &mut memo) == Some(true) {
                return (true, Some(m.clone()));
            }
        }
        let cs = self.slice(st, b);
        match self.solver.check(&self.ctx, &cs, &st.pb, false) {
            Res::Unsat => (false, None),
            Res::Sat(m) => {
                let mm = self.merge(st, &m);
                (true, mm)
            }
            Res::Maybe | Res::Unknown => (true, None),
        }
    }
    fn assume(&mut self, st: &mut State, b: B, model: Option<Rc<Model>>) -> R<()> {
        if b == TRUE {
            return Ok(());
        }
        st.pc.push(b);
        let mut pb = (*st.pb).clone();
        if !self.ctx.propagate(b, &mut pb, 0) {
            return Err(Stop::Infeasible);
        }
        st.pb = Rc::new(pb);
        st.model = model;
        Ok(())
    }
    fn snap_restore(&self, st: &State) -> State {
        let mut s = st.clone();
        if let Some((pcl, pb, model, tl, rp)) = s.snap.take() {
            s.pc.truncate(pcl);
            s.pb = pb;
            s.model = model;
            let _ = rp;
            s.trace.truncate(tl);
        }
        s
    }
    /// hand the alternative decision `d` at the current point to someone
    fn fork(&mut self, st: &State, d: Dec) {
        self.cur.forks += 1;
        if self.pool.qlen.load(Ordering::Relaxed) < self.pool.nthreads * 2 {
            let mut t = st.trace.clone();
            t.push(d);
            self.push_task(t);
        } else {
            let tl = st.snap.as_ref().map(|s| s.3).unwrap_or(st.trace.len());
            let mut rep: Vec<Dec> = st.trace[tl..].to_vec();
            rep.push(d);
            let mut s = self.snap_restore(st);
            s.replay = Rc::new(rep);
            s.rpos = 0;
            self.local.push(s);
        }
    }
    fn push_task(&mut self, t: Vec<Dec>) {
        let mut q = self.pool.queue.lock().unwrap();
        q.push((self.entry, t));
        self.pool.qlen.store(q.len(), Ordering::Relaxed);
    }
    fn next_replay(&self, st: &mut State) -> Option<Dec> {
        if st.rpos < st.replay.len() {
            let d = st.replay[st.rpos].clone();
            st.rpos += 1;
            Some(d)
        } else {
            None
        }
    }
    /// decide a symbolic condition, forking if both outcomes are possible
    fn decide(&mut self, st: &mut State, b: B) -> R<bool> {
        if let Some(t) = self.ctx.truth(b, &st.pb) {
            return Ok(t);
        }
        let nb = self.ctx.not(b);
        if let Some(d) = self.next_replay(st) {
            let v = match d {
                Dec::Bool(v) => v,
                d => return unsup(format!("replay mismatch {:?}", d)),
            };
            let f = if v { b } else { nb };
            let m = match &st.model {
                Some(m) => {
                    let mut memo = HashMap::new();
                    if self.ctx.evalb(f, m, &mut memo) == Some(true) {
                        Some(m.clone())
                    } else {
                        None
                    }
                }
                None => None,
            };
            st.trace.push(Dec::Bool(v));
            self.assume(st, f, m)?;
            return Ok(v);
        }
        let (ft, mt) = self.feasible(st, b);
        let (ff, mf) = if !ft { (true, None) } else { self.feasible(st, nb) };
        let (v, m) = match (ft, ff) {
            (true, true) => {
                // prefer a side with a known model
                let v = mt.is_some() || mf.is_none();
                self.fork(st, Dec::Bool(!v));
                (v, if v { mt } else { mf })
            }
            (true, false) => (true, mt),
            (false, _) => {
                let (f2, m2) = self.feasible(st, nb);
                if !f2 {
                    return Err(Stop::Infeasible);
                }
                (false, m2)
            }
        };
        st.trace.push(Dec::Bool(v));
        let f = if v { b } else { nb };
        self.assume(st, f, m)?;
        Ok(v)
    }
    /// is `b` implied by the path condition?
    fn valid(&mut self, st: &State, b: B) -> bool {
        if let Some(t) = self.ctx.truth(b, &st.pb) {
            return t;
        }
        let nb = self.ctx.not(b);
        !self.feasible(st, nb).0
    }
    fn get_model(&mut self, st: &mut State) -> R<Rc<Model>> {
        if let Some(m) = &st.model {
            return Ok(m.clone());
        }
        if self.trace {
            eprintln!("model wanted in {:?}", self.stack(st));
        }
        match self.solver.check(&self.ctx, &st.pc.clone(), &st.pb, true) {
            Res::Unsat => Err(Stop::Infeasible),
            Res::Sat(m) => {
                st.model = Some(m.clone());
                Ok(m)
            }
            _ => unsup("no model for the path condition (solver gave up)"),
        }
    }
    /// fork over the possible values of a term
    fn concretize(&mut self, st: &mut State, l: &Lin) -> R<Int> {
        if l.is_const() {
            return Ok(l.k.clone());
        }
        let (lo, hi) = self.ctx.bounds(l, &st.pb);
        if lo == hi {
            return Ok(lo);
        }
        let mut n = 0;
        loop {
            let (lo, hi) = self.ctx.bounds(l, &st.pb);
            if lo == hi {
                return Ok(lo);
            }
            n += 1;
            if self.trace && n == 1 {
                let fr = st.frames.last().unwrap();
                eprintln!("concretize {} at {} pc {} in {}", self.show_lin(l), st.steps, fr.pc, self.m.funcs[fr.f.idx as usize].name);
            }
            if n > 5000 {
                return unsup("concretisation of a term with > 5000 values");
            }
            match self.next_replay(st) {
                Some(Dec::Is(v)) => {
                    let e = self.ctx.eq(l, &Lin::c(Int::S(v)));
                    st.trace.push(Dec::Is(v));
                    self.assume(st, e, None)?;
                    return Ok(Int::S(v));
                }
                Some(Dec::Not(v)) => {
                    let e = self.ctx.eq(l, &Lin::c(Int::S(v)));
                    let ne = self.ctx.not(e);
                    st.trace.push(Dec::Not(v));
                    self.assume(st, ne, None)?;
                    continue;
                }
                Some(d) => return unsup(format!("replay mismatch {:?}", d)),
                None => {}
            }
            let m = self.get_model(st)?;
            let mut memo = HashMap::new();
            let v = match self.ctx.eval(l, &m, &mut memo) {
                Some(v) => v,
                None => return unsup("eval"),
            };
            let vi = match v.to_i128() {
                Some(x) => x,
                None => return unsup("huge concretisation"),
            };
            let e = self.ctx.eq(l, &Lin::c(v.clone()));
            let ne = self.ctx.not(e);
            let (f, _) = self.feasible(st, ne);
            if f {
                self.fork(st, Dec::Not(vi));
            }
            st.trace.push(Dec::Is(vi));
            self.assume(st, e, Some(m))?;
            return Ok(v);
        }
    }

    // ------------------------------------------------------------ machine words
    fn norm_u(&mut self, st: &State, l: &Lin, w: u32) -> Lin {
        let big = Int::pow2(w);
        if l.is_const() {
            return Lin::c(l.k.fmod(&big));
        }
        let (lo, hi) = self.ctx.bounds(l, &st.pb);
        let (a, b) = (lo.fdiv(&big), hi.fdiv(&big));
        if a == b {
            return if a.is_zero() { l.clone() } else { l.addk(&a.mul(&big).neg()) };
        }
        // Ask the solver whether it always lies in one window. The outcome must not depend on
        // whether a model is at hand (replays must rebuild the same terms): a model only tells
        // which of the candidate windows can be the valid one.
        let only = match &st.model {
            Some(m) => {
                let mut memo = HashMap::new();
                self.ctx.eval(l, m, &mut memo).map(|v| v.fdiv(&big))
            }
            None => None,
        };
        let mut tried: Vec<Int> = vec![];
        for k in [Int::ZERO, a.clone(), b.clone()] {
            if k < a || k > b || tried.contains(&k) {
                continue;
            }
            tried.push(k.clone());
            if let Some(o) = &only {
                if *o != k {
                    continue;
                }
            }
            let base = l.addk(&k.mul(&big).neg());
            let c1 = self.ctx.le0(&base.neg());
            let c2 = self.ctx.lt(&base, &Lin::c(big.clone()));
            let both = self.ctx.and(&[c1, c2]);
            if self.valid(st, both) {
                return base;
            }
        }
        if b.sub(&a).is_one() {
            let thr = b.mul(&big);
            let ge = self.ctx.le(&Lin::c(thr), l);
            let bi = self.ctx.b2i(ge);
            return l.addk(&a.mul(&big).neg()).add_mul(&bi, &big.neg());
        }
        let pb = st.pb.clone();
        let q = self.ctx.div(l, &big, &pb);
        l.add_mul(&q, &big.neg())
    }
    fn norm_s(&mut self, st: &State, l: &Lin, w: u32) -> Lin {
        let half = Int::pow2(w - 1);
        let u = self.norm_u(st, &l.addk(&half), w);
        u.addk(&half.neg())
    }
    fn mk(&mut self, l: Lin, w: u32) -> Val {
        let big = Int::pow2(w);
        if l.is_const() {
            return Val::C(l.k.fmod(&big).to_u128().unwrap());
        }
        let mut l = l;
        let half = Int::pow2(w - 1);
        let mut drop0 = false;
        for (_, c) in l.t.iter_mut() {
            if *c >= big || *c <= big.neg() {
                let mut r = c.fmod(&big);
                if r >= half {
                    r = r.sub(&big);
                }
                *c = r;
                drop0 |= c.is_zero();
            }
        }
        if drop0 {
            l.t.retain(|x| !x.1.is_zero());
        }
        if l.k >= big || l.k <= big.neg() {
            let mut r = l.k.fmod(&big);
            if r >= half {
                r = r.sub(&big);
            }
            l.k = r;
        }
        if l.is_const() {
            return Val::C(l.k.fmod(&big).to_u128().unwrap());
        }
        Val::L(Rc::new(l))
    }
    /// the bytes of a defined word
    fn to_cells(&mut self, st: &mut State, v: &Val, w: u32) -> R<Val> {
        let l = self.lin(st, v, w)?;
        let u = self.norm_u(st, &l, w);
        let hi = self.ctx.bounds(&u, &st.pb).1;
        let sv = Rc::new(SymV { bytes: (w / 8) as u8, lin: Rc::new(u), tab: None });
        Ok(Val::Mix(Rc::new(
            (0..(w / 8) as u8)
                .map(|i| if hi < Int::pow2(8 * i as u32) { Cell::C(0) } else { Cell::S(sv.clone(), i) })
                .collect(),
        )))
    }
    /// some representative of the residue
    fn lin(&mut self, st: &mut State, v: &Val, w: u32) -> R<Lin> {
        Ok(match v {
            Val::C(x) => Lin::c(Int::from_u128(*x)),
            Val::L(l) => (**l).clone(),
            Val::B(b) => self.ctx.b2i(*b),
            Val::Mix(c) => {
                let c = c.clone();
                let mut r = Lin::c(Int::ZERO);
                let mut i = 0;
                while i < c.len() {
                    match &c[i] {
                        Cell::U => return ub("use of uninitialised memory"),
                        Cell::C(b) => {
                            r.k = r.k.add(&Int::S(*b as i128).mul(&Int::pow2(8 * i as u32)));
                            i += 1;
                        }
                        Cell::S(v, k) if v.tab.is_some() => {
                            let x = self.tab_resolve(st, &v.tab.clone().unwrap())?;
                            r.k = r.k.add(&Int::S((x >> (8 * *k) & 255) as i128).mul(&Int::pow2(8 * i as u32)));
                            i += 1;
                        }
                        Cell::S(v, k) => {
                            let l = v.bytes as usize;
                            let whole = *k == 0
                                && i + l <= c.len()
                                && (1..l).all(|j| matches!(&c[i + j], Cell::S(x, kk) if Rc::ptr_eq(x, v) && *kk as usize == j));
                            if whole {
                                // top part may keep any representative
                                let part = if i + l == c.len() { (*v.lin).clone() } else { self.norm_u(st, &v.lin, 8 * l as u32) };
                                r = r.add_mul(&part, &Int::pow2(8 * i as u32));
                                i += l;
                            } else {
                                let v = v.clone();
                                // maximal run of consecutive bytes of the same word
                                let k0 = *k as usize;
                                let mut n = 1;
                                while i + n < c.len() && matches!(&c[i + n], Cell::S(x, kk) if Rc::ptr_eq(x, &v) && *kk as usize == k0 + n) {
                                    n += 1;
                                }
                                let u = self.norm_u(st, &v.lin, 8 * v.bytes as u32);
                                let pb = st.pb.clone();
                                let mut h = self.ctx.div(&u, &Int::pow2(8 * k0 as u32), &pb);
                                if k0 + n < v.bytes as usize {
                                    let m = Int::pow2(8 * n as u32);
                                    let q = self.ctx.div(&h, &m, &pb);
                                    h = h.add_mul(&q, &m.neg());
                                }
                                r = r.add_mul(&h, &Int::pow2(8 * i as u32));
                                i += n;
                            }
                        }
                    }
                }
                let _ = w;
                r
            }
            Val::U => return ub("use of an undefined value"),
            Val::A(_) => return unsup("aggregate used as scalar"),
            Val::T(t) => {
                let t = t.clone();
                Lin::c(Int::from_u128(self.tab_resolve(st, &t)?))
            }
        })
    }
    /// value of a tabulated function on this path (forks where it changes)
    fn tab_resolve(&mut self, st: &mut State, t: &Tab) -> R<u128> {
        let (lo, hi) = self.ctx.bounds(&t.lin, &st.pb);
        let a = lo.to_i128().unwrap_or(t.lo).max(t.lo);
        let b = hi.to_i128().unwrap_or(i128::MAX).min(t.lo + t.vals.len() as i128 - 1);
        let at = |i: i128| t.vals[(i - t.lo) as usize];
        // values of the variable that the path leaves open
        let mut dom: Vec<i128> = (a..=b).collect();
        if let (1, true) = (t.lin.t.len(), t.lin.k.is_zero()) {
            let v = t.lin.t[0].0;
            if t.lin.t[0].1.is_one() && dom.iter().any(|i| at(*i) != at(a)) {
                let cs: Vec<B> = st.pc.iter().copied().filter(|c| {
                    let vs = self.ctx.bool_vars(*c);
                    vs.len() == 1 && vs[0] == v
                }).collect();
                let mut m = Model::new();
                let ctx = &self.ctx;
                dom.retain(|i| {
                    m.insert(v, Int::S(*i));
                    let mut memo = HashMap::new();
                    cs.iter().all(|c| ctx.evalb(*c, &m, &mut memo) != Some(false))
                });
                if dom.is_empty() {
                    return Err(Stop::Infeasible);
                }
            }
        }
        let b = dom[dom.len() - 1];
        let mut runs = vec![];
        for (k, i) in dom.iter().enumerate() {
            if k + 1 == dom.len() || at(*i) != at(dom[k + 1]) {
                runs.push(*i);
            }
        }
        if runs.len() > 64 {
            let v = self.concretize(st, &t.lin.clone())?;
            return Ok(at(v.to_i128().unwrap()));
        }
        for (k, e) in runs.iter().enumerate() {
            if k + 1 == runs.len() {
                break;
            }
            let c = self.ctx.le(&t.lin, &Lin::c(Int::S(*e)));
            if self.decide(st, c)? {
                return Ok(at(*e));
            }
        }
        Ok(at(b))
    }
    /// f applied to tabulated / constant arguments; None when not applicable
    fn tab_map(&mut self, st: &mut State, a: &[&Val], f: &mut dyn FnMut(&mut Self, &mut State, &[Val]) -> R<Val>) -> R<Option<Val>> {
        let mut base: Option<Rc<Tab>> = None;
        for x in a {
            match x {
                Val::T(t) => match &base {
                    None => base = Some(t.clone()),
                    Some(b) => {
                        if b.lin != t.lin {
                            return Ok(None);
                        }
                        // the tables may have been made at different points of the path
                        let lo = b.lo.max(t.lo);
                        let hi = (b.lo + b.vals.len() as i128).min(t.lo + t.vals.len() as i128);
                        if lo >= hi {
                            return Err(Stop::Infeasible);
                        }
                        if lo != b.lo || hi != b.lo + b.vals.len() as i128 {
                            let vals = b.vals[(lo - b.lo) as usize..(hi - b.lo) as usize].to_vec();
                            base = Some(Rc::new(Tab { lin: b.lin.clone(), lo, vals }));
                        }
                    }
                },
                Val::C(_) => {}
                _ => return Ok(None),
            }
        }
        let b = match base {
            Some(b) => b,
            None => return Ok(None),
        };
        let mut vals = vec![];
        for i in 0..b.vals.len() {
            let args: Vec<Val> = a
                .iter()
                .map(|x| match x {
                    Val::T(t) => Val::C(t.vals[(b.lo - t.lo) as usize + i]),
                    x => (*x).clone(),
                })
                .collect();
            match f(self, st, &args)? {
                Val::C(x) => vals.push(x),
                _ => return Ok(None),
            }
        }
        Ok(Some(Val::T(Rc::new(Tab { lin: b.lin.clone(), lo: b.lo, vals }))))
    }
    fn boolv(&mut self, st: &mut State, v: &Val) -> R<B> {
        Ok(match v {
            Val::C(x) => (*x & 1) as B,
            Val::B(b) => *b,
            v => {
                let l = self.lin(st, v, 1)?;
                let u = self.norm_u(st, &l, 1);
                self.ctx.eq(&u, &Lin::c(Int::ONE))
            }
        })
    }
    fn bv(&self, b: B) -> Val {
        match b {
            TRUE => Val::C(1),
            FALSE => Val::C(0),
            b => Val::B(b),
        }
    }
    fn addr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        self.conc(st, v, 64).map(|x| x as u64)
    }
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::C(x) => Ok(*x),
            v => {
                let l = self.lin(st, v, w)?;
                let l = self.norm_u(st, &l, w);
                let r = self.concretize(st, &l)?;
                Ok(r.to_u128().unwrap_or(0))
            }
        }
    }
    fn and_mask(&mut self, st: &mut State, u: &Lin, m: u128, w: u32) -> Lin {
        // u normalised unsigned
        let m = mask(m, w);
        let pb = st.pb.clone();
        let mut r = Lin::c(Int::ZERO);
        let mut i = 0;
        while i < w {
            if (m >> i) & 1 == 1 {
                let mut j = i;
                while j < w && (m >> j) & 1 == 1 {
                    j += 1;
                }
                let h = self.ctx.div(u, &Int::pow2(i), &pb);
                let f = if j >= w {
                    h
                } else {
                    let p = Int::pow2(j - i);
                    let q = self.ctx.div(&h, &p, &pb);
                    h.add_mul(&q, &p.neg())
                };
                r = r.add_mul(&f, &Int::pow2(i));
                i = j;
            } else {
                i += 1;
            }
        }
        r
    }
    fn pow2_factor(l: &Lin, w: u32) -> u32 {
        let mut g = Int::pow2(w);
        for (_, c) in &l.t {
            g = g.gcd(c);
        }
        g = g.gcd(&l.k);
        let mut k = 0;
        while k < w && g.fmod(&Int::pow2(k + 1)).is_zero() {
            k += 1;
        }
        k
    }
    fn bitop(&mut self, st: &mut State, op: BinOp, a: &Val, b: &Val, w: u32) -> R<Val> {
        if w == 1 {
            let x = self.boolv(st, a)?;
            let y = self.boolv(st, b)?;
            let r = match op {
                BinOp::And => self.ctx.and(&[x, y]),
                BinOp::Or => self.ctx.or(&[x, y]),
                _ => {
                    let nx = self.ctx.not(x);
                    let ny = self.ctx.not(y);
                    let p = self.ctx.and(&[x, ny]);
                    let q = self.ctx.and(&[nx, y]);
                    self.ctx.or(&[p, q])
                }
            };
            return Ok(self.bv(r));
        }
        // byte-granular or/and on partially defined words
        let (a, b) = if matches!(a, Val::C(_)) { (b, a) } else { (a, b) };
        if let (Val::Mix(c), Val::C(m)) = (a, b) {
            if c.iter().any(|x| matches!(x, Cell::U)) && op != BinOp::Xor {
                let mut out = vec![];
                for (i, x) in c.iter().enumerate() {
                    let mb = (m >> (8 * i)) as u8;
                    out.push(match (op, mb) {
                        (BinOp::And, 0) => Cell::C(0),
                        (BinOp::And, 255) => x.clone(),
                        (BinOp::Or, 0) => x.clone(),
                        (BinOp::Or, 255) => Cell::C(255),
                        (BinOp::And, _) if matches!(x, Cell::C(_)) => match x {
                            Cell::C(v) => Cell::C(v & mb),
                            _ => unreachable!(),
                        },
                        (_, _) if !matches!(x, Cell::U) => {
                            // one byte of a symbolic word
                            let l = self.lin(st, &Val::Mix(Rc::new(vec![x.clone()])), 8)?;
                            let v = self.mk(l, 8);
                            let v = self.bitop(st, op, &v, &Val::C(mb as u128), 8)?;
                            match v {
                                Val::C(v) => Cell::C(v as u8),
                                v => {
                                    let l = self.lin(st, &v, 8)?;
                                    Cell::S(Rc::new(SymV { bytes: 1, lin: Rc::new(l), tab: None }), 0)
                                }
                            }
                        }
                        _ => Cell::U,
                    });
                }
                return Ok(Val::Mix(Rc::new(out)));
            }
        }
        let conv;
        let (a, b) = if op == BinOp::Or && has_u(a) && matches!(b, Val::L(_) | Val::B(_)) {
            conv = self.to_cells(st, b, w)?;
            (a, &conv)
        } else if op == BinOp::Or && has_u(b) && matches!(a, Val::L(_) | Val::B(_)) {
            conv = self.to_cells(st, a, w)?;
            (b, &conv)
        } else {
            (a, b)
        };
        if let (Val::Mix(c), Val::Mix(d)) = (a, b) {
            if op == BinOp::Or && (c.iter().any(|x| matches!(x, Cell::U)) || d.iter().any(|x| matches!(x, Cell::U))) {
                let mut out = vec![];
                for (x, y) in c.iter().zip(d.iter()) {
                    out.push(match (x, y) {
                        (Cell::C(0), y) => y.clone(),
                        (x, Cell::C(0)) => x.clone(),
                        (Cell::C(x), Cell::C(y)) => Cell::C(x | y),
                        (Cell::C(255), _) | (_, Cell::C(255)) => Cell::C(255),
                        (Cell::U, _) | (_, Cell::U) => Cell::U,
                        _ => return unsup("or of two symbolic bytes of partially defined words"),
                    });
                }
                return Ok(Val::Mix(Rc::new(out)));
            }
        }
        let la = self.lin(st, a, w)?;
        let lb = self.lin(st, b, w)?;
        let ua = self.norm_u(st, &la, w);
        if let Val::C(m) = b {
            let full = mask(u128::MAX, w);
            let r = match op {
                BinOp::And => self.and_mask(st, &ua, *m, w),
                BinOp::Or => {
                    // x | m = (x & ~m) + m
                    let x = self.and_mask(st, &ua, full & !*m, w);
                    x.addk(&Int::from_u128(*m))
                }
                _ => {
                    if *m == full {
                        la.neg().addk(&Int::S(-1))
                    } else {
                        let x = self.and_mask(st, &ua, *m, w);
                        ua.addk(&Int::from_u128(*m)).add_mul(&x, &Int::S(-2))
                    }
                }
            };
            return Ok(self.mk(r, w));
        }
        let ub_ = self.norm_u(st, &lb, w);
        if ua == ub_ {
            return Ok(match op {
                BinOp::Xor => Val::C(0),
                _ => self.mk(ua, w),
            });
        }
        let (al, ah) = self.ctx.bounds(&ua, &st.pb);
        let (bl, bh) = self.ctx.bounds(&ub_, &st.pb);
        let _ = (&al, &bl);
        if ah <= Int::ONE && bh <= Int::ONE {
            let x = self.ctx.eq(&ua, &Lin::c(Int::ONE));
            let y = self.ctx.eq(&ub_, &Lin::c(Int::ONE));
            let r = self.bitop(st, op, &Val::B(x), &Val::B(y), 1)?;
            let l = self.lin(st, &r, 1)?;
            return Ok(self.mk(l, w));
        }
        let fa = Self::pow2_factor(&ua, w);
        let fb = Self::pow2_factor(&ub_, w);
        if bh < Int::pow2(fa) || ah < Int::pow2(fb) {
            return Ok(match op {
                BinOp::And => Val::C(0),
                _ => self.mk(ua.add(&ub_), w),
            });
        }
        // sign masks: an operand that is 0 or all ones
        for (p, q) in [(&la, &lb), (&lb, &la)] {
            let s = self.norm_s(st, p, w);
            let (lo, hi) = self.ctx.bounds(&s, &st.pb);
            if lo >= Int::S(-1) && hi <= Int::ZERO {
                let z = self.ctx.eq0(&s);
                let isz = self.decide(st, z)?;
                return Ok(match (op, isz) {
                    (BinOp::And, true) => Val::C(0),
                    (BinOp::And, false) => self.mk(q.clone(), w),
                    (BinOp::Or, true) | (BinOp::Xor, true) => self.mk(q.clone(), w),
                    (BinOp::Or, false) => Val::C(mask(u128::MAX, w)),
                    _ => self.mk(q.neg().addk(&Int::S(-1)), w),
                });
            }
        }
        // general: bit by bit when the operands are small
        let n = {
            let mut n = 0;
            while n < w && (Int::pow2(n) <= ah || Int::pow2(n) <= bh) {
                n += 1;
            }
            n
        };
        if n <= 32 {
            let mut r = Lin::c(Int::ZERO);
            for i in 0..n {
                let x = self.and_mask(st, &ua, 1u128 << i, w);
                let y = self.and_mask(st, &ub_, 1u128 << i, w);
                let p = Int::pow2(i);
                let nb = {
                    let bx = self.ctx.eq(&x, &Lin::c(p.clone()));
                    let by = self.ctx.eq(&y, &Lin::c(p.clone()));
                    let v = self.bitop(st, op, &Val::B(bx), &Val::B(by), 1)?;
                    self.lin(st, &v, 1)?
                };
                r = r.add_mul(&nb, &p);
            }
            return Ok(self.mk(r, w));
        }
        unsup(format!("bit operation {:?} on two {}-bit symbolic words", op, w))
    }
    fn divrem(&mut self, st: &mut State, a: &Val, b: &Val, w: u32, signed: bool) -> R<(Lin, Lin)> {
        let la = self.lin(st, a, w)?;
        let lb = self.lin(st, b, w)?;
        let (la, lb) = if signed { (self.norm_s(st, &la, w), self.norm_s(st, &lb, w)) } else { (self.norm_u(st, &la, w), self.norm_u(st, &lb, w)) };
        let mut lb = lb;
        if !lb.is_const() {
            let z = self.ctx.eq0(&lb);
            if self.decide(st, z)? {
                return ub("division by zero");
            }
            let (lo, hi) = self.ctx.bounds(&lb, &st.pb);
            if hi.sub(&lo) <= Int::S(16) {
                lb = Lin::c(self.concretize(st, &lb)?);
            }
        } else if lb.k.is_zero() {
            return ub("division by zero");
        }
        // sign cases
        let nega = if signed {
            let p = self.ctx.lt(&la, &Lin::c(Int::ZERO));
            self.decide(st, p)?
        } else {
            false
        };
        let negb = if signed {
            let p = self.ctx.lt(&lb, &Lin::c(Int::ZERO));
            self.decide(st, p)?
        } else {
            false
        };
        let x = if nega { la.neg() } else { la.clone() };
        let y = if negb { lb.neg() } else { lb.clone() };
        let pb = st.pb.clone();
        let q = if y.is_const() {
            self.ctx.div(&x, &y.k, &pb)
        } else {
            // what defines the quotient, with the product as an atom of its own: 0 <= x - q y < y
            let q = self.ctx.div_sym(&x, &y);
            let rest = x.sub(&self.ctx.mul(&q, &y));
            let f = self.ctx.le0(&rest.neg());
            let g = self.ctx.lt(&rest, &y);
            for f in [f, g] {
                let m = st.model.clone();
                self.assume(st, f, m)?;
            }
            q
        };
        let q = if nega != negb { q.neg() } else { q };
        let qb = self.ctx.mul(&q, &lb);
        let r = la.sub(&qb);
        Ok((q, r))
    }
    fn binop(&mut self, st: &mut State, op: BinOp, t: &VT, a: &Val, b: &Val) -> R<Val> {
        if let VT::A(f) = t {
            let (x, y) = match (a, b) {
                (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                _ => return Ok(Val::A(Rc::new(f.iter().map(|_| Val::U).collect()))),
            };
            let mut r = vec![];
            for (i, (_, ft)) in f.iter().enumerate() {
                r.push(self.binop(st, op, ft, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        if matches!(a, Val::T(_)) || matches!(b, Val::T(_)) {
            if let Some(r) = self.tab_map(st, &[a, b], &mut |e, st, v| e.binop(st, op, t, &v[0], &v[1]))? {
                return Ok(r);
            }
            let x = self.conc(st, a, t.bits())?;
            let y = self.conc(st, b, t.bits())?;
            return self.binop(st, op, t, &Val::C(x), &Val::C(y));
        }
        let w = t.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let fl = |f: &dyn Fn(f64, f64) -> f64, g: &dyn Fn(f32, f32) -> f32| -> u128 {
                if w == 32 {
                    g(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u128
                } else {
                    f(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128
                }
            };
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return ub("division by zero");
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u128,
                        _ => sx(x, w).wrapping_rem(sx(y, w)) as u128,
                    }
                }
                BinOp::Shl => {
                    if y >= w as u128 {
                        return Ok(Val::U);
                    }
                    x << y
                }
                BinOp::LShr => {
                    if y >= w as u128 {
                        return Ok(Val::U);
                    }
                    x >> y
                }
                BinOp::AShr => {
                    if y >= w as u128 {
                        return Ok(Val::U);
                    }
                    (sx(x, w) >> y) as u128
                }
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::FAdd => fl(&|a, b| a + b, &|a, b| a + b),
                BinOp::FSub => fl(&|a, b| a - b, &|a, b| a - b),
                BinOp::FMul => fl(&|a, b| a * b, &|a, b| a * b),
                BinOp::FDiv => fl(&|a, b| a / b, &|a, b| a / b),
                BinOp::FRem => fl(&|a, b| a % b, &|a, b| a % b),
            };
            return Ok(Val::C(mask(r, w)));
        }
        let bytewise = matches!(op, BinOp::And | BinOp::Or | BinOp::Shl | BinOp::LShr);
        if matches!(a, Val::U) || matches!(b, Val::U) || (!bytewise && (has_u(a) || has_u(b))) {
            // poison/undef propagates; it is an error only when it is used to branch or address
            return Ok(match (op, a, b) {
                (BinOp::And, Val::C(0), _) | (BinOp::And, _, Val::C(0)) => Val::C(0),
                _ => Val::U,
            });
        }
        match op {
            BinOp::Add | BinOp::Sub | BinOp::Mul => {
                if w == 1 {
                    return self.bitop(st, if op == BinOp::Mul { BinOp::And } else { BinOp::Xor }, a, b, 1);
                }
                let x = self.lin_c(st, a, w)?;
                let y = self.lin_c(st, b, w)?;
                let r = match op {
                    BinOp::Add => x.add(&y),
                    BinOp::Sub => x.sub(&y),
                    _ => {
                        if self.trace && !x.is_const() && !y.is_const() {
                            eprintln!("product {} {:?} {:?} in {:?}", w, self.ctx.bounds(&x, &st.pb), self.ctx.bounds(&y, &st.pb), self.stack(st).iter().take(3).collect::<Vec<_>>());
                        }
                        self.ctx.mul(&x, &y)
                    }
                };
                Ok(self.mk(r, w))
            }
            BinOp::UDiv | BinOp::URem => {
                let (q, r) = self.divrem(st, a, b, w, false)?;
                Ok(self.mk(if op == BinOp::UDiv { q } else { r }, w))
            }
            BinOp::SDiv | BinOp::SRem => {
                let (q, r) = self.divrem(st, a, b, w, true)?;
                Ok(self.mk(if op == BinOp::SDiv { q } else { r }, w))
            }
            BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                let k = self.conc(st, b, w)?;
                if k >= w as u128 {
                    return Ok(Val::U);
                }
                let k = k as u32;
                if let Val::Mix(c) = a {
                    if k % 8 == 0 && c.iter().any(|x| matches!(x, Cell::U)) && op != BinOp::AShr {
                        let n = (k / 8) as usize;
                        let mut v = vec![Cell::C(0); c.len()];
                        for i in 0..c.len() {
                            if op == BinOp::LShr {
                                if i + n < c.len() {
                                    v[i] = c[i + n].clone();
                                }
                            } else if i >= n {
                                v[i] = c[i - n].clone();
                            }
                        }
                        return Ok(Val::Mix(Rc::new(v)));
                    }
                }
                let x = self.lin(st, a, w)?;
                let pb = st.pb.clone();
                let r = match op {
                    BinOp::Shl => x.scale(&Int::pow2(k)),
                    BinOp::LShr => {
                        let u = self.norm_u(st, &x, w);
                        self.ctx.div(&u, &Int::pow2(k), &pb)
                    }
                    _ => {
                        let s = self.norm_s(st, &x, w);
                        self.ctx.div(&s, &Int::pow2(k), &pb)
                    }
                };
                Ok(self.mk(r, w))
            }
            BinOp::And | BinOp::Or | BinOp::Xor => self.bitop(st, op, a, b, w),
            _ => {
                // floating point on symbolic data: enumerate the possible bit patterns
                let x = self.conc(st, a, w)?;
                let y = self.conc(st, b, w)?;
                self.binop(st, op, t, &Val::C(x), &Val::C(y))
            }
        }
    }
    /// representative with constants read as signed
    fn lin_c(&mut self, st: &mut State, v: &Val, w: u32) -> R<Lin> {
        match v {
            Val::C(x) => Ok(Lin::c(Int::S(sx(*x, w)))),
            v => self.lin(st, v, w),
        }
    }
    fn icmp(&mut self, st: &mut State, p: Pred, a: &Val, b: &Val, w: u32) -> R<B> {
        if matches!(a, Val::T(_)) || matches!(b, Val::T(_)) {
            if let Some(Val::T(t)) = self.tab_map(st, &[a, b], &mut |e, st, v| Ok(Val::C(e.icmp(st, p, &v[0], &v[1], w)? as u128)))? {
                return Ok(self.tab_resolve(st, &t)? as B);
            }
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx_, sy) = (sx(x, w), sx(y, w));
            return Ok(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
            } as B);
        }
        if w == 1 && matches!(p, Pred::Eq | Pred::Ne) {
            let v = self.bitop(st, BinOp::Xor, a, b, 1)?;
            let x = self.boolv(st, &v)?;
            return Ok(if p == Pred::Eq { self.ctx.not(x) } else { x });
        }
        match p {
            Pred::Eq | Pred::Ne => {
                let la = self.lin(st, a, w)?;
                let lb = self.lin(st, b, w)?;
                let d = la.sub(&lb);
                let big = Int::pow2(w);
                let (lo, hi) = self.ctx.bounds(&d, &st.pb);
                let (k0, k1) = (lo.cdiv(&big), hi.fdiv(&big));
                let e = if k0 > k1 {
                    FALSE
                } else if k1.sub(&k0) <= Int::S(2) {
                    let mut v = vec![];
                    let mut k = k0;
                    while k <= k1 {
                        let x = self.ctx.eq0(&d.addk(&k.mul(&big).neg()));
                        v.push(x);
                        k = k.add(&Int::ONE);
                    }
                    self.ctx.or(&v)
                } else {
                    let x = self.norm_u(st, &la, w);
                    let y = self.norm_u(st, &lb, w);
                    self.ctx.eq(&x, &y)
                };
                Ok(if p == Pred::Eq { e } else { self.ctx.not(e) })
            }
            _ => {
                let la = self.lin(st, a, w)?;
                let lb = self.lin(st, b, w)?;
                let signed = matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle);
                let (x, y) = if signed { (self.norm_s(st, &la, w), self.norm_s(st, &lb, w)) } else { (self.norm_u(st, &la, w), self.norm_u(st, &lb, w)) };
                Ok(match p {
                    Pred::Ult | Pred::Slt => self.ctx.lt(&x, &y),
                    Pred::Ule | Pred::Sle => self.ctx.le(&x, &y),
                    Pred::Ugt | Pred::Sgt => self.ctx.lt(&y, &x),
                    _ => self.ctx.le(&y, &x),
                })
            }
        }
    }
    fn select(&mut self, st: &mut State, c: B, t: &VT, a: &Val, b: &Val) -> R<Val> {
        match c {
            TRUE => return Ok(a.clone()),
            FALSE => return Ok(b.clone()),
            _ => {}
        }
        match self.ctx.truth(c, &st.pb) {
            Some(true) => return Ok(a.clone()),
            Some(false) => return Ok(b.clone()),
            None => {}
        }
        if let VT::I(w) = t {
            if *w == 1 && !matches!(a, Val::U) && !matches!(b, Val::U) {
                let x = self.boolv(st, a)?;
                let y = self.boolv(st, b)?;
                let p = self.ctx.and(&[c, x]);
                let nc = self.ctx.not(c);
                let q = self.ctx.and(&[nc, y]);
                let r = self.ctx.or(&[p, q]);
                return Ok(self.bv(r));
            }
            if matches!(a, Val::L(_) | Val::C(_) | Val::B(_)) && matches!(b, Val::L(_) | Val::C(_) | Val::B(_)) {
                let x = self.lin_c(st, a, *w)?;
                let y = self.lin_c(st, b, *w)?;
                let d = x.sub(&y);
                // small constants and shifted copies stay symbolic; pointers fork
                if d.is_const() && d.k.abs() < Int::pow2(40) {
                    let bi = self.ctx.b2i(c);
                    let r = y.add_mul(&bi, &d.k);
                    return Ok(self.mk(r, *w));
                }
            }
        }
        Ok(if self.decide(st, c)? { a.clone() } else { b.clone() })
    }
    fn cast(&mut self, st: &mut State, op: CastOp, t: &VT, v: &Val, t2: &VT) -> R<Val> {
        if op == CastOp::Bitcast {
            return self.bitcast(st, t, v, t2);
        }
        if let (VT::A(f), VT::A(g)) = (t, t2) {
            let x = match v {
                Val::A(x) => x.clone(),
                _ => return Ok(Val::A(Rc::new(f.iter().map(|_| Val::U).collect()))),
            };
            let mut r = vec![];
            for i in 0..f.len() {
                r.push(self.cast(st, op, &f[i].1, &x[i], &g[i].1)?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let (w, w2) = (t.bits(), t2.bits());
        if matches!(v, Val::U) {
            if op == CastOp::ZExt && w % 8 == 0 && w2 % 8 == 0 {
                // the added bytes are defined
                let mut d = vec![Cell::U; (w / 8) as usize];
                d.resize((w2 / 8) as usize, Cell::C(0));
                return Ok(Val::Mix(Rc::new(d)));
            }
            return Ok(Val::U);
        }
        if has_u(v) && !matches!(op, CastOp::Trunc | CastOp::ZExt) {
            return Ok(Val::U);
        }
        if let Val::C(x) = v {
            let x = *x;
            let f = || if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
            let r = match op {
                CastOp::Trunc | CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::AddrSpace | CastOp::Bitcast => x,
                CastOp::SExt => sx(x, w) as u128,
                CastOp::FpTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
                CastOp::FpExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
                CastOp::FpToUi => f() as u128,
                CastOp::FpToSi => f() as i128 as u128,
                CastOp::UiToFp => {
                    if w2 == 32 {
                        (x as f32).to_bits() as u128
                    } else {
                        (x as f64).to_bits() as u128
                    }
                }
                CastOp::SiToFp => {
                    let s = sx(x, w);
                    if w2 == 32 {
                        (s as f32).to_bits() as u128
                    } else {
                        (s as f64).to_bits() as u128
                    }
                }
            };
            return Ok(Val::C(mask(r, w2)));
        }
        if let Val::T(tb) = v {
            let tb = tb.clone();
            if matches!(op, CastOp::FpTrunc | CastOp::FpExt | CastOp::ZExt | CastOp::SExt | CastOp::Trunc) {
                if let Some(r) = self.tab_map(st, &[v], &mut |e, st, a| e.cast(st, op, t, &a[0], t2))? {
                    return Ok(r);
                }
            }
            let m = self.tab_map(st, &[&Val::T(tb.clone())], &mut |e, st, a| e.cast(st, op, t, &a[0], t2))?;
            let x = match m {
                Some(Val::T(t)) => self.tab_resolve(st, &t)?,
                _ => return unsup("cast of a table"),
            };
            return Ok(Val::C(x));
        }
        if matches!(op, CastOp::UiToFp | CastOp::SiToFp) {
            let l = self.lin(st, v, w)?;
            let l = if op == CastOp::UiToFp { self.norm_u(st, &l, w) } else { self.norm_s(st, &l, w) };
            // tabulated over the one variable it depends on, or over itself
            let mut vs = vec![];
            self.ctx.lin_vars(&l, &mut vs);
            vs.sort();
            vs.dedup();
            let base = if vs.len() == 1 { Lin::atom(vs[0]) } else { l.clone() };
            let (lo, hi) = self.ctx.bounds(&base, &st.pb);
            if let (Some(lo), Some(hi)) = (lo.to_i128(), hi.to_i128()) {
                if lo < hi && hi - lo < 20000 {
                    let mut vals = vec![];
                    let mut m = Model::new();
                    for i in lo..=hi {
                        let x = if vs.len() == 1 {
                            m.insert(vs[0], Int::S(i));
                            match self.ctx.eval(&l, &m, &mut HashMap::new()).and_then(|x| x.to_i128()) {
                                Some(x) => x,
                                None => return unsup("int to float"),
                            }
                        } else {
                            i
                        };
                        match self.cast(st, op, t, &Val::C(mask(x as u128, w)), t2)? {
                            Val::C(x) => vals.push(x),
                            _ => return unsup("int to float"),
                        }
                    }
                    return Ok(Val::T(Rc::new(Tab { lin: base, lo, vals })));
                }
            }
        }
        match op {
            CastOp::Trunc => {
                if let Val::Mix(c) = v {
                    if w2 % 8 == 0 {
                        let c = &c[..(w2 / 8) as usize];
                        if c.iter().all(|x| matches!(x, Cell::U)) {
                            return Ok(Val::U);
                        }
                        return Ok(Val::Mix(Rc::new(c.to_vec())));
                    }
                }
                if w2 == 1 {
                    let b = self.boolv(st, v)?;
                    return Ok(self.bv(b));
                }
                let l = self.lin(st, v, w)?;
                Ok(self.mk(l, w2))
            }
            CastOp::ZExt => {
                if let Val::Mix(c) = v {
                    if w % 8 == 0 && c.iter().any(|x| matches!(x, Cell::U)) {
                        let mut d = (**c).clone();
                        d.resize((w2 / 8) as usize, Cell::C(0));
                        return Ok(Val::Mix(Rc::new(d)));
                    }
                }
                let l = self.lin(st, v, w)?;
                let u = self.norm_u(st, &l, w);
                Ok(self.mk(u, w2))
            }
            CastOp::SExt => {
                if w == 1 {
                    let b = self.boolv(st, v)?;
                    let l = self.ctx.b2i(b).neg();
                    return Ok(self.mk(l, w2));
                }
                let l = self.lin(st, v, w)?;
                let u = self.norm_s(st, &l, w);
                Ok(self.mk(u, w2))
            }
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if w == w2 {
                    return Ok(v.clone());
                }
                let l = self.lin(st, v, w)?;
                let u = self.norm_u(st, &l, w);
                Ok(self.mk(u, w2))
            }
            _ => {
                let x = self.conc(st, v, w)?;
                self.cast(st, op, t, &Val::C(x), t2)
            }
        }
    }
    fn bitcast(&mut self, st: &mut State, t: &VT, v: &Val, t2: &VT) -> R<Val> {
        match (t, t2) {
            (VT::A(f), VT::I(_)) | (VT::A(f), VT::F64) | (VT::A(f), VT::F32) => {
                let x = match v {
                    Val::A(x) => x.clone(),
                    _ => return Ok(Val::U),
                };
                let mut r = Lin::c(Int::ZERO);
                let mut sh = 0;
                for (i, (_, ft)) in f.iter().enumerate() {
                    let w = ft.bits();
                    let l = self.lin(st, &x[i], w)?;
                    let u = self.norm_u(st, &l, w);
                    r = r.add_mul(&u, &Int::pow2(sh));
                    sh += w;
                }
                Ok(self.mk(r, t2.bits()))
            }
            (VT::A(_), VT::A(_)) => {
                // go through memory
                let sz = Self::vt_size(t);
                let base = st.next_stack;
                st.next_stack += (sz + 64) / 16 * 16;
                st.objs.insert(base, Rc::new(Obj::new(sz, 16, ObjKind::Stack)));
                self.store_at(st, base, 0, t, v)?;
                let o = st.objs.get(&base).unwrap().clone();
                let r = self.load_from(&o, 0, t2);
                st.objs.remove(&base);
                Ok(r)
            }
            (_, VT::A(_)) => {
                let sz = Self::vt_size(t);
                let base = st.next_stack;
                st.next_stack += (sz + 64) / 16 * 16;
                st.objs.insert(base, Rc::new(Obj::new(sz, 16, ObjKind::Stack)));
                self.store_at(st, base, 0, t, v)?;
                let o = st.objs.get(&base).unwrap().clone();
                let r = self.load_from(&o, 0, t2);
                st.objs.remove(&base);
                Ok(r)
            }
            _ => Ok(v.clone()),
        }
    }
    fn vt_size(t: &VT) -> u64 {
        match t {
            VT::A(f) => f.last().map(|(o, t)| o + Self::vt_size(t)).unwrap_or(0),
            t => ((t.bits() + 7) / 8) as u64,
        }
    }

    // ------------------------------------------------------------ running
    pub fn run_task(&mut self, entry: usize, fi: u32, prefix: Vec<Dec>) {
        self.entry = entry;
        let f = self.lower(fi);
        let fr = Frame { pc: 0, prev: u32::MAX, regs: vec![Val::U; f.nregs as usize], allocas: vec![], dst: None, cont: None, f };
        let st = State {
            frames: vec![fr],
            objs: BTreeMap::new(),
            next_heap: HEAP_BASE,
            next_stack: STACK_BASE,
            pc: vec![],
            pb: Rc::new(PB::new()),
            model: Some(Rc::new(Model::new())),
            inputs: vec![],
            trace: vec![],
            replay: Rc::new(prefix),
            rpos: 0,
            spec: vec![],
            floats: vec![],
            steps: 0,
            allow_panic: false,
            allow_at: (0, 0, None),
            nvars: 0,
            asserts: 0,
            snap: None,
        };
        self.cur.tasks += 1;
        self.local.push(st);
        while let Some(mut st) = self.local.pop() {
            if self.pool.stop.load(Ordering::Relaxed) {
                self.cur.unchecked += 1 + self.local.len() as u64;
                self.local.clear();
                break;
            }
            // share work when others starve
            if self.local.len() > 1 && self.pool.qlen.load(Ordering::Relaxed) < self.pool.nthreads {
                let s = self.local.remove(0);
                let mut t = s.trace.clone();
                t.extend(s.replay[s.rpos..].iter().cloned());
                self.push_task(t);
            }
            let t0 = std::time::Instant::now();
            let end = self.run_path(&mut st);
            if std::env::var_os("SYMEX_PROF").is_some() {
                let c: Vec<String> = st.inputs.iter().filter_map(|i| if let Input::Choose(v) = i { Some(v.to_string()) } else { None }).collect();
                eprintln!("PROF {:.3} {}", t0.elapsed().as_secs_f64(), c.join(","));
            }
            self.finish(st, end);
        }
    }
    fn inputs_of(&mut self, st: &State, m: &Model) -> Vec<(char, i64)> {
        let mut memo = HashMap::new();
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Var(a) => ('v', self.ctx.eval_atom(*a, m, &mut memo).and_then(|v| v.to_i128()).unwrap_or(0) as i64),
                Input::Const(v) => ('v', *v),
                Input::Choose(v) => ('c', *v),
            })
            .collect()
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f.idx as usize].name.clone()).collect()
    }
    fn violate(&mut self, st: &State, kind: &str, msg: String, m: &Model) {
        let inputs = self.inputs_of(st, m);
        let stack = self.stack(st);
        self.cur.violations.push(Violation { kind: kind.into(), msg, inputs, stack });
        if self.cur.violations.len() >= self.pool.max_viol {
            self.pool.stop.store(true, Ordering::Relaxed);
        }
    }
    /// a path left unfinished: its inputs are run natively
    fn open(&mut self, st: &State, why: &str) {
        if let Some(m) = st.model.clone() {
            let i = self.inputs_of(st, &m);
            let i = i.iter().map(|(c, v)| format!("{}{}", c, v)).collect::<Vec<_>>().join(" ");
            self.cur.open.push((why.to_string(), i));
            if self.cur.open.len() >= 3 {
                self.pool.stop.store(true, Ordering::Relaxed);
            }
        }
    }
    fn finish(&mut self, mut st: State, end: Stop) {
        self.cur.steps += st.steps;
        self.cur.max_path_steps = self.cur.max_path_steps.max(st.steps);
        match end {
            Stop::Done => {
                self.cur.paths += 1;
                if self.cur.samples.len() < 3 && st.model.is_some() {
                    if let Ok(m) = self.get_model(&mut st) {
                        let i = self.inputs_of(&st, &m);
                        self.cur.samples.push(i.iter().map(|(c, v)| format!("{}{}", c, v)).collect::<Vec<_>>().join(" "));
                    }
                }
            }
            Stop::Infeasible => self.cur.infeasible += 1,
            Stop::Panic(m) => {
                if st.allow_panic {
                    self.cur.panics_allowed += 1;
                    if self.cur.refusals.len() < 3 && st.model.is_some() {
                        if let Ok(m) = self.get_model(&mut st) {
                            let i = self.inputs_of(&st, &m);
                            self.cur.refusals.push(i.iter().map(|(c, v)| format!("{}{}", c, v)).collect::<Vec<_>>().join(" "));
                        }
                    }
                } else {
                    match self.get_model(&mut st) {
                        Ok(mo) => self.violate(&st, "panic", m, &mo),
                        Err(Stop::Infeasible) => self.cur.infeasible += 1,
                        Err(_) => self.cur.errors.push(format!("undecided path to panic: {}", m)),
                    }
                }
            }
            Stop::Ub(m) => match self.get_model(&mut st) {
                Ok(mo) => self.violate(&st, "ub", m, &mo),
                Err(Stop::Infeasible) => self.cur.infeasible += 1,
                Err(_) => self.cur.errors.push(format!("undecided path to undefined behaviour: {}", m)),
            },
            Stop::Assert(m, mo) => self.violate(&st, "assert", m, &mo),
            Stop::Unsupported(m) => {
                if self.cur.errors.len() < 20 {
                    let s = self.stack(&st);
                    let s: Vec<&str> = s.iter().take(5).map(|x| x.as_str()).collect();
                    self.cur.errors.push(format!("unsupported: {} in {}", m, s.join(" < ")));
                }
            }
            Stop::Limit(m) => match self.get_model(&mut st) {
                Ok(mo) => self.violate(&st, "hang", m, &mo),
                Err(Stop::Infeasible) => self.cur.infeasible += 1,
                Err(_) => self.cur.errors.push(format!("limit: {}", m)),
            },
        }
    }
    fn run_path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(true) => {}
                Ok(false) => return Stop::Done,
                Err(e) => return e,
            }
            if self.tab_split {
                self.tab_split = false;
                return Stop::Unsupported("part of a floating-point number overwritten".into());
            }
            if st.allow_panic && (st.steps - st.allow_at.0 > 50_000_000 || st.trace.len() - st.allow_at.1 > 100 || st.allow_at.2.map_or(false, |t| t.elapsed().as_secs() > 20)) {
                self.open(st, "refusal");
                self.cur.unchecked += 1;
                return Stop::Infeasible;
            }
            if st.steps & 0x3f == 0 {
                if Instant::now() > self.pool.deadline {
                    self.pool.stop.store(true, Ordering::Relaxed);
                    self.open(st, "time");
                }
                if self.pool.stop.load(Ordering::Relaxed) {
                    self.cur.unchecked += 1;
                    return Stop::Infeasible;
                }
                if st.steps > self.pool.path_steps {
                    return Stop::Limit(format!("more than {} instructions on one path", self.pool.path_steps));
                }
            }
        }
    }
    #[inline]
    fn get(&self, st: &State, o: &XO) -> Val {
        match o {
            XO::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            XO::V(v) => v.clone(),
        }
    }
    fn jump(&mut self, st: &mut State, blk: u32) {
        let fr = st.frames.last_mut().unwrap();
        let cur = fr.f.block_of[fr.pc as usize];
        let f = fr.f.clone();
        let start = f.blocks[blk as usize];
        fr.prev = cur;
        // phis in parallel
        let mut pc = start;
        let mut upd: Vec<(u32, Val)> = vec![];
        while let XI::Phi(v) = &f.insts[pc as usize].x {
            for (o, l) in v {
                if *l == cur {
                    let x = match o {
                        XO::R(r) => fr.regs[*r as usize].clone(),
                        XO::V(v) => v.clone(),
                    };
                    upd.push((f.insts[pc as usize].dst.unwrap(), x));
                    break;
                }
            }
            pc += 1;
        }
        for (d, v) in upd {
            fr.regs[d as usize] = v;
        }
        fr.pc = pc;
    }
    /// one instruction; Ok(false) when the entry function returned
    fn step(&mut self, st: &mut State) -> R<bool> {
        st.steps += 1;
        let (f, pc) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.pc)
        };
        st.snap = Some((st.pc.len(), st.pb.clone(), st.model.clone(), st.trace.len(), st.rpos));
        let inst = &f.insts[pc as usize];
        let val = match &inst.x {
            XI::Bin(op, t, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                self.binop(st, *op, t, &a, &b)?
            }
            XI::FNeg(t, a) => match self.get(st, a) {
                Val::C(x) => Val::C(if t.bits() == 32 { x ^ 0x8000_0000 } else { x ^ (1 << 63) }),
                v @ Val::T(_) => {
                    let w = t.bits();
                    match self.tab_map(st, &[&v], &mut |_, _, a| match &a[0] {
                        Val::C(x) => Ok(Val::C(if w == 32 { x ^ 0x8000_0000 } else { x ^ (1 << 63) })),
                        _ => unsup("fneg"),
                    })? {
                        Some(r) => r,
                        None => return unsup("fneg of a symbolic value"),
                    }
                }
                v @ (Val::L(_) | Val::Mix(_)) if matches!(t, VT::F32 | VT::F64) => {
                let w = t.bits();
                let l = self.lin(st, &v, w)?;
                self.mk(l.add(&Lin::c(Int::pow2(w - 1))), w)
            }
                _ => return unsup("fneg of a symbolic value"),
            },
            XI::Cast(op, t, a, t2) => {
                let a = self.get(st, a);
                self.cast(st, *op, t, &a, t2)?
            }
            XI::ICmp(p, t, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                match t {
                    VT::A(fl) => {
                        let mut r = vec![];
                        match (&a, &b) {
                            (Val::A(x), Val::A(y)) => {
                                for (i, (_, ft)) in fl.iter().enumerate() {
                                    let c = self.icmp(st, *p, &x[i], &y[i], ft.bits())?;
                                    r.push(self.bv(c));
                                }
                            }
                            _ => return ub("vector compare of undef"),
                        }
                        Val::A(Rc::new(r))
                    }
                    t => {
                        if matches!(a, Val::U) || matches!(b, Val::U) || has_u(&a) || has_u(&b) {
                            Val::U
                        } else {
                            let c = self.icmp(st, *p, &a, &b, t.bits())?;
                            self.bv(c)
                        }
                    }
                }
            }
            XI::FCmp(p, t, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let w = t.bits();
                if let Some(Val::T(tb)) = self.tab_map(st, &[&a, &b], &mut |_, _, v| match (&v[0], &v[1]) {
                    (Val::C(x), Val::C(y)) => Ok(Val::C(fcmp(p, w, *x, *y) as u128)),
                    _ => unsup("fcmp"),
                })? {
                    Val::C(self.tab_resolve(st, &tb)?)
                } else {
                    let x = self.conc(st, &a, w)?;
                    let y = self.conc(st, &b, w)?;
                    Val::C(fcmp(p, w, x, y) as u128)
                }
            }
            XI::Select(c, t, a, b) => {
                let (c, a, b) = (self.get(st, c), self.get(st, a), self.get(st, b));
                match &c {
                    Val::A(cs) => {
                        let cs = cs.clone();
                        let fl = match t {
                            VT::A(f) => f.clone(),
                            _ => return unsup("vector select"),
                        };
                        let (x, y) = match (&a, &b) {
                            (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                            _ => return unsup("vector select"),
                        };
                        let mut r = vec![];
                        for i in 0..fl.len() {
                            let cb = self.boolv(st, &cs[i])?;
                            r.push(self.select(st, cb, &fl[i].1, &x[i], &y[i])?);
                        }
                        Val::A(Rc::new(r))
                    }
                    Val::U => Val::U,
                    c => {
                        let cb = self.boolv(st, c)?;
                        self.select(st, cb, t, &a, &b)?
                    }
                }
            }
            XI::Alloca(sz, n, al) => {
                let n = match n {
                    None => 1,
                    Some((w, o)) => {
                        let v = self.get(st, o);
                        self.conc(st, &v, *w)? as u64
                    }
                };
                let sz = sz * n;
                let al = (*al).max(1);
                let base = (st.next_stack + al - 1) / al * al;
                st.next_stack = base + sz + 32;
                st.objs.insert(base, Rc::new(Obj::new(sz, al, ObjKind::Stack)));
                st.frames.last_mut().unwrap().allocas.push(base);
                Val::C(base as u128)
            }
            XI::Load(t, sz, p, al) => {
                let p = self.get(st, p);
                let tl = match p {
                    Val::L(_) if matches!(t, VT::I(_)) => self.table_load(st, &p, *sz, (*al).max(1))?,
                    _ => None,
                };
                if let Some(l) = tl {
                    self.mk(l, t.bits())
                } else {
                    let a = self.addr(st, &p)?;
                    if *al > 1 && a % *al != 0 {
                        return ub(format!("misaligned load: address {:#x}, required alignment {}", a, al));
                    }
                    self.load(st, a, t, *sz)?
                }
            }
            XI::Store(t, sz, v, p, al) => {
                let (v, p) = (self.get(st, v), self.get(st, p));
                let a = self.addr(st, &p)?;
                if *al > 1 && a % *al != 0 {
                    return ub(format!("misaligned store: address {:#x}, required alignment {}", a, al));
                }
                self.store(st, a, t, *sz, &v)?;
                Val::U
            }
            XI::Gep(b, off, dynv) => {
                let bv = self.get(st, b);
                if let (Val::C(x), true) = (&bv, dynv.is_empty()) {
                    Val::C(mask(x.wrapping_add(*off as i128 as u128), 64))
                } else {
                    let mut allc = true;
                    let mut acc = match &bv {
                        Val::C(x) => *x as i128,
                        _ => {
                            allc = false;
                            0
                        }
                    };
                    acc += *off as i128;
                    let mut syms = vec![];
                    for (o, w, sc) in dynv {
                        match self.get(st, o) {
                            Val::C(x) => acc = acc.wrapping_add(sx(x, *w).wrapping_mul(*sc as i128)),
                            v => {
                                allc = false;
                                syms.push((v, *w, *sc));
                            }
                        }
                    }
                    if allc {
                        Val::C(mask(acc as u128, 64))
                    } else if matches!(bv, Val::U) || syms.iter().any(|x| matches!(x.0, Val::U)) {
                        Val::U
                    } else {
                        let mut l = if let Val::C(_) = bv { Lin::c(Int::ZERO) } else { self.lin(st, &bv, 64)? };
                        for (v, w, sc) in syms {
                            let x = self.lin(st, &v, w)?;
                            let x = if w == 64 { x } else { self.norm_s(st, &x, w) };
                            l = l.add_mul(&x, &Int::S(sc as i128));
                        }
                        self.mk(l.addk(&Int::S(acc)), 64)
                    }
                }
            }
            XI::Extract(a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        Val::U => Val::U,
                        _ => return unsup("extractvalue"),
                    };
                }
                v
            }
            XI::Insert(t, a, b, ix) => {
                let v = self.get(st, a);
                let b = self.get(st, b);
                Self::insert(t, v, b, ix)
            }
            XI::ExtractElem(a, i) => {
                let (a, i) = (self.get(st, a), self.get(st, i));
                let i = self.conc(st, &i, 64)?;
                match &a {
                    Val::A(x) => x.get(i as usize).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                }
            }
            XI::InsertElem(n, a, v, i) => {
                let (a, v, i) = (self.get(st, a), self.get(st, v), self.get(st, i));
                let i = self.conc(st, &i, 64)?;
                let mut x = match &a {
                    Val::A(x) => (**x).clone(),
                    _ => vec![Val::U; *n as usize],
                };
                x[i as usize] = v;
                Val::A(Rc::new(x))
            }
            XI::Shuffle(n, a, b, mk) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let n = *n as i64;
                let g = |v: &Val, i: i64| match v {
                    Val::A(x) => x[i as usize].clone(),
                    _ => Val::U,
                };
                Val::A(Rc::new(mk.iter().map(|i| if *i < 0 { Val::U } else if *i < n { g(&a, *i) } else { g(&b, *i - n) }).collect()))
            }
            XI::Freeze(t, a) => {
                let v = self.get(st, a);
                self.freeze(t, v)
            }
            XI::Phi(_) => return unsup("phi executed"),
            XI::Br(b) => {
                self.jump(st, *b);
                return Ok(true);
            }
            XI::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let t = match &c {
                    Val::C(x) => *x & 1 == 1,
                    Val::U => return ub("branch on an undefined value"),
                    c => {
                        let b = self.boolv(st, c)?;
                        self.decide(st, b)?
                    }
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(true);
            }
            XI::Switch(w, c, d, cs) => {
                let c = self.get(st, c);
                let tgt = match &c {
                    Val::C(x) => cs.iter().find(|(k, _)| k == x).map(|(_, l)| *l).unwrap_or(*d),
                    Val::U => return ub("switch on an undefined value"),
                    c => {
                        // group cases by target so that one decision covers all of them
                        let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                        for (k, l) in cs {
                            match groups.iter_mut().find(|g| g.0 == *l) {
                                Some(g) => g.1.push(*k),
                                None => groups.push((*l, vec![*k])),
                            }
                        }
                        let mut t = *d;
                        for (l, ks) in groups {
                            let mut v = vec![];
                            for k in ks {
                                v.push(self.icmp(st, Pred::Eq, c, &Val::C(k), *w)?);
                            }
                            let b = self.ctx.or(&v);
                            if self.decide(st, b)? {
                                t = l;
                                break;
                            }
                        }
                        t
                    }
                };
                self.jump(st, tgt);
                return Ok(true);
            }
            XI::Ret(r) => {
                let v = r.as_ref().map(|o| self.get(st, o)).unwrap_or(Val::U);
                return Ok(self.ret(st, v));
            }
            XI::Unreachable => return ub("reached an `unreachable` instruction"),
            XI::Fence => Val::U,
            XI::Rmw(op, p, t, sz, v) => {
                let (p, v) = (self.get(st, p), self.get(st, v));
                let a = self.addr(st, &p)?;
                let old = self.load(st, a, t, *sz)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binop(st, BinOp::Add, t, &old, &v)?,
                    "sub" => self.binop(st, BinOp::Sub, t, &old, &v)?,
                    "and" => self.binop(st, BinOp::And, t, &old, &v)?,
                    "or" => self.binop(st, BinOp::Or, t, &old, &v)?,
                    "xor" => self.binop(st, BinOp::Xor, t, &old, &v)?,
                    o => return unsup(format!("atomicrmw {}", o)),
                };
                self.store(st, a, t, *sz, &new)?;
                old
            }
            XI::CmpXchg(p, t, sz, c, n) => {
                let (p, c, n) = (self.get(st, p), self.get(st, c), self.get(st, n));
                let a = self.addr(st, &p)?;
                let old = self.load(st, a, t, *sz)?;
                let e = self.icmp(st, Pred::Eq, &old, &c, t.bits())?;
                let ok = self.decide(st, e)?;
                if ok {
                    self.store(st, a, t, *sz, &n)?;
                }
                Val::A(Rc::new(vec![old, Val::C(ok as u128)]))
            }
            XI::Call(c, args, ret, normal) => {
                let fi = match c {
                    XCallee::Fn(i) => *i,
                    XCallee::Ind(o) => {
                        let v = self.get(st, o);
                        let a = self.addr(st, &v)?;
                        match self.fn_at.get(&a) {
                            Some(i) => *i,
                            None => return ub(format!("call through invalid function pointer {:#x}", a)),
                        }
                    }
                };
                match self.fn_kind[fi as usize] {
                    FnKind::Normal => {
                        let av: Vec<Val> = args.iter().map(|(o, _)| self.get(st, o)).collect();
                        let xf = self.lower(fi);
                        self.cur.funcs.insert(fi);
                        let mut regs = vec![Val::U; xf.nregs as usize];
                        for (i, v) in av.into_iter().enumerate() {
                            if i < regs.len() {
                                regs[i] = v;
                            }
                        }
                        if st.frames.len() > 400 {
                            return Err(Stop::Limit("call depth > 400".into()));
                        }
                        st.frames.push(Frame { f: xf, pc: 0, prev: u32::MAX, regs, allocas: vec![], dst: inst.dst, cont: *normal });
                        return Ok(true);
                    }
                    k => {
                        let av: Vec<(Val, u32)> = args.iter().map(|(o, t)| (self.get(st, o), t.bits())).collect();
                        let name = self.m.clone();
                        let name = &name.funcs[fi as usize].name;
                        let v = self.builtin(st, k, name, &av, ret)?;
                        if let Some(d) = inst.dst {
                            st.frames.last_mut().unwrap().regs[d as usize] = v;
                        }
                        match normal {
                            Some(l) => self.jump(st, *l),
                            None => st.frames.last_mut().unwrap().pc += 1,
                        }
                        return Ok(true);
                    }
                }
            }
            XI::Bad(s) => return unsup(s.clone()),
        };
        let fr = st.frames.last_mut().unwrap();
        if let Some(d) = inst.dst {
            fr.regs[d as usize] = val;
        }
        fr.pc += 1;
        Ok(true)
    }
    fn ret(&mut self, st: &mut State, v: Val) -> bool {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.objs.remove(a);
        }
        if st.frames.is_empty() {
            return false;
        }
        if let Some(d) = fr.dst {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        match fr.cont {
            Some(l) => self.jump(st, l),
            None => st.frames.last_mut().unwrap().pc += 1,
        }
        true
    }
    fn insert(t: &VT, v: Val, b: Val, ix: &[u32]) -> Val {
        if ix.is_empty() {
            return b;
        }
        let fl = match t {
            VT::A(f) => f.clone(),
            _ => return Val::U,
        };
        let mut x = match &v {
            Val::A(x) => (**x).clone(),
            _ => vec![Val::U; fl.len()],
        };
        let i = ix[0] as usize;
        x[i] = Self::insert(&fl[i].1, x[i].clone(), b, &ix[1..]);
        Val::A(Rc::new(x))
    }
    fn freeze(&mut self, t: &VT, v: Val) -> Val {
        match (t, v) {
            (VT::A(f), Val::A(x)) => Val::A(Rc::new(f.iter().zip(x.iter()).map(|((_, t), v)| self.freeze(t, v.clone())).collect())),
            (t, Val::U) => self.zero(t),
            (_, Val::Mix(c)) => Val::Mix(Rc::new(
                c.iter()
                    .map(|x| match x {
                        Cell::U => Cell::C(0),
                        x => x.clone(),
                    })
                    .collect(),
            )),
            (_, v) => v,
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if align == 0 || align & (align - 1) != 0 {
            return ub(format!("allocation with alignment {}", align));
        }
        if size == 0 {
            return ub("zero-sized allocation");
        }
        if size > 1 << 26 {
            return Err(Stop::Limit(format!("allocation of {} bytes", size)));
        }
        // aligned to `align` but deliberately not to 2*align
        let mut base = st.next_heap / (2 * align) * (2 * align) + 2 * align + align;
        if base < st.next_heap {
            base += 2 * align;
        }
        st.next_heap = base + size + 64;
        let mut o = Obj::new(size, align, ObjKind::Heap);
        if zero {
            for i in 0..size as usize {
                o.st[i] = 1;
            }
        }
        st.objs.insert(base, Rc::new(o));
        Ok(base)
    }
    fn read_str(&mut self, st: &mut State, p: u64, n: u64) -> String {
        if n > 4000 {
            return "?".into();
        }
        match self.find(st, p, n, "msg") {
            Ok((b, o)) => {
                let mut s = vec![];
                for i in 0..n {
                    match o.cell(p - b + i) {
                        Cell::C(c) => s.push(c),
                        _ => s.push(b'?'),
                    }
                }
                String::from_utf8_lossy(&s).into_owned()
            }
            Err(_) => "?".into(),
        }
    }
    fn panic_msg(&mut self, st: &mut State, name: &str, a: &[(Val, u32)]) -> String {
        let mut s = String::new();
        // leading (ptr, len) message
        if a.len() >= 2 {
            if let (Val::C(p), Val::C(n)) = (&a[0].0, &a[1].0) {
                if *n < 300 && (*p as u64) >= GLOB_BASE && a[1].1 == 64 && (name.contains("9panicking5panic17") || name.contains("expect_failed") || name.contains("unwrap_failed")) {
                    s = self.read_str(st, *p as u64, *n as u64);
                }
            }
        }
        // trailing location
        if let Some((Val::C(l), 64)) = a.last() {
            let l = *l as u64;
            if l >= GLOB_BASE && l < HEAP_BASE {
                if let Ok((b, o)) = self.find(st, l, 24, "loc") {
                    let off = (l - b) as usize;
                    if o.st[off..off + 24].iter().all(|x| *x == 1) {
                        let g = |i: usize, n: usize| {
                            let mut v = 0u64;
                            for k in (0..n).rev() {
                                v = (v << 8) | o.data[off + i + k] as u64;
                            }
                            v
                        };
                        let (fp, fl, line) = (g(0, 8), g(8, 8), g(16, 4));
                        let fname = self.read_str(st, fp, fl);
                        s = format!("{} at {}:{}", s, fname, line);
                    }
                }
            }
        }
        let short = name.split("17h").next().unwrap_or(name);
        format!("{} [{}]", s, short)
    }
    fn dealloc(&mut self, st: &mut State, p: u64, size: u64, align: u64) -> R<()> {
        match st.objs.get(&p) {
            Some(o) if o.kind == ObjKind::Heap => {
                if o.size != size || o.align != align {
                    return ub(format!("deallocation with the wrong layout: allocated (size {}, align {}), freed (size {}, align {})", o.size, o.align, size, align));
                }
                st.objs.remove(&p);
                Ok(())
            }
            _ => ub(format!("deallocation of invalid pointer {:#x}", p)),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sb, so) = self.find(st, s, n, "copy source")?;
        let (db, dobj) = self.find(st, d, n, "copy destination")?;
        if dobj.kind == ObjKind::Const {
            return ub("write to constant memory");
        }
        drop(dobj);
        let cells = Self::cells(&so, s - sb, n);
        drop(so);
        self.write_cells(st, db, d - db, &cells);
        Ok(())
    }
    fn builtin(&mut self, st: &mut State, k: FnKind, name: &str, a: &[(Val, u32)], ret: &VT) -> R<Val> {
        match k {
            FnKind::Panic => {
                let m = self.panic_msg(st, name, a);
                return Err(Stop::Panic(m));
            }
            FnKind::Alloc | FnKind::AllocZ => {
                let size = self.conc(st, &a[0].0, 64)? as u64;
                let align = self.conc(st, &a[1].0, 64)? as u64;
                return Ok(Val::C(self.alloc(st, size, align, k == FnKind::AllocZ)? as u128));
            }
            FnKind::Dealloc => {
                let p = self.addr(st, &a[0].0)?;
                let size = self.conc(st, &a[1].0, 64)? as u64;
                let align = self.conc(st, &a[2].0, 64)? as u64;
                self.dealloc(st, p, size, align)?;
                return Ok(Val::U);
            }
            FnKind::Realloc => {
                let p = self.addr(st, &a[0].0)?;
                let size = self.conc(st, &a[1].0, 64)? as u64;
                let align = self.conc(st, &a[2].0, 64)? as u64;
                let ns = self.conc(st, &a[3].0, 64)? as u64;
                match st.objs.get(&p) {
                    Some(o) if o.kind == ObjKind::Heap => {
                        if o.size != size || o.align != align {
                            return ub(format!("realloc with the wrong layout: allocated (size {}, align {}), given (size {}, align {})", o.size, o.align, size, align));
                        }
                    }
                    _ => return ub("realloc of invalid pointer"),
                }
                let n = self.alloc(st, ns, align, false)?;
                self.copy(st, n, p, size.min(ns))?;
                st.objs.remove(&p);
                return Ok(Val::C(n as u128));
            }
            _ => {}
        }
        let v = |i: usize| a[i].0.clone();
        if let Some(r) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, r, a, ret);
        }
        match name {
            "sym_int" => {
                let lo = self.conc(st, &v(0), 64)? as u64 as i64;
                let hi = self.conc(st, &v(1), 64)? as u64 as i64;
                if lo > hi {
                    return Err(Stop::Infeasible);
                }
                if lo == hi {
                    st.inputs.push(Input::Const(lo));
                    return Ok(Val::C(lo as u64 as u128));
                }
                let at = self.ctx.var(st.nvars, Int::from(lo), Int::from(hi));
                st.nvars += 1;
                st.inputs.push(Input::Var(at));
                if let Some(m) = &st.model {
                    let mut m2 = (**m).clone();
                    m2.insert(at, Int::from(lo));
                    st.model = Some(Rc::new(m2));
                }
                Ok(Val::L(Rc::new(Lin::atom(at))))
            }
            "sym_choose" => {
                let lo = self.conc(st, &v(0), 64)? as u64 as i64;
                let hi = self.conc(st, &v(1), 64)? as u64 as i64;
                if lo > hi {
                    return Err(Stop::Infeasible);
                }
                let c = match self.next_replay(st) {
                    Some(Dec::Choose(c)) => c,
                    Some(d) => return unsup(format!("replay mismatch {:?}", d)),
                    None if self.pool.fix.len() > st.inputs.iter().filter(|i| matches!(i, Input::Choose(_))).count()
                        && self.pool.fix[st.inputs.iter().filter(|i| matches!(i, Input::Choose(_))).count()] >= lo =>
                    {
                        self.pool.fix[st.inputs.iter().filter(|i| matches!(i, Input::Choose(_))).count()]
                    }
                    None => {
                        for x in ((lo + 1)..=hi).rev() {
                            let mut t = st.trace.clone();
                            t.push(Dec::Choose(x));
                            self.push_task(t);
                        }
                        self.cur.choices += (hi - lo) as u64;
                        lo
                    }
                };
                st.trace.push(Dec::Choose(c));
                st.inputs.push(Input::Choose(c));
                Ok(Val::C(c as u64 as u128))
            }
            "sym_assume" => {
                let b = self.boolv(st, &v(0))?;
                match self.ctx.truth(b, &st.pb) {
                    Some(true) => return Ok(Val::U),
                    Some(false) => return Err(Stop::Infeasible),
                    None => {}
                }
                let (f, m) = self.feasible(st, b);
                if !f {
                    return Err(Stop::Infeasible);
                }
                self.assume(st, b, m)?;
                Ok(Val::U)
            }
            "sym_assert" => {
                let msg = {
                    let p = self.conc(st, &v(1), 64)? as u64;
                    let n = self.conc(st, &v(2), 64)? as u64;
                    self.read_str(st, p, n)
                };
                st.asserts += 1;
                self.cur.asserts += 1;
                if matches!(v(0), Val::U) {
                    return ub(format!("assertion on undefined value: {}", msg));
                }
                let b = self.boolv(st, &v(0))?;
                let nb = self.ctx.not(b);
                match self.ctx.truth(b, &st.pb) {
                    Some(true) => return Ok(Val::U),
                    Some(false) => {
                        let m = self.get_model(st)?;
                        return Err(Stop::Assert(msg, m));
                    }
                    None => {}
                }
                self.cur.symbolic_asserts += 1;
                // fast refutation by the current model
                if let Some(m) = &st.model {
                    let mut memo = HashMap::new();
                    if self.ctx.evalb(nb, m, &mut memo) == Some(true) {
                        return Err(Stop::Assert(msg, m.clone()));
                    }
                }
                let cs = self.slice(st, nb);
                let n0 = self.solver.stats.nia;
                let t0 = Instant::now();
                let res = self.solver.check(&self.ctx, &cs, &st.pb, true);
                if self.trace && self.solver.stats.nia > n0 {
                    eprintln!("nonlinear assertion {:?} {:?} {}", t0.elapsed(), match res { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "?" }, msg);
                }
                match res {
                    Res::Unsat => {}
                    Res::Sat(m) => {
                        // need a model of the whole path condition
                        let mm = match self.merge(st, &m) {
                            Some(x) => Some(x),
                            None => {
                                let mut all = st.pc.clone();
                                all.push(nb);
                                match self.solver.check(&self.ctx, &all, &st.pb, true) {
                                    Res::Sat(m) => Some(m),
                                    Res::Unsat => None,
                                    _ => return unsup(format!("solver gave up on assertion: {}", msg)),
                                }
                            }
                        };
                        match mm {
                            Some(m) => return Err(Stop::Assert(msg, m)),
                            None => return Err(Stop::Infeasible),
                        }
                    }
                    _ => return unsup(format!("solver gave up on assertion: {}", msg)),
                }
                let m = st.model.clone();
                self.assume(st, b, m)?;
                Ok(Val::U)
            }
            "sym_reach" => {
                let p = self.conc(st, &v(0), 64)? as u64;
                let n = self.conc(st, &v(1), 64)? as u64;
                let s = self.read_str(st, p, n);
                // one witnessed path per label is enough to show the claim is not vacuous
                if st.model.is_none() && !self.pool.reached.lock().unwrap().contains(&s) {
                    match self.get_model(st) {
                        Err(Stop::Infeasible) => return Err(Stop::Infeasible),
                        _ => {}
                    }
                }
                if st.model.is_some() {
                    self.pool.reached.lock().unwrap().insert(s.clone());
                    *self.cur.reached.entry(s).or_insert(0) += 1;
                }
                Ok(Val::U)
            }
            "sym_allow_panic" => {
                st.allow_panic = self.conc(st, &v(0), 64)? != 0;
                st.allow_at = (st.steps, st.trace.len(), Some(std::time::Instant::now()));
                Ok(Val::U)
            }
            "sym_concretize" => {
                let x = self.conc(st, &v(0), 64)?;
                Ok(Val::C(x))
            }
            "sym_tier" => Ok(Val::C(self.pool.tier as u64 as u128)),
            "sym_heap_live" => Ok(Val::C(st.objs.values().filter(|o| o.kind == ObjKind::Heap).count() as u128)),
            "spec_int" => {
                let l = self.lin(st, &v(0), 64)?;
                let l = self.norm_s(st, &l, 64);
                Ok(self.spec_new(st, l))
            }
            "spec_pow10" => {
                let k = self.conc(st, &v(0), 32)? as u32;
                Ok(self.spec_new(st, Lin::c(Int::pow10(k))))
            }
            "spec_add" | "spec_sub" | "spec_mul" | "spec_le" | "spec_eq" | "spec_div" => {
                let x = self.spec_get(st, &v(0))?;
                let y = self.spec_get(st, &v(1))?;
                let r = match name {
                    "spec_add" => x.add(&y),
                    "spec_sub" => x.sub(&y),
                    "spec_mul" => self.ctx.mul(&x, &y),
                    "spec_div" => {
                        let pb = st.pb.clone();
                        if y.is_const() {
                            self.ctx.div(&x, &y.k, &pb)
                        } else {
                            self.ctx.div_sym(&x, &y)
                        }
                    }
                    "spec_le" => {
                        let b = self.ctx.le(&x, &y);
                        return Ok(self.bv(b));
                    }
                    _ => {
                        let b = self.ctx.eq(&x, &y);
                        return Ok(self.bv(b));
                    }
                };
                Ok(self.spec_new(st, r))
            }
            "memcpy" | "memmove" => {
                let d = self.addr(st, &v(0))?;
                let s = self.addr(st, &v(1))?;
                let n = self.conc(st, &v(2), 64)? as u64;
                self.copy(st, d, s, n)?;
                Ok(v(0))
            }
            "bcmp" | "memcmp" => {
                let p = self.addr(st, &v(0))?;
                let q = self.addr(st, &v(1))?;
                let n = self.conc(st, &v(2), 64)? as u64;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let (pb_, po) = self.find(st, p, n, "memcmp")?;
                let (qb, qo) = self.find(st, q, n, "memcmp")?;
                let mut eqs = vec![];
                for i in 0..n {
                    let x = self.load_from(&po, p - pb_ + i, &VT::I(8));
                    let y = self.load_from(&qo, q - qb + i, &VT::I(8));
                    if matches!(x, Val::U) || matches!(y, Val::U) {
                        return ub("memcmp of uninitialised memory");
                    }
                    let e = self.icmp(st, Pred::Eq, &x, &y, 8)?;
                    if name == "bcmp" {
                        eqs.push(e);
                        continue;
                    }
                    if !self.decide(st, e)? {
                        let l = self.icmp(st, Pred::Ult, &x, &y, 8)?;
                        return Ok(Val::C(if self.decide(st, l)? { 0xffff_ffff } else { 1 }));
                    }
                }
                if name == "bcmp" {
                    let e = self.ctx.and(&eqs);
                    let ne = self.ctx.not(e);
                    let l = self.ctx.b2i(ne);
                    return Ok(self.mk(l, 32));
                }
                Ok(Val::C(0))
            }
            "strlen" => {
                let p = self.addr(st, &v(0))?;
                let mut n = 0;
                loop {
                    let x = self.load(st, p + n, &VT::I(8), 1)?;
                    if matches!(x, Val::U) {
                        return ub("strlen of uninitialised memory");
                    }
                    let z = self.icmp(st, Pred::Eq, &x, &Val::C(0), 8)?;
                    if self.decide(st, z)? {
                        return Ok(Val::C(n as u128));
                    }
                    n += 1;
                }
            }
            // a number whose shortest text at the given precision is the text; the number handed
            // out is a placeholder of the same form, and `snprintf` knows what it stands for
            "sym_float" => {
                let p = self.addr(st, &v(0))?;
                let n = self.conc(st, &v(1), 64)? as u64;
                let prec = self.conc(st, &v(2), 64)? as u64;
                let mut bytes = vec![];
                let mut text = String::new();
                for i in 0..n {
                    let x = self.load(st, p + i, &VT::I(8), 1)?;
                    match &x {
                        Val::U => return ub("text of a number is uninitialised"),
                        Val::C(c) => text.push(*c as u8 as char),
                        _ => text.push('1'),
                    }
                    bytes.push(x);
                }
                let f: f64 = match text.parse() {
                    Ok(f) => f,
                    Err(_) => return unsup("text of a number"),
                };
                let bytes = Rc::new(bytes);
                st.floats.push((f.to_bits() as u128, prec, bytes.clone()));
                st.floats.push(((f as f32 as f64).to_bits() as u128, prec, bytes));
                Ok(Val::C(f.to_bits() as u128))
            }
            "snprintf" => {
                let f = self.addr(st, &v(2))?;
                let mut fmt = vec![];
                loop {
                    match self.load(st, f + fmt.len() as u64, &VT::I(8), 1)? {
                        Val::C(0) => break,
                        Val::C(c) => fmt.push(c as u8),
                        _ => return unsup("symbolic format"),
                    }
                }
                if fmt.len() < 3 || fmt[0] != b'%' || fmt[fmt.len() - 1] != b'g' {
                    return unsup(format!("snprintf {:?}", String::from_utf8_lossy(&fmt)));
                }
                let (prec, fi) = match std::str::from_utf8(&fmt[1..fmt.len() - 1]).unwrap_or("") {
                    ".*" if a.len() >= 5 => (self.conc(st, &v(3), 32)? as u32 as i32 as i64, 4),
                    s if s.starts_with('.') && a.len() >= 4 => match s[1..].parse::<u32>() {
                        Ok(n) => (n as i64, 3),
                        Err(_) => return unsup("snprintf format"),
                    },
                    _ => return unsup("snprintf format"),
                };
                let bits = self.conc(st, &v(fi), 64)?;
                let prec = if prec < 0 { 6 } else { prec as u64 };
                let known = st.floats.iter().find(|x| x.0 == bits && x.1 == prec).map(|x| x.2.clone());
                let text: Vec<Val> = match known {
                    Some(t) => t.to_vec(),
                    None => fmt_g(f64::from_bits(bits as u64), prec as usize).bytes().map(|c| Val::C(c as u128)).collect(),
                };
                let size = self.conc(st, &v(1), 64)? as u64;
                if size > 0 {
                    let d = self.addr(st, &v(0))?;
                    let n = (text.len() as u64).min(size - 1);
                    for i in 0..n {
                        self.store(st, d + i, &VT::I(8), 1, &text[i as usize])?;
                    }
                    self.store(st, d + n, &VT::I(8), 1, &Val::C(0))?;
                }
                Ok(if matches!(ret, VT::I(_)) { Val::C(text.len() as u128) } else { Val::U })
            }
            "getenv" => Ok(Val::C(0)),
            // word-at-a-time search of the standard library: first (last) position of a byte
            _ if name.starts_with("_ZN4core5slice6memchr") => {
                let back = name.contains("memrchr");
                let n = self.conc(st, &v(2), 64)? as u64;
                if n > 0 {
                    let p = self.addr(st, &v(1))?;
                    let (pb_, po) = self.find(st, p, n, "memchr")?;
                    for i in 0..n {
                        let i = if back { n - 1 - i } else { i };
                        let x = self.load_from(&po, p - pb_ + i, &VT::I(8));
                        if matches!(x, Val::U) {
                            return ub("search in uninitialised memory");
                        }
                        let e = self.icmp(st, Pred::Eq, &x, &v(0), 8)?;
                        if self.decide(st, e)? {
                            return Ok(Val::A(Rc::new(vec![Val::C(1), Val::C(i as u128)])));
                        }
                    }
                }
                Ok(Val::A(Rc::new(vec![Val::C(0), Val::C(0)])))
            }
            "log10" | "log" | "log2" | "exp" | "pow" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "fabs" => self.intrinsic(st, &format!("{}.f64", name), a, ret),
            _ => unsup(format!("external function {}", name)),
        }
    }
    fn spec_new(&mut self, st: &mut State, l: Lin) -> Val {
        st.spec.push(Rc::new(l));
        Val::C((st.spec.len() - 1) as u128)
    }
    fn spec_get(&mut self, st: &mut State, v: &Val) -> R<Rc<Lin>> {
        let i = self.conc(st, v, 32)? as usize;
        match st.spec.get(i) {
            Some(l) => Ok(l.clone()),
            None => unsup("bad spec handle"),
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[(Val, u32)], ret: &VT) -> R<Val> {
        let v = |i: usize| a[i].0.clone();
        let w = a.first().map(|x| x.1).unwrap_or(0);
        if n.starts_with("assume") {
            // optimiser hint; an unsatisfied assume is undefined behaviour
            return match v(0) {
                Val::C(0) => ub("violated llvm.assume"),
                Val::C(_) => Ok(Val::U),
                Val::U => Ok(Val::U),
                x => {
                    let b = self.boolv(st, &x)?;
                    if self.decide(st, b)? {
                        Ok(Val::U)
                    } else {
                        ub("violated llvm.assume")
                    }
                }
            };
        }
        if n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("dbg.") || n.starts_with("invariant") || n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") {
            return Ok(Val::U);
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let d = self.addr(st, &v(0))?;
            let k = self.conc(st, &v(2), 64)? as u64;
            if let Val::L(_) = v(1) {
                if let Some(l) = self.table_load(st, &v(1), k, 1)? {
                    let (db, o) = self.find(st, d, k, "copy destination")?;
                    if o.kind == ObjKind::Const {
                        return ub("write to constant memory");
                    }
                    drop(o);
                    let sv = Rc::new(SymV { bytes: k as u8, lin: Rc::new(l), tab: None });
                    let cells: Vec<Cell> = (0..k as u8).map(|i| Cell::S(sv.clone(), i)).collect();
                    self.write_cells(st, db, d - db, &cells);
                    return Ok(Val::U);
                }
            }
            let s = self.addr(st, &v(1))?;
            self.copy(st, d, s, k)?;
            return Ok(Val::U);
        }
        if n.starts_with("memset") {
            let d = self.addr(st, &v(0))?;
            let k = self.conc(st, &v(2), 64)? as u64;
            if k == 0 {
                return Ok(Val::U);
            }
            let c = match v(1) {
                Val::C(x) => Cell::C(x as u8),
                Val::U => Cell::U,
                x => {
                    let l = self.lin(st, &x, 8)?;
                    Cell::S(Rc::new(SymV { bytes: 1, lin: Rc::new(l), tab: None }), 0)
                }
            };
            let (b, o) = self.find(st, d, k, "memset")?;
            if o.kind == ObjKind::Const {
                return ub("memset of constant memory");
            }
            drop(o);
            self.write_cells(st, b, d - b, &vec![c; k as usize]);
            return Ok(Val::U);
        }
        if n.contains(".with.overflow") {
            if matches!(v(0), Val::U) || matches!(v(1), Val::U) {
                return Ok(Val::A(Rc::new(vec![Val::U, Val::U])));
            }
            let signed = n.starts_with('s');
            let x = self.lin(st, &v(0), w)?;
            let y = self.lin(st, &v(1), w)?;
            let (x, y) = if signed { (self.norm_s(st, &x, w), self.norm_s(st, &y, w)) } else { (self.norm_u(st, &x, w), self.norm_u(st, &y, w)) };
            let r = match &n[1..4] {
                "add" => x.add(&y),
                "sub" => x.sub(&y),
                _ => self.ctx.mul(&x, &y),
            };
            let (lo, hi) = if signed { (Int::pow2(w - 1).neg(), Int::pow2(w - 1).sub(&Int::ONE)) } else { (Int::ZERO, Int::pow2(w).sub(&Int::ONE)) };
            let c1 = self.ctx.lt(&r, &Lin::c(lo));
            let c2 = self.ctx.lt(&Lin::c(hi), &r);
            let o = self.ctx.or(&[c1, c2]);
            let o = match self.ctx.truth(o, &st.pb) {
                Some(t) => t as B,
                None => o,
            };
            let val = self.mk(r, w);
            let o = self.bv(o);
            return Ok(Val::A(Rc::new(vec![val, o])));
        }
        if let Some(x) = n.strip_suffix(&format!(".i{}", w)) {
            match x {
                "smax" | "smin" | "umax" | "umin" => {
                    let p = match x {
                        "smax" => Pred::Sgt,
                        "smin" => Pred::Slt,
                        "umax" => Pred::Ugt,
                        _ => Pred::Ult,
                    };
                    let c = self.icmp(st, p, &v(0), &v(1), w)?;
                    return self.select(st, c, &VT::I(w), &v(0), &v(1));
                }
                "abs" => {
                    let c = self.icmp(st, Pred::Slt, &v(0), &Val::C(0), w)?;
                    let ng = self.binop(st, BinOp::Sub, &VT::I(w), &Val::C(0), &v(0))?;
                    return self.select(st, c, &VT::I(w), &ng, &v(0));
                }
                "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                    let signed = x.starts_with('s');
                    let p = self.lin(st, &v(0), w)?;
                    let q = self.lin(st, &v(1), w)?;
                    let (p, q) = if signed { (self.norm_s(st, &p, w), self.norm_s(st, &q, w)) } else { (self.norm_u(st, &p, w), self.norm_u(st, &q, w)) };
                    let r = if &x[1..4] == "add" { p.add(&q) } else { p.sub(&q) };
                    let (lo, hi) = if signed { (Int::pow2(w - 1).neg(), Int::pow2(w - 1).sub(&Int::ONE)) } else { (Int::ZERO, Int::pow2(w).sub(&Int::ONE)) };
                    let c1 = self.ctx.lt(&r, &Lin::c(lo.clone()));
                    if self.decide(st, c1)? {
                        return Ok(self.mk(Lin::c(lo), w));
                    }
                    let c2 = self.ctx.lt(&Lin::c(hi.clone()), &r);
                    if self.decide(st, c2)? {
                        return Ok(self.mk(Lin::c(hi), w));
                    }
                    return Ok(self.mk(r, w));
                }
                "expect" => return Ok(v(0)),
                "ctlz" | "cttz" | "ctpop" => {
                    if let Val::C(c) = v(0) {
                        let r = match x {
                            "ctlz" => {
                                let mut k = 0;
                                while k < w && (c >> (w - 1 - k)) & 1 == 0 {
                                    k += 1;
                                }
                                k
                            }
                            "cttz" => {
                                let mut k = 0;
                                while k < w && (c >> k) & 1 == 0 {
                                    k += 1;
                                }
                                k
                            }
                            _ => c.count_ones(),
                        };
                        return Ok(Val::C(r as u128));
                    }
                    let l = self.lin(st, &v(0), w)?;
                    let u = self.norm_u(st, &l, w);
                    if x == "ctlz" {
                        for k in 0..w {
                            let c = self.ctx.le(&Lin::c(Int::pow2(w - 1 - k)), &u);
                            if self.decide(st, c)? {
                                return Ok(Val::C(k as u128));
                            }
                        }
                        return Ok(Val::C(w as u128));
                    }
                    if x == "cttz" {
                        let pb = st.pb.clone();
                        for k in 0..w {
                            let p = Int::pow2(k + 1);
                            let q = self.ctx.div(&u, &p, &pb);
                            let r = u.add_mul(&q, &p.neg());
                            let c = self.ctx.eq0(&r);
                            if !self.decide(st, c)? {
                                return Ok(Val::C(k as u128));
                            }
                        }
                        return Ok(Val::C(w as u128));
                    }
                    let c = self.concretize(st, &u)?;
                    return Ok(Val::C(c.to_u128().unwrap_or(0).count_ones() as u128));
                }
                "bswap" => {
                    let nb = (w / 8) as usize;
                    if let Val::C(c) = v(0) {
                        let mut r = 0u128;
                        for i in 0..nb {
                            r |= ((c >> (8 * i)) & 0xff) << (8 * (nb - 1 - i));
                        }
                        return Ok(Val::C(r));
                    }
                    let l = self.lin(st, &v(0), w)?;
                    let sv = SymV { bytes: nb as u8, lin: Rc::new(l), tab: None };
                    let mut r = Lin::c(Int::ZERO);
                    for i in 0..nb {
                        let b = self.byte_of(st, &sv, i as u8);
                        r = r.add_mul(&b, &Int::pow2(8 * (nb - 1 - i) as u32));
                    }
                    return Ok(self.mk(r, w));
                }
                "fshl" | "fshr" => {
                    let k = self.conc(st, &v(2), w)? as u32 % w;
                    let p = self.lin(st, &v(0), w)?;
                    let q = self.lin(st, &v(1), w)?;
                    let p = self.norm_u(st, &p, w);
                    let q = self.norm_u(st, &q, w);
                    let pb = st.pb.clone();
                    if k == 0 {
                        return Ok(self.mk(if x == "fshl" { p } else { q }, w));
                    }
                    let sh = if x == "fshl" { k } else { w - k };
                    let hi = p.scale(&Int::pow2(sh));
                    let lo = self.ctx.div(&q, &Int::pow2(w - sh), &pb);
                    return Ok(self.mk(hi.add(&lo), w));
                }
                "load.relative" => {}
                _ => {}
            }
        }
        if n.starts_with("load.relative") {
            let p = self.addr(st, &v(0))?;
            let o = self.conc(st, &v(1), 64)? as u64;
            let r = self.load(st, p.wrapping_add(o), &VT::I(32), 4)?;
            return match r {
                Val::C(x) => Ok(Val::C(mask((p as i128 + sx(x, 32)) as u128, 64))),
                _ => unsup("load.relative"),
            };
        }
        if n.starts_with("vector.reduce.") {
            let items = match v(0) {
                Val::A(x) => x,
                _ => return ub("reduce of undef"),
            };
            let ew = ret.bits();
            let op = n["vector.reduce.".len()..].split('.').next().unwrap_or("");
            let mut acc = items[0].clone();
            for x in items[1..].iter() {
                acc = match op {
                    "add" => self.binop(st, BinOp::Add, &VT::I(ew), &acc, x)?,
                    "mul" => self.binop(st, BinOp::Mul, &VT::I(ew), &acc, x)?,
                    "and" => self.binop(st, BinOp::And, &VT::I(ew), &acc, x)?,
                    "or" => self.binop(st, BinOp::Or, &VT::I(ew), &acc, x)?,
                    "xor" => self.binop(st, BinOp::Xor, &VT::I(ew), &acc, x)?,
                    "smax" | "smin" | "umax" | "umin" => {
                        let p = match op {
                            "smax" => Pred::Sgt,
                            "smin" => Pred::Slt,
                            "umax" => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = self.icmp(st, p, &acc, x, ew)?;
                        self.select(st, c, &VT::I(ew), &acc, x)?
                    }
                    _ => return unsup(format!("llvm.{}", n)),
                };
            }
            return Ok(acc);
        }
        // element-wise vector forms of scalar intrinsics
        if n.contains(".v") {
            if let VT::A(f) = ret {
                let f = f.clone();
                let ew = f[0].1.bits();
                let base = n.split(".v").next().unwrap();
                let mut out = vec![];
                for i in 0..f.len() {
                    let args: Vec<(Val, u32)> = a
                        .iter()
                        .map(|(x, w)| match x {
                            Val::A(y) => (y[i].clone(), ew),
                            x => (x.clone(), *w),
                        })
                        .collect();
                    out.push(self.intrinsic(st, &format!("{}.i{}", base, ew), &args, &f[i].1)?);
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        // floating point, concrete only
        let fl1 = |x: u128| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
        let fw = |x: f64| if ret.bits() == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 };
        let base = n.split('.').next().unwrap_or("");
        let is_fl = matches!(base, "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "log" | "log10" | "log2" | "exp" | "round" | "pow" | "copysign" | "minnum" | "maxnum" | "powi" | "fptosi" | "fptoui");
        if is_fl && a.iter().any(|x| matches!(x.0, Val::T(_))) {
            let vs: Vec<&Val> = a.iter().map(|x| &x.0).collect();
            let m = self.tab_map(st, &vs, &mut |e, st, v| {
                let args: Vec<(Val, u32)> = v.iter().zip(a.iter()).map(|(x, y)| (x.clone(), y.1)).collect();
                e.intrinsic(st, n, &args, ret)
            })?;
            match m {
                Some(Val::T(t)) if base.starts_with("fpto") => return Ok(Val::C(self.tab_resolve(st, &t)?)),
                Some(r) => return Ok(r),
                None => {}
            }
        }
        match base {
            "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "log" | "log10" | "log2" | "exp" | "rint" | "round" => {
                let x = self.conc(st, &v(0), w)?;
                let f = fl1(x);
                let r = match base {
                    "fabs" => f.abs(),
                    "sqrt" => f.sqrt(),
                    "floor" => f.floor(),
                    "ceil" => f.ceil(),
                    "trunc" => f.trunc(),
                    "log" => f.ln(),
                    "log10" => f.log10(),
                    "log2" => f.log2(),
                    "exp" => f.exp(),
                    "round" => f.round(),
                    _ => return unsup("rint"),
                };
                Ok(Val::C(fw(r)))
            }
            "pow" | "copysign" | "minnum" | "maxnum" => {
                let x = fl1(self.conc(st, &v(0), w)?);
                let y = fl1(self.conc(st, &v(1), w)?);
                let r = match base {
                    "pow" => x.powf(y),
                    "copysign" => x.copysign(y),
                    "minnum" => x.min(y),
                    _ => x.max(y),
                };
                Ok(Val::C(fw(r)))
            }
            "powi" => {
                let x = fl1(self.conc(st, &v(0), w)?);
                let y = self.conc(st, &v(1), 32)? as u32 as i32;
                Ok(Val::C(fw(x.powi(y))))
            }
            "fptosi" | "fptoui" => {
                // saturating casts: llvm.fptosi.sat.iN.fM
                let x = fl1(self.conc(st, &v(0), w)?);
                let rw = ret.bits();
                let r = if base == "fptosi" {
                    let lo = -(2f64.powi(rw as i32 - 1));
                    if x.is_nan() {
                        0
                    } else if x <= lo {
                        (1u128 << (rw - 1)).wrapping_neg()
                    } else if x >= -lo {
                        (1u128 << (rw - 1)) - 1
                    } else {
                        x as i128 as u128
                    }
                } else if x.is_nan() || x <= 0.0 {
                    0
                } else if x >= 2f64.powi(rw as i32) {
                    mask(u128::MAX, rw)
                } else {
                    x as u128
                };
                Ok(Val::C(mask(r, rw)))
            }
            "trap" | "ubsantrap" => Err(Stop::Panic("trap".into())),
            _ => unsup(format!("llvm.{}", n)),
        }
    }
    pub fn fname(&self, i: u32) -> &str {
        &self.m.funcs[i as usize].name
    }
}
impl Val {
    fn fix_undef(self, _f: &Rc<Vec<(u64, VT)>>) -> Val {
        self
    }
}
#[allow(unused)]
fn _unused(_: &ir::Module) {}
