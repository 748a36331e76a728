//! SMT back end: every query is a self-contained SMT-LIB 2 script sent to a persistent
//! z3 process (push / check-sat / get-value / pop); cvc5 is the fallback on `unknown`.
use crate::int::Int;
use crate::term::*;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Res {
    /// model checked by exact evaluation
    Sat(Rc<Model>),
    /// sat in the relaxation only; no exact model known
    Maybe,
    Unsat,
    Unknown,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    /// branches whose feasibility was not decided in time (both sides are explored)
    pub open: u64,
    pub nia: u64,
    pub solver_us: u64,
    pub max_us: u64,
}
struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    since: u32,
}
pub struct Solver {
    proc_: Option<Proc>,
    pub stats: Stats,
    cache: HashMap<(Vec<B>, u8), Res>,
    pub timeout_ms: u32,
    limit_ms: u32,
    pub errors: Vec<String>,
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

fn show(l: &Lin, s: &mut String) {
    if l.t.is_empty() {
        num(&l.k, s);
        return;
    }
    let one = l.t.len() == 1 && l.k.is_zero();
    if !one {
        s.push_str("(+");
    }
    for (a, c) in &l.t {
        if !one {
            s.push(' ');
        }
        if c.is_one() {
            write!(s, "a{}", a).unwrap();
        } else {
            s.push_str("(* ");
            num(c, s);
            write!(s, " a{})", a).unwrap();
        }
    }
    if !l.k.is_zero() {
        s.push(' ');
        num(&l.k, s);
    }
    if !one {
        s.push(')');
    }
}
fn num(k: &Int, s: &mut String) {
    if k.is_neg() {
        write!(s, "(- {})", k.neg()).unwrap();
    } else {
        write!(s, "{}", k).unwrap();
    }
}
fn showb(ctx: &Ctx, b: B, s: &mut String) {
    match &ctx.bools[b as usize] {
        BoolK::True => s.push_str("true"),
        BoolK::False => s.push_str("false"),
        BoolK::Le(l) => {
            s.push_str("(<= ");
            show(l, s);
            s.push_str(" 0)");
        }
        BoolK::Eq(l) => {
            s.push_str("(= ");
            show(l, s);
            s.push_str(" 0)");
        }
        BoolK::Ne(l) => {
            s.push_str("(not (= ");
            show(l, s);
            s.push_str(" 0))");
        }
        BoolK::And(v) | BoolK::Or(v) => {
            s.push_str(if matches!(ctx.bools[b as usize], BoolK::And(_)) { "(and" } else { "(or" });
            for x in v {
                s.push(' ');
                showb(ctx, *x, s);
            }
            s.push(')');
        }
    }
}
fn from_bits(b: &[bool]) -> Int {
    let mut v = Int::ZERO;
    for x in b {
        v = v.add(&v).addi(*x as i128);
    }
    if b[0] {
        v = v.sub(&Int::pow2(b.len() as u32));
    }
    v
}
struct Bv<'a> {
    ctx: &'a Ctx,
    wid: HashMap<Atom, u32>,
    w: u32,
}
impl<'a> Bv<'a> {
    fn need(&mut self, l: &Lin) {
        let m = self.mag(l);
        self.room(&m);
    }
    /// largest magnitude the linear form can take given only the widths of its atoms
    fn mag(&self, l: &Lin) -> Int {
        let mut m = l.k.abs();
        for (a, c) in &l.t {
            m = m.add(&Int::pow2(self.wid[a]).mul(&c.abs()));
        }
        m
    }
    fn room(&mut self, m: &Int) {
        while Int::pow2(self.w - 1) <= *m {
            self.w += 1;
        }
    }
    fn needb(&mut self, b: B) {
        match self.ctx.bools[b as usize].clone() {
            BoolK::Le(l) | BoolK::Eq(l) | BoolK::Ne(l) => self.need(&l),
            BoolK::And(v) | BoolK::Or(v) => {
                for x in v {
                    self.needb(x);
                }
            }
            _ => {}
        }
    }
    fn num(&self, k: &Int) -> String {
        format!("(_ bv{} {})", k.fmod(&Int::pow2(self.w)), self.w)
    }
    fn lin(&self, l: &Lin) -> String {
        let mut ts = vec![];
        for (a, c) in &l.t {
            let e = self.w - self.wid[a];
            let x = format!("((_ sign_extend {}) a{})", e, a);
            ts.push(if c.is_one() { x } else { format!("(bvmul {} {})", self.num(c), x) });
        }
        if !l.k.is_zero() || ts.is_empty() {
            ts.push(self.num(&l.k));
        }
        let mut r = ts[0].clone();
        for t in &ts[1..] {
            r = format!("(bvadd {} {})", r, t);
        }
        r
    }
    fn b(&self, b: B) -> String {
        match self.ctx.bools[b as usize].clone() {
            BoolK::True => "true".into(),
            BoolK::False => "false".into(),
            BoolK::Le(l) => format!("(bvsle {} {})", self.lin(&l), self.num(&Int::ZERO)),
            BoolK::Eq(l) => format!("(= {} {})", self.lin(&l), self.num(&Int::ZERO)),
            BoolK::Ne(l) => format!("(not (= {} {}))", self.lin(&l), self.num(&Int::ZERO)),
            BoolK::And(v) => format!("(and {})", v.iter().map(|x| self.b(*x)).collect::<Vec<_>>().join(" ")),
            BoolK::Or(v) => format!("(or {})", v.iter().map(|x| self.b(*x)).collect::<Vec<_>>().join(" ")),
        }
    }
}
/// `((a1 5) (a2 (- 3)) (a3 #x0f))`
fn parse_model(txt: &str) -> Result<Model, String> {
    let mut model = Model::new();
    let toks: Vec<String> = txt.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(Ok(id)) = toks[i].strip_prefix('a').map(|x| x.parse::<u32>()) {
            let t = &toks[i + 1];
            let v = if let Some(h) = t.strip_prefix("#x") {
                let bits: Vec<bool> = h
                    .chars()
                    .flat_map(|c| {
                        let d = c.to_digit(16).unwrap_or(0);
                        (0..4).rev().map(move |k| (d >> k) & 1 == 1)
                    })
                    .collect();
                Some(from_bits(&bits))
            } else if let Some(h) = t.strip_prefix("#b") {
                Some(from_bits(&h.chars().map(|c| c == '1').collect::<Vec<_>>()))
            } else if t == "(" {
                toks.get(i + 3).and_then(|x| Int::parse(x)).map(|x| x.neg())
            } else {
                Int::parse(t)
            };
            match v {
                Some(v) => {
                    model.insert(id, v);
                }
                None => return Err(format!("model parse: {}", txt)),
            }
        }
        i += 1;
    }
    Ok(model)
}
fn dump(s: &str, t0: Instant, r: u8) {
    if let Ok(f) = std::env::var("SYMEX_DUMP") {
        if let Ok(mut h) = std::fs::OpenOptions::new().create(true).append(true).open(f) {
            let _ = write!(h, "; ---- query {:?} {}\n(push 1)\n{}(check-sat)\n(pop 1)\n", t0.elapsed(), r, s);
        }
    }
}
fn atoms_of_lin(ctx: &Ctx, l: &Lin, out: &mut BTreeSet<Atom>) {
    for (a, _) in &l.t {
        atoms_of(ctx, *a, out);
    }
}
fn atoms_of(ctx: &Ctx, a: Atom, out: &mut BTreeSet<Atom>) {
    if !out.insert(a) {
        return;
    }
    match &ctx.atoms[a as usize] {
        AtomK::Var(_) => {}
        AtomK::Mono(v) => {
            for x in v {
                atoms_of(ctx, *x, out);
            }
        }
        AtomK::Div(l, _) => atoms_of_lin(ctx, l, out),
        AtomK::DivS(l, m) => {
            atoms_of_lin(ctx, l, out);
            atoms_of_lin(ctx, m, out);
        }
        AtomK::B2I(b) => atoms_of_bool(ctx, *b, out),
        AtomK::Ite(b, x, y) => {
            atoms_of_bool(ctx, *b, out);
            atoms_of_lin(ctx, x, out);
            atoms_of_lin(ctx, y, out);
        }
    }
}
fn atoms_of_bool(ctx: &Ctx, b: B, out: &mut BTreeSet<Atom>) {
    match &ctx.bools[b as usize] {
        BoolK::Le(l) | BoolK::Eq(l) | BoolK::Ne(l) => atoms_of_lin(ctx, l, out),
        BoolK::And(v) | BoolK::Or(v) => {
            for x in v {
                atoms_of_bool(ctx, *x, out);
            }
        }
        _ => {}
    }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        Solver { proc_: None, stats: Stats::default(), cache: HashMap::new(), timeout_ms, limit_ms: timeout_ms, errors: vec![] }
    }
    fn start(&mut self) {
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn z3-new");
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        writeln!(inp, "(set-option :produce-models true)(set-option :timeout {})", self.timeout_ms).unwrap();
        self.proc_ = Some(Proc { child, inp, out, since: 0 });
    }
    pub fn kill(&mut self) {
        if let Some(mut p) = self.proc_.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    fn script(ctx: &Ctx, cs: &[B], pb: &PB, exact: bool) -> (String, Vec<Atom>, bool) {
        let mut at = BTreeSet::new();
        for c in cs {
            atoms_of_bool(ctx, *c, &mut at);
        }
        let mut s = String::new();
        let mut vars = vec![];
        let mut nonlinear = false;
        for &a in &at {
            writeln!(s, "(declare-const a{} Int)", a).unwrap();
        }
        for &a in &at {
            let (lo, hi) = ctx.abound(a, pb);
            let mut bnd = String::new();
            write!(bnd, "(assert (and (<= ").unwrap();
            num(&lo, &mut bnd);
            write!(bnd, " a{}) (<= a{} ", a, a).unwrap();
            num(&hi, &mut bnd);
            bnd.push_str(")))\n");
            s.push_str(&bnd);
            match &ctx.atoms[a as usize] {
                AtomK::Var(_) => vars.push(a),
                AtomK::Mono(v) => {
                    nonlinear = true;
                    if exact {
                        write!(s, "(assert (= a{} (*", a).unwrap();
                        for x in v {
                            write!(s, " a{}", x).unwrap();
                        }
                        s.push_str(")))\n");
                    } else if v.len() == 2 {
                        // McCormick envelope
                        let (x, y) = (v[0], v[1]);
                        let (xl, xh) = ctx.abound(x, pb);
                        let (yl, yh) = ctx.abound(y, pb);
                        for (p, q, ge) in [(&xl, &yl, true), (&xh, &yh, true), (&xl, &yh, false), (&xh, &yl, false)] {
                            // m - q*x - p*y + p*q  >= 0  (or <= 0)
                            let l = Lin { t: vec![], k: p.mul(q) }
                                .add(&Lin::atom(a))
                                .add_mul(&Lin::atom(x), &q.neg())
                                .add_mul(&Lin::atom(y), &p.neg());
                            write!(s, "(assert ({} ", if ge { ">=" } else { "<=" }).unwrap();
                            show(&l, &mut s);
                            s.push_str(" 0))\n");
                        }
                    }
                }
                AtomK::Div(l, c) => {
                    // c*a <= l < c*a + c
                    let d = l.add_mul(&Lin::atom(a), &c.neg());
                    s.push_str("(assert (and (<= 0 ");
                    show(&d, &mut s);
                    s.push_str(") (< ");
                    show(&d, &mut s);
                    s.push(' ');
                    num(c, &mut s);
                    s.push_str(")))\n");
                }
                AtomK::DivS(l, m) => {
                    nonlinear = true;
                    if exact {
                        let mut ms = String::new();
                        show(m, &mut ms);
                        let mut ls = String::new();
                        show(l, &mut ls);
                        writeln!(s, "(assert (and (<= (* {} a{}) {}) (< {} (* {} (+ a{} 1)))))", ms, a, ls, ls, ms, a).unwrap();
                    }
                }
                AtomK::B2I(b) => {
                    write!(s, "(assert (= (= a{} 1) ", a).unwrap();
                    showb(ctx, *b, &mut s);
                    s.push_str("))\n");
                }
                AtomK::Ite(b, x, y) => {
                    write!(s, "(assert (= a{} (ite ", a).unwrap();
                    showb(ctx, *b, &mut s);
                    s.push(' ');
                    show(x, &mut s);
                    s.push(' ');
                    show(y, &mut s);
                    s.push_str(")))\n");
                }
            }
        }
        for c in cs {
            s.push_str("(assert ");
            showb(ctx, *c, &mut s);
            s.push_str(")\n");
        }
        (s, vars, nonlinear)
    }
    /// The same query over bit-vectors wide enough that nothing wraps: exact, and good at
    /// products and divisibility, where integer arithmetic solvers are not.
    fn script_bv(ctx: &Ctx, cs: &[B], pb: &PB) -> Option<(String, Vec<Atom>)> {
        let mut at = BTreeSet::new();
        for c in cs {
            atoms_of_bool(ctx, *c, &mut at);
        }
        let mut bw = Bv { ctx, wid: HashMap::new(), w: 8 };
        for &a in &at {
            let (lo, hi) = ctx.abound(a, pb);
            let mut w = 1u32;
            while lo < Int::pow2(w - 1).neg() || hi >= Int::pow2(w - 1) {
                w += 1;
            }
            bw.wid.insert(a, w);
        }
        for &a in &at {
            match &ctx.atoms[a as usize] {
                AtomK::Div(l, c) => bw.need(&l.add_mul(&Lin::atom(a), &c.neg()).addk(&c.neg())),
                AtomK::DivS(l, m) => {
                    bw.need(l);
                    let b = bw.mag(m);
                    let q = Int::pow2(bw.wid[&a]).addi(1).mul(&b);
                    bw.room(&q);
                }
                AtomK::B2I(b) => bw.needb(*b),
                AtomK::Ite(b, x, y) => {
                    bw.needb(*b);
                    bw.need(x);
                    bw.need(y);
                }
                AtomK::Mono(v) => {
                    let mut m = Int::ONE;
                    for x in v {
                        m = m.mul(&Int::pow2(bw.wid[x]));
                    }
                    bw.need(&Lin::atom(a));
                    bw.room(&m);
                }
                _ => {}
            }
        }
        for c in cs {
            bw.needb(*c);
        }
        bw.w += 2;
        if bw.w > 400 {
            return None;
        }
        let w = bw.w;
        let mut s = String::new();
        let mut vars = vec![];
        for &a in &at {
            writeln!(s, "(declare-const a{} (_ BitVec {}))", a, bw.wid[&a]).unwrap();
        }
        for &a in &at {
            let (lo, hi) = ctx.abound(a, pb);
            let l = Lin::atom(a);
            writeln!(s, "(assert (and (bvsle {} {}) (bvsle {} {})))", bw.num(&lo), bw.lin(&l), bw.lin(&l), bw.num(&hi)).unwrap();
            match &ctx.atoms[a as usize] {
                AtomK::Var(_) => vars.push(a),
                AtomK::Mono(v) => {
                    let mut t = bw.lin(&Lin::atom(v[0]));
                    for x in &v[1..] {
                        t = format!("(bvmul {} {})", t, bw.lin(&Lin::atom(*x)));
                    }
                    writeln!(s, "(assert (= {} {}))", bw.lin(&l), t).unwrap();
                }
                AtomK::Div(x, c) => {
                    let d = bw.lin(&x.add_mul(&l, &c.neg()));
                    writeln!(s, "(assert (and (bvsle {} {}) (bvslt {} {})))", bw.num(&Int::ZERO), d, d, bw.num(c)).unwrap();
                }
                AtomK::DivS(x, m) => {
                    let (q, x, m) = (bw.lin(&l), bw.lin(x), bw.lin(m));
                    writeln!(s, "(assert (let ((p (bvmul {} {}))) (and (bvsle p {}) (bvslt {} (bvadd p {})))))", q, m, x, x, m).unwrap();
                }
                AtomK::B2I(b) => writeln!(s, "(assert (= (= {} {}) {}))", bw.lin(&l), bw.num(&Int::ONE), bw.b(*b)).unwrap(),
                AtomK::Ite(b, x, y) => writeln!(s, "(assert (= {} (ite {} {} {})))", bw.lin(&l), bw.b(*b), bw.lin(x), bw.lin(y)).unwrap(),
            }
        }
        for c in cs {
            writeln!(s, "(assert {})", bw.b(*c)).unwrap();
        }
        let _ = w;
        Some((s, vars))
    }
    fn raw(&mut self, script: &str, vars: &[Atom]) -> Result<(u8, Model), String> {
        if self.proc_.is_none() {
            self.start();
        }
        let p = self.proc_.as_mut().unwrap();
        p.since += 1;
        let mut txt = String::with_capacity(script.len() + 100);
        write!(txt, "(set-option :timeout {})\n(push 1)\n", self.limit_ms).unwrap();
        txt.push_str(script);
        txt.push_str("(check-sat)\n");
        p.inp.write_all(txt.as_bytes()).map_err(|e| e.to_string())?;
        p.inp.flush().map_err(|e| e.to_string())?;
        let mut line = String::new();
        p.out.read_line(&mut line).map_err(|e| e.to_string())?;
        let ans = line.trim().to_string();
        let mut model = Model::new();
        let r = match ans.as_str() {
            "sat" => {
                if !vars.is_empty() {
                    let mut g = String::from("(get-value (");
                    for v in vars {
                        write!(g, "a{} ", v).unwrap();
                    }
                    g.push_str("))\n");
                    p.inp.write_all(g.as_bytes()).map_err(|e| e.to_string())?;
                    p.inp.flush().map_err(|e| e.to_string())?;
                    let mut txt = String::new();
                    let mut depth = 0i32;
                    loop {
                        let mut l = String::new();
                        if p.out.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                            return Err("eof".into());
                        }
                        for c in l.chars() {
                            if c == '(' {
                                depth += 1
                            } else if c == ')' {
                                depth -= 1
                            }
                        }
                        txt.push_str(&l);
                        if depth <= 0 {
                            break;
                        }
                    }
                    model = parse_model(&txt)?;
                }
                0
            }
            "unsat" => 1,
            "unknown" => 2,
            "timeout" => 2,
            other => return Err(format!("solver said {:?}", other)),
        };
        p.inp.write_all(b"(pop 1)\n").map_err(|e| e.to_string())?;
        if p.since > 3000 {
            self.kill();
        }
        Ok((r, model))
    }
    /// One query in a process of its own (stand-alone bit-vector solving is much stronger
    /// than the incremental core).
    fn oneshot(&self, cmd: &str, args: &[String], head: &str, script: &str, vars: &[Atom]) -> (u8, Model) {
        let mut c = match Command::new(cmd).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => c,
            Err(_) => return (2, Model::new()),
        };
        {
            let mut i = c.stdin.take().unwrap();
            let mut t = format!("{}{}(check-sat)\n", head, script);
            if !vars.is_empty() {
                t.push_str("(get-value (");
                for v in vars {
                    write!(t, "a{} ", v).unwrap();
                }
                t.push_str("))\n");
            }
            let _ = i.write_all(t.as_bytes());
        }
        let o = match c.wait_with_output() {
            Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
            Err(_) => return (2, Model::new()),
        };
        let (first, rest) = o.split_once('\n').unwrap_or((&o, ""));
        match first.trim() {
            "unsat" => (1, Model::new()),
            "sat" => match parse_model(rest) {
                Ok(m) => (0, m),
                Err(_) => (2, Model::new()),
            },
            _ => (2, Model::new()),
        }
    }
    fn cvc5(&mut self, script: &str) -> u8 {
        // only `unsat` is used here (a sat answer would need a model)
        let r = self.oneshot("cvc5", &["--lang=smt2".into(), format!("--tlimit={}", self.timeout_ms)], "(set-logic QF_NIA)\n", script, &[]);
        if r.0 == 1 {
            1
        } else {
            2
        }
    }
    fn bv(&mut self, script: &str, vars: &[Atom]) -> (u8, Model) {
        let head = "(set-option :produce-models true)\n(set-logic QF_BV)\n";
        let short = self.timeout_ms.min(2000);
        let z = |t: u32| vec!["-in".to_string(), "-smt2".into(), format!("-t:{}", t)];
        let c = |t: u32| vec!["--lang=smt2".to_string(), format!("--tlimit={}", t)];
        let r = self.oneshot("z3-new", &z(short), head, script, vars);
        if r.0 != 2 {
            return r;
        }
        let r = self.oneshot("cvc5", &c(self.timeout_ms), head, script, vars);
        if r.0 != 2 || self.timeout_ms == short {
            return r;
        }
        self.oneshot("z3-new", &z(self.timeout_ms), head, script, vars)
    }
    /// Is the conjunction of `cs` satisfiable? `pb` must be implied by the full path condition.
    /// `exact`: decide nonlinear parts too (otherwise products are relaxed).
    pub fn check(&mut self, ctx: &Ctx, cs: &[B], pb: &PB, exact: bool) -> Res {
        let mut key: Vec<B> = cs.to_vec();
        key.sort();
        key.dedup();
        if key.contains(&FALSE) {
            return Res::Unsat;
        }
        // `cs` is closed under shared variables (see exec::slice), so the path bounds on its
        // atoms are implied by `cs` itself and the answer is a function of `cs` alone.
        let k = (key.clone(), exact as u8);
        if let Some(r) = self.cache.get(&k) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let r = self.check_inner(ctx, &key, pb, exact);
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.solver_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match r {
            Res::Sat(_) | Res::Maybe => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => {
                if exact {
                    self.stats.unknown += 1
                } else {
                    self.stats.open += 1
                }
            }
        }
        if !exact || !matches!(r, Res::Unknown) {
            if self.cache.len() > 100_000 {
                self.cache.clear();
            }
            self.cache.insert(k, r.clone());
        }
        r
    }
    fn check_inner(&mut self, ctx: &Ctx, cs: &[B], pb: &PB, exact: bool) -> Res {
        let (s, vars, nl) = Self::script(ctx, cs, pb, false);
        self.limit_ms = if exact { self.timeout_ms } else { self.timeout_ms.min(1500) };
        let t0 = Instant::now();
        let r = match self.raw(&s, &vars) {
            Ok(x) => x,
            Err(e) => {
                self.errors.push(e);
                self.kill();
                match self.raw(&s, &vars) {
                    Ok(x) => x,
                    Err(e) => {
                        self.errors.push(e);
                        self.kill();
                        return Res::Unknown;
                    }
                }
            }
        };
        if t0.elapsed().as_millis() > 1000 {
            dump(&s, t0, r.0);
        }
        match r.0 {
            1 => return Res::Unsat,
            0 => {
                let mut memo = HashMap::new();
                if cs.iter().all(|c| ctx.evalb(*c, &r.1, &mut memo) == Some(true)) {
                    return Res::Sat(Rc::new(r.1));
                }
                if !nl {
                    self.errors.push("linear model failed exact evaluation".into());
                    return Res::Unknown;
                }
            }
            _ => {
                if !exact {
                    return Res::Unknown;
                }
                if self.cvc5(&s) == 1 {
                    return Res::Unsat;
                }
            }
        }
        if !exact {
            return Res::Maybe;
        }
        self.stats.nia += 1;
        if let Some((s, vars)) = Self::script_bv(ctx, cs, pb) {
            let t0 = Instant::now();
            let r = self.bv(&s, &vars);
            if t0.elapsed().as_millis() > 1000 {
                dump(&s, t0, 8);
            }
            match r {
                (1, _) => return Res::Unsat,
                (0, m) => {
                    let mut memo = HashMap::new();
                    if cs.iter().all(|c| ctx.evalb(*c, &m, &mut memo) == Some(true)) {
                        return Res::Sat(Rc::new(m));
                    }
                    self.errors.push("bit-vector model failed exact evaluation".into());
                }
                _ => {}
            }
        }
        let (s, vars, _) = Self::script(ctx, cs, pb, true);
        let t0 = Instant::now();
        let r = self.raw(&s, &vars);
        if t0.elapsed().as_millis() > 1000 {
            dump(&s, t0, 9);
        }
        match r {
            Ok((1, _)) => Res::Unsat,
            Ok((0, m)) => {
                let mut memo = HashMap::new();
                if cs.iter().all(|c| ctx.evalb(*c, &m, &mut memo) == Some(true)) {
                    Res::Sat(Rc::new(m))
                } else {
                    self.errors.push("nonlinear model failed exact evaluation".into());
                    Res::Unknown
                }
            }
            Ok(_) => {
                if self.cvc5(&s) == 1 {
                    Res::Unsat
                } else {
                    Res::Unknown
                }
            }
            Err(e) => {
                self.errors.push(e);
                self.kill();
                Res::Unknown
            }
        }
    }
}
