//! Hash-consed integer terms (linear polynomials over atoms) and boolean terms.
//! All terms denote mathematical integers; machine words are residues handled by exec.rs.
use crate::int::Int;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Atom = u32;
pub type B = u32;
pub const FALSE: B = 0;
pub const TRUE: B = 1;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub t: Vec<(Atom, Int)>,
    pub k: Int,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomK {
    Var(u32),
    /// product of >= 2 atoms (sorted), none of which is a Mono
    Mono(Vec<Atom>),
    /// floor(L / c), c > 0
    Div(Rc<Lin>, Int),
    /// floor(L / M), M > 0 symbolic
    DivS(Rc<Lin>, Rc<Lin>),
    /// 1 if b else 0
    B2I(B),
    Ite(B, Rc<Lin>, Rc<Lin>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BoolK {
    False,
    True,
    Le(Rc<Lin>),
    Eq(Rc<Lin>),
    Ne(Rc<Lin>),
    And(Vec<B>),
    Or(Vec<B>),
}
/// path-sensitive bounds
pub type PB = BTreeMap<Atom, (Int, Int)>;
/// a model: values of Vars
pub type Model = HashMap<Atom, Int>;

pub struct Ctx {
    pub atoms: Vec<AtomK>,
    pub abnd: Vec<(Int, Int)>,
    amap: HashMap<AtomK, Atom>,
    pub bools: Vec<BoolK>,
    bmap: HashMap<BoolK, B>,
    vars_of_atom: Vec<Option<Rc<Vec<Atom>>>>,
    vars_of_bool: Vec<Option<Rc<Vec<Atom>>>>,
    gen: std::cell::Cell<u64>,
    memo: std::cell::RefCell<Vec<(u64, (Int, Int))>>,
}

impl Lin {
    pub fn c(k: Int) -> Lin {
        Lin { t: vec![], k }
    }
    pub fn atom(a: Atom) -> Lin {
        Lin { t: vec![(a, Int::ONE)], k: Int::ZERO }
    }
    pub fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    /// self + m*o
    pub fn add_mul(&self, o: &Lin, m: &Int) -> Lin {
        if m.is_zero() {
            return self.clone();
        }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i].clone());
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1.mul(m)));
                j += 1;
            } else {
                let c = self.t[i].1.add(&o.t[j].1.mul(m));
                if !c.is_zero() {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { t, k: self.k.add(&o.k.mul(m)) }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.add_mul(o, &Int::ONE)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add_mul(o, &Int::S(-1))
    }
    pub fn addk(&self, k: &Int) -> Lin {
        Lin { t: self.t.clone(), k: self.k.add(k) }
    }
    pub fn scale(&self, m: &Int) -> Lin {
        if m.is_zero() {
            return Lin::c(Int::ZERO);
        }
        if m.is_one() {
            return self.clone();
        }
        Lin { t: self.t.iter().map(|(a, c)| (*a, c.mul(m))).collect(), k: self.k.mul(m) }
    }
    pub fn neg(&self) -> Lin {
        self.scale(&Int::S(-1))
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            atoms: vec![],
            abnd: vec![],
            amap: HashMap::new(),
            bools: vec![],
            bmap: HashMap::new(),
            vars_of_atom: vec![],
            gen: Default::default(),
            memo: Default::default(),
            vars_of_bool: vec![],
        };
        c.mkb(BoolK::False);
        c.mkb(BoolK::True);
        c
    }
    fn mkb(&mut self, k: BoolK) -> B {
        if let Some(b) = self.bmap.get(&k) {
            return *b;
        }
        let id = self.bools.len() as B;
        self.bools.push(k.clone());
        self.bmap.insert(k, id);
        self.vars_of_bool.push(None);
        id
    }
    fn mka(&mut self, k: AtomK, bnd: (Int, Int)) -> Atom {
        if let Some(a) = self.amap.get(&k) {
            return *a;
        }
        let id = self.atoms.len() as Atom;
        self.atoms.push(k.clone());
        self.abnd.push(bnd);
        self.amap.insert(k, id);
        self.vars_of_atom.push(None);
        id
    }
    pub fn var(&mut self, idx: u32, lo: Int, hi: Int) -> Atom {
        // one atom per (input index, range): ranges differ between paths
        let key = AtomK::Var(idx);
        if let Some(a) = self.amap.get(&key) {
            let b = &self.abnd[*a as usize];
            if b.0 == lo && b.1 == hi {
                return *a;
            }
            // same index with a different range on another path: a distinct atom
            let id = self.atoms.len() as Atom;
            self.atoms.push(key.clone());
            self.abnd.push((lo, hi));
            self.amap.insert(key, id);
            self.vars_of_atom.push(None);
            return id;
        }
        self.mka(key, (lo, hi))
    }
    // ---------- bounds ----------
    pub fn abound(&self, a: Atom, pb: &PB) -> (Int, Int) {
        self.gen.set(self.gen.get() + 1);
        self.abound_m(a, pb)
    }
    /// memoised within one top-level query
    fn abound_m(&self, a: Atom, pb: &PB) -> (Int, Int) {
        if !matches!(self.atoms[a as usize], AtomK::Div(..) | AtomK::Mono(..)) {
            return self.abound_u(a, pb);
        }
        let g = self.gen.get();
        if let Some((h, r)) = self.memo.borrow().get(a as usize) {
            if *h == g {
                return r.clone();
            }
        }
        let r = self.abound_u(a, pb);
        let mut m = self.memo.borrow_mut();
        if m.len() <= a as usize {
            m.resize(self.atoms.len(), (0, (Int::ZERO, Int::ZERO)));
        }
        m[a as usize] = (g, r.clone());
        r
    }
    fn abound_u(&self, a: Atom, pb: &PB) -> (Int, Int) {
        let st = &self.abnd[a as usize];
        let (mut lo, mut hi) = st.clone();
        if let Some((l, h)) = pb.get(&a) {
            if *l > lo {
                lo = l.clone()
            }
            if *h < hi {
                hi = h.clone()
            }
        }
        match &self.atoms[a as usize] {
            AtomK::Div(l, c) => {
                let (ll, lh) = self.bounds_d(l, pb, 0);
                let (ql, qh) = (ll.fdiv(c), lh.fdiv(c));
                if ql > lo {
                    lo = ql
                }
                if qh < hi {
                    hi = qh
                }
            }
            AtomK::Mono(v) => {
                let mut b = (Int::ONE, Int::ONE);
                let mut i = 0;
                while i < v.len() {
                    let mut j = i;
                    while j < v.len() && v[j] == v[i] {
                        j += 1;
                    }
                    let x = self.abound_m(v[i], pb);
                    for _ in i..j {
                        b = imul(&b, &x);
                    }
                    if (j - i) % 2 == 0 && b.0.is_neg() && j - i == v.len() {
                        b.0 = Int::ZERO;
                    }
                    i = j;
                }
                if b.0 > lo {
                    lo = b.0
                }
                if b.1 < hi {
                    hi = b.1
                }
            }
            _ => {}
        }
        (lo, hi)
    }
    pub fn bounds(&self, l: &Lin, pb: &PB) -> (Int, Int) {
        self.gen.set(self.gen.get() + 1);
        self.bounds_d(l, pb, 0)
    }
    fn bounds_d(&self, l: &Lin, pb: &PB, depth: u32) -> (Int, Int) {
        let mut lo = l.k.clone();
        let mut hi = l.k.clone();
        for (a, c) in &l.t {
            let (al, ah) = self.abound_m(*a, pb);
            if c.is_neg() {
                lo = lo.add(&ah.mul(c));
                hi = hi.add(&al.mul(c));
            } else {
                lo = lo.add(&al.mul(c));
                hi = hi.add(&ah.mul(c));
            }
        }
        // x - c*floor(x/c) lies in [0, c-1]
        if depth < 3 && l.t.len() > 1 {
            for (a, k) in l.t.iter() {
                if let AtomK::Div(x, c) = &self.atoms[*a as usize] {
                    // m * (floor(x / c2) - (c / c2) * floor(x / c)) lies in [0, m * (c / c2 - 1)]
                    for (la, m) in l.t.iter() {
                        if la == a {
                            continue;
                        }
                        if let AtomK::Div(x2, c2) = &self.atoms[*la as usize] {
                            if x2 == x && c.fmod(c2).is_zero() && *k == m.mul(&c.fdiv(c2)).neg() {
                                let rest = l.add_mul(&Lin::atom(*a), &k.neg()).add_mul(&Lin::atom(*la), &m.neg());
                                let (rl, rh) = self.bounds_d(&rest, pb, depth + 1);
                                let r = m.mul(&c.fdiv(c2).sub(&Int::ONE));
                                let (l2, h2) = if m.is_neg() { (rl.add(&r), rh) } else { (rl, rh.add(&r)) };
                                if l2 > lo {
                                    lo = l2
                                }
                                if h2 < hi {
                                    hi = h2
                                }
                            }
                        }
                    }
                    if !k.fmod(c).is_zero() {
                        continue;
                    }
                    let m = k.neg().fdiv(c);
                    // only when some term of x really cancels
                    if !x.t.iter().any(|(xa, xc)| l.t.iter().any(|(la, lc)| la == xa && *lc == xc.mul(&m))) {
                        continue;
                    }
                    let rest = l.add_mul(&Lin::atom(*a), &k.neg()).add_mul(x, &m.neg());
                    let (rl, rh) = self.bounds_d(&rest, pb, depth + 1);
                    let r = m.mul(&c.sub(&Int::ONE));
                    let (l2, h2) = if m.is_neg() { (rl.add(&r), rh) } else { (rl, rh.add(&r)) };
                    if l2 > lo {
                        lo = l2
                    }
                    if h2 < hi {
                        hi = h2
                    }
                }
            }
        }
        (lo, hi)
    }
    // ---------- integer constructors ----------
    pub fn mul(&mut self, a: &Lin, b: &Lin) -> Lin {
        if a.is_const() {
            return b.scale(&a.k);
        }
        if b.is_const() {
            return a.scale(&b.k);
        }
        let mut acc: BTreeMap<Atom, Int> = BTreeMap::new();
        let mut addt = |at: Atom, c: Int, acc: &mut BTreeMap<Atom, Int>| {
            let e = acc.entry(at).or_insert(Int::ZERO);
            *e = e.add(&c);
        };
        for (x, c) in &a.t {
            if !b.k.is_zero() {
                addt(*x, c.mul(&b.k), &mut acc);
            }
        }
        for (y, d) in &b.t {
            if !a.k.is_zero() {
                addt(*y, d.mul(&a.k), &mut acc);
            }
        }
        for (x, c) in &a.t {
            for (y, d) in &b.t {
                let m = self.mono(*x, *y);
                addt(m, c.mul(d), &mut acc);
            }
        }
        Lin { t: acc.into_iter().filter(|(_, c)| !c.is_zero()).collect(), k: a.k.mul(&b.k) }
    }
    fn mono(&mut self, x: Atom, y: Atom) -> Atom {
        let mut v = vec![];
        for z in [x, y] {
            match &self.atoms[z as usize] {
                AtomK::Mono(w) => v.extend(w.iter().copied()),
                _ => v.push(z),
            }
        }
        v.sort();
        // idempotent 0/1 atoms
        let mut w: Vec<Atom> = vec![];
        for z in v {
            if w.last() == Some(&z) && matches!(self.atoms[z as usize], AtomK::B2I(_)) {
                continue;
            }
            w.push(z);
        }
        if w.len() == 1 {
            return w[0];
        }
        let empty = PB::new();
        let mut b = (Int::ONE, Int::ONE);
        for z in &w {
            b = imul(&b, &self.abound(*z, &empty));
        }
        self.mka(AtomK::Mono(w), b)
    }
    /// floor(l / c)
    pub fn div(&mut self, l: &Lin, c: &Int, pb: &PB) -> Lin {
        debug_assert!(!c.is_neg() && !c.is_zero());
        if c.is_one() {
            return l.clone();
        }
        let mut q = Lin::c(Int::ZERO);
        let mut r = Lin::c(Int::ZERO);
        for (a, k) in &l.t {
            let (kq, kr) = k.tdivrem(c);
            if !kq.is_zero() {
                q.t.push((*a, kq));
            }
            if !kr.is_zero() {
                r.t.push((*a, kr));
            }
        }
        let (kq, kr) = l.k.fdivrem(c);
        q.k = kq;
        r.k = kr;
        if r.is_const() {
            return q;
        }
        let (lo, hi) = self.bounds(&r, pb);
        let (ql, qh) = (lo.fdiv(c), hi.fdiv(c));
        if ql == qh {
            return q.addk(&ql);
        }
        // the same with remainders of least magnitude
        let two = Int::S(2);
        if r.t.iter().any(|(_, k)| k.abs().mul(&two) > *c) {
            let mut q = Lin::c(Int::ZERO);
            let mut r = Lin::c(Int::ZERO);
            for (a, k) in &l.t {
                let (mut kq, mut kr) = k.fdivrem(c);
                if kr.mul(&two) > *c {
                    kq = kq.addi(1);
                    kr = kr.sub(c);
                }
                if !kq.is_zero() {
                    q.t.push((*a, kq));
                }
                if !kr.is_zero() {
                    r.t.push((*a, kr));
                }
            }
            let (kq, kr) = l.k.fdivrem(c);
            q.k = kq;
            r.k = kr;
            let (lo, hi) = self.bounds(&r, pb);
            let (ql, qh) = (lo.fdiv(c), hi.fdiv(c));
            if ql == qh {
                return q.addk(&ql);
            }
        }
        let mut c = c.clone();
        let mut g = c.clone();
        for (_, k) in &r.t {
            g = g.gcd(k);
        }
        if !g.is_one() {
            r = Lin { t: r.t.iter().map(|(a, k)| (*a, k.fdiv(&g))).collect(), k: r.k.fdiv(&g) };
            c = c.fdiv(&g);
            if c.is_one() {
                return q.add(&r);
            }
        }
        if r.t.len() == 1 && r.t[0].1.is_one() {
            if let AtomK::Div(l2, c2) = &self.atoms[r.t[0].0 as usize] {
                let l3 = l2.addk(&r.k.mul(c2));
                let c3 = c2.mul(&c);
                let x = self.div(&l3, &c3, pb);
                return q.add(&x);
            }
        }
        // canonical: negative leading coefficient kept as is
        let empty = PB::new();
        let (lo, hi) = self.bounds(&r, &empty);
        let b = (lo.fdiv(&c), hi.fdiv(&c));
        let a = self.mka(AtomK::Div(Rc::new(r), c), b);
        q.add(&Lin::atom(a))
    }
    /// floor(l / m), m > 0 known
    pub fn div_sym(&mut self, l: &Lin, m: &Lin) -> Lin {
        let empty = PB::new();
        let (lo, hi) = self.bounds(l, &empty);
        let (mut lo, mut hi) = (lo.min_(&Int::ZERO), hi.max_(&Int::ZERO));
        let (ml, _) = self.bounds(m, &empty);
        if ml > Int::ZERO {
            hi = hi.fdiv(&ml);
            lo = lo.fdiv(&ml);
        }
        let a = self.mka(AtomK::DivS(Rc::new(l.clone()), Rc::new(m.clone())), (lo, hi));
        Lin::atom(a)
    }
    pub fn b2i(&mut self, b: B) -> Lin {
        match b {
            FALSE => Lin::c(Int::ZERO),
            TRUE => Lin::c(Int::ONE),
            _ => {
                let nb = self.not(b);
                // canonical polarity
                if nb < b {
                    let x = self.b2i(nb);
                    return Lin::c(Int::ONE).sub(&x);
                }
                let a = self.mka(AtomK::B2I(b), (Int::ZERO, Int::ONE));
                Lin::atom(a)
            }
        }
    }
    pub fn ite(&mut self, b: B, x: &Lin, y: &Lin) -> Lin {
        match b {
            TRUE => return x.clone(),
            FALSE => return y.clone(),
            _ => {}
        }
        let d = x.sub(y);
        if d.is_const() {
            let bi = self.b2i(b);
            return y.add_mul(&bi, &d.k);
        }
        let empty = PB::new();
        let (l1, h1) = self.bounds(x, &empty);
        let (l2, h2) = self.bounds(y, &empty);
        let a = self.mka(AtomK::Ite(b, Rc::new(x.clone()), Rc::new(y.clone())), (l1.min_(&l2), h1.max_(&h2)));
        Lin::atom(a)
    }
    // ---------- boolean constructors ----------
    /// l <= 0
    pub fn le0(&mut self, l: &Lin) -> B {
        if l.is_const() {
            return (l.k <= Int::ZERO) as B;
        }
        let mut g = Int::ZERO;
        for (_, c) in &l.t {
            g = g.gcd(c);
        }
        let l = if g.is_one() { l.clone() } else { Lin { t: l.t.iter().map(|(a, c)| (*a, c.fdiv(&g))).collect(), k: l.k.cdiv(&g) } };
        let (lo, hi) = self.bounds(&l, &PB::new());
        if hi <= Int::ZERO {
            return TRUE;
        }
        if lo > Int::ZERO {
            return FALSE;
        }
        if l.t.len() == 1 {
            if let AtomK::B2I(b) = self.atoms[l.t[0].0 as usize] {
                let v0 = l.k <= Int::ZERO;
                let v1 = l.k.add(&l.t[0].1) <= Int::ZERO;
                return match (v0, v1) {
                    (true, true) => TRUE,
                    (false, false) => FALSE,
                    (false, true) => b,
                    (true, false) => self.not(b),
                };
            }
        }
        self.mkb(BoolK::Le(Rc::new(l)))
    }
    pub fn le(&mut self, a: &Lin, b: &Lin) -> B {
        let d = a.sub(b);
        self.le0(&d)
    }
    pub fn lt(&mut self, a: &Lin, b: &Lin) -> B {
        let d = a.sub(b).addk(&Int::ONE);
        self.le0(&d)
    }
    pub fn eq0(&mut self, l: &Lin) -> B {
        if l.is_const() {
            return l.k.is_zero() as B;
        }
        let mut g = Int::ZERO;
        for (_, c) in &l.t {
            g = g.gcd(c);
        }
        if !l.k.fmod(&g).is_zero() {
            return FALSE;
        }
        let g = if l.t[0].1.is_neg() { g.neg() } else { g };
        let l = if g.is_one() { l.clone() } else { Lin { t: l.t.iter().map(|(a, c)| (*a, c.tdivrem(&g).0)).collect(), k: l.k.tdivrem(&g).0 } };
        let (lo, hi) = self.bounds(&l, &PB::new());
        if lo > Int::ZERO || hi < Int::ZERO {
            return FALSE;
        }
        if l.t.len() == 1 {
            if let AtomK::B2I(b) = self.atoms[l.t[0].0 as usize] {
                let v0 = l.k.is_zero();
                let v1 = l.k.add(&l.t[0].1).is_zero();
                return match (v0, v1) {
                    (true, true) => TRUE,
                    (false, false) => FALSE,
                    (false, true) => b,
                    (true, false) => self.not(b),
                };
            }
        }
        self.mkb(BoolK::Eq(Rc::new(l)))
    }
    pub fn eq(&mut self, a: &Lin, b: &Lin) -> B {
        let d = a.sub(b);
        self.eq0(&d)
    }
    pub fn not(&mut self, b: B) -> B {
        match self.bools[b as usize].clone() {
            BoolK::False => TRUE,
            BoolK::True => FALSE,
            BoolK::Le(l) => {
                let n = l.neg().addk(&Int::ONE);
                self.le0(&n)
            }
            BoolK::Eq(l) => self.mkb(BoolK::Ne(l)),
            BoolK::Ne(l) => self.mkb(BoolK::Eq(l)),
            BoolK::And(v) => {
                let w: Vec<B> = v.iter().map(|x| self.not(*x)).collect();
                self.or(&w)
            }
            BoolK::Or(v) => {
                let w: Vec<B> = v.iter().map(|x| self.not(*x)).collect();
                self.and(&w)
            }
        }
    }
    pub fn and(&mut self, v: &[B]) -> B {
        let mut w: Vec<B> = vec![];
        for &b in v {
            match &self.bools[b as usize] {
                BoolK::True => {}
                BoolK::False => return FALSE,
                BoolK::And(x) => w.extend(x.iter().copied()),
                _ => w.push(b),
            }
        }
        w.sort();
        w.dedup();
        for i in 0..w.len() {
            let n = self.not(w[i]);
            if w.binary_search(&n).is_ok() {
                return FALSE;
            }
        }
        match w.len() {
            0 => TRUE,
            1 => w[0],
            _ => self.mkb(BoolK::And(w)),
        }
    }
    pub fn or(&mut self, v: &[B]) -> B {
        let mut w: Vec<B> = vec![];
        for &b in v {
            match &self.bools[b as usize] {
                BoolK::False => {}
                BoolK::True => return TRUE,
                BoolK::Or(x) => w.extend(x.iter().copied()),
                _ => w.push(b),
            }
        }
        w.sort();
        w.dedup();
        match w.len() {
            0 => FALSE,
            1 => w[0],
            _ => {
                // x or not x
                for i in 0..w.len() {
                    let n = match &self.bools[w[i] as usize] {
                        BoolK::And(_) => continue,
                        _ => self.not(w[i]),
                    };
                    if w.binary_search(&n).is_ok() {
                        return TRUE;
                    }
                }
                self.mkb(BoolK::Or(w))
            }
        }
    }
    /// truth under path bounds, if determined by intervals
    pub fn truth(&self, b: B, pb: &PB) -> Option<bool> {
        match &self.bools[b as usize] {
            BoolK::True => Some(true),
            BoolK::False => Some(false),
            BoolK::Le(l) => {
                let (lo, hi) = self.bounds(l, pb);
                if hi <= Int::ZERO {
                    Some(true)
                } else if lo > Int::ZERO {
                    Some(false)
                } else {
                    None
                }
            }
            BoolK::Eq(l) | BoolK::Ne(l) => {
                let ne = matches!(self.bools[b as usize], BoolK::Ne(_));
                let (lo, hi) = self.bounds(l, pb);
                if lo > Int::ZERO || hi < Int::ZERO {
                    Some(ne)
                } else if lo == hi {
                    Some(!ne)
                } else {
                    None
                }
            }
            BoolK::And(v) => {
                let mut all = true;
                for x in v {
                    match self.truth(*x, pb) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            BoolK::Or(v) => {
                let mut all = true;
                for x in v {
                    match self.truth(*x, pb) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(false)
                } else {
                    None
                }
            }
        }
    }
    /// Tighten path bounds with a fact. Returns false if it is contradictory by intervals.
    pub fn propagate(&mut self, b: B, pb: &mut PB, depth: u32) -> bool {
        match self.bools[b as usize].clone() {
            BoolK::True => true,
            BoolK::False => false,
            BoolK::Le(l) => self.prop_le(&l, pb, depth),
            BoolK::Eq(l) => self.prop_le(&l, pb, depth) && self.prop_le(&l.neg(), pb, depth),
            BoolK::Ne(l) => {
                if l.t.len() == 1 && l.t[0].1.is_one() {
                    let v = l.k.neg();
                    let (lo, hi) = self.abound(l.t[0].0, pb);
                    if lo == hi && lo == v {
                        return false;
                    }
                    if lo == v {
                        return self.tighten(l.t[0].0, Some(lo.add(&Int::ONE)), None, pb, depth);
                    }
                    if hi == v {
                        return self.tighten(l.t[0].0, None, Some(hi.sub(&Int::ONE)), pb, depth);
                    }
                }
                true
            }
            BoolK::And(v) => {
                for x in v {
                    if !self.propagate(x, pb, depth) {
                        return false;
                    }
                }
                true
            }
            BoolK::Or(v) => {
                let mut cand = None;
                let mut n = 0;
                for x in &v {
                    match self.truth(*x, pb) {
                        Some(false) => {}
                        Some(true) => return true,
                        None => {
                            n += 1;
                            cand = Some(*x);
                        }
                    }
                }
                if n == 0 {
                    return false;
                }
                if n == 1 && depth < 6 {
                    return self.propagate(cand.unwrap(), pb, depth + 1);
                }
                true
            }
        }
    }
    fn prop_le(&mut self, l: &Lin, pb: &mut PB, depth: u32) -> bool {
        let bs: Vec<(Int, Int)> = l.t.iter().map(|(a, _)| self.abound(*a, pb)).collect();
        let mut lo = l.k.clone();
        let mins: Vec<Int> = l.t.iter().zip(&bs).map(|((_, c), (al, ah))| if c.is_neg() { ah.mul(c) } else { al.mul(c) }).collect();
        for m in &mins {
            lo = lo.add(m);
        }
        if lo > Int::ZERO {
            return false;
        }
        for i in 0..l.t.len() {
            let (a, c) = &l.t[i];
            // c*x <= -(lo - min_i)
            let rhs = lo.sub(&mins[i]).neg();
            if c.is_neg() {
                let nl = rhs.neg().cdiv(&c.neg());
                if nl > bs[i].0 && !self.tighten(*a, Some(nl), None, pb, depth) {
                    return false;
                }
            } else {
                let nh = rhs.fdiv(c);
                if nh < bs[i].1 && !self.tighten(*a, None, Some(nh), pb, depth) {
                    return false;
                }
            }
        }
        true
    }
    fn tighten(&mut self, a: Atom, nl: Option<Int>, nh: Option<Int>, pb: &mut PB, depth: u32) -> bool {
        let (mut lo, mut hi) = self.abound(a, pb);
        if let Some(l) = nl {
            if l > lo {
                lo = l
            }
        }
        if let Some(h) = nh {
            if h < hi {
                hi = h
            }
        }
        if lo > hi {
            return false;
        }
        pb.insert(a, (lo.clone(), hi.clone()));
        if depth >= 6 {
            return true;
        }
        match self.atoms[a as usize].clone() {
            AtomK::Div(l, c) => {
                // c*lo <= l <= c*hi + c-1
                let up = l.addk(&c.mul(&hi).add(&c).sub(&Int::ONE).neg());
                let dn = l.neg().addk(&c.mul(&lo));
                (up.is_const() || self.prop_le(&up, pb, depth + 1)) && (dn.is_const() || self.prop_le(&dn, pb, depth + 1))
            }
            AtomK::B2I(b) => {
                if lo == hi {
                    let f = if lo.is_one() { b } else { self.not(b) };
                    return self.propagate(f, pb, depth + 1);
                }
                true
            }
            _ => true,
        }
    }
    // ---------- evaluation under a model ----------
    pub fn eval_atom(&self, a: Atom, m: &Model, memo: &mut HashMap<Atom, Int>) -> Option<Int> {
        if let Some(v) = memo.get(&a) {
            return Some(v.clone());
        }
        let v = match &self.atoms[a as usize] {
            AtomK::Var(_) => match m.get(&a) {
                Some(v) => v.clone(),
                None => self.abnd[a as usize].0.clone(),
            },
            AtomK::Mono(v) => {
                let mut r = Int::ONE;
                for x in v {
                    r = r.mul(&self.eval_atom(*x, m, memo)?);
                }
                r
            }
            AtomK::Div(l, c) => self.eval(l, m, memo)?.fdiv(c),
            AtomK::DivS(l, d) => {
                let d = self.eval(d, m, memo)?;
                if d.is_zero() {
                    return None;
                }
                self.eval(l, m, memo)?.fdiv(&d)
            }
            AtomK::B2I(b) => {
                if self.evalb(*b, m, memo)? {
                    Int::ONE
                } else {
                    Int::ZERO
                }
            }
            AtomK::Ite(b, x, y) => {
                if self.evalb(*b, m, memo)? {
                    self.eval(x, m, memo)?
                } else {
                    self.eval(y, m, memo)?
                }
            }
        };
        memo.insert(a, v.clone());
        Some(v)
    }
    pub fn eval(&self, l: &Lin, m: &Model, memo: &mut HashMap<Atom, Int>) -> Option<Int> {
        let mut r = l.k.clone();
        for (a, c) in &l.t {
            r = r.add(&self.eval_atom(*a, m, memo)?.mul(c));
        }
        Some(r)
    }
    pub fn evalb(&self, b: B, m: &Model, memo: &mut HashMap<Atom, Int>) -> Option<bool> {
        Some(match &self.bools[b as usize] {
            BoolK::True => true,
            BoolK::False => false,
            BoolK::Le(l) => self.eval(l, m, memo)? <= Int::ZERO,
            BoolK::Eq(l) => self.eval(l, m, memo)?.is_zero(),
            BoolK::Ne(l) => !self.eval(l, m, memo)?.is_zero(),
            BoolK::And(v) => {
                for x in v {
                    if !self.evalb(*x, m, memo)? {
                        return Some(false);
                    }
                }
                true
            }
            BoolK::Or(v) => {
                for x in v {
                    if self.evalb(*x, m, memo)? {
                        return Some(true);
                    }
                }
                false
            }
        })
    }
    // ---------- variable supports ----------
    pub fn atom_vars(&mut self, a: Atom) -> Rc<Vec<Atom>> {
        if let Some(v) = &self.vars_of_atom[a as usize] {
            return v.clone();
        }
        let mut out = vec![];
        match self.atoms[a as usize].clone() {
            AtomK::Var(_) => out.push(a),
            AtomK::Mono(v) => {
                for x in v {
                    out.extend(self.atom_vars(x).iter().copied());
                }
            }
            AtomK::Div(l, _) => self.lin_vars(&l, &mut out),
            AtomK::DivS(l, m) => {
                self.lin_vars(&l, &mut out);
                self.lin_vars(&m, &mut out);
            }
            AtomK::B2I(b) => out.extend(self.bool_vars(b).iter().copied()),
            AtomK::Ite(b, x, y) => {
                out.extend(self.bool_vars(b).iter().copied());
                self.lin_vars(&x, &mut out);
                self.lin_vars(&y, &mut out);
            }
        }
        out.sort();
        out.dedup();
        let r = Rc::new(out);
        self.vars_of_atom[a as usize] = Some(r.clone());
        r
    }
    pub fn lin_vars(&mut self, l: &Lin, out: &mut Vec<Atom>) {
        for (a, _) in &l.t {
            let v = self.atom_vars(*a);
            out.extend(v.iter().copied());
        }
    }
    pub fn bool_vars(&mut self, b: B) -> Rc<Vec<Atom>> {
        if let Some(v) = &self.vars_of_bool[b as usize] {
            return v.clone();
        }
        let mut out = vec![];
        match self.bools[b as usize].clone() {
            BoolK::Le(l) | BoolK::Eq(l) | BoolK::Ne(l) => self.lin_vars(&l, &mut out),
            BoolK::And(v) | BoolK::Or(v) => {
                for x in v {
                    out.extend(self.bool_vars(x).iter().copied());
                }
            }
            _ => {}
        }
        out.sort();
        out.dedup();
        let r = Rc::new(out);
        self.vars_of_bool[b as usize] = Some(r.clone());
        r
    }
}
pub fn imul(a: &(Int, Int), b: &(Int, Int)) -> (Int, Int) {
    let p = [a.0.mul(&b.0), a.0.mul(&b.1), a.1.mul(&b.0), a.1.mul(&b.1)];
    let mut lo = p[0].clone();
    let mut hi = p[0].clone();
    for x in &p[1..] {
        if *x < lo {
            lo = x.clone()
        }
        if *x > hi {
            hi = x.clone()
        }
    }
    (lo, hi)
}
impl Int {
    pub fn min_(&self, o: &Int) -> Int {
        if self < o {
            self.clone()
        } else {
            o.clone()
        }
    }
    pub fn max_(&self, o: &Int) -> Int {
        if self > o {
            self.clone()
        } else {
            o.clone()
        }
    }
}
