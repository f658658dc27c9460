//! Symbolic executor for the parsed module.

use crate::ir::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    I(u128),
    F(f64),
    S(T),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: BTreeMap<u32, (T, u32)>,
    heap: bool,
    constant: bool,
}

#[derive(Clone)]
struct Frame {
    func: Rc<Func>,
    block: u32,
    ip: usize,
    prev: u32,
    regs: Vec<V>,
    dst: Option<u32>,
    next: Option<u32>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Vec<Option<Rc<Obj>>>,
    pc: Vec<T>,
    known: HashMap<T, bool>,
    model: Option<Rc<Model>>,
    names: BTreeMap<String, u32>,
    notes: Vec<(String, V)>,
    uncertain: bool,
    forks: u32,
}

#[derive(Debug)]
pub enum Stop {
    /// Path ends (return from harness, infeasible assumption, reported violation)
    End(&'static str),
    /// Something the engine cannot handle: the harness is inconclusive.
    Unsupported(String),
    /// Panic / memory error on this path.
    Bad(String, String),
}

type X<A> = Result<A, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub id: String,
    pub kind: String,
    pub msg: String,
    pub confirmed: bool,
    pub inputs: Vec<(String, Sort, CV)>,
}

#[derive(Default)]
pub struct Report {
    pub truncated: bool,
    pub paths: u64,
    pub ended: BTreeMap<String, u64>,
    pub instrs: u64,
    pub forks: u64,
    pub checks: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub declared_covers: BTreeSet<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub funcs: BTreeSet<String>,
    pub inputs: BTreeMap<String, String>,
    pub max_depth: u32,
    pub notes: Vec<Vec<(String, V)>>,
    pub sample_models: Vec<Vec<(String, Sort, CV)>>,
}

#[derive(Clone)]
pub struct Config {
    pub max_paths: u64,
    pub max_instrs: u64,
    pub time_s: f64,
    pub concretize_index: bool,
    /// Explore everything even after a violation.
    pub keep_going: bool,
    pub fixed: Option<HashMap<String, CV>>,
}

pub struct Exec<'m> {
    m: &'m Module,
    pub tm: Terms,
    pub solver: Solver,
    funcs: HashMap<String, Rc<Func>>,
    gaddr: HashMap<String, u64>,
    fnames: Vec<String>,
    work: Vec<State>,
    pub rep: Report,
    pub cfg: Config,
    masks: HashMap<T, u128>,
    start: Instant,
    first_violation: Option<Instant>,
    bad_ids: HashSet<String>,
    /// Time limit of branch feasibility queries; undecided branches are explored.
    pub branch_ms: u64,
    /// Places where a quotient or root must be known to be defined at once.
    pub eager: HashSet<(String, u32, usize)>,
    sites: HashMap<(Op, [T; 3]), HashSet<(String, u32, usize)>>,
    /// More such places were found: the run is to start over.
    pub restart: bool,
}

const FN_BASE: u64 = 0x7fff_0000_0000_0000;

fn u(v: &V) -> X<u128> {
    match v {
        V::I(x) => Ok(*x),
        V::F(f) => Ok(f.to_bits() as u128),
        _ => Err(Stop::Unsupported("concrete integer expected".into())),
    }
}

fn conv<A>(r: Result<A, String>) -> X<A> {
    r.map_err(Stop::Unsupported)
}

pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    if !n.starts_with("_R") {
        return n.to_string();
    }
    i += 2;
    while i < b.len() {
        let c = b[i];
        if c == b's' || c == b'B' {
            // disambiguator / backref: skip base-62 up to '_'
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if c.is_ascii_digit() && c != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            let mut s = i;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if l > 0 && s + l <= n.len() {
                parts.push(n[s..s + l].to_string());
                i = s + l;
                continue;
            }
        }
        i += 1;
    }
    parts.join("::")
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, real: bool, cfg: Config) -> Self {
        Exec {
            m,
            tm: Terms::new(real),
            solver: Solver::new(),
            funcs: HashMap::new(),
            gaddr: HashMap::new(),
            fnames: vec![],
            work: vec![],
            rep: Report::default(),
            cfg,
            masks: HashMap::new(),
            start: Instant::now(),
            first_violation: None,
            bad_ids: HashSet::new(), branch_ms: 5000, eager: HashSet::new(), sites: HashMap::new(), restart: false }
    }

    // ------------------------------------------------------------ setup

    fn init_state(&mut self) -> Result<State, String> {
        let mut st = State { frames: vec![], mem: vec![None], pc: vec![], known: HashMap::new(), model: Some(Rc::new(Model::new())), names: BTreeMap::new(), notes: vec![], uncertain: false, forks: 0 };
        for (i, g) in self.m.globals.iter().enumerate() {
            let id = (i + 1) as u64;
            self.gaddr.insert(g.name.clone(), id << 32);
            st.mem.push(Some(Rc::new(Obj { data: vec![0; g.ty.size() as usize], sym: BTreeMap::new(), heap: false, constant: g.constant })));
        }
        let mut names: Vec<String> = self.m.defs.keys().cloned().collect();
        names.extend(self.m.decls.iter().cloned());
        names.sort();
        for n in names {
            let a = FN_BASE + 16 * (self.fnames.len() as u64);
            self.gaddr.insert(n.clone(), a);
            self.fnames.push(n);
        }
        for (i, g) in self.m.globals.iter().enumerate() {
            if let Some(c) = &g.init {
                let mut buf = vec![0u8; g.ty.size() as usize];
                self.fill(&mut buf, 0, &g.ty, c);
                if let Some(o) = st.mem[i + 1].as_mut() {
                    Rc::make_mut(o).data = buf;
                }
            }
        }
        Ok(st)
    }

    fn fill(&self, buf: &mut [u8], off: usize, ty: &Ty, c: &Const) {
        match c {
            Const::Int(v) => {
                let n = ty.size() as usize;
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Const::F64(f) => match ty {
                Ty::Float => buf[off..off + 4].copy_from_slice(&(*f as f32).to_le_bytes()),
                _ => buf[off..off + 8].copy_from_slice(&f.to_le_bytes()),
            },
            Const::Zero | Const::Undef => {}
            Const::Global(g, o) => {
                let a = self.gaddr.get(g).copied().unwrap_or(0).wrapping_add(*o as u64);
                buf[off..off + 8].copy_from_slice(&a.to_le_bytes());
            }
            Const::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            Const::Agg(v) => {
                for ((o, t), (_, c)) in ty.elems().into_iter().zip(v.iter()) {
                    self.fill(buf, off + o as usize, &t, c);
                }
            }
            Const::Splat(b) => {
                for (o, t) in ty.elems() {
                    self.fill(buf, off + o as usize, &t, &b.1);
                }
            }
        }
    }

    fn func(&mut self, name: &str) -> X<Rc<Func>> {
        if let Some(f) = self.funcs.get(name) {
            return Ok(f.clone());
        }
        let f = Rc::new(conv(self.m.parse_func(name))?);
        self.rep.funcs.insert(name.to_string());
        self.funcs.insert(name.to_string(), f.clone());
        Ok(f)
    }

    // ------------------------------------------------------------ driver

    pub fn run(&mut self, harness: &str) {
        let mut st = match self.init_state() {
            Ok(s) => s,
            Err(e) => {
                self.rep.inconclusive.push(e);
                return;
            }
        };
        let f = match self.func(harness) {
            Ok(f) => f,
            Err(e) => {
                self.rep.inconclusive.push(format!("{:?}", e));
                return;
            }
        };
        self.push_frame(&mut st, f, vec![], None, None);
        self.work.push(st);
        while let Some(mut s) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.cfg.time_s {
                self.rep.inconclusive.push(format!("time budget of {} s exhausted with {} paths pending", self.cfg.time_s, self.work.len() + 1));
                break;
            }
            if self.past_violation(20.0) {
                self.rep.truncated = true;
                break;
            }
            if self.rep.paths >= self.cfg.max_paths {
                self.rep.inconclusive.push(format!("path budget {} exhausted with {} paths pending", self.cfg.max_paths, self.work.len() + 1));
                break;
            }
            let stop = self.run_path(&mut s);
            if self.restart {
                return;
            }
            self.rep.paths += 1;
            self.rep.max_depth = self.rep.max_depth.max(s.forks);
            if std::env::var("LLSYM_TRACE").is_ok() {
                eprintln!("path {} depth {} pc {} -> {:?}   work {}  t={:.1}", self.rep.paths, s.forks, s.pc.len(), stop, self.work.len(), self.start.elapsed().as_secs_f64());
            }
            match stop {
                Stop::End(k) => {
                    *self.rep.ended.entry(k.to_string()).or_insert(0) += 1;
                    if k == "return" {
                        if self.cfg.fixed.is_some() {
                            self.rep.notes.push(s.notes.clone());
                        }
                        if self.rep.sample_models.len() < 3 {
                            if let Some(m) = s.model.clone() {
                                let inp = self.inputs_of(&m);
                                self.rep.sample_models.push(inp);
                            }
                        }
                    }
                }
                Stop::Unsupported(e) => {
                    *self.rep.ended.entry("unsupported".into()).or_insert(0) += 1;
                    let loc = self.location(&s);
                    self.rep.inconclusive.push(format!("{} at {}", e, loc));
                }
                Stop::Bad(kind, msg) => {
                    *self.rep.ended.entry(kind.clone()).or_insert(0) += 1;
                    let loc = self.location(&s);
                    let id = kind.clone();
                    if !self.bad_ids.contains(&format!("{}:{}", kind, loc)) {
                        self.bad_ids.insert(format!("{}:{}", kind, loc));
                        self.violation(&mut s, None, id, kind, format!("{} in {}", msg, loc));
                    }
                }
            }
            if self.rep.violations.iter().any(|v| v.confirmed) && self.rep.violations.len() >= 4 {
                break;
            }
            if self.rep.inconclusive.len() > 20 {
                break;
            }
        }
    }

    fn location(&self, s: &State) -> String {
        let n = s.frames.len();
        s.frames[n.saturating_sub(4)..].iter().map(|f| demangle(&f.func.name)).collect::<Vec<_>>().join(" > ")
    }

    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, dst: Option<u32>, next: Option<u32>) {
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (k, a) in args.into_iter().enumerate() {
            if k < f.params.len() {
                regs[f.params[k].1 as usize] = a;
            }
        }
        st.frames.push(Frame { func: f, block: 0, ip: 0, prev: u32::MAX, regs, dst, next, allocas: vec![] });
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        loop {
            self.rep.instrs += 1;
            if self.rep.instrs > self.cfg.max_instrs {
                return Stop::Unsupported("instruction budget exhausted".into());
            }
            if self.rep.instrs & 0xffff == 0 && self.past_violation(20.0) {
                self.rep.truncated = true;
                return Stop::End("truncated");
            }
            if self.rep.instrs & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.cfg.time_s {
                return Stop::Unsupported("time budget exhausted".into());
            }
            if let Err(e) = self.step(st) {
                return e;
            }
            if self.restart {
                return Stop::End("restart");
            }
        }
    }

    // ------------------------------------------------------------ values

    fn cval(&self, c: &Const, ty: &Ty) -> X<V> {
        Ok(match c {
            Const::Int(v) => V::I(*v),
            Const::F64(f) => V::F(*f),
            Const::Zero | Const::Undef => self.zero(ty),
            Const::Global(g, o) => V::I(self.gaddr.get(g).copied().ok_or_else(|| Stop::Unsupported(format!("unknown global {}", g)))?.wrapping_add(*o as u64) as u128),
            Const::Agg(v) => V::A(Rc::new(v.iter().map(|(t, c)| self.cval(c, t)).collect::<X<Vec<V>>>()?)),
            Const::Splat(b) => {
                let n = match ty {
                    Ty::Vec(n, _) => *n as usize,
                    _ => return Err(Stop::Unsupported("splat".into())),
                };
                V::A(Rc::new(vec![self.cval(&b.1, &b.0)?; n]))
            }
            Const::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(*x as u128)).collect())),
        })
    }

    fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Double | Ty::Float => V::F(0.0),
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => V::A(Rc::new(ty.elems().iter().map(|(_, t)| self.zero(t)).collect())),
            _ => V::I(0),
        }
    }

    fn ev(&self, st: &State, o: &Opd, ty: &Ty) -> X<V> {
        match o {
            Opd::Reg(r) => Ok(st.frames.last().unwrap().regs[*r as usize].clone()),
            Opd::C(c) => self.cval(c, ty),
        }
    }

    fn set(&self, st: &mut State, r: u32, v: V) {
        st.frames.last_mut().unwrap().regs[r as usize] = v;
    }

    /// Term for a value of a given (scalar) type.
    fn term(&mut self, v: &V, ty: &Ty) -> X<T> {
        Ok(match v {
            V::S(t) => *t,
            V::I(x) => match ty {
                Ty::Double => self.tm.f(f64::from_bits(*x as u64)),
                _ => self.tm.i(*x, ty.bits()),
            },
            V::F(f) => self.tm.f(*f),
            V::A(_) => return Err(Stop::Unsupported("aggregate as term".into())),
        })
    }

    fn unterm(&self, t: T) -> V {
        match self.tm.is_const(t) {
            Some(CV::B(b)) => V::I(b as u128),
            Some(CV::I(i)) => V::I(i),
            Some(CV::F(f)) => V::F(f),
            None => V::S(t),
        }
    }

    fn isort(ty: &Ty) -> Sort {
        match ty {
            Ty::Int(1) => Sort::B,
            Ty::Int(w) => Sort::I(*w),
            Ty::Ptr => Sort::I(64),
            _ => Sort::F,
        }
    }

    // ------------------------------------------------------------ decisions

    fn vmask(&mut self, t: T) -> u128 {
        if let Some(m) = self.masks.get(&t) {
            return *m;
        }
        // iterative post-order over the DAG with memo
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.masks.contains_key(&x) {
                continue;
            }
            let n = self.tm.n(x);
            if done {
                let mut m = 0u128;
                if let Op::Var(i) = n.op {
                    m |= 1u128 << (i & 127);
                }
                for &y in n.a.iter().filter(|y| **y != NONE) {
                    m |= self.masks[&y];
                }
                self.masks.insert(x, m);
            } else {
                st.push((x, true));
                for &y in n.a.iter().filter(|y| **y != NONE) {
                    st.push((y, false));
                }
            }
        }
        self.masks[&t]
    }

    fn slice(&mut self, st: &State, seed: T) -> Vec<T> {
        let mut m = self.vmask(seed);
        let ms: Vec<u128> = st.pc.iter().map(|t| self.vmask(*t)).collect();
        let mut inc = vec![false; ms.len()];
        loop {
            let mut ch = false;
            for i in 0..ms.len() {
                if !inc[i] && (ms[i] & m) != 0 {
                    inc[i] = true;
                    m |= ms[i];
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        st.pc.iter().enumerate().filter(|(i, _)| inc[*i]).map(|(_, t)| *t).collect()
    }

    fn default_cv(&self, i: u32) -> CV {
        let v = &self.tm.vars[i as usize];
        match v.sort {
            Sort::B => CV::B(false),
            Sort::I(_) => CV::I(v.ilo),
            Sort::F => {
                let m = if v.flo.is_finite() && v.fhi.is_finite() { 0.5 * v.flo + 0.5 * v.fhi } else { 0.0 };
                CV::F(m)
            }
        }
    }

    fn complete(&self, base: Option<&Model>, m: &Model) -> Model {
        let mut r = Model::new();
        for i in 0..self.tm.vars.len() as u32 {
            let v = m.get(&i).copied().or(base.and_then(|b| b.get(&i).copied())).unwrap_or(self.default_cv(i));
            r.insert(i, v);
        }
        r
    }

    /// Does this model satisfy all the literals under IEEE semantics?
    fn holds(&self, lits: &[T], m: &Model) -> bool {
        let mut memo = HashMap::new();
        lits.iter().all(|t| self.tm.eval(*t, m, &mut memo) == Some(CV::B(true)))
    }

    fn assume(&mut self, st: &mut State, lit: T) {
        st.pc.push(lit);
        self.learn(st, lit);
    }

    fn learn(&mut self, st: &mut State, lit: T) {
        let n = self.tm.n(lit);
        match n.op {
            Op::Not => {
                let x = n.a[0];
                st.known.insert(x, false);
                let nx = self.tm.n(x);
                if nx.op == Op::Or {
                    for k in 0..2 {
                        let y = self.tm.not(nx.a[k]);
                        self.learn(st, y);
                    }
                }
            }
            Op::And => {
                st.known.insert(lit, true);
                for k in 0..2 {
                    self.learn(st, n.a[k]);
                }
            }
            _ => {
                st.known.insert(lit, true);
            }
        }
    }

    fn lookup(&self, st: &State, c: T) -> Option<bool> {
        if let Some(CV::B(b)) = self.tm.is_const(c) {
            return Some(b);
        }
        if let Some(b) = st.known.get(&c) {
            return Some(*b);
        }
        let n = self.tm.n(c);
        match n.op {
            Op::Not => self.lookup(st, n.a[0]).map(|b| !b),
            Op::And => match (self.lookup(st, n.a[0]), self.lookup(st, n.a[1])) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.lookup(st, n.a[0]), self.lookup(st, n.a[1])) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            // complementary comparisons
            Op::FLt | Op::FLe if self.tm.real => {
                let b = self.tm.base[c as usize];
                if b.ilo == b.ihi {
                    return Some(b.ilo == 1);
                }
                None
            }
            _ => {
                let b = self.tm.base[c as usize];
                if n.op != Op::FEq && b.ilo == b.ihi {
                    return Some(b.ilo == 1);
                }
                None
            }
        }
    }

    /// May the question whether this quotient or root is defined wait until its
    /// value matters? Marks the term about to be built if so.
    fn postpone(&mut self, st: &State, op: Op, a: [T; 3]) -> bool {
        if self.cfg.fixed.is_some() || self.tm.has_safe(op, a) {
            return false;
        }
        let f = st.frames.last().unwrap();
        let site = (f.func.name.clone(), f.block, f.ip);
        if self.eager.contains(&site) || self.eager.contains(&("*".to_string(), 0, 0)) {
            return false;
        }
        self.sites.entry((op, a)).or_default().insert(site);
        self.tm.lazy = true;
        true
    }

    /// Are all quotients and roots in these literals defined on this path? If
    /// not, the places that built them decide at once from the next run on.
    fn defined(&mut self, st: &State, lits: &[T]) -> bool {
        let mut all: Vec<T> = vec![];
        for l in lits {
            if let Some(r) = &self.tm.risk[*l as usize] {
                all.extend(r.iter());
            }
        }
        if all.is_empty() {
            return true;
        }
        all.sort();
        all.dedup();
        let mut ok: HashSet<T> = HashSet::new();
        for k in all {
            let n = self.tm.n(k);
            let z = self.tm.f(0.0);
            let c = if n.op == Op::FDiv { self.tm.mk(Op::FEq, Sort::B, &[n.a[1], z]) } else { self.tm.mk(Op::FLt, Sort::B, &[n.a[0], z]) };
            let safe = match c {
                Ok(c) => {
                    if self.lookup(st, c) == Some(false) {
                        true
                    } else {
                        let mut q = self.slice(st, c);
                        q.push(c);
                        q.retain(|t| self.tm.risk[*t as usize].as_ref().map_or(true, |r| r.iter().all(|x| ok.contains(x))));
                        q.contains(&c) && matches!(self.solver.check(&self.tm, &q, Relax::Outward, Some(self.branch_ms)), Res::Unsat)
                    }
                }
                Err(_) => false,
            };
            if safe {
                ok.insert(k);
            } else {
                let s = self.sites.get(&(n.op, n.a)).cloned().unwrap_or_default();
                let before = self.eager.len();
                self.eager.extend(s);
                if self.eager.len() == before {
                    self.eager.insert(("*".into(), 0, 0));
                }
                self.restart = true;
                return false;
            }
        }
        true
    }

    /// True once the first violation is `s` seconds old and nothing further is wanted.
    fn past_violation(&mut self, s: f64) -> bool {
        if self.rep.violations.is_empty() || self.cfg.keep_going {
            return false;
        }
        self.first_violation.get_or_insert_with(Instant::now).elapsed().as_secs_f64() > s
    }

    /// Query: slice of the path condition plus `lit`.
    fn query(&mut self, st: &State, lit: T, limit: Option<u64>) -> Res {
        let left = (self.cfg.time_s - self.start.elapsed().as_secs_f64()).max(1.0) * 1000.0;
        let mut cap = (left as u64).max(1000);
        if !self.rep.violations.is_empty() && !self.cfg.keep_going {
            cap = cap.min(3000);
        }
        let limit = Some(limit.unwrap_or(self.solver.timeout_ms).min(cap));
        let mut q = self.slice(st, lit);
        q.push(lit);
        let r = self.solver.check(&self.tm, &q, Relax::Outward, limit);
        if matches!(r, Res::Unsat) && !self.defined(st, &q) {
            return Res::Unknown("possibly undefined quotient or root".into());
        }
        r
    }

    fn try_model(&mut self, st: &State, lit: T, m: &Model) -> Option<Rc<Model>> {
        let full = self.complete(st.model.as_deref(), m);
        let mut l = st.pc.clone();
        l.push(lit);
        if self.holds(&l, &full) {
            Some(Rc::new(full))
        } else {
            None
        }
    }

    /// Cheap search for inputs that satisfy the path condition and `lit`. Only
    /// finds witnesses for branches to explore; it never rules anything out.
    fn guess(&mut self, st: &State, lit: T, tries: u32) -> Option<Rc<Model>> {
        let lits = {
            let mut q = self.slice(st, lit);
            q.push(lit);
            q
        };
        let mut mask = 0;
        for l in &lits {
            mask |= self.vmask(*l);
        }
        let vars: Vec<u32> = (0..self.tm.vars.len() as u32).filter(|i| *i >= 127 || mask >> i & 1 == 1).collect();
        if vars.is_empty() {
            return None;
        }
        let mut seed = 0x9E3779B97F4A7C15u64 ^ (lit as u64).wrapping_mul(0xD1B54A32D192ED03);
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            (seed >> 11) as f64 / (1u64 << 53) as f64
        };
        let base = self.complete(st.model.as_deref(), &Model::new());
        let mut best = base.clone();
        let score = |me: &Self, m: &Model| {
            let mut memo = HashMap::new();
            lits.iter().filter(|t| me.tm.eval(**t, m, &mut memo) == Some(CV::B(true))).count()
        };
        let mut best_n = score(self, &best);
        for k in 0..tries {
            let mut m = if k % 3 == 0 { base.clone() } else { best.clone() };
            let p = [0.15, 0.4, 0.8][(k / 3 % 3) as usize];
            let pick = (rnd() * vars.len() as f64) as usize;
            for (j, i) in vars.iter().enumerate() {
                if j != pick && rnd() > p {
                    continue;
                }
                let v = &self.tm.vars[*i as usize];
                let c = match v.sort {
                    Sort::B => CV::B(rnd() < 0.5),
                    Sort::I(_) => CV::I(v.ilo + ((v.ihi - v.ilo).min(1 << 60) as f64 * rnd() + 0.5) as u128),
                    Sort::F => {
                        let w = v.fhi - v.flo;
                        let r = rnd();
                        let x = if !w.is_finite() || r < 0.1 {
                            if rnd() < 0.5 { v.flo } else { v.fhi }
                        } else if r < 0.7 {
                            v.flo + w * rnd()
                        } else {
                            let old = match m.get(i) {
                                Some(CV::F(x)) => *x,
                                _ => v.flo,
                            };
                            (old + w * 0.05 * (rnd() - 0.5)).clamp(v.flo, v.fhi)
                        };
                        CV::F(x)
                    }
                };
                m.insert(*i, c);
            }
            let n = score(self, &m);
            if n == lits.len() {
                let mut all = st.pc.clone();
                all.push(lit);
                if self.holds(&all, &m) {
                    return Some(Rc::new(m));
                }
            }
            if n >= best_n {
                best_n = n;
                best = m;
            }
        }
        None
    }

    /// Decide a boolean condition on this path, forking if both outcomes are
    /// possible. The alternative re-executes the current instruction.
    fn decide(&mut self, st: &mut State, c: T) -> X<bool> {
        if let Some(b) = self.lookup(st, c) {
            return Ok(b);
        }
        let nc = self.tm.not(c);
        let mut side = None;
        if let Some(m) = st.model.clone() {
            let full = self.complete(Some(&m), &Model::new());
            let mut memo = HashMap::new();
            if let Some(CV::B(b)) = self.tm.eval(c, &full, &mut memo) {
                side = Some(b);
            }
        }
        match side {
            Some(b) => {
                let (cur, other) = if b { (c, nc) } else { (nc, c) };
                let witness = self.guess(st, other, 120);
                let r = match &witness {
                    Some(_) => None,
                    None => Some(self.query(st, other, Some(self.branch_ms))),
                };
                match r {
                    Some(Res::Unsat) => {
                        self.learn(st, cur);
                        Ok(b)
                    }
                    r => {
                        let mut alt = st.clone();
                        alt.model = match &r {
                            Some(Res::Sat(m)) => self.try_model(st, other, m),
                            _ => witness,
                        };
                        if let Some(Res::Unknown(_)) = r {
                            alt.uncertain = true;
                        }
                        alt.forks += 1;
                        self.assume(&mut alt, other);
                        self.work.push(alt);
                        self.rep.forks += 1;
                        st.forks += 1;
                        self.assume(st, cur);
                        Ok(b)
                    }
                }
            }
            None => {
                let lim = Some(self.branch_ms);
                let rt = self.query(st, c, lim);
                let rf = self.query(st, nc, lim);
                let tf = !matches!(rt, Res::Unsat);
                let ff = !matches!(rf, Res::Unsat);
                match (tf, ff) {
                    (false, false) => Err(Stop::End("infeasible")),
                    (true, false) => {
                        self.learn(st, c);
                        if let Res::Sat(m) = &rt {
                            st.model = self.try_model(st, c, m);
                        }
                        Ok(true)
                    }
                    (false, true) => {
                        self.learn(st, nc);
                        if let Res::Sat(m) = &rf {
                            st.model = self.try_model(st, nc, m);
                        }
                        Ok(false)
                    }
                    (true, true) => {
                        let mut alt = st.clone();
                        if let Res::Sat(m) = &rf {
                            alt.model = self.try_model(st, nc, m);
                        }
                        if let Res::Sat(m) = &rt {
                            st.model = self.try_model(st, c, m);
                        }
                        alt.forks += 1;
                        self.assume(&mut alt, nc);
                        self.work.push(alt);
                        self.rep.forks += 1;
                        st.forks += 1;
                        self.assume(st, c);
                        Ok(true)
                    }
                }
            }
        }
    }

    /// Turn a symbolic integer into a concrete one by case-splitting.
    fn concretize(&mut self, st: &mut State, v: &V, ty: &Ty) -> X<u128> {
        let t = match v {
            V::I(x) => return Ok(*x),
            V::S(t) => *t,
            _ => return Err(Stop::Unsupported("concretize".into())),
        };
        let w = ty.bits();
        if w == 1 {
            return Ok(self.decide(st, t)? as u128);
        }
        loop {
            let iv = self.tm.base[t as usize];
            let mut cand = None;
            if let Some(m) = st.model.clone() {
                let full = self.complete(Some(&m), &Model::new());
                let mut memo = HashMap::new();
                if let Some(CV::I(x)) = self.tm.eval(t, &full, &mut memo) {
                    cand = Some(x);
                }
            }
            if cand.is_none() {
                if iv.ihi - iv.ilo > 4096 {
                    return Err(Stop::Unsupported("concretize: range too large without model".into()));
                }
                // try every value not yet excluded
                for x in iv.ilo..=iv.ihi {
                    let k = self.tm.i(x, w);
                    let e = conv(self.tm.mk(Op::IEq, Sort::B, &[t, k]))?;
                    match self.lookup(st, e) {
                        Some(true) => return Ok(x),
                        Some(false) => continue,
                        None => {
                            cand = Some(x);
                            break;
                        }
                    }
                }
            }
            let x = match cand {
                Some(x) => x,
                None => return Err(Stop::End("infeasible")),
            };
            let k = self.tm.i(x, w);
            let e = conv(self.tm.mk(Op::IEq, Sort::B, &[t, k]))?;
            if self.decide(st, e)? {
                return Ok(x);
            }
        }
    }

    // ------------------------------------------------------------ violations

    fn inputs_of(&self, m: &Model) -> Vec<(String, Sort, CV)> {
        (0..self.tm.vars.len() as u32).map(|i| (self.tm.vars[i as usize].name.clone(), self.tm.vars[i as usize].sort, m.get(&i).copied().unwrap_or(self.default_cv(i)))).collect()
    }

    /// Look for concrete inputs that satisfy all literals under IEEE semantics.
    fn find_concrete(&mut self, st: &State, lits: &[T], first: Option<&Model>) -> (Option<Model>, Option<Model>) {
        let mut raw = None;
        if let Some(m) = &st.model {
            let full = self.complete(Some(m), &Model::new());
            if self.holds(lits, &full) {
                return (Some(full), None);
            }
        }
        let mut tries: Vec<Model> = vec![];
        if let Some(m) = first {
            let f = self.complete(st.model.as_deref(), m);
            raw = Some(f.clone());
            tries.push(f);
        }
        for k in 0..4 {
            let res = match k {
                0 => self.solver.check(&self.tm, lits, Relax::Inward(1e-3), Some(6000)),
                1 => self.solver.check(&self.tm, lits, Relax::Inward(1e-5), Some(6000)),
                2 => self.solver.check(&self.tm, lits, Relax::Inward(1e-8), Some(6000)),
                _ => self.solver.check(&self.tm, lits, Relax::Outward, Some(12000)),
            };
            match res {
                Res::Sat(m) => {
                    let f = self.complete(st.model.as_deref(), &m);
                    if self.holds(lits, &f) {
                        return (Some(f), None);
                    }
                    if raw.is_none() {
                        raw = Some(f.clone());
                    }
                    tries.push(f);
                }
                Res::Unsat if k == 3 => return (None, None),
                _ => {}
            }
            if !self.tm.real {
                break;
            }
        }
        // local search around the candidate models
        let mut seed = 0x9e3779b97f4a7c15u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            (seed >> 11) as f64 / (1u64 << 53) as f64
        };
        for base in &tries {
            if self.holds(lits, base) {
                return (Some(base.clone()), raw);
            }
            for k in 0..400 {
                let mut m = base.clone();
                for i in 0..self.tm.vars.len() as u32 {
                    let v = self.tm.vars[i as usize].clone();
                    if let Some(CV::F(x)) = m.get(&i).copied() {
                        let y = match k % 5 {
                            0 => (x * 1e3).round() / 1e3,
                            1 => x + (rnd() - 0.5) * 1e-9 * (1.0 + x.abs()),
                            2 => x + (rnd() - 0.5) * 1e-6 * (1.0 + x.abs()),
                            3 => x + (rnd() - 0.5) * 1e-3 * (1.0 + x.abs()),
                            _ => x + (rnd() - 0.5) * 2e-16 * 4.0 * (1.0 + x.abs()),
                        };
                        m.insert(i, CV::F(y.clamp(v.flo, v.fhi)));
                    }
                }
                if self.holds(lits, &m) {
                    return (Some(m), raw);
                }
            }
        }
        (None, raw)
    }

    fn violation(&mut self, st: &mut State, extra: Option<(T, Option<Model>)>, id: String, kind: String, msg: String) {
        let mut lits = st.pc.clone();
        let mut first = None;
        if let Some((t, m)) = extra {
            lits.push(t);
            first = m;
        }
        let (conc, raw) = self.find_concrete(st, &lits, first.as_ref());
        match (conc, raw) {
            (Some(m), _) => {
                let inputs = self.inputs_of(&m);
                self.rep.violations.push(Violation { id, kind, msg, confirmed: true, inputs });
            }
            (None, Some(m)) => {
                let inputs = self.inputs_of(&m);
                self.rep.violations.push(Violation { id, kind, msg, confirmed: false, inputs });
            }
            (None, None) => {
                if st.uncertain || !lits.is_empty() {
                    // the path turned out to be infeasible or undecidable
                    match self.solver.check(&self.tm, &lits, Relax::Outward, Some(60000)) {
                        Res::Unsat if self.defined(st, &lits) => {}
                        _ => self.rep.inconclusive.push(format!("{}: {} (solver could not decide the path)", id, msg)),
                    }
                } else {
                    self.rep.violations.push(Violation { id, kind, msg, confirmed: true, inputs: vec![] });
                }
            }
        }
    }

    // ------------------------------------------------------------ memory

    fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u64 {
        let id = st.mem.len() as u64;
        st.mem.push(Some(Rc::new(Obj { data: vec![0; size as usize], sym: BTreeMap::new(), heap, constant: false })));
        id << 32
    }

    fn locate(&self, st: &State, addr: u64, size: u64, what: &str) -> X<(usize, u32)> {
        let id = (addr >> 32) as usize;
        let off = addr & 0xffff_ffff;
        match st.mem.get(id) {
            Some(Some(o)) => {
                if off + size <= o.data.len() as u64 {
                    Ok((id, off as u32))
                } else {
                    Err(Stop::Bad("memory".into(), format!("{} of {} bytes at offset {} of a {}-byte object", what, size, off as i32, o.data.len())))
                }
            }
            _ => Err(Stop::Bad("memory".into(), format!("{} through invalid or freed pointer {:#x}", what, addr))),
        }
    }

    fn load_scalar(&mut self, st: &State, id: usize, off: u32, ty: &Ty) -> X<V> {
        let size = ty.store_size() as u32;
        let o = st.mem[id].as_ref().unwrap().clone();
        if !o.sym.is_empty() {
            // cells intersecting [off, off+size)
            let mut hits = vec![];
            for (&k, &(t, s)) in o.sym.range(off.saturating_sub(16)..off + size) {
                if k + s > off {
                    hits.push((k, t, s));
                }
            }
            if !hits.is_empty() {
                if hits.len() == 1 && hits[0].0 == off && hits[0].2 == size {
                    let t = hits[0].1;
                    return self.reinterpret(t, ty);
                }
                return self.load_mixed(&o, off, size, &hits, ty);
            }
        }
        let mut b = [0u8; 16];
        b[..size as usize].copy_from_slice(&o.data[off as usize..(off + size) as usize]);
        let v = u128::from_le_bytes(b);
        Ok(match ty {
            Ty::Double => V::F(f64::from_bits(v as u64)),
            Ty::Float => V::F(f32::from_bits(v as u32) as f64),
            Ty::Int(w) => V::I(v & mask(*w)),
            _ => V::I(v),
        })
    }

    fn reinterpret(&mut self, t: T, ty: &Ty) -> X<V> {
        let s = self.tm.sort(t);
        let r = match (s, ty) {
            (Sort::F, Ty::Double) => t,
            (Sort::F, _) => conv(self.tm.mk(Op::Bits, Sort::I(64), &[t]))?,
            (Sort::I(_), Ty::Double) => conv(self.tm.mk(Op::FromBits, Sort::F, &[t]))?,
            (Sort::I(w), Ty::Int(w2)) if *w2 < w => {
                if *w2 == 1 {
                    let one = self.tm.i(1, w);
                    conv(self.tm.mk(Op::IEq, Sort::B, &[t, one]))?
                } else {
                    conv(self.tm.mk(Op::Trunc, Sort::I(*w2), &[t]))?
                }
            }
            _ => t,
        };
        Ok(self.unterm(r))
    }

    fn load_mixed(&mut self, o: &Obj, off: u32, size: u32, hits: &[(u32, T, u32)], ty: &Ty) -> X<V> {
        let w = size * 8;
        let mut base: u128 = 0;
        for k in 0..size {
            base |= (o.data[(off + k) as usize] as u128) << (8 * k);
        }
        for &(k, _, s) in hits {
            for j in 0..s {
                let p = k + j;
                if p >= off && p < off + size {
                    base &= !(0xffu128 << (8 * (p - off)));
                }
            }
        }
        let mut acc = self.tm.i(base, w);
        for &(k, t, s) in hits {
            let t = match self.tm.sort(t) {
                Sort::F => conv(self.tm.mk(Op::Bits, Sort::I(64), &[t]))?,
                _ => t,
            };
            let mut cw = s * 8;
            let mut x = t;
            let mut start = k;
            if k < off {
                let sh = self.tm.i(((off - k) * 8) as u128, cw);
                x = conv(self.tm.mk(Op::LShr, Sort::I(cw), &[x, sh]))?;
                start = off;
            }
            let end = (k + s).min(off + size);
            let nw = (end - start) * 8;
            if nw < cw {
                x = conv(self.tm.mk(Op::Trunc, Sort::I(nw), &[x]))?;
                cw = nw;
            }
            if cw < w {
                x = conv(self.tm.mk(Op::ZExt, Sort::I(w), &[x]))?;
            }
            let sh = self.tm.i(((start - off) * 8) as u128, w);
            x = conv(self.tm.mk(Op::Shl, Sort::I(w), &[x, sh]))?;
            acc = conv(self.tm.mk(Op::IOr, Sort::I(w), &[acc, x]))?;
        }
        self.reinterpret(acc, ty)
    }

    fn is_agg(ty: &Ty) -> bool {
        matches!(ty, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..))
    }

    fn load(&mut self, st: &mut State, addr: &V, ty: &Ty) -> X<V> {
        if let V::S(t) = addr {
            return self.load_sym(st, *t, ty);
        }
        let a = u(addr)? as u64;
        let (id, off) = self.locate(st, a, ty.store_size(), "read")?;
        self.load_at(st, id, off, ty)
    }

    fn load_at(&mut self, st: &State, id: usize, off: u32, ty: &Ty) -> X<V> {
        if Self::is_agg(ty) {
            let mut v = vec![];
            for (o, t) in ty.elems() {
                v.push(self.load_at(st, id, off + o as u32, &t)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        self.load_scalar(st, id, off, ty)
    }

    /// Base constant and the symbolic remainder of an address term.
    fn split_addr(&self, t: T) -> Option<(u64, T)> {
        let n = self.tm.n(t);
        if n.op == Op::Add {
            if let Some(CV::I(c)) = self.tm.is_const(n.a[1]) {
                return Some((c as u64, n.a[0]));
            }
        }
        None
    }

    fn stride(&self, t: T) -> u128 {
        let n = self.tm.n(t);
        match n.op {
            Op::IC(v) => v,
            Op::Mul => match self.tm.is_const(n.a[1]) {
                Some(CV::I(c)) => c,
                _ => 1,
            },
            Op::Add => {
                let (a, b) = (self.stride(n.a[0]), self.stride(n.a[1]));
                gcd(a, b)
            }
            Op::Ite => gcd(self.stride(n.a[1]), self.stride(n.a[2])),
            _ => 1,
        }
    }

    /// Checks that a symbolic address stays inside one object; returns the
    /// object id and the feasible offset range.
    fn resolve(&mut self, st: &mut State, t: T, size: u64, what: &str) -> X<(usize, u64, u64, u128)> {
        // Which object? take it from the current model or the structure.
        let (base, rest) = self.split_addr(t).ok_or_else(|| Stop::Unsupported("symbolic address without base".into()))?;
        let iv = self.tm.base[rest as usize];
        let mut id = (base >> 32) as usize;
        let mut found = false;
        for k in [id, id + 1, id.saturating_sub(1)] {
            if let Some(Some(_)) = st.mem.get(k) {
                if k == id || k == id + 1 {
                    id = k;
                    found = true;
                    break;
                }
            }
        }
        if !found {
            return Err(Stop::Unsupported("symbolic address base".into()));
        }
        let len = st.mem[id].as_ref().unwrap().data.len() as u64;
        if len < size {
            return Err(Stop::Bad("memory".into(), format!("{} outside object", what)));
        }
        let lo = self.tm.i(((id as u64) << 32) as u128, 64);
        let hi = self.tm.i((((id as u64) << 32) + len - size) as u128, 64);
        let c1 = conv(self.tm.mk(Op::Ule, Sort::B, &[lo, t]))?;
        let c2 = conv(self.tm.mk(Op::Ule, Sort::B, &[t, hi]))?;
        let c = self.tm.and(c1, c2);
        if !self.decide(st, c)? {
            return Err(Stop::Bad("memory".into(), format!("{} of {} bytes out of bounds of a {}-byte object (symbolic offset)", what, size, len)));
        }
        let off0 = base.wrapping_sub((id as u64) << 32) as i64;
        let mut mn = 0u64;
        let mut mx = len - size;
        if iv.ihi < 1 << 40 {
            let a = off0 + iv.ilo as i64;
            let b = off0 + iv.ihi as i64;
            mn = mn.max(a.max(0) as u64);
            mx = mx.min(b.max(0) as u64);
        }
        let stride = self.stride(rest).max(1);
        // align the first candidate
        if stride < 1 << 32 {
            let s = stride as i64;
            let r = (mn as i64 - off0).rem_euclid(s);
            if r != 0 {
                mn += (s - r) as u64;
            }
        }
        Ok((id, mn, mx, stride))
    }

    fn load_sym(&mut self, st: &mut State, t: T, ty: &Ty) -> X<V> {
        if Self::is_agg(ty) || self.cfg.concretize_index || !self.tm.is_const(t).is_none() {
            let a = self.concretize(st, &V::S(t), &Ty::Int(64))?;
            return self.load(st, &V::I(a), ty);
        }
        // An ite over whole addresses: split on the condition structure.
        let n = self.tm.n(t);
        if n.op == Op::Ite {
            let a = self.unterm(n.a[1]);
            let b = self.unterm(n.a[2]);
            if let (V::I(x), V::I(y)) = (&a, &b) {
                if (x >> 32) != 0 && (y >> 32) != 0 && self.locate(st, *x as u64, ty.store_size(), "read").is_ok() && self.locate(st, *y as u64, ty.store_size(), "read").is_ok() {
                    let va = self.load(st, &a, ty)?;
                    let vb = self.load(st, &b, ty)?;
                    return self.select(n.a[0], &va, &vb, ty);
                }
            }
            let c = self.decide(st, n.a[0])?;
            let x = if c { a } else { b };
            return self.load(st, &x, ty);
        }
        if self.split_addr(t).is_none() {
            let a = self.concretize(st, &V::S(t), &Ty::Int(64))?;
            return self.load(st, &V::I(a), ty);
        }
        let (id, mn, mx, stride) = self.resolve(st, t, ty.store_size(), "read")?;
        let cnt = if mx < mn { 0 } else { (mx - mn) as u128 / stride + 1 };
        if cnt == 0 {
            return Err(Stop::End("infeasible"));
        }
        if cnt > 600 {
            let a = self.concretize(st, &V::S(t), &Ty::Int(64))?;
            return self.load(st, &V::I(a), ty);
        }
        let base = (id as u64) << 32;
        let mut vals: Vec<(u64, V)> = vec![];
        let mut o = mn;
        while o <= mx {
            let v = self.load_at(st, id, o as u32, ty)?;
            vals.push((o, v));
            o += stride as u64;
        }
        if let Some(v) = self.progression(t, base, &vals, stride as u64, ty)? {
            return Ok(v);
        }
        // binary decision tree over the offset
        self.tree(t, base, &vals, ty)
    }

    /// A constant float table in arithmetic progression, read at a symbolic
    /// index, is the linear term `v0 + d * index`.
    fn progression(&mut self, t: T, base: u64, vals: &[(u64, V)], stride: u64, ty: &Ty) -> X<Option<V>> {
        if !self.tm.real || *ty != Ty::Double || vals.len() < 2 {
            return Ok(None);
        }
        let mut c = vec![];
        for (_, v) in vals {
            match v {
                V::F(f) if f.is_finite() => c.push(*f),
                _ => return Ok(None),
            }
        }
        let mut d = c[1] - c[0];
        let mut z = c[0];
        let mut near = None;
        if c.iter().enumerate().any(|(i, v)| c[0] + d * i as f64 != *v) {
            // rounding apart, with an error bound that covers the deviations
            let grid = |x: f64| (x * 1e9).round() / 1e9;
            d = grid((c[c.len() - 1] - c[0]) / (c.len() - 1) as f64);
            z = grid(c[0]);
            let m = c.iter().fold(1.0, |m: f64, v| m.max(v.abs()));
            let dev = c.iter().enumerate().fold(0.0, |e: f64, (i, v)| e.max((z + d * i as f64 - v).abs()));
            if !(dev <= 1e-12 * m) {
                return Ok(None);
            }
            near = Some(dev + 1e-15 * m);
        }
        let whole = match near {
            Some(dev) => {
                let w = self.tree(t, base, vals, ty)?;
                let w = self.term(&w, ty)?;
                self.tm.base[w as usize].err += dev;
                Some(w)
            }
            None => None,
        };
        if d == 0.0 {
            return Ok(Some(match whole {
                Some(w) => {
                    let z = self.tm.f(z);
                    let r = self.tm.approx(w, z);
                    self.unterm(r)
                }
                None => V::F(c[0]),
            }));
        }
        // The index is counted from the first entry read, or from further back
        // (where the address is a plain multiple of the stride).
        let mut off = vals[0].0;
        let mut idx = None;
        for try_back in 0..2 {
            if try_back == 1 {
                let n = vals[0].0 / stride;
                z -= d * n as f64;
                off = vals[0].0 - n * stride;
                if near.is_some() {
                    z = (z * 1e9).round() / 1e9;
                    let m = c.iter().fold(1.0, |m: f64, v| m.max(v.abs()));
                    if c.iter().enumerate().any(|(i, v)| (z + d * (i as u64 + n) as f64 - v).abs() > 1e-12 * m) {
                        return Ok(None);
                    }
                    self.tm.base[whole.unwrap() as usize].err += 1e-12 * m;
                } else if c.iter().enumerate().any(|(i, v)| z + d * (i as u64 + n) as f64 != *v) {
                    // the table proper may start after a header
                    return Ok(None);
                }
            }
            let k = self.tm.i((base + off) as u128, 64);
            let k = conv(self.tm.mk(Op::Sub, Sort::I(64), &[t, k]))?;
            let s = self.tm.i(stride as u128, 64);
            let k = conv(self.tm.mk(Op::UDiv, Sort::I(64), &[k, s]))?;
            if self.tm.n(k).op != Op::UDiv {
                idx = Some(k);
                break;
            }
        }
        let Some(k) = idx else { return Ok(None) };
        let k = conv(self.tm.mk(Op::UToF, Sort::F, &[k]))?;
        let d = self.tm.f(d);
        let k = conv(self.tm.mk(Op::FMul, Sort::F, &[k, d]))?;
        let z = self.tm.f(z);
        let mut r = conv(self.tm.mk(Op::FAdd, Sort::F, &[k, z]))?;
        if let Some(w) = whole {
            r = self.tm.approx(w, r);
        }
        Ok(Some(self.unterm(r)))
    }

    fn tree(&mut self, t: T, base: u64, vals: &[(u64, V)], ty: &Ty) -> X<V> {
        if vals.len() == 1 {
            return Ok(vals[0].1.clone());
        }
        let h = vals.len() / 2;
        let l = self.tree(t, base, &vals[..h], ty)?;
        let r = self.tree(t, base, &vals[h..], ty)?;
        let k = self.tm.i((base + vals[h].0) as u128, 64);
        let c = conv(self.tm.mk(Op::Ult, Sort::B, &[t, k]))?;
        self.select(c, &l, &r, ty)
    }

    fn select(&mut self, c: T, a: &V, b: &V, ty: &Ty) -> X<V> {
        match ty {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                if let (V::A(x), V::A(y)) = (a, b) {
                    let mut v = vec![];
                    for (k, (_, t)) in ty.elems().iter().enumerate() {
                        v.push(self.select(c, &x[k], &y[k], t)?);
                    }
                    return Ok(V::A(Rc::new(v)));
                }
                Err(Stop::Unsupported("select aggregate".into()))
            }
            _ => {
                let ta = self.term(a, ty)?;
                let tb = self.term(b, ty)?;
                if self.tm.real && *ty == Ty::Double {
                    for x in [ta, tb] {
                        if let Some(CV::F(f)) = self.tm.is_const(x) {
                            if !f.is_finite() && ta != tb {
                                return Err(Stop::Unsupported("__nonfinite_select".into()));
                            }
                        }
                    }
                }
                let r = self.tm.ite(c, ta, tb);
                Ok(self.unterm(r))
            }
        }
    }

    fn write_scalar(&mut self, st: &mut State, id: usize, off: u32, ty: &Ty, v: &V) -> X<()> {
        let size = ty.store_size() as u32;
        self.clear_cells(st, id, off, size)?;
        let sterm = match v {
            V::S(t) => {
                let mut t = *t;
                if self.tm.sort(t) == Sort::B {
                    t = conv(self.tm.mk(Op::B2I, Sort::I(8), &[t]))?;
                }
                Some(t)
            }
            _ => None,
        };
        let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
        if let Some(t) = sterm {
            o.sym.insert(off, (t, size));
            return Ok(());
        }
        let bits: u128 = match v {
            V::I(x) => *x,
            V::F(f) => {
                if *ty == Ty::Float {
                    (*f as f32).to_bits() as u128
                } else {
                    f.to_bits() as u128
                }
            }
            _ => return Err(Stop::Unsupported("store".into())),
        };
        o.data[off as usize..(off + size) as usize].copy_from_slice(&bits.to_le_bytes()[..size as usize]);
        Ok(())
    }

    /// Removes symbolic cells overlapping a range, splitting integer cells.
    fn clear_cells(&mut self, st: &mut State, id: usize, off: u32, size: u32) -> X<()> {
        let o = st.mem[id].as_ref().unwrap();
        if o.sym.is_empty() {
            return Ok(());
        }
        let hits: Vec<(u32, T, u32)> = o.sym.range(off.saturating_sub(16)..off + size).filter(|(k, (_, s))| **k + s > off).map(|(k, (t, s))| (*k, *t, *s)).collect();
        for (k, t, s) in hits {
            let mut repl = vec![];
            if k < off || k + s > off + size {
                // split into bytes outside the range
                if self.tm.sort(t) == Sort::F {
                    return Err(Stop::Unsupported("partial overwrite of a symbolic float".into()));
                }
                for j in 0..s {
                    let p = k + j;
                    if p < off || p >= off + size {
                        let sh = self.tm.i((8 * j) as u128, s * 8);
                        let x = conv(self.tm.mk(Op::LShr, Sort::I(s * 8), &[t, sh]))?;
                        let x = conv(self.tm.mk(Op::Trunc, Sort::I(8), &[x]))?;
                        repl.push((p, x));
                    }
                }
            }
            let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
            o.sym.remove(&k);
            for (p, x) in repl {
                match self.tm.is_const(x) {
                    Some(CV::I(c)) => o.data[p as usize] = c as u8,
                    _ => {
                        o.sym.insert(p, (x, 1));
                    }
                }
            }
        }
        Ok(())
    }

    fn store(&mut self, st: &mut State, addr: &V, ty: &Ty, v: &V) -> X<()> {
        if let V::S(t) = addr {
            let n = self.tm.n(*t);
            if !Self::is_agg(ty) && n.op != Op::Ite && self.split_addr(*t).is_some() && !self.cfg.concretize_index {
                let (id, mn, mx, stride) = self.resolve(st, *t, ty.store_size(), "write")?;
                let cnt = if mx < mn { 0 } else { (mx - mn) as u128 / stride + 1 };
                if cnt >= 1 && cnt <= 64 && stride as u64 >= ty.store_size() {
                    let base = (id as u64) << 32;
                    let mut o = mn;
                    while o <= mx {
                        let k = self.tm.i((base + o) as u128, 64);
                        let c = conv(self.tm.mk(Op::IEq, Sort::B, &[*t, k]))?;
                        let old = self.load_at(st, id, o as u32, ty)?;
                        let nv = self.select(c, v, &old, ty)?;
                        self.write_scalar(st, id, o as u32, ty, &nv)?;
                        o += stride as u64;
                    }
                    return Ok(());
                }
            }
            if n.op == Op::Ite {
                let c = self.decide(st, n.a[0])?;
                let x = self.unterm(if c { n.a[1] } else { n.a[2] });
                return self.store(st, &x, ty, v);
            }
            let a = self.concretize(st, addr, &Ty::Int(64))?;
            return self.store(st, &V::I(a), ty, v);
        }
        let a = u(addr)? as u64;
        let (id, off) = self.locate(st, a, ty.store_size(), "write")?;
        if st.mem[id].as_ref().unwrap().constant {
            return Err(Stop::Bad("memory".into(), "write to constant".into()));
        }
        self.store_at(st, id, off, ty, v)
    }

    fn store_at(&mut self, st: &mut State, id: usize, off: u32, ty: &Ty, v: &V) -> X<()> {
        if Self::is_agg(ty) {
            if let V::A(x) = v {
                for (k, (o, t)) in ty.elems().iter().enumerate() {
                    self.store_at(st, id, off + *o as u32, t, &x[k])?;
                }
                return Ok(());
            }
            return Err(Stop::Unsupported("store aggregate".into()));
        }
        self.write_scalar(st, id, off, ty, v)
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = self.locate(st, s, n, "copy from")?;
        let (did, doff) = self.locate(st, d, n, "copy to")?;
        let src = st.mem[sid].as_ref().unwrap().clone();
        let bytes = src.data[so as usize..so as usize + n as usize].to_vec();
        let mut cells: Vec<(u32, T, u32)> = vec![];
        if !src.sym.is_empty() {
            for (&k, &(t, sz)) in src.sym.range(so.saturating_sub(16)..so + n as u32) {
                if k + sz <= so {
                    continue;
                }
                if k < so || k + sz > so + n as u32 {
                    return Err(Stop::Unsupported("partial copy of a symbolic cell".into()));
                }
                cells.push((k - so, t, sz));
            }
        }
        drop(src);
        self.clear_cells(st, did, doff, n as u32)?;
        let o = Rc::make_mut(st.mem[did].as_mut().unwrap());
        o.data[doff as usize..doff as usize + n as usize].copy_from_slice(&bytes);
        for (k, t, sz) in cells {
            o.sym.insert(doff + k, (t, sz));
        }
        Ok(())
    }

    fn memset(&mut self, st: &mut State, d: u64, b: u8, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (did, doff) = self.locate(st, d, n, "memset")?;
        self.clear_cells(st, did, doff, n as u32)?;
        let o = Rc::make_mut(st.mem[did].as_mut().unwrap());
        for x in &mut o.data[doff as usize..doff as usize + n as usize] {
            *x = b;
        }
        Ok(())
    }

    fn read_str(&self, st: &State, p: u64, n: u64) -> X<String> {
        if n == 0 {
            return Ok(String::new());
        }
        let (id, off) = self.locate(st, p, n, "read")?;
        let o = st.mem[id].as_ref().unwrap();
        Ok(String::from_utf8_lossy(&o.data[off as usize..off as usize + n as usize]).into_owned())
    }

    // ------------------------------------------------------------ operations

    fn bin(&mut self, st: &mut State, op: BinOp, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vec(_, e) = ty {
            if let (V::A(x), V::A(y)) = (a, b) {
                let mut r = vec![];
                for k in 0..x.len() {
                    r.push(self.bin(st, op, e, &x[k], &y[k])?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        use BinOp::*;
        if let (V::F(x), V::F(y)) = (a, b) {
            let r = match op {
                FAdd => x + y,
                FSub => x - y,
                FMul => x * y,
                FDiv => x / y,
                FRem => x % y,
                _ => return Err(Stop::Unsupported("bin".into())),
            };
            return Ok(V::F(if *ty == Ty::Float { r as f32 as f64 } else { r }));
        }
        let o = match op {
            Add => Op::Add, Sub => Op::Sub, Mul => Op::Mul, UDiv => Op::UDiv, SDiv => Op::SDiv, URem => Op::URem, SRem => Op::SRem,
            Shl => Op::Shl, LShr => Op::LShr, AShr => Op::AShr, And => Op::IAnd, Or => Op::IOr, Xor => Op::IXor,
            FAdd => Op::FAdd, FSub => Op::FSub, FMul => Op::FMul, FDiv => Op::FDiv,
            FRem => return Err(Stop::Unsupported("frem".into())),
        };
        let s = Self::isort(ty);
        if let (V::I(x), V::I(y)) = (a, b) {
            let w = ty.bits();
            return match apply(o, Sort::I(w), Sort::I(w), &[CV::I(*x), CV::I(*y)]) {
                Some(CV::I(r)) => Ok(V::I(r & mask(w))),
                _ => Err(Stop::Bad("memory".into(), "division by zero (undefined behaviour)".into())),
            };
        }
        let ta = self.term(a, ty)?;
        let tb = self.term(b, ty)?;
        if s == Sort::B {
            let r = match op {
                And | Mul => self.tm.and(ta, tb),
                Or => self.tm.or(ta, tb),
                Xor | Add | Sub => self.tm.xor(ta, tb),
                _ => return Err(Stop::Unsupported(format!("i1 {:?}", op))),
            };
            return Ok(self.unterm(r));
        }
        if self.tm.real && op == FDiv {
            // Denominator zero?
            let z = self.tm.f(0.0);
            let iv = self.tm.base[tb as usize];
            let may0 = self.tm.is_const(tb).is_none() && iv.lo <= iv.err && iv.hi >= -iv.err;
            let is0 = match self.tm.is_const(tb) {
                Some(CV::F(f)) => f == 0.0,
                _ => {
                    if may0 && self.postpone(st, Op::FDiv, [ta, tb, NONE]) {
                        false
                    } else if may0 {
                        let c = conv(self.tm.mk(Op::FEq, Sort::B, &[tb, z]))?;
                        self.decide(st, c)?
                    } else {
                        false
                    }
                }
            };
            if is0 {
                // the sign of a symbolic zero is taken to be positive
                let neg = matches!(self.tm.is_const(tb), Some(CV::F(f)) if f.is_sign_negative());
                let c0 = conv(self.tm.mk(Op::FEq, Sort::B, &[ta, z]))?;
                if self.decide(st, c0)? {
                    return Ok(V::F(f64::NAN));
                }
                let cp = conv(self.tm.mk(Op::FLt, Sort::B, &[z, ta]))?;
                let p = self.decide(st, cp)?;
                return Ok(V::F(if p != neg { f64::INFINITY } else { f64::NEG_INFINITY }));
            }
        }
        if self.tm.real && matches!(op, FMul | FDiv) {
            // inf * x and inf / x depend on the sign of x
            for (p, q) in [(ta, tb), (tb, ta)] {
                if let Some(CV::F(f)) = self.tm.is_const(p) {
                    if f.is_infinite() && self.tm.is_const(q).is_none() && !(op == FDiv && p == tb) {
                        let z = self.tm.f(0.0);
                        let cz = conv(self.tm.mk(Op::FEq, Sort::B, &[q, z]))?;
                        if self.decide(st, cz)? {
                            return Ok(V::F(if op == FMul { f64::NAN } else { f }));
                        }
                        let cp = conv(self.tm.mk(Op::FLt, Sort::B, &[z, q]))?;
                        let pos = self.decide(st, cp)?;
                        return Ok(V::F(if pos { f } else { -f }));
                    }
                }
            }
        }
        let r = self.tm.mk(o, s, &[ta, tb]);
        self.tm.lazy = false;
        match r {
            Ok(r) => Ok(self.unterm(r)),
            Err(e) => Err(Stop::Unsupported(e)),
        }
    }

    fn icmp(&mut self, st: &mut State, p: IPred, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vec(_, e) = ty {
            if let (V::A(x), V::A(y)) = (a, b) {
                let mut r = vec![];
                for k in 0..x.len() {
                    r.push(self.icmp(st, p, e, &x[k], &y[k])?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        use IPred::*;
        let w = ty.bits();
        if let (V::I(x), V::I(y)) = (a, b) {
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            let r = match p {
                Eq => x == y, Ne => x != y, Ugt => x > y, Uge => x >= y, Ult => x < y, Ule => x <= y,
                Sgt => sx > sy, Sge => sx >= sy, Slt => sx < sy, Sle => sx <= sy,
            };
            return Ok(V::I(r as u128));
        }
        let ta = self.term(a, ty)?;
        let tb = self.term(b, ty)?;
        if w == 1 {
            let (na, nb) = (self.tm.not(ta), self.tm.not(tb));
            let r = match p {
                Eq => self.tm.xor(na, tb),
                Ne => self.tm.xor(ta, tb),
                Ugt | Slt => self.tm.and(ta, nb),
                Ult | Sgt => self.tm.and(na, tb),
                Uge | Sle => self.tm.or(ta, nb),
                Ule | Sge => self.tm.or(na, tb),
            };
            return Ok(self.unterm(r));
        }
        // comparing a float's bits for equality with another
        if self.tm.real && matches!(p, Eq | Ne) {
            let fa = if self.tm.n(ta).op == Op::Bits { Some(self.tm.n(ta).a[0]) } else { None };
            let fb = if self.tm.n(tb).op == Op::Bits { Some(self.tm.n(tb).a[0]) } else { None };
            let fa2 = fa.or(match (fb, self.tm.is_const(ta)) { (Some(_), Some(CV::I(v))) => Some(self.tm.f(f64::from_bits(v as u64))), _ => None });
            let fb2 = fb.or(match (fa, self.tm.is_const(tb)) { (Some(_), Some(CV::I(v))) => Some(self.tm.f(f64::from_bits(v as u64))), _ => None });
            if let (Some(x), Some(y)) = (fa2, fb2) {
                let e = conv(self.tm.mk(Op::FEq, Sort::B, &[x, y]))?;
                let e = if p == Ne { self.tm.not(e) } else { e };
                return Ok(self.unterm(e));
            }
        }
        let (op, sw, neg) = match p {
            Eq => (Op::IEq, false, false), Ne => (Op::IEq, false, true),
            Ult => (Op::Ult, false, false), Ugt => (Op::Ult, true, false), Ule => (Op::Ule, false, false), Uge => (Op::Ule, true, false),
            Slt => (Op::Slt, false, false), Sgt => (Op::Slt, true, false), Sle => (Op::Sle, false, false), Sge => (Op::Sle, true, false),
        };
        let args = if sw { [tb, ta] } else { [ta, tb] };
        let mut r = conv(self.tm.mk(op, Sort::B, &args))?;
        if neg {
            r = self.tm.not(r);
        }
        Ok(self.unterm(r))
    }

    fn fcmp(&mut self, p: FPred, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vec(_, e) = ty {
            if let (V::A(x), V::A(y)) = (a, b) {
                let mut r = vec![];
                for k in 0..x.len() {
                    r.push(self.fcmp(p, e, &x[k], &y[k])?);
                }
                return Ok(V::A(Rc::new(r)));
            }
        }
        use FPred::*;
        if let (V::F(x), V::F(y)) = (a, b) {
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                False => false, True => true,
                Oeq => x == y, Ogt => x > y, Oge => x >= y, Olt => x < y, Ole => x <= y, One => !un && x != y, Ord => !un,
                Ueq => un || x == y, Ugt => un || x > y, Uge => un || x >= y, Ult => un || x < y, Ule => un || x <= y, Une => x != y, Uno => un,
            };
            return Ok(V::I(r as u128));
        }
        let x = self.term(a, ty)?;
        let y = self.term(b, ty)?;
        let mk = |tm: &mut Terms, o: Op, a: T, b: T| conv(tm.mk(o, Sort::B, &[a, b]));
        let nan = |tm: &mut Terms| -> X<T> {
            let p = conv(tm.mk(Op::FNan, Sort::B, &[x]))?;
            let q = conv(tm.mk(Op::FNan, Sort::B, &[y]))?;
            Ok(tm.or(p, q))
        };
        let tm = &mut self.tm;
        let r = match p {
            False => tm.b(false),
            True => tm.b(true),
            Oeq => mk(tm, Op::FEq, x, y)?,
            Ogt => mk(tm, Op::FLt, y, x)?,
            Oge => mk(tm, Op::FLe, y, x)?,
            Olt => mk(tm, Op::FLt, x, y)?,
            Ole => mk(tm, Op::FLe, x, y)?,
            One => {
                let e = mk(tm, Op::FEq, x, y)?;
                let ne = tm.not(e);
                let n = nan(tm)?;
                let nn = tm.not(n);
                tm.and(ne, nn)
            }
            Ord => {
                let n = nan(tm)?;
                tm.not(n)
            }
            Uno => nan(tm)?,
            Ueq => {
                let e = mk(tm, Op::FEq, x, y)?;
                let n = nan(tm)?;
                tm.or(e, n)
            }
            // "unordered or P" is the negation of the ordered complement; in
            // real mode this merges x ult y with not (y ole x).
            Ugt => {
                let e = mk(tm, Op::FLe, x, y)?;
                tm.not(e)
            }
            Uge => {
                let e = mk(tm, Op::FLt, x, y)?;
                tm.not(e)
            }
            Ult => {
                let e = mk(tm, Op::FLe, y, x)?;
                tm.not(e)
            }
            Ule => {
                let e = mk(tm, Op::FLt, y, x)?;
                tm.not(e)
            }
            Une => {
                let e = mk(tm, Op::FEq, x, y)?;
                tm.not(e)
            }
        };
        Ok(self.unterm(r))
    }

    fn cast(&mut self, op: CastOp, from: &Ty, v: &V, to: &Ty) -> X<V> {
        if let (Ty::Vec(_, a), Ty::Vec(_, b)) = (from, to) {
            if !(op == CastOp::Bitcast && a.bits() != b.bits()) {
                if let V::A(x) = v {
                    let mut r = vec![];
                    for e in x.iter() {
                        r.push(self.cast(op, a, e, b)?);
                    }
                    return Ok(V::A(Rc::new(r)));
                }
            }
        }
        match op {
            CastOp::Bitcast => {
                let fv = matches!(from, Ty::Vec(..));
                let tv = matches!(to, Ty::Vec(..));
                if fv || tv {
                    // through concrete bits
                    let mut acc: u128 = 0;
                    if let (Ty::Vec(_, e), V::A(x)) = (from, v) {
                        let w = e.bits();
                        for (k, l) in x.iter().enumerate() {
                            acc |= (u(l)? & mask(w)) << (w * k as u32);
                        }
                    } else {
                        acc = u(v)?;
                    }
                    if let Ty::Vec(n, e) = to {
                        let w = e.bits();
                        let r = (0..*n).map(|k| {
                            let x = (acc >> (w * k as u32)) & mask(w);
                            if **e == Ty::Double { V::F(f64::from_bits(x as u64)) } else { V::I(x) }
                        }).collect();
                        return Ok(V::A(Rc::new(r)));
                    }
                    return Ok(match to {
                        Ty::Double => V::F(f64::from_bits(acc as u64)),
                        _ => V::I(acc),
                    });
                }
                match (v, to) {
                    (V::F(f), Ty::Int(_)) | (V::F(f), Ty::Ptr) => Ok(V::I(f.to_bits() as u128)),
                    (V::I(x), Ty::Double) => Ok(V::F(f64::from_bits(*x as u64))),
                    (V::S(t), _) => self.reinterpret(*t, to),
                    _ => Ok(v.clone()),
                }
            }
            CastOp::PtrToInt | CastOp::IntToPtr => {
                let (wf, wt) = (from.bits(), to.bits());
                if wt < wf {
                    return self.cast(CastOp::Trunc, &Ty::Int(wf), v, &Ty::Int(wt));
                }
                Ok(v.clone())
            }
            CastOp::Trunc => match v {
                V::I(x) => Ok(V::I(x & mask(to.bits()))),
                V::S(t) => {
                    let wt = to.bits();
                    let r = if wt == 1 {
                        let w = from.bits();
                        let one = self.tm.i(1, w);
                        let x = conv(self.tm.mk(Op::IAnd, Sort::I(w), &[*t, one]))?;
                        conv(self.tm.mk(Op::IEq, Sort::B, &[x, one]))?
                    } else {
                        conv(self.tm.mk(Op::Trunc, Sort::I(wt), &[*t]))?
                    };
                    Ok(self.unterm(r))
                }
                _ => Err(Stop::Unsupported("trunc".into())),
            },
            CastOp::ZExt | CastOp::SExt => match v {
                V::I(x) => Ok(V::I(if op == CastOp::ZExt { *x } else { sext(*x, from.bits()) as u128 & mask(to.bits()) })),
                V::S(t) => {
                    let w = to.bits();
                    let r = if from.bits() == 1 {
                        if op == CastOp::ZExt {
                            conv(self.tm.mk(Op::B2I, Sort::I(w), &[*t]))?
                        } else {
                            let a = self.tm.i(mask(w), w);
                            let b = self.tm.i(0, w);
                            self.tm.ite(*t, a, b)
                        }
                    } else {
                        conv(self.tm.mk(if op == CastOp::ZExt { Op::ZExt } else { Op::SExt }, Sort::I(w), &[*t]))?
                    };
                    Ok(self.unterm(r))
                }
                _ => Err(Stop::Unsupported("ext".into())),
            },
            CastOp::UiToFp | CastOp::SiToFp => match v {
                V::I(x) => {
                    let r = if op == CastOp::UiToFp { *x as f64 } else { sext(*x, from.bits()) as f64 };
                    Ok(V::F(r))
                }
                V::S(t) => {
                    let t = if self.tm.sort(*t) == Sort::B { conv(self.tm.mk(Op::B2I, Sort::I(8), &[*t]))? } else { *t };
                    let r = conv(self.tm.mk(if op == CastOp::UiToFp { Op::UToF } else { Op::SToF }, Sort::F, &[t]))?;
                    Ok(self.unterm(r))
                }
                _ => Err(Stop::Unsupported("itofp".into())),
            },
            CastOp::FpToUi | CastOp::FpToSi => self.ftoi(op == CastOp::FpToSi, v, to),
            CastOp::FpExt => match v {
                V::F(_) => Ok(v.clone()),
                _ => Err(Stop::Unsupported("fpext".into())),
            },
            CastOp::FpTrunc => match v {
                V::F(f) => Ok(V::F(*f as f32 as f64)),
                _ => Err(Stop::Unsupported("fptrunc".into())),
            },
        }
    }

    fn ftoi(&mut self, signed: bool, v: &V, to: &Ty) -> X<V> {
        let w = to.bits();
        let t = self.term(v, &Ty::Double)?;
        let r = conv(self.tm.mk(if signed { Op::FToS } else { Op::FToU }, Sort::I(w), &[t]))?;
        Ok(self.unterm(r))
    }

    fn f1(&mut self, st: &mut State, op: Op, ty: &Ty, v: &V) -> X<V> {
        if let (Ty::Vec(_, e), V::A(x)) = (ty, v) {
            let mut r = vec![];
            for l in x.iter() {
                r.push(self.f1(st, op, e, l)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let t = self.term(v, &Ty::Double)?;
        if op == Op::FSqrt && self.tm.real && self.tm.is_const(t).is_none() {
            let z = self.tm.f(0.0);
            let c = conv(self.tm.mk(Op::FLt, Sort::B, &[t, z]))?;
            if self.lookup(st, c).is_none() && self.postpone(st, Op::FSqrt, [t, NONE, NONE]) {
            } else if self.decide(st, c)? {
                return Ok(V::F(f64::NAN));
            }
        }
        let r = conv(self.tm.mk(op, Sort::F, &[t]));
        self.tm.lazy = false;
        let r = r?;
        Ok(self.unterm(r))
    }

    fn f2(&mut self, op: Op, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let (Ty::Vec(_, e), V::A(x), V::A(y)) = (ty, a, b) {
            let mut r = vec![];
            for k in 0..x.len() {
                r.push(self.f2(op, e, &x[k], &y[k])?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        let x = self.term(a, &Ty::Double)?;
        let y = self.term(b, &Ty::Double)?;
        let r = conv(self.tm.mk(op, Sort::F, &[x, y]))?;
        Ok(self.unterm(r))
    }

    // ------------------------------------------------------------ stepping

    fn goto(&mut self, st: &mut State, b: u32) -> X<()> {
        let f = st.frames.last().unwrap().func.clone();
        let from = st.frames.last().unwrap().block;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let inc = p.inc.iter().find(|x| x.1 == from).ok_or_else(|| Stop::Unsupported("phi without edge".into()))?;
                vals.push((p.dst, self.ev(st, &inc.0, &p.ty)?));
            }
            for (d, v) in vals {
                self.set(st, d, v);
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.prev = from;
        fr.block = b;
        fr.ip = 0;
        Ok(())
    }

    /// `if x < *p { *p = x }` as `*p = min(*p, x)`, without a fork. Returns the
    /// block in which the two branches meet.
    fn guarded_store(&mut self, st: &mut State, c: T, yes: u32, no: u32) -> X<Option<u32>> {
        if !self.tm.real || self.lookup(st, c).is_some() {
            return Ok(None);
        }
        let f = st.frames.last().unwrap().func.clone();
        for (x, join, neg) in [(yes, no, false), (no, yes, true)] {
            let blk = &f.blocks[x as usize];
            if !blk.phis.is_empty() || !f.blocks[join as usize].phis.is_empty() || blk.insts.len() != 2 {
                continue;
            }
            if let (Inst::Store(Ty::Double, v, p), Inst::Br(t)) = (&blk.insts[0], &blk.insts[1]) {
                if *t != join {
                    continue;
                }
                let a = self.ev(st, p, &Ty::Ptr)?;
                if !matches!(a, V::I(_)) {
                    continue;
                }
                let v = self.ev(st, v, &Ty::Double)?;
                let old = match self.load(st, &a, &Ty::Double) {
                    Ok(old) => old,
                    Err(_) => continue,
                };
                let (v, old) = (self.term(&v, &Ty::Double)?, self.term(&old, &Ty::Double)?);
                let r = if neg { self.tm.ite(c, old, v) } else { self.tm.ite(c, v, old) };
                if self.tm.n(r).op == Op::Ite {
                    continue;
                }
                let r = self.unterm(r);
                self.store(st, &a, &Ty::Double, &r)?;
                return Ok(Some(join));
            }
        }
        Ok(None)
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        let (f, b, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.func.clone(), fr.block, fr.ip)
        };
        let ins = match f.blocks[b as usize].insts.get(ip) {
            Some(i) => i,
            None => return Err(Stop::Unsupported("fell off block".into())),
        };
        macro_rules! adv {
            () => {
                st.frames.last_mut().unwrap().ip += 1
            };
        }
        match ins {
            Inst::Bin(d, op, ty, a, c) => {
                let x = self.ev(st, a, ty)?;
                let y = self.ev(st, c, ty)?;
                let r = self.bin(st, *op, ty, &x, &y)?;
                self.set(st, *d, r);
                adv!();
            }
            Inst::FNeg(d, ty, a) => {
                let x = self.ev(st, a, ty)?;
                let r = self.f1(st, Op::FNeg, ty, &x)?;
                self.set(st, *d, r);
                adv!();
            }
            Inst::ICmp(d, p, ty, a, c) => {
                let x = self.ev(st, a, ty)?;
                let y = self.ev(st, c, ty)?;
                let r = self.icmp(st, *p, ty, &x, &y)?;
                self.set(st, *d, r);
                adv!();
            }
            Inst::FCmp(d, p, ty, a, c) => {
                let x = self.ev(st, a, ty)?;
                let y = self.ev(st, c, ty)?;
                let r = self.fcmp(*p, ty, &x, &y)?;
                self.set(st, *d, r);
                adv!();
            }
            Inst::Select(d, c, ty, a, e, vec) => {
                let cv = self.ev(st, c, &Ty::Int(1))?;
                let x = self.ev(st, a, ty)?;
                let y = self.ev(st, e, ty)?;
                let r = if *vec {
                    match (&cv, &x, &y) {
                        (V::A(cs), V::A(xs), V::A(ys)) => {
                            let et = match ty {
                                Ty::Vec(_, e) => (**e).clone(),
                                _ => return Err(Stop::Unsupported("vselect".into())),
                            };
                            let mut r = vec![];
                            for k in 0..cs.len() {
                                r.push(match &cs[k] {
                                    V::I(1) => xs[k].clone(),
                                    V::I(_) => ys[k].clone(),
                                    V::S(t) => self.select(*t, &xs[k], &ys[k], &et)?,
                                    _ => return Err(Stop::Unsupported("vselect".into())),
                                });
                            }
                            V::A(Rc::new(r))
                        }
                        _ => return Err(Stop::Unsupported("vselect".into())),
                    }
                } else {
                    match cv {
                        V::I(1) => x,
                        V::I(_) => y,
                        V::S(t) => match self.lookup(st, t) {
                            Some(true) => x,
                            Some(false) => y,
                            None => {
                                let ptr_split = *ty == Ty::Ptr || matches!(ty, Ty::Struct(..));
                                let r = if ptr_split { Err(Stop::Unsupported("__nonfinite_select".into())) } else { self.select(t, &x, &y, ty) };
                                match r {
                                    Err(Stop::Unsupported(e)) if e == "__nonfinite_select" => {
                                        if self.decide(st, t)? {
                                            x
                                        } else {
                                            y
                                        }
                                    }
                                    r => r?,
                                }
                            }
                        },
                        _ => return Err(Stop::Unsupported("select".into())),
                    }
                };
                self.set(st, *d, r);
                adv!();
            }
            Inst::Cast(d, op, from, v, to) => {
                let x = self.ev(st, v, from)?;
                let r = self.cast(*op, from, &x, to)?;
                self.set(st, *d, r);
                adv!();
            }
            Inst::Alloca(d, size, n) => {
                let k = u(&self.ev(st, n, &Ty::Int(64))?)? as u64;
                let p = self.alloc(st, size * k, false);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push((p >> 32) as u32);
                fr.regs[*d as usize] = V::I(p as u128);
                adv!();
            }
            Inst::Load(d, ty, p) => {
                let a = self.ev(st, p, &Ty::Ptr)?;
                let r = match self.load(st, &a, ty) {
                    Err(Stop::Unsupported(e)) if e == "__nonfinite_select" => {
                        let a = self.concretize(st, &a, &Ty::Int(64))?;
                        self.load(st, &V::I(a), ty)?
                    }
                    r => r?,
                };
                self.set(st, *d, r);
                adv!();
            }
            Inst::Store(ty, v, p) => {
                let x = self.ev(st, v, ty)?;
                let a = self.ev(st, p, &Ty::Ptr)?;
                self.store(st, &a, ty, &x)?;
                adv!();
            }
            Inst::Gep(d, base, off, dynv) => {
                let mut a = self.ev(st, base, &Ty::Ptr)?;
                if *off != 0 {
                    a = self.bin(st, BinOp::Add, &Ty::Int(64), &a, &V::I(*off as u128))?;
                }
                for (o, scale, ty) in dynv {
                    let mut i = self.ev(st, o, ty)?;
                    if ty.bits() < 64 {
                        i = self.cast(CastOp::SExt, ty, &i, &Ty::Int(64))?;
                    }
                    let m = self.bin(st, BinOp::Mul, &Ty::Int(64), &i, &V::I(*scale as u128))?;
                    a = self.bin(st, BinOp::Add, &Ty::Int(64), &a, &m)?;
                }
                self.set(st, *d, a);
                adv!();
            }
            Inst::Extract(d, o, idx) => {
                let mut v = self.ev(st, o, &Ty::Void)?;
                for k in idx {
                    v = match &v {
                        V::A(x) => x[*k as usize].clone(),
                        _ => return Err(Stop::Unsupported("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
                adv!();
            }
            Inst::Insert(d, ty, a, v, idx) => {
                let agg = self.ev(st, a, ty)?;
                let mut et = ty.clone();
                for k in idx {
                    et = et.elems()[*k as usize].1.clone();
                }
                let x = self.ev(st, v, &et)?;
                let r = insert(&agg, idx, x)?;
                self.set(st, *d, r);
                adv!();
            }
            Inst::ExtractElem(d, v, i) => {
                let x = self.ev(st, v, &Ty::Void)?;
                let k = u(&self.ev(st, i, &Ty::Int(64))?)? as usize;
                let r = match &x {
                    V::A(x) => x[k].clone(),
                    _ => return Err(Stop::Unsupported("extractelement".into())),
                };
                self.set(st, *d, r);
                adv!();
            }
            Inst::InsertElem(d, ty, v, e, i) => {
                let x = self.ev(st, v, ty)?;
                let et = ty.elems()[0].1.clone();
                let y = self.ev(st, e, &et)?;
                let k = u(&self.ev(st, i, &Ty::Int(64))?)? as u32;
                let r = insert(&x, &[k], y)?;
                self.set(st, *d, r);
                adv!();
            }
            Inst::Shuffle(d, n0, a, c, m) => {
                let ty = match &f.reg_ty[*d as usize] {
                    Some(Ty::Vec(_, e)) => Ty::Vec(*n0, e.clone()),
                    _ => return Err(Stop::Unsupported("shuffle".into())),
                };
                let x = self.ev(st, a, &ty)?;
                let y = self.ev(st, c, &ty)?;
                match (&x, &y) {
                    (V::A(x), V::A(y)) => {
                        let n = x.len() as i64;
                        let r = m.iter().map(|k| if *k < 0 { x[0].clone() } else if *k < n { x[*k as usize].clone() } else { y[(*k - n) as usize].clone() }).collect();
                        self.set(st, *d, V::A(Rc::new(r)));
                    }
                    _ => return Err(Stop::Unsupported("shuffle".into())),
                }
                adv!();
            }
            Inst::Freeze(d, ty, v) => {
                let x = self.ev(st, v, ty)?;
                self.set(st, *d, x);
                adv!();
            }
            Inst::AtomicRmw(d, op, ty, p, v) => {
                let a = self.ev(st, p, &Ty::Ptr)?;
                let x = self.ev(st, v, ty)?;
                let old = self.load(st, &a, ty)?;
                let nv = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(st, BinOp::Add, ty, &old, &x)?,
                    "sub" => self.bin(st, BinOp::Sub, ty, &old, &x)?,
                    "and" => self.bin(st, BinOp::And, ty, &old, &x)?,
                    "or" => self.bin(st, BinOp::Or, ty, &old, &x)?,
                    o => return Err(Stop::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store(st, &a, ty, &nv)?;
                self.set(st, *d, old);
                adv!();
            }
            Inst::CmpXchg(d, ty, p, c, n) => {
                let a = self.ev(st, p, &Ty::Ptr)?;
                let cv = u(&self.ev(st, c, ty)?)?;
                let nv = self.ev(st, n, ty)?;
                let old = self.load(st, &a, ty)?;
                let ok = u(&old)? == cv;
                if ok {
                    self.store(st, &a, ty, &nv)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::I(ok as u128)])));
                adv!();
            }
            Inst::Nop => adv!(),
            Inst::Br(t) => self.goto(st, *t)?,
            Inst::CondBr(c, t, e) => {
                let v = self.ev(st, c, &Ty::Int(1))?;
                let b = match v {
                    V::I(x) => x == 1,
                    V::S(s) => match self.guarded_store(st, s, *t, *e)? {
                        Some(join) => return self.goto(st, join),
                        None => self.decide(st, s)?,
                    },
                    _ => return Err(Stop::Unsupported("br".into())),
                };
                self.goto(st, if b { *t } else { *e })?;
            }
            Inst::Switch(ty, v, def, cs) => {
                let x = self.ev(st, v, ty)?;
                let tgt = match x {
                    V::I(x) => cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def),
                    V::S(t) => {
                        let mut tgt = None;
                        for (c, l) in cs {
                            let k = self.tm.i(*c, ty.bits());
                            let e = if ty.bits() == 1 { if *c == 1 { t } else { self.tm.not(t) } } else { conv(self.tm.mk(Op::IEq, Sort::B, &[t, k]))? };
                            if self.decide(st, e)? {
                                tgt = Some(*l);
                                break;
                            }
                        }
                        tgt.unwrap_or(*def)
                    }
                    _ => return Err(Stop::Unsupported("switch".into())),
                };
                self.goto(st, tgt)?;
            }
            Inst::Ret(v) => {
                let r = match v {
                    Some((t, o)) => Some(self.ev(st, o, t)?),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for id in fr.allocas {
                    st.mem[id as usize] = None;
                }
                if st.frames.is_empty() {
                    st.frames.push(Frame { allocas: vec![], regs: vec![], ..fr_dummy(&f) });
                    return Err(Stop::End("return"));
                }
                if let (Some(d), Some(r)) = (fr.dst, r) {
                    self.set(st, d, r);
                }
                match fr.next {
                    Some(b) => self.goto(st, b)?,
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
            }
            Inst::Unreachable => return Err(Stop::Bad("memory".into(), "unreachable code reached (undefined behaviour)".into())),
            Inst::Unsupported(e) => return Err(Stop::Unsupported(e.clone())),
            Inst::Call { dst, ret, callee, args, next } => {
                let name = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Indirect(o) => {
                        let v = self.ev(st, o, &Ty::Ptr)?;
                        let a = match &v {
                            V::I(x) => *x as u64,
                            _ => self.concretize(st, &v, &Ty::Int(64))? as u64,
                        };
                        if a < FN_BASE {
                            return Err(Stop::Bad("memory".into(), "call through bad function pointer".into()));
                        }
                        self.fnames.get(((a - FN_BASE) / 16) as usize).cloned().ok_or_else(|| Stop::Unsupported("fnptr".into()))?
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args {
                    av.push(if *t == Ty::Meta { V::I(0) } else { self.ev(st, o, t)? });
                }
                if let Some(r) = self.builtin(st, &name, args, &av, ret)? {
                    if let Some(d) = dst {
                        self.set(st, *d, r);
                    }
                    match next {
                        Some(b) => self.goto(st, *b)?,
                        None => adv!(),
                    }
                } else {
                    if st.frames.len() > 400 {
                        return Err(Stop::Unsupported("recursion too deep".into()));
                    }
                    let g = self.func(&name)?;
                    self.push_frame(st, g, av, *dst, *next);
                }
            }
        }
        Ok(())
    }

    fn builtin(&mut self, st: &mut State, name: &str, args: &[(Ty, Opd)], av: &[V], ret: &Ty) -> X<Option<V>> {
        let unit = V::I(0);
        if let Some(k) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, k, args, av, ret).map(Some);
        }
        if name.starts_with("sym_") {
            return self.sym_call(st, name, av).map(Some);
        }
        if name.starts_with("_R") {
            if name.contains("___rust_alloc_zeroed") || name.contains("___rust_alloc") && !name.contains("error") || name.contains("___rdl_alloc") {
                let size = match &av[0] {
                    V::I(x) => *x,
                    v => self.concretize(st, &v.clone(), &Ty::Int(64))?,
                } as u64;
                if size > 1 << 28 {
                    return Err(Stop::Unsupported(format!("allocation of {} bytes", size)));
                }
                return Ok(Some(V::I(self.alloc(st, size, true) as u128)));
            }
            if name.contains("___rust_dealloc") || name.contains("___rdl_dealloc") {
                let p = u(&av[0])? as u64;
                let (id, off) = self.locate(st, p, 0, "free")?;
                if off != 0 || !st.mem[id].as_ref().unwrap().heap {
                    return Err(Stop::Bad("memory".into(), "invalid free".into()));
                }
                st.mem[id] = None;
                return Ok(Some(unit));
            }
            if name.contains("___rust_realloc") || name.contains("___rdl_realloc") {
                let p = u(&av[0])? as u64;
                let old = u(&av[1])? as u64;
                let n = u(&av[3])? as u64;
                let q = self.alloc(st, n, true);
                self.memcpy(st, q, p, old.min(n))?;
                st.mem[(p >> 32) as usize] = None;
                return Ok(Some(V::I(q as u128)));
            }
            if name.contains("no_alloc_shim") {
                return Ok(Some(unit));
            }
            if name.contains("hashmap_random_keys") {
                return Ok(Some(V::A(Rc::new(vec![V::I(0x0123456789abcdef), V::I(0xfedcba9876543210)]))));
            }
            if name.contains("core9panicking") || name.contains("rust_begin_unwind") || name.contains("begin_panic") || name.contains("10rust_panic") || name.contains("handle_alloc_error") || name.contains("17panic_bounds_check") {
                let mut loc = String::new();
                let mut msg = String::new();
                for v in av {
                    if let V::I(p) = v {
                        let p = *p as u64;
                        if let Some(l) = self.read_location(st, p) {
                            loc = l;
                        }
                        if msg.is_empty() {
                            if let Some(V::I(n)) = av.get(1) {
                                if *n < 400 {
                                    if let Ok(s) = self.read_str(st, p, *n as u64) {
                                        if s.is_ascii() && !s.is_empty() {
                                            msg = s;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                let short = demangle(name);
                return Err(Stop::Bad("panic".into(), format!("{} {} {}", short, msg, loc)));
            }
            return Ok(None);
        }
        if self.m.defs.contains_key(name) {
            return Ok(None);
        }
        Ok(Some(match name {
            "malloc" => {
                let n = u(&av[0])? as u64;
                V::I(self.alloc(st, n, true) as u128)
            }
            "calloc" => {
                let n = (u(&av[0])? * u(&av[1])?) as u64;
                V::I(self.alloc(st, n, true) as u128)
            }
            "free" => {
                let p = u(&av[0])? as u64;
                if p != 0 {
                    let (id, _) = self.locate(st, p, 0, "free")?;
                    st.mem[id] = None;
                }
                unit
            }
            "memcpy" | "memmove" => {
                let n = self.concretize(st, &av[2], &Ty::Int(64))?;
                self.memcpy(st, u(&av[0])? as u64, u(&av[1])? as u64, n as u64)?;
                av[0].clone()
            }
            "memset" => {
                self.memset(st, u(&av[0])? as u64, u(&av[1])? as u8, u(&av[2])? as u64)?;
                av[0].clone()
            }
            "bcmp" | "memcmp" => {
                let n = u(&av[2])? as u64;
                let (p, q) = (u(&av[0])? as u64, u(&av[1])? as u64);
                let mut r: i32 = 0;
                for k in 0..n {
                    let x = self.load(st, &V::I((p + k) as u128), &Ty::Int(8))?;
                    let y = self.load(st, &V::I((q + k) as u128), &Ty::Int(8))?;
                    let x = self.concretize(st, &x, &Ty::Int(8))?;
                    let y = self.concretize(st, &y, &Ty::Int(8))?;
                    if x != y {
                        r = if x < y { -1 } else { 1 };
                        break;
                    }
                }
                V::I(r as u32 as u128)
            }
            "strlen" => {
                let p = u(&av[0])? as u64;
                let mut n = 0u64;
                while u(&self.load(st, &V::I((p + n) as u128), &Ty::Int(8))?)? != 0 {
                    n += 1;
                }
                V::I(n as u128)
            }
            "__cxa_thread_atexit_impl" => V::I(0),
            "abort" => return Err(Stop::Bad("panic".into(), "abort".into())),
            _ => return Err(Stop::Unsupported(format!("external function {}", name))),
        }))
    }

    fn read_location(&self, st: &State, p: u64) -> Option<String> {
        let id = (p >> 32) as usize;
        let o = st.mem.get(id)?.as_ref()?;
        let off = (p & 0xffff_ffff) as usize;
        if o.data.len() < off + 24 {
            return None;
        }
        let g8 = |k: usize| u64::from_le_bytes(o.data[off + k..off + k + 8].try_into().unwrap());
        let g4 = |k: usize| u32::from_le_bytes(o.data[off + k..off + k + 4].try_into().unwrap());
        let (sp, n, line, col) = (g8(0), g8(8), g4(16), g4(20));
        if n == 0 || n > 300 || line == 0 || line > 100000 || col > 2000 {
            return None;
        }
        let s = self.read_str(st, sp, n).ok()?;
        let s = s.trim_end_matches('\0');
        if s.ends_with(".rs") {
            Some(format!("at {}:{}:{}", s, line, col))
        } else {
            None
        }
    }

    fn intrinsic(&mut self, st: &mut State, k: &str, args: &[(Ty, Opd)], av: &[V], ret: &Ty) -> X<V> {
        let unit = V::I(0);
        let ty0 = args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
        let is = |p: &str| k.starts_with(p);
        if is("memcpy") || is("memmove") {
            let n = self.concretize(st, &av[2], &Ty::Int(64))? as u64;
            if n == 0 {
                return Ok(unit);
            }
            let d = self.concretize(st, &av[0], &Ty::Int(64))? as u64;
            let s = self.concretize(st, &av[1], &Ty::Int(64))? as u64;
            self.memcpy(st, d, s, n)?;
            return Ok(unit);
        }
        if is("memset") {
            let d = self.concretize(st, &av[0], &Ty::Int(64))? as u64;
            let b = self.concretize(st, &av[1], &Ty::Int(8))? as u8;
            let n = self.concretize(st, &av[2], &Ty::Int(64))? as u64;
            self.memset(st, d, b, n)?;
            return Ok(unit);
        }
        if is("lifetime") || is("assume") || is("dbg") || is("experimental.noalias") || is("x86.sse2.pause") || is("va_") || is("donothing") {
            return Ok(unit);
        }
        if is("threadlocal.address") {
            return Ok(av[0].clone());
        }
        if is("is.constant") {
            return Ok(V::I(0));
        }
        if is("expect") {
            return Ok(av[0].clone());
        }
        if is("trap") || is("ubsantrap") {
            return Err(Stop::Bad("panic".into(), "trap".into()));
        }
        if is("fabs") {
            return self.f1(st, Op::FAbs, &ty0, &av[0]);
        }
        if is("sqrt") {
            return self.f1(st, Op::FSqrt, &ty0, &av[0]);
        }
        if is("floor") {
            return self.f1(st, Op::FFloor, &ty0, &av[0]);
        }
        if is("ceil") {
            return self.f1(st, Op::FCeil, &ty0, &av[0]);
        }
        if is("trunc.") {
            return self.f1(st, Op::FTrunc, &ty0, &av[0]);
        }
        if is("minnum") || is("minimumnum") || is("minimum") {
            return self.f2(Op::FMin, &ty0, &av[0], &av[1]);
        }
        if is("maxnum") || is("maximumnum") || is("maximum") {
            return self.f2(Op::FMax, &ty0, &av[0], &av[1]);
        }
        if is("fma") || is("fmuladd") {
            let p = self.bin(st, BinOp::FMul, &ty0, &av[0], &av[1])?;
            if let (V::F(a), V::F(b), V::F(c)) = (&av[0], &av[1], &av[2]) {
                return Ok(V::F(if is("fma.") { a.mul_add(*b, *c) } else { a * b + c }));
            }
            return self.bin(st, BinOp::FAdd, &ty0, &p, &av[2]);
        }
        if is("powi") {
            // same algorithm as compiler-rt's __powidf2
            let e = sext(self.concretize(st, &av[1], &Ty::Int(32))?, 32) as i32;
            let mut n = e.unsigned_abs();
            let mut a = av[0].clone();
            let mut r: Option<V> = None;
            loop {
                if n & 1 == 1 {
                    r = Some(match r {
                        None => a.clone(),
                        Some(r) => self.bin(st, BinOp::FMul, &ty0, &r, &a)?,
                    });
                }
                n >>= 1;
                if n == 0 {
                    break;
                }
                a = self.bin(st, BinOp::FMul, &ty0, &a, &a)?;
            }
            let r = r.unwrap_or(V::F(1.0));
            if e < 0 {
                return self.bin(st, BinOp::FDiv, &ty0, &V::F(1.0), &r);
            }
            return Ok(r);
        }
        if is("pow.") || is("sin") || is("cos") || is("exp") || is("log") || is("tan") {
            if let V::F(x) = &av[0] {
                let y = if let Some(V::F(y)) = av.get(1) { *y } else { 0.0 };
                return Ok(V::F(match k.split('.').next().unwrap() {
                    "pow" => x.powf(y),
                    "sin" => x.sin(),
                    "cos" => x.cos(),
                    "exp" => x.exp(),
                    "log" => x.ln(),
                    _ => return Err(Stop::Unsupported(k.into())),
                }));
            }
            if is("pow.") {
                if let Some(V::F(y)) = av.get(1) {
                    if *y == y.trunc() && *y >= 0.0 && *y <= 16.0 {
                        let mut r = V::F(1.0);
                        for _ in 0..*y as i32 {
                            r = self.bin(st, BinOp::FMul, &ty0, &r, &av[0])?;
                        }
                        return Ok(r);
                    }
                }
            }
            return Err(Stop::Unsupported(format!("{} of a symbolic value", k)));
        }
        if is("copysign") {
            let m = self.f1(st, Op::FAbs, &ty0, &av[0])?;
            let n = self.f1(st, Op::FNeg, &ty0, &m)?;
            let c = match &av[1] {
                V::F(f) => return Ok(if f.is_sign_negative() { n } else { m }),
                v => {
                    let t = self.term(v, &Ty::Double)?;
                    let z = self.tm.f(0.0);
                    conv(self.tm.mk(Op::FLt, Sort::B, &[t, z]))?
                }
            };
            return self.select(c, &n, &m, &ty0);
        }
        if is("fptoui.sat") || is("fptosi.sat") {
            return self.ftoi(is("fptosi"), &av[0], ret);
        }
        if k.contains(".with.overflow") {
            let w = ty0.bits();
            let (a, b) = (&av[0], &av[1]);
            let op = if is("uadd") || is("sadd") { BinOp::Add } else if is("usub") || is("ssub") { BinOp::Sub } else { BinOp::Mul };
            let r = self.bin(st, op, &ty0, a, b)?;
            let signed = is("s");
            let ov = if let (V::I(x), V::I(y)) = (a, b) {
                let o = if signed {
                    let (x, y) = (sext(*x, w), sext(*y, w));
                    let t = match op {
                        BinOp::Add => x.checked_add(y),
                        BinOp::Sub => x.checked_sub(y),
                        _ => x.checked_mul(y),
                    };
                    t.map_or(true, |t| sext(t as u128 & mask(w), w) != t)
                } else {
                    match op {
                        BinOp::Add => x.checked_add(*y).map_or(true, |t| t > mask(w)),
                        BinOp::Sub => x < y,
                        _ => x.checked_mul(*y).map_or(true, |t| t > mask(w)),
                    }
                };
                V::I(o as u128)
            } else if !signed && op == BinOp::Add {
                self.icmp(st, IPred::Ult, &ty0, &r, a)?
            } else if !signed && op == BinOp::Sub {
                self.icmp(st, IPred::Ult, &ty0, a, b)?
            } else {
                let ta = self.term(a, &ty0)?;
                let tb = self.term(b, &ty0)?;
                let (x, y) = (self.tm.base[ta as usize], self.tm.base[tb as usize]);
                let lim = if signed { mask(w) >> 1 } else { mask(w) };
                let hi = match op {
                    BinOp::Add => x.ihi.checked_add(y.ihi),
                    BinOp::Mul => x.ihi.checked_mul(y.ihi),
                    _ => Some(x.ihi.max(y.ihi)),
                };
                if hi.map_or(false, |h| h <= lim) && x.ihi <= lim && y.ihi <= lim {
                    V::I(0)
                } else {
                    return Err(Stop::Unsupported(format!("{} on symbolic operands", k)));
                }
            };
            return Ok(V::A(Rc::new(vec![r, ov])));
        }
        if is("uadd.sat") || is("usub.sat") {
            let w = ty0.bits();
            let (a, b) = (&av[0], &av[1]);
            if is("usub") {
                let c = self.icmp(st, IPred::Ult, &ty0, a, b)?;
                let r = self.bin(st, BinOp::Sub, &ty0, a, b)?;
                return match c {
                    V::I(1) => Ok(V::I(0)),
                    V::I(_) => Ok(r),
                    V::S(t) => self.select(t, &V::I(0), &r, &ty0),
                    _ => Err(Stop::Unsupported("usub.sat".into())),
                };
            }
            let r = self.bin(st, BinOp::Add, &ty0, a, b)?;
            let c = self.icmp(st, IPred::Ult, &ty0, &r, a)?;
            return match c {
                V::I(1) => Ok(V::I(mask(w))),
                V::I(_) => Ok(r),
                V::S(t) => self.select(t, &V::I(mask(w)), &r, &ty0),
                _ => Err(Stop::Unsupported("uadd.sat".into())),
            };
        }
        if is("umax") || is("umin") || is("smax") || is("smin") {
            if let (Ty::Vec(_, e), V::A(x), V::A(y)) = (&ty0, &av[0], &av[1]) {
                let mut r = vec![];
                let a2 = vec![((**e).clone(), Opd::Reg(0)), ((**e).clone(), Opd::Reg(0))];
                for i in 0..x.len() {
                    r.push(self.intrinsic(st, k, &a2, &[x[i].clone(), y[i].clone()], e)?);
                }
                return Ok(V::A(Rc::new(r)));
            }
            let p = match &k[..4] {
                "umax" => IPred::Uge,
                "umin" => IPred::Ule,
                "smax" => IPred::Sge,
                _ => IPred::Sle,
            };
            let c = self.icmp(st, p, &ty0, &av[0], &av[1])?;
            return match c {
                V::I(1) => Ok(av[0].clone()),
                V::I(_) => Ok(av[1].clone()),
                V::S(t) => {
                    if is("umin") || is("umax") {
                        // keep interval information
                        let r = self.select(t, &av[0], &av[1], &ty0)?;
                        if let V::S(rt) = &r {
                            let a = self.term(&av[0], &ty0)?;
                            let b = self.term(&av[1], &ty0)?;
                            let (x, y) = (self.tm.base[a as usize], self.tm.base[b as usize]);
                            let e = &mut self.tm.base[*rt as usize];
                            if is("umin") {
                                e.ihi = e.ihi.min(x.ihi.min(y.ihi));
                            } else {
                                e.ilo = e.ilo.max(x.ilo.max(y.ilo));
                            }
                        }
                        return Ok(r);
                    }
                    self.select(t, &av[0], &av[1], &ty0)
                }
                _ => Err(Stop::Unsupported("minmax".into())),
            };
        }
        if is("ucmp") || is("scmp") {
            let lt = self.icmp(st, if is("u") { IPred::Ult } else { IPred::Slt }, &ty0, &av[0], &av[1])?;
            let gt = self.icmp(st, if is("u") { IPred::Ugt } else { IPred::Sgt }, &ty0, &av[0], &av[1])?;
            let w = ret.bits();
            return match (lt, gt) {
                (V::I(a), V::I(b)) => Ok(V::I(if a == 1 { mask(w) } else { b })),
                (a, b) => {
                    let ta = self.term(&a, &Ty::Int(1))?;
                    let tb = self.term(&b, &Ty::Int(1))?;
                    let (m1, z, o) = (self.tm.i(mask(w), w), self.tm.i(0, w), self.tm.i(1, w));
                    let inner = self.tm.ite(tb, o, z);
                    let r = self.tm.ite(ta, m1, inner);
                    Ok(self.unterm(r))
                }
            };
        }
        if is("abs") {
            let w = ty0.bits();
            let x = self.concretize(st, &av[0], &ty0)?;
            return Ok(V::I(sext(x, w).unsigned_abs() & mask(w)));
        }
        if is("fshl") || is("fshr") {
            let w = ty0.bits();
            let s = self.concretize(st, &av[2], &ty0)? as u32 % w;
            if let (V::I(x), V::I(y)) = (&av[0], &av[1]) {
                let cat = if w <= 64 { (x << w) | y } else { return Err(Stop::Unsupported("fshl".into())) };
                let r = if is("fshl") { (cat << s) >> w } else { cat >> s };
                return Ok(V::I(r & mask(w)));
            }
            return Err(Stop::Unsupported("fshl symbolic".into()));
        }
        if is("cttz") || is("ctlz") || is("ctpop") || is("bswap") || is("bitreverse") {
            let w = ty0.bits();
            if let (V::S(t), true) = (&av[0], is("ctpop") || is("cttz")) {
                if !self.tm.real {
                    let r = conv(self.tm.mk(if is("ctpop") { Op::Ctpop } else { Op::Cttz }, Sort::I(w), &[*t]))?;
                    return Ok(self.unterm(r));
                }
            }
            let x = self.concretize(st, &av[0], &ty0)?;
            return Ok(V::I(match k.split('.').next().unwrap() {
                "cttz" => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                "ctpop" => x.count_ones() as u128,
                "bswap" => x.swap_bytes() >> (128 - w),
                _ => x.reverse_bits() >> (128 - w),
            }));
        }
        if is("vector.reduce.or") || is("vector.reduce.add") || is("vector.reduce.and") {
            if let V::A(x) = &av[0] {
                let e = ty0.elems()[0].1.clone();
                let op = if is("vector.reduce.or") { BinOp::Or } else if is("vector.reduce.and") { BinOp::And } else { BinOp::Add };
                let mut r = x[0].clone();
                for y in &x[1..] {
                    r = self.bin(st, op, &e, &r, y)?;
                }
                return Ok(r);
            }
        }
        Err(Stop::Unsupported(format!("intrinsic llvm.{}", k)))
    }

    /// The variable of an input; a name has the same bounds on every path.
    fn input(&mut self, info: VarInfo) -> X<T> {
        let (sort, f, i) = (info.sort, (info.flo, info.fhi), (info.ilo, info.ihi));
        let name = info.name.clone();
        let t = self.tm.var(info);
        if let Op::Var(k) = self.tm.n(t).op {
            let v = &self.tm.vars[k as usize];
            if v.sort != sort || (v.flo, v.fhi) != f || (v.ilo, v.ihi) != i {
                return Err(Stop::Unsupported(format!("input {} has different bounds on different paths", name)));
            }
        }
        Ok(t)
    }

    fn sym_call(&mut self, st: &mut State, name: &str, av: &[V]) -> X<V> {
        let unit = V::I(0);
        let nm = |me: &Self, st: &State| -> X<String> { me.read_str(st, u(&av[0])? as u64, u(&av[1])? as u64) };
        let fresh = |st: &mut State, n: String| -> String {
            let c = st.names.entry(n.clone()).or_insert(0);
            *c += 1;
            if *c == 1 {
                n
            } else {
                format!("{}#{}", n, c)
            }
        };
        match name {
            "sym_f64" => {
                let n = nm(self, st)?;
                let (lo, hi) = match (&av[2], &av[3]) {
                    (V::F(a), V::F(b)) => (*a, *b),
                    _ => return Err(Stop::Unsupported("symbolic bounds".into())),
                };
                let n = fresh(st, n);
                if let Some(fx) = &self.cfg.fixed {
                    return match fx.get(&n) {
                        Some(CV::F(f)) => Ok(V::F(*f)),
                        _ => Ok(V::F(lo)),
                    };
                }
                self.rep.inputs.insert(n.clone(), format!("f64 in [{}, {}]", lo, hi));
                let t = self.input(VarInfo { name: n, sort: Sort::F, flo: lo, fhi: hi, ilo: 0, ihi: 0 })?;
                self.extend(st);
                Ok(V::S(t))
            }
            "sym_int" => {
                let n = nm(self, st)?;
                let (lo, hi) = (u(&av[2])?, u(&av[3])?);
                let n = fresh(st, n);
                if let Some(fx) = &self.cfg.fixed {
                    return match fx.get(&n) {
                        Some(CV::I(f)) => Ok(V::I(*f)),
                        _ => Ok(V::I(lo)),
                    };
                }
                self.rep.inputs.insert(n.clone(), format!("integer in [{}, {}]", lo, hi));
                let t = self.input(VarInfo { name: n, sort: Sort::I(64), flo: 0.0, fhi: 0.0, ilo: lo, ihi: hi })?;
                self.extend(st);
                if lo == hi {
                    return Ok(V::I(lo));
                }
                Ok(V::S(t))
            }
            "sym_bool" => {
                let n = nm(self, st)?;
                let n = fresh(st, n);
                if let Some(fx) = &self.cfg.fixed {
                    return match fx.get(&n) {
                        Some(CV::B(f)) => Ok(V::I(*f as u128)),
                        _ => Ok(V::I(0)),
                    };
                }
                self.rep.inputs.insert(n.clone(), "bool".into());
                let t = self.input(VarInfo { name: n, sort: Sort::B, flo: 0.0, fhi: 0.0, ilo: 0, ihi: 1 })?;
                self.extend(st);
                Ok(V::S(t))
            }
            "sym_concretize" => {
                let x = self.concretize(st, &av[0], &Ty::Int(64))?;
                Ok(V::I(x))
            }
            "sym_assume" => {
                match &av[0] {
                    V::I(1) => {}
                    V::I(_) => return Err(Stop::End("assume")),
                    V::S(t) => {
                        let t = *t;
                        match self.lookup(st, t) {
                            Some(true) => return Ok(unit),
                            Some(false) => return Err(Stop::End("assume")),
                            None => {}
                        }
                        let keep = match st.model.clone() {
                            Some(m) => {
                                let full = self.complete(Some(&m), &Model::new());
                                let mut memo = HashMap::new();
                                self.tm.eval(t, &full, &mut memo) == Some(CV::B(true))
                            }
                            None => false,
                        };
                        if !keep {
                            match self.query(st, t, None) {
                                Res::Unsat => return Err(Stop::End("assume")),
                                Res::Sat(m) => st.model = self.try_model(st, t, &m),
                                Res::Unknown(_) => {
                                    st.model = None;
                                    st.uncertain = true;
                                }
                            }
                        }
                        self.assume(st, t);
                    }
                    _ => return Err(Stop::Unsupported("assume".into())),
                }
                Ok(unit)
            }
            "sym_check" => {
                let id = self.read_str(st, u(&av[1])? as u64, u(&av[2])? as u64)?;
                *self.rep.checks.entry(id.clone()).or_insert(0) += 1;
                let bad = format!("check:{}", id);
                match &av[0] {
                    V::I(1) => {}
                    V::I(_) => {
                        if self.bad_ids.insert(bad.clone()) {
                            let before = self.rep.violations.len();
                            self.violation(st, None, id.clone(), "assertion".into(), format!("check {} fails", id));
                            if self.rep.violations.len() == before {
                                self.bad_ids.remove(&bad);
                            }
                        }
                        return Err(Stop::End("violated"));
                    }
                    V::S(t) => {
                        let t = *t;
                        match self.lookup(st, t) {
                            Some(true) => return Ok(unit),
                            _ => {}
                        }
                        if self.bad_ids.contains(&bad) {
                            // already reported; keep exploring under the assumption that it holds
                            return self.sym_call(st, "sym_assume", &[V::S(t)]);
                        }
                        let nt = self.tm.not(t);
                        // quick test with the current model
                        if let Some(m) = st.model.clone() {
                            let full = self.complete(Some(&m), &Model::new());
                            let mut memo = HashMap::new();
                            if self.tm.eval(nt, &full, &mut memo) == Some(CV::B(true)) {
                                let inputs = self.inputs_of(&full);
                                self.bad_ids.insert(bad);
                                self.rep.violations.push(Violation { id: id.clone(), kind: "assertion".into(), msg: format!("check {} fails", id), confirmed: true, inputs });
                                return self.sym_call(st, "sym_assume", &[V::S(t)]);
                            }
                        }
                        let lim = self.solver.timeout_ms * 3;
                        let mut r = self.query(st, nt, Some(lim.min(4000)));
                        if let Res::Unknown(_) = r {
                            // a counterexample may be easier to find by search; it is replayed natively anyway
                            if let Some(m) = self.guess(st, nt, 600) {
                                let inputs = self.inputs_of(&m);
                                self.bad_ids.insert(bad);
                                self.rep.violations.push(Violation { id: id.clone(), kind: "assertion".into(), msg: format!("check {} fails", id), confirmed: true, inputs });
                                return self.sym_call(st, "sym_assume", &[V::S(t)]);
                            }
                            if self.rep.violations.is_empty() || self.cfg.keep_going {
                                r = self.query(st, nt, Some(lim));
                            }
                        }
                        match r {
                            Res::Unsat => self.learn(st, t),
                            Res::Sat(m) => {
                                self.bad_ids.insert(bad);
                                self.violation(st, Some((nt, Some(m))), id.clone(), "assertion".into(), format!("check {} fails", id));
                                return self.sym_call(st, "sym_assume", &[V::S(t)]);
                            }
                            Res::Unknown(w) => {
                                self.rep.inconclusive.push(format!("check {}: solver gave no answer ({})", id, w));
                                return self.sym_call(st, "sym_assume", &[V::S(t)]);
                            }
                        }
                    }
                    _ => return Err(Stop::Unsupported("check".into())),
                }
                Ok(unit)
            }
            "sym_cover" => {
                let id = self.read_str(st, u(&av[1])? as u64, u(&av[2])? as u64)?;
                self.rep.declared_covers.insert(id.clone());
                if self.rep.covers.contains_key(&id) {
                    return Ok(unit);
                }
                let hit = match &av[0] {
                    V::I(x) => *x == 1 && (st.model.is_some() || {
                        let pc = st.pc.clone();
                        self.find_concrete(st, &pc, None).0.is_some()
                    }),
                    V::S(t) => {
                        let t = *t;
                        let mut hit = false;
                        if let Some(m) = st.model.clone() {
                            let full = self.complete(Some(&m), &Model::new());
                            let mut memo = HashMap::new();
                            hit = self.tm.eval(t, &full, &mut memo) == Some(CV::B(true));
                        }
                        if !hit {
                            if let Res::Sat(m) = self.query(st, t, None) {
                                hit = self.try_model(st, t, &m).is_some() || {
                                    let mut l = st.pc.clone();
                                    l.push(t);
                                    self.find_concrete(st, &l, Some(&m)).0.is_some()
                                };
                            }
                        }
                        hit
                    }
                    _ => false,
                };
                if hit {
                    *self.rep.covers.entry(id).or_insert(0) += 1;
                }
                Ok(unit)
            }
            "sym_note" => {
                let n = nm(self, st)?;
                if self.cfg.fixed.is_some() {
                    st.notes.push((n, av[2].clone()));
                }
                Ok(unit)
            }
            "sym_is_real" => Ok(V::I(self.tm.real as u128)),
            _ => Err(Stop::Unsupported(format!("unknown primitive {}", name))),
        }
    }

    /// A new variable was introduced: extend the current model with a default.
    fn extend(&mut self, st: &mut State) {
        if let Some(m) = &st.model {
            let full = self.complete(Some(m), &Model::new());
            st.model = Some(Rc::new(full));
        }
    }
}

fn fr_dummy(f: &Rc<Func>) -> Frame {
    Frame { func: f.clone(), block: 0, ip: 0, prev: 0, regs: vec![], dst: None, next: None, allocas: vec![] }
}

fn insert(agg: &V, idx: &[u32], x: V) -> X<V> {
    if idx.is_empty() {
        return Ok(x);
    }
    match agg {
        V::A(a) => {
            let mut v = (**a).clone();
            let k = idx[0] as usize;
            v[k] = insert(&v[k], &idx[1..], x)?;
            Ok(V::A(Rc::new(v)))
        }
        _ => Err(Stop::Unsupported("insertvalue".into())),
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
