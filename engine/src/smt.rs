//! Encoding of path conditions to SMT-LIB and the solver driver.

use crate::term::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub type Model = HashMap<u32, CV>;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub by_interval: u64,
    pub cached: u64,
    pub solver_s: f64,
    pub max_s: f64,
    pub relaxed_atoms: u64,
    pub exact_atoms: u64,
    pub idealised_atoms: u64,
    pub max_delta: f64,
    pub by_z3: u64,
    pub by_cvc5: u64,
}

struct Proc {
    child: Child,
    rx: Receiver<String>,
}

/// How long the first solvers have to themselves in a race.
const LATER_MS: u64 = 1500;

pub struct Solver {
    z3: Option<Proc>,
    pub stats: Stats,
    pub timeout_ms: u64,
    cache: HashMap<String, (Res, u64)>,
    pub dump: Option<String>,
    pub z3_bin: String,
    pub cvc5_bin: Option<String>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Relax {
    /// Sound: atoms relaxed outward by the rounding-error bound.
    Outward,
    /// Under-approximation used to look for robust counterexamples.
    Inward(f64),
}

impl Solver {
    pub fn new() -> Self {
        Solver { z3: None, stats: Stats::default(), timeout_ms: 20000, cache: HashMap::new(), dump: std::env::var("LLSYM_DUMP").ok(), z3_bin: std::env::var("LLSYM_Z3").unwrap_or("z3-new".into()), cvc5_bin: Some("cvc5".into()) }
    }

    fn spawn(&mut self) -> Result<(), String> {
        let mut child = Command::new(&self.z3_bin)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("cannot start {}: {}", self.z3_bin, e))?;
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.z3 = Some(Proc { child, rx });
        Ok(())
    }

    fn kill(&mut self) {
        if let Some(mut p) = self.z3.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }

    /// Runs one script in the interactive z3 and returns its output lines.
    fn z3_run(&mut self, script: &str, limit_ms: u64) -> Result<Vec<String>, String> {
        if self.z3.is_none() {
            self.spawn()?;
        }
        let p = self.z3.as_mut().unwrap();
        let mut s = String::with_capacity(script.len() + 200);
        let _ = write!(s, "(reset)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n", limit_ms);
        s.push_str(script);
        s.push_str("(echo \"@@done\")\n");
        let stdin = p.child.stdin.as_mut().unwrap();
        if stdin.write_all(s.as_bytes()).and_then(|_| stdin.flush()).is_err() {
            self.kill();
            return Err("solver pipe broken".into());
        }
        let mut out = vec![];
        let deadline = Instant::now() + Duration::from_millis(limit_ms + 3000);
        loop {
            let now = Instant::now();
            if now >= deadline {
                self.kill();
                return Err("timeout (killed)".into());
            }
            match self.z3.as_ref().unwrap().rx.recv_timeout(deadline - now) {
                Ok(l) => {
                    if l.contains("@@done") {
                        return Ok(out);
                    }
                    out.push(l);
                }
                Err(RecvTimeoutError::Timeout) => {
                    self.kill();
                    return Err("timeout (killed)".into());
                }
                Err(RecvTimeoutError::Disconnected) => {
                    self.kill();
                    return Err("solver died".into());
                }
            }
        }
    }

    /// Runs several solvers side by side until `accept` likes an answer. Those
    /// from `first` on start only when the others have not answered for a while.
    fn race(&self, runs: Vec<(Vec<String>, String)>, first: usize, limit_ms: u64, mut accept: impl FnMut(usize, &[String]) -> bool) -> bool {
        let (tx, rx) = channel();
        let mut kids: Vec<Child> = vec![];
        let start = |i: usize, cmd: &[String], script: String, kids: &mut Vec<Child>| -> bool {
            let child = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
            let mut child = match child {
                Ok(c) => c,
                Err(_) => return false,
            };
            let mut si = child.stdin.take().unwrap();
            let so = child.stdout.take().unwrap();
            std::thread::spawn(move || {
                let _ = si.write_all(script.as_bytes());
            });
            let tx = tx.clone();
            std::thread::spawn(move || {
                let out: Vec<String> = BufReader::new(so).lines().map_while(Result::ok).collect();
                let _ = tx.send((i, out));
            });
            kids.push(child);
            true
        };
        let now = Instant::now();
        let deadline = now + Duration::from_millis(limit_ms);
        let second = now + Duration::from_millis(LATER_MS);
        let mut queue = runs.into_iter().enumerate();
        let mut running = 0;
        for (i, (cmd, script)) in queue.by_ref().take(first) {
            running += start(i, &cmd, script, &mut kids) as usize;
        }
        let mut waiting = true;
        let mut won = false;
        loop {
            if waiting && (running == 0 || Instant::now() >= second) {
                waiting = false;
                for (i, (cmd, script)) in queue.by_ref() {
                    running += start(i, &cmd, script, &mut kids) as usize;
                }
            }
            if running == 0 || Instant::now() >= deadline {
                break;
            }
            let until = if waiting { second.min(deadline) } else { deadline };
            if let Ok((i, out)) = rx.recv_timeout(until.saturating_duration_since(Instant::now())) {
                running -= 1;
                if accept(i, &out) {
                    won = true;
                    break;
                }
            }
        }
        for k in &mut kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        won
    }

    pub fn check(&mut self, tm: &Terms, asserts: &[T], relax: Relax, limit_ms: Option<u64>) -> Res {
        let limit = limit_ms.unwrap_or(self.timeout_ms);
        let mut enc = Enc::new(tm, asserts, relax);
        if tm.real {
            if !enc.analyse() {
                self.stats.by_interval += 1;
                return Res::Unsat;
            }
        } else {
            enc.simple_order();
        }
        let script = match enc.print() {
            Ok(s) => s,
            Err(e) => {
                self.stats.queries += 1;
                self.stats.unknown += 1;
                return Res::Unknown(e);
            }
        };
        match self.cache.get(&script) {
            // a longer limit may succeed where a shorter one did not
            Some((Res::Unknown(_), l)) if *l < limit => self.stats.unknown -= 1,
            Some((r, _)) => {
                self.stats.cached += 1;
                return r.clone();
            }
            None => {}
        }
        self.stats.queries += 1;
        self.stats.relaxed_atoms += enc.relaxed;
        self.stats.exact_atoms += enc.exact;
        self.stats.idealised_atoms += enc.ideal;
        if enc.max_delta > self.stats.max_delta {
            self.stats.max_delta = enc.max_delta;
        }
        let vars: Vec<u32> = enc.used_vars.iter().cloned().collect();
        let mut tail = String::from("(check-sat)\n");
        if !vars.is_empty() {
            tail.push_str("(get-value (");
            for v in &vars {
                let _ = write!(tail, "v{} ", v);
            }
            tail.push_str("))\n");
        }
        let t0 = Instant::now();
        let logic = if !tm.real {
            "QF_BVFP"
        } else if enc.has_int && enc.nonlinear {
            "ALL"
        } else if enc.has_int {
            "QF_LIRA"
        } else if enc.nonlinear {
            "QF_NRA"
        } else {
            "QF_LRA"
        };
        let mut why = String::new();
        let mut result = None;
        let name = |n: u64, d: &str, w: &str| format!("{}/q{}_{}.smt2", d, n, w);
        let mut take = |out: &[String], exact: bool, why: &mut String| -> Option<Res> {
            let head = out.first().cloned().unwrap_or_default();
            match head.as_str() {
                "unsat" => Some(Res::Unsat),
                "sat" => {
                    let txt: String = out[1..].join(" ");
                    match parse_model(&txt, tm, &vars) {
                        Some(m) if exact => Some(Res::Sat(m)),
                        Some(m) => {
                            // integers were taken for reals: only a model that really satisfies everything counts
                            let mut memo = HashMap::new();
                            if asserts.iter().all(|t| tm.eval(*t, &m, &mut memo) == Some(CV::B(true))) {
                                Some(Res::Sat(m))
                            } else {
                                *why = "only a fractional model".into();
                                None
                            }
                        }
                        None => {
                            *why = format!("cannot parse model: {}", txt.chars().take(300).collect::<String>());
                            None
                        }
                    }
                }
                _ => {
                    *why = format!("solvers said '{}'", head);
                    None
                }
            }
        };
        let with_logic = |l: &str| if l == "ALL" { format!("{}{}", script, tail) } else { format!("(set-logic {})\n{}{}", l, script, tail) };
        if let Some(d) = &self.dump {
            let _ = std::fs::create_dir_all(d);
            let _ = std::fs::write(name(self.stats.queries, d, logic), &with_logic(logic));
        }
        // the resident solver first, briefly; then several side by side
        let nonlinear = matches!(logic, "QF_NRA" | "ALL");
        let brief = if nonlinear { limit.min(300) } else { limit.min(3000) };
        match self.z3_run(&with_logic(logic), brief) {
            Ok(out) => {
                result = take(&out, true, &mut why);
                if result.is_some() {
                    self.stats.by_z3 += 1;
                }
            }
            Err(e) => why = e,
        }
        let left = limit.saturating_sub(t0.elapsed().as_millis() as u64);
        if result.is_none() && left > 50 {
            let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
            let cvc5_logic = if logic == "ALL" { "QF_NIRA" } else { logic };
            let opts = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n";
            let mut runs = vec![];
            let mut kinds = vec![];
            if let Some(c) = &self.cvc5_bin {
                runs.push((s(&[c, "--lang", "smt2", "--produce-models"]), with_logic(cvc5_logic)));
                kinds.push((true, false));
            }
            runs.push((s(&[&self.z3_bin, "-in"]), format!("{}{}", opts, with_logic(logic))));
            kinds.push((true, true));
            if nonlinear && !script.contains("(div ") && !script.contains("(mod ") {
                let t = tail.replace("(check-sat)", "(check-sat-using (then simplify propagate-values solve-eqs purify-arith simplify elim-term-ite solve-eqs simplify tseitin-cnf nlsat))");
                let q = script.replace(" Int)", " Real)").replace("(to_real ", "(* 1.0 ");
                // a define-fun of sort Int ends in "Int body"
                let q = q.replace("() Int ", "() Real ");
                runs.push((s(&[&self.z3_bin, "-in"]), format!("{}(set-logic QF_NRA)\n{}{}", opts, q, t)));
                kinds.push((!enc.has_int, true));
            }
            let first = runs.len();
            if nonlinear {
                for o in [&["nlsat.reorder=false"][..], &["nlsat.seed=1", "smt.random_seed=1"]] {
                    let mut cmd = s(&[&self.z3_bin, "-in"]);
                    cmd.extend(o.iter().map(|x| x.to_string()));
                    runs.push((cmd, format!("{}{}", opts, with_logic(logic))));
                    kinds.push((true, true));
                }
            }
            let mut by = false;
            let r = &mut result;
            let w = &mut why;
            self.race(runs, first, left, |i, out| {
                *r = take(out, kinds[i].0, w);
                by = kinds[i].1;
                r.is_some()
            });
            if result.is_some() {
                if by {
                    self.stats.by_z3 += 1;
                } else {
                    self.stats.by_cvc5 += 1;
                }
            } else if why.is_empty() {
                why = "timeout".into();
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        if std::env::var("LLSYM_SLOW").is_ok() && dt > 2.0 {
            eprintln!("slow query {} {:.1}s {} -> {:?}", self.stats.queries, dt, logic, result.as_ref().map(|r| matches!(r, Res::Sat(_))));
            let _ = std::fs::write(format!("/tmp/slow{}.smt2", self.stats.queries), format!("{}{}", script, tail));
        }
        self.stats.solver_s += dt;
        if dt > self.stats.max_s {
            self.stats.max_s = dt;
        }
        let r = result.unwrap_or(Res::Unknown(why));
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        self.cache.insert(script, (r.clone(), limit));
        r
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

// ------------------------------------------------------------------ models

#[derive(Debug, Clone)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}

fn parse_sx(s: &str) -> Option<Sx> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut cur = String::new();
    let flush = |cur: &mut String, st: &mut Vec<Vec<Sx>>| {
        if !cur.is_empty() {
            st.last_mut().unwrap().push(Sx::A(std::mem::take(cur)));
        }
    };
    for c in s.chars() {
        match c {
            '(' => {
                flush(&mut cur, &mut stack);
                stack.push(vec![]);
            }
            ')' => {
                flush(&mut cur, &mut stack);
                let l = stack.pop()?;
                stack.last_mut()?.push(Sx::L(l));
            }
            c if c.is_whitespace() => flush(&mut cur, &mut stack),
            c => cur.push(c),
        }
    }
    flush(&mut cur, &mut stack);
    if stack.len() != 1 {
        return None;
    }
    stack.pop()?.into_iter().next()
}

fn num(x: &Sx) -> Option<f64> {
    match x {
        Sx::A(a) => a.trim_end_matches('?').parse().ok(),
        Sx::L(l) => match l.first()? {
            Sx::A(o) if o == "-" && l.len() == 2 => Some(-num(&l[1])?),
            Sx::A(o) if o == "/" => Some(num(&l[1])? / num(&l[2])?),
            Sx::A(o) if o == "to_real" => num(&l[1]),
            _ => None,
        },
    }
}

fn bits(s: &str) -> Option<(u128, u32)> {
    if let Some(b) = s.strip_prefix("#b") {
        Some((u128::from_str_radix(b, 2).ok()?, b.len() as u32))
    } else if let Some(h) = s.strip_prefix("#x") {
        Some((u128::from_str_radix(h, 16).ok()?, 4 * h.len() as u32))
    } else {
        None
    }
}

fn value(x: &Sx, s: Sort, real: bool) -> Option<CV> {
    match s {
        Sort::B => match x {
            Sx::A(a) => Some(CV::B(a == "true")),
            _ => None,
        },
        Sort::F if real => Some(CV::F(num(x)?)),
        Sort::F => match x {
            Sx::L(l) => match l.first()? {
                Sx::A(o) if o == "fp" => {
                    let mut v: u128 = 0;
                    for p in &l[1..] {
                        if let Sx::A(a) = p {
                            let (b, w) = bits(a)?;
                            v = (v << w) | b;
                        }
                    }
                    Some(CV::F(f64::from_bits(v as u64)))
                }
                Sx::A(o) if o == "_" => match l.get(1)? {
                    Sx::A(k) => Some(CV::F(match k.as_str() {
                        "+zero" => 0.0,
                        "-zero" => -0.0,
                        "+oo" => f64::INFINITY,
                        "-oo" => f64::NEG_INFINITY,
                        "NaN" => f64::NAN,
                        _ => return None,
                    })),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        },
        Sort::I(w) if real => {
            let s = match x {
                Sx::A(a) => a.trim_end_matches(".0").parse::<i128>().ok()?,
                Sx::L(l) => match (l.first()?, l.get(1)?) {
                    (Sx::A(o), Sx::A(a)) if o == "-" => -a.trim_end_matches(".0").parse::<i128>().ok()?,
                    _ => return None,
                },
            };
            Some(CV::I(s as u128 & mask(w)))
        }
        Sort::I(w) => match x {
            Sx::A(a) => Some(CV::I(bits(a)?.0 & mask(w))),
            Sx::L(l) => match (l.first()?, l.get(1)?) {
                (Sx::A(o), Sx::A(b)) if o == "_" => Some(CV::I(b.strip_prefix("bv")?.parse().ok()?)),
                _ => None,
            },
        },
    }
}

fn parse_model(txt: &str, tm: &Terms, vars: &[u32]) -> Option<Model> {
    let mut m = Model::new();
    if vars.is_empty() {
        return Some(m);
    }
    let sx = parse_sx(txt)?;
    let l = match sx {
        Sx::L(l) => l,
        _ => return None,
    };
    for e in l {
        if let Sx::L(p) = e {
            if let Sx::A(n) = &p[0] {
                let i: u32 = n.strip_prefix('v')?.parse().ok()?;
                let info = &tm.vars[i as usize];
                let mut v = value(&p[1], info.sort, tm.real)?;
                if let (CV::F(x), true) = (v, tm.real) {
                    v = CV::F(x.clamp(info.flo, info.fhi));
                }
                m.insert(i, v);
            }
        }
    }
    if vars.iter().all(|v| m.contains_key(v)) {
        Some(m)
    } else {
        None
    }
}

// ------------------------------------------------------------------ encoder

pub struct Enc<'a> {
    tm: &'a Terms,
    relax: Relax,
    lits: Vec<(T, bool)>,
    order: Vec<T>,
    iv: HashMap<T, Iv>,
    pub used_vars: BTreeSet<u32>,
    pub has_int: bool,
    pub nonlinear: bool,
    pub relaxed: u64,
    pub exact: u64,
    pub ideal: u64,
    pub max_delta: f64,
}

fn meet(iv: &mut HashMap<T, Iv>, t: T, f: impl FnOnce(&mut Iv)) -> bool {
    let e = iv.get_mut(&t).unwrap();
    let old = *e;
    f(e);
    if e.lo < old.lo || e.lo.is_nan() {
        e.lo = old.lo;
    }
    if e.hi > old.hi || e.hi.is_nan() {
        e.hi = old.hi;
    }
    if e.ilo < old.ilo {
        e.ilo = old.ilo;
    }
    if e.ihi > old.ihi {
        e.ihi = old.ihi;
    }
    e.lo <= e.hi && e.ilo <= e.ihi
}

impl<'a> Enc<'a> {
    pub fn new(tm: &'a Terms, asserts: &[T], relax: Relax) -> Self {
        let mut lits = vec![];
        let mut st: Vec<(T, bool)> = asserts.iter().rev().map(|t| (*t, true)).collect();
        let mut seen = HashSet::new();
        while let Some((t, p)) = st.pop() {
            let n = tm.n(t);
            match (n.op, p) {
                (Op::Not, _) => st.push((n.a[0], !p)),
                (Op::And, true) | (Op::Or, false) => {
                    st.push((n.a[1], p));
                    st.push((n.a[0], p));
                }
                _ => {
                    if seen.insert((t, p)) {
                        lits.push((t, p))
                    }
                }
            }
        }
        Enc { tm, relax, lits, order: vec![], iv: HashMap::new(), used_vars: BTreeSet::new(), has_int: false, nonlinear: false, relaxed: 0, exact: 0, ideal: 0, max_delta: 0.0 }
    }

    fn toposort(&mut self) {
        let mut seen = HashSet::new();
        let mut order = vec![];
        for &(t, _) in &self.lits {
            let mut st = vec![(t, false)];
            while let Some((x, done)) = st.pop() {
                if done {
                    order.push(x);
                    continue;
                }
                if !seen.insert(x) {
                    continue;
                }
                st.push((x, true));
                for &y in self.tm.n(x).a.iter().filter(|y| **y != NONE) {
                    if !seen.contains(&y) {
                        st.push((y, false));
                    }
                }
            }
        }
        self.order = order;
    }

    pub fn simple_order(&mut self) {
        self.toposort();
        for &t in &self.order {
            self.iv.insert(t, self.tm.base[t as usize]);
        }
    }

    /// Interval contraction over the cone. Returns false if contradictory.
    pub fn analyse(&mut self) -> bool {
        self.toposort();
        for &t in &self.order {
            self.iv.insert(t, self.tm.base[t as usize]);
        }
        for &(t, p) in &self.lits {
            let e = self.iv.get_mut(&t).unwrap();
            let b = p as u128;
            if e.ilo > b || e.ihi < b {
                return false;
            }
            e.ilo = b;
            e.ihi = b;
        }
        let order = self.order.clone();
        let mut fwd: HashSet<T> = HashSet::new();
        for &t in &order {
            let b = self.tm.base[t as usize];
            if self.tm.sort(t) == Sort::B && b.ilo == b.ihi {
                fwd.insert(t);
            }
        }
        for _round in 0..4 {
            // backward
            for &t in order.iter().rev() {
                if !self.back(t) {
                    return false;
                }
            }
            // forward
            let mut changed = false;
            for &t in order.iter() {
                let n = self.tm.n(t);
                let f = self.tm.forward(n, |_, x| self.iv[&x]);
                let e = self.iv.get_mut(&t).unwrap();
                let old = *e;
                e.lo = e.lo.max(f.lo);
                e.hi = e.hi.min(f.hi);
                e.err = e.err.min(f.err);
                e.ilo = e.ilo.max(f.ilo);
                e.ihi = e.ihi.min(f.ihi);
                if e.lo > e.hi || e.ilo > e.ihi {
                    return false;
                }
                if *e != old {
                    changed = true;
                    if n.sort == Sort::B && old.ilo != old.ihi && e.ilo == e.ihi {
                        fwd.insert(t);
                    }
                }
            }
            if !changed {
                break;
            }
        }
        // Booleans decided by backward reasoning are asserted explicitly, so
        // that replacing them by constants elsewhere loses nothing.
        let have: HashSet<T> = self.lits.iter().map(|l| l.0).collect();
        for &t in &order {
            if self.tm.sort(t) == Sort::B && !fwd.contains(&t) && !have.contains(&t) {
                let e = self.iv[&t];
                if e.ilo == e.ihi {
                    self.lits.push((t, e.ilo == 1));
                }
            }
        }
        true
    }

    fn back(&mut self, t: T) -> bool {
        let n = self.tm.n(t);
        let r = self.iv[&t];
        let iv = &mut self.iv;
        let g = |iv: &HashMap<T, Iv>, k: usize| iv[&n.a[k]];
        match n.sort {
            Sort::B => {
                if r.ilo != r.ihi {
                    return true;
                }
                let v = r.ilo == 1;
                let setb = |iv: &mut HashMap<T, Iv>, x: T, b: bool| {
                    let b = b as u128;
                    meet(iv, x, |e| {
                        e.ilo = e.ilo.max(b);
                        e.ihi = e.ihi.min(b);
                    })
                };
                match n.op {
                    Op::Not => setb(iv, n.a[0], !v),
                    Op::And if v => setb(iv, n.a[0], true) && setb(iv, n.a[1], true),
                    Op::Or if !v => setb(iv, n.a[0], false) && setb(iv, n.a[1], false),
                    Op::Or if v => {
                        let (a, b) = (g(iv, 0), g(iv, 1));
                        if a.ihi == 0 {
                            setb(iv, n.a[1], true)
                        } else if b.ihi == 0 {
                            setb(iv, n.a[0], true)
                        } else {
                            true
                        }
                    }
                    Op::And if !v => {
                        let (a, b) = (g(iv, 0), g(iv, 1));
                        if a.ilo == 1 {
                            setb(iv, n.a[1], false)
                        } else if b.ilo == 1 {
                            setb(iv, n.a[0], false)
                        } else {
                            true
                        }
                    }
                    Op::Ite => {
                        let c = g(iv, 0);
                        if c.ilo == 1 {
                            setb(iv, n.a[1], v)
                        } else if c.ihi == 0 {
                            setb(iv, n.a[2], v)
                        } else {
                            true
                        }
                    }
                    Op::FLt | Op::FLe | Op::FEq => {
                        let (a, b) = (g(iv, 0), g(iv, 1));
                        let d = a.err + b.err;
                        if !d.is_finite() {
                            return true;
                        }
                        let le = |iv: &mut HashMap<T, Iv>, x: T, y: T| -> bool {
                            // x <= y + d
                            let (a, b) = (iv[&x], iv[&y]);
                            let nh = if d == 0.0 { b.hi } else { up(b.hi + d) };
                            let nl = if d == 0.0 { a.lo } else { dn(a.lo - d) };
                            meet(iv, x, |e| e.hi = e.hi.min(nh)) && meet(iv, y, |e| e.lo = e.lo.max(nl))
                        };
                        match (n.op, v) {
                            (Op::FEq, true) => le(iv, n.a[0], n.a[1]) && le(iv, n.a[1], n.a[0]),
                            (Op::FEq, false) => true,
                            (_, true) => le(iv, n.a[0], n.a[1]),
                            (_, false) => le(iv, n.a[1], n.a[0]),
                        }
                    }
                    Op::IEq if v => {
                        let (a, b) = (g(iv, 0), g(iv, 1));
                        meet(iv, n.a[0], |e| {
                            e.ilo = e.ilo.max(b.ilo);
                            e.ihi = e.ihi.min(b.ihi)
                        }) && meet(iv, n.a[1], |e| {
                            e.ilo = e.ilo.max(a.ilo);
                            e.ihi = e.ihi.min(a.ihi)
                        })
                    }
                    Op::IEq => {
                        let (a, b) = (g(iv, 0), g(iv, 1));
                        if b.ilo == b.ihi {
                            let c = b.ilo;
                            if a.ilo == c && a.ihi == c {
                                return false;
                            }
                            meet(iv, n.a[0], |e| {
                                if e.ilo == c {
                                    e.ilo += 1
                                } else if e.ihi == c {
                                    e.ihi -= 1
                                }
                            })
                        } else if a.ilo == a.ihi {
                            let c = a.ilo;
                            meet(iv, n.a[1], |e| {
                                if e.ilo == c {
                                    e.ilo += 1
                                } else if e.ihi == c {
                                    e.ihi -= 1
                                }
                            })
                        } else {
                            true
                        }
                    }
                    Op::Ult | Op::Ule => {
                        let strict = (n.op == Op::Ult) == v;
                        let (x, y) = if v { (n.a[0], n.a[1]) } else { (n.a[1], n.a[0]) };
                        let (a, b) = (iv[&x], iv[&y]);
                        let s = strict as u128;
                        if b.ihi < s {
                            return false;
                        }
                        meet(iv, x, |e| e.ihi = e.ihi.min(b.ihi - s)) && meet(iv, y, |e| e.ilo = e.ilo.max(a.ilo + s))
                    }
                    _ => true,
                }
            }
            Sort::F => {
                let set = |iv: &mut HashMap<T, Iv>, x: T, lo: f64, hi: f64| {
                    meet(iv, x, |e| {
                        e.lo = if lo.is_nan() { e.lo } else { e.lo.max(lo) };
                        e.hi = if hi.is_nan() { e.hi } else { e.hi.min(hi) };
                    })
                };
                match n.op {
                    Op::FAdd if n.a[0] != n.a[1] => {
                        let (a, b) = (g(iv, 0), g(iv, 1));
                        set(iv, n.a[0], dn(r.lo - b.hi), up(r.hi - b.lo)) && set(iv, n.a[1], dn(r.lo - a.hi), up(r.hi - a.lo))
                    }
                    Op::FSub => {
                        let (a, b) = (g(iv, 0), g(iv, 1));
                        set(iv, n.a[0], dn(r.lo + b.lo), up(r.hi + b.hi)) && set(iv, n.a[1], dn(a.lo - r.hi), up(a.hi - r.lo))
                    }
                    Op::FMul => {
                        if n.a[0] == n.a[1] {
                            let m = up(r.hi.max(0.0).sqrt());
                            return set(iv, n.a[0], -m, m);
                        }
                        for k in 0..2 {
                            let b = g(iv, 1 - k);
                            if b.lo > 0.0 || b.hi < 0.0 {
                                let p = [r.lo / b.lo, r.lo / b.hi, r.hi / b.lo, r.hi / b.hi];
                                if p.iter().any(|x| x.is_nan()) {
                                    continue;
                                }
                                let lo = dn(p.iter().cloned().fold(f64::INFINITY, f64::min));
                                let hi = up(p.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                                if !set(iv, n.a[k], lo, hi) {
                                    return false;
                                }
                            }
                        }
                        true
                    }
                    Op::FDiv => {
                        let b = g(iv, 1);
                        if b.lo > 0.0 || b.hi < 0.0 {
                            let p = [r.lo * b.lo, r.lo * b.hi, r.hi * b.lo, r.hi * b.hi];
                            if p.iter().any(|x| x.is_nan()) {
                                return true;
                            }
                            let lo = dn(p.iter().cloned().fold(f64::INFINITY, f64::min));
                            let hi = up(p.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                            set(iv, n.a[0], lo, hi)
                        } else {
                            true
                        }
                    }
                    Op::FNeg => set(iv, n.a[0], -r.hi, -r.lo),
                    Op::Approx(_) => set(iv, n.a[0], r.lo, r.hi),
                    Op::FAbs => set(iv, n.a[0], -r.hi, r.hi),
                    Op::FSqrt => {
                        let lo = if r.lo > 0.0 { dn(dn(r.lo) * dn(r.lo)) } else { f64::NAN };
                        set(iv, n.a[0], lo, up(up(r.hi) * up(r.hi)))
                    }
                    Op::FMin => set(iv, n.a[0], r.lo, f64::NAN) && set(iv, n.a[1], r.lo, f64::NAN),
                    Op::FMax => set(iv, n.a[0], f64::NAN, r.hi) && set(iv, n.a[1], f64::NAN, r.hi),
                    Op::Ite => {
                        let c = g(iv, 0);
                        let (a, b) = (g(iv, 1), g(iv, 2));
                        if c.ilo == 1 {
                            set(iv, n.a[1], r.lo, r.hi)
                        } else if c.ihi == 0 {
                            set(iv, n.a[2], r.lo, r.hi)
                        } else {
                            let na = a.lo > r.hi || a.hi < r.lo;
                            let nb = b.lo > r.hi || b.hi < r.lo;
                            if na && nb {
                                return false;
                            }
                            if na {
                                return meet(iv, n.a[0], |e| e.ihi = 0);
                            }
                            if nb {
                                return meet(iv, n.a[0], |e| e.ilo = 1);
                            }
                            true
                        }
                    }
                    _ => true,
                }
            }
            Sort::I(w) => {
                let set = |iv: &mut HashMap<T, Iv>, x: T, lo: u128, hi: u128| {
                    meet(iv, x, |e| {
                        e.ilo = e.ilo.max(lo);
                        e.ihi = e.ihi.min(hi);
                    })
                };
                match n.op {
                    Op::Add if w < 128 => {
                        let (a, b) = (g(iv, 0), g(iv, 1));
                        let m = mask(w);
                        if a.ihi + b.ihi <= m {
                            set(iv, n.a[0], r.ilo.saturating_sub(b.ihi), r.ihi.saturating_sub(b.ilo)) && set(iv, n.a[1], r.ilo.saturating_sub(a.ihi), r.ihi.saturating_sub(a.ilo))
                        } else if a.ilo + b.ilo > m {
                            let (rl, rh) = (r.ilo + m + 1, r.ihi + m + 1);
                            set(iv, n.a[0], rl.saturating_sub(b.ihi), rh.saturating_sub(b.ilo)) && set(iv, n.a[1], rl.saturating_sub(a.ihi), rh.saturating_sub(a.ilo))
                        } else {
                            true
                        }
                    }
                    Op::ZExt => set(iv, n.a[0], r.ilo, r.ihi),
                    Op::Ite => {
                        let c = g(iv, 0);
                        let (a, b) = (g(iv, 1), g(iv, 2));
                        if c.ilo == 1 {
                            set(iv, n.a[1], r.ilo, r.ihi)
                        } else if c.ihi == 0 {
                            set(iv, n.a[2], r.ilo, r.ihi)
                        } else {
                            let na = a.ilo > r.ihi || a.ihi < r.ilo;
                            let nb = b.ilo > r.ihi || b.ihi < r.ilo;
                            if na && nb {
                                return false;
                            }
                            if na {
                                return meet(iv, n.a[0], |e| e.ihi = 0);
                            }
                            if nb {
                                return meet(iv, n.a[0], |e| e.ilo = 1);
                            }
                            true
                        }
                    }
                    Op::B2I => meet(iv, n.a[0], |e| {
                        e.ilo = e.ilo.max(r.ilo);
                        e.ihi = e.ihi.min(r.ihi.min(1));
                    }),
                    Op::FToU => {
                        let a = g(iv, 0);
                        if !a.err.is_finite() {
                            return true;
                        }
                        let m = mask(w);
                        let lo = if r.ilo > 0 { r.ilo as f64 - a.err } else { f64::NEG_INFINITY };
                        let hi = if r.ihi < m { (r.ihi + 1) as f64 + a.err } else { f64::INFINITY };
                        meet(iv, n.a[0], |e| {
                            e.lo = e.lo.max(dn(lo));
                            e.hi = e.hi.min(up(hi));
                        })
                    }
                    _ => true,
                }
            }
        }
    }

    // -------------------------------------------------------------- printing

    pub fn print(&mut self) -> Result<String, String> {
        if self.tm.real {
            self.print_real()
        } else {
            self.print_fp()
        }
    }

    /// Nodes that really need to be printed (skipping sub-terms whose value is
    /// already decided by the interval analysis).
    fn needed(&self) -> Vec<T> {
        let mut seen = HashSet::new();
        let mut order = vec![];
        for &(t, _) in &self.lits {
            let mut st = vec![(t, false, true)];
            while let Some((x, done, top)) = st.pop() {
                if done {
                    order.push(x);
                    continue;
                }
                if !top && self.fixed(x).is_some() {
                    continue;
                }
                if !seen.insert(x) {
                    continue;
                }
                st.push((x, true, false));
                let n = self.tm.n(x);
                if n.op == Op::Ite {
                    if let Some(c) = self.fixed_b(n.a[0]) {
                        st.push((if c { n.a[1] } else { n.a[2] }, false, false));
                        continue;
                    }
                }
                for &y in n.a.iter().filter(|y| **y != NONE) {
                    st.push((y, false, false));
                }
            }
        }
        order
    }

    fn fixed_b(&self, t: T) -> Option<bool> {
        if self.tm.sort(t) != Sort::B {
            return None;
        }
        let e = self.iv[&t];
        if e.ilo == e.ihi {
            Some(e.ilo == 1)
        } else {
            None
        }
    }

    /// Literal rendering for constants / decided values.
    fn fixed(&self, t: T) -> Option<String> {
        let n = self.tm.n(t);
        match n.sort {
            Sort::B => {
                // A decided atom must still be asserted when it is a literal;
                // literals are printed separately.
                self.fixed_b(t).map(|b| b.to_string())
            }
            Sort::I(_) => match n.op {
                Op::IC(v) => Some(v.to_string()),
                _ => None,
            },
            Sort::F => match n.op {
                Op::FC(b) => Some(real_const(snap(f64::from_bits(b)))),
                _ => None,
            },
        }
    }

    fn nm(&self, t: T) -> String {
        if let Some(s) = self.fixed(t) {
            return s;
        }
        match self.tm.n(t).op {
            Op::Var(i) => format!("v{}", i),
            _ => format!("t{}", t),
        }
    }

    fn delta(&mut self, a: T, b: T) -> Option<f64> {
        let d = self.iv[&a].err + self.iv[&b].err;
        match self.relax {
            Relax::Inward(m) => {
                if d == 0.0 {
                    Some(0.0)
                } else {
                    Some(-m)
                }
            }
            Relax::Outward => {
                if d == 0.0 {
                    self.exact += 1;
                    return Some(0.0);
                }
                if !d.is_finite() || d > 1e-3 {
                    self.ideal += 1;
                    return None;
                }
                self.relaxed += 1;
                if d > self.max_delta {
                    self.max_delta = d;
                }
                Some(d)
            }
        }
    }

    fn atom(&mut self, t: T, pol: bool) -> String {
        let n = self.tm.n(t);
        let (a, b) = (n.a[0], n.a[1]);
        let d = self.delta(a, b).unwrap_or(0.0);
        let (na, nb) = (self.nm(a), self.nm(b));
        let ds = delta_str(d);
        let plus = |x: &str| if d == 0.0 { x.to_string() } else { format!("(+ {} {})", x, ds) };
        match (n.op, pol) {
            (Op::FLt, true) => format!("(< {} {})", na, plus(&nb)),
            (Op::FLt, false) => format!("(<= {} {})", nb, plus(&na)),
            (Op::FLe, true) => format!("(<= {} {})", na, plus(&nb)),
            (Op::FLe, false) => format!("(< {} {})", nb, plus(&na)),
            (Op::FEq, true) => {
                if d <= 0.0 {
                    format!("(= {} {})", na, nb)
                } else {
                    format!("(and (<= {} {}) (<= {} {}))", na, plus(&nb), nb, plus(&na))
                }
            }
            (Op::FEq, false) => {
                if d <= 0.0 {
                    format!("(not (= {} {}))", na, nb)
                } else {
                    "true".into()
                }
            }
            _ => unreachable!(),
        }
    }

    fn print_real(&mut self) -> Result<String, String> {
        let order = self.needed();
        let mut decl = String::new();
        let mut body = String::new();
        let lit_atoms: HashMap<T, bool> = self.lits.iter().cloned().collect();
        // denominators of several quotients, and whether their reciprocal has been printed
        let mut shared: HashMap<T, bool> = HashMap::new();
        let mut seen = HashSet::new();
        for &t in &order {
            let n = self.tm.n(t);
            if n.op == Op::FDiv && self.tm.is_const(n.a[1]).is_none() && !seen.insert(n.a[1]) {
                shared.insert(n.a[1], false);
            }
        }
        let wconst = |w: u32| -> String { if w >= 127 { "340282366920938463463374607431768211456".into() } else { (1u128 << w).to_string() } };
        for &t in &order {
            let n = self.tm.n(t);
            let a: Vec<String> = n.a.iter().filter(|y| **y != NONE).map(|y| self.nm_opt(*y)).collect();
            let is_lit = lit_atoms.contains_key(&t);
            match n.sort {
                Sort::B => {
                    let e = match n.op {
                        Op::BC(b) => b.to_string(),
                        Op::Var(i) => {
                            self.used_vars.insert(i);
                            let _ = writeln!(decl, "(declare-const v{} Bool)", i);
                            continue;
                        }
                        Op::Not => format!("(not {})", a[0]),
                        Op::And => format!("(and {} {})", a[0], a[1]),
                        Op::Or => format!("(or {} {})", a[0], a[1]),
                        Op::Xor => format!("(xor {} {})", a[0], a[1]),
                        Op::Ite => match self.fixed_b(n.a[0]) {
                            Some(true) => a[1].clone(),
                            Some(false) => a[2].clone(),
                            None => format!("(ite {} {} {})", a[0], a[1], a[2]),
                        },
                        Op::FLt | Op::FLe | Op::FEq => {
                            if is_lit {
                                continue; // asserted directly below
                            }
                            let d = self.iv[&n.a[0]].err + self.iv[&n.a[1]].err;
                            if d == 0.0 || !d.is_finite() || d > 1e-3 || matches!(self.relax, Relax::Inward(_)) {
                                let op = match n.op {
                                    Op::FLt => "<",
                                    Op::FLe => "<=",
                                    _ => "=",
                                };
                                if d == 0.0 {
                                    self.exact += 1
                                } else if let Relax::Outward = self.relax {
                                    self.ideal += 1
                                }
                                format!("({} {} {})", op, a[0], a[1])
                            } else {
                                let p = self.atom(t, true);
                                let q = self.atom(t, false);
                                let _ = writeln!(body, "(declare-const t{} Bool)\n(assert (ite t{} {} {}))", t, t, p, q);
                                continue;
                            }
                        }
                        Op::IEq => format!("(= {} {})", a[0], a[1]),
                        Op::Ult => format!("(< {} {})", a[0], a[1]),
                        Op::Ule => format!("(<= {} {})", a[0], a[1]),
                        Op::Slt | Op::Sle => {
                            let o = if n.op == Op::Slt { "<" } else { "<=" };
                            format!("({} {} {})", o, self.signed(n.a[0]), self.signed(n.a[1]))
                        }
                        _ => return Err(format!("cannot encode {:?}", n.op)),
                    };
                    let _ = writeln!(body, "(define-fun t{} () Bool {})", t, e);
                }
                Sort::F => {
                    let e = match n.op {
                        Op::FC(_) => continue,
                        Op::Var(i) => {
                            self.used_vars.insert(i);
                            let v = &self.tm.vars[i as usize];
                            let _ = writeln!(decl, "(declare-const v{} Real)", i);
                            let _ = writeln!(decl, "(assert (and (<= {} v{}) (<= v{} {})))", real_const(v.flo), i, i, real_const(v.fhi));
                            continue;
                        }
                        Op::Ite => match self.fixed_b(n.a[0]) {
                            Some(true) => a[1].clone(),
                            Some(false) => a[2].clone(),
                            None => format!("(ite {} {} {})", a[0], a[1], a[2]),
                        },
                        Op::FAdd => format!("(+ {} {})", a[0], a[1]),
                        Op::FSub => format!("(- {} {})", a[0], a[1]),
                        Op::FMul => {
                            if self.tm.is_const(n.a[0]).is_none() && self.tm.is_const(n.a[1]).is_none() {
                                self.nonlinear = true;
                            }
                            format!("(* {} {})", a[0], a[1])
                        }
                        Op::FDiv => {
                            if let Some(CV::F(_)) = self.tm.is_const(n.a[1]) {
                                format!("(/ {} {})", a[0], a[1])
                            } else {
                                self.nonlinear = true;
                                let b = self.iv[&n.a[1]];
                                if !shared.contains_key(&n.a[1]) {
                                    let _ = writeln!(body, "(declare-const t{} Real)", t);
                                }
                                if let Some(k) = shared.get_mut(&n.a[1]) {
                                    if !*k {
                                        *k = true;
                                        let zero = if b.lo > 0.0 || b.hi < 0.0 { "false".to_string() } else { format!("(= {} 0.0)", a[1]) };
                                        let _ = writeln!(body, "(declare-const r{} Real)\n(assert (or {} (= (* r{} {}) 1.0)))", n.a[1], zero, n.a[1], a[1]);
                                    }
                                    let _ = writeln!(body, "(define-fun t{} () Real (* {} r{}))", t, a[0], n.a[1]);
                                } else if b.lo > 0.0 || b.hi < 0.0 {
                                    let _ = writeln!(body, "(assert (= (* t{} {}) {}))", t, a[1], a[0]);
                                } else {
                                    let _ = writeln!(body, "(assert (=> (not (= {} 0.0)) (= (* t{} {}) {})))", a[1], t, a[1], a[0]);
                                }
                                continue;
                            }
                        }
                        Op::FNeg => format!("(- {})", a[0]),
                        Op::Approx(_) => a[0].clone(),
                        Op::FAbs => {
                            let x = self.iv[&n.a[0]];
                            let b = self.tm.base[n.a[0] as usize];
                            if x.lo >= 0.0 {
                                if b.lo < 0.0 {
                                    let _ = writeln!(body, "(assert (<= 0.0 {}))", a[0]);
                                }
                                a[0].clone()
                            } else if x.hi <= 0.0 {
                                if b.hi > 0.0 {
                                    let _ = writeln!(body, "(assert (<= {} 0.0))", a[0]);
                                }
                                format!("(- {})", a[0])
                            } else {
                                format!("(ite (>= {} 0.0) {} (- {}))", a[0], a[0], a[0])
                            }
                        }
                        Op::FSqrt => {
                            self.nonlinear = true;
                            let x = self.iv[&n.a[0]];
                            let arg = if x.lo >= 0.0 { a[0].clone() } else { format!("(ite (>= {} 0.0) {} 0.0)", a[0], a[0]) };
                            let _ = writeln!(body, "(declare-const t{} Real)\n(assert (and (>= t{} 0.0) (= (* t{} t{}) {})))", t, t, t, t, arg);
                            continue;
                        }
                        Op::FMin | Op::FMax => {
                            let (x, y) = (self.iv[&n.a[0]], self.iv[&n.a[1]]);
                            let mn = n.op == Op::FMin;
                            // A choice settled only by backward reasoning is asserted, since
                            // dropping the other operand would lose it.
                            let (bx, by) = (self.tm.base[n.a[0] as usize], self.tm.base[n.a[1] as usize]);
                            if x.hi <= y.lo {
                                if bx.hi > by.lo {
                                    let _ = writeln!(body, "(assert (<= {} {}))", a[0], a[1]);
                                }
                                a[if mn { 0 } else { 1 }].clone()
                            } else if y.hi <= x.lo {
                                if by.hi > bx.lo {
                                    let _ = writeln!(body, "(assert (<= {} {}))", a[1], a[0]);
                                }
                                a[if mn { 1 } else { 0 }].clone()
                            } else if mn {
                                format!("(ite (<= {} {}) {} {})", a[0], a[1], a[0], a[1])
                            } else {
                                format!("(ite (<= {} {}) {} {})", a[0], a[1], a[1], a[0])
                            }
                        }
                        Op::UToF => {
                            self.has_int = true;
                            format!("(to_real {})", a[0])
                        }
                        Op::SToF => {
                            self.has_int = true;
                            format!("(to_real {})", self.signed(n.a[0]))
                        }
                        Op::FFloor | Op::FCeil | Op::FTrunc => {
                            self.has_int = true;
                            let d = self.iv[&n.a[0]].err;
                            let d = if d.is_finite() && d < 1e-3 { d } else { self.ideal += 1; 0.0 };
                            let ds = delta_str(d);
                            let _ = writeln!(body, "(declare-const k{} Int)", t);
                            let fl = format!("(and (<= (- (to_real k{t}) {ds}) {x}) (<{eq} {x} (+ (to_real k{t}) 1.0 {ds})))", t = t, x = a[0], ds = ds, eq = if d > 0.0 { "=" } else { "" });
                            let ce = format!("(and (>= (+ (to_real k{t}) {ds}) {x}) (>{eq} {x} (- (to_real k{t}) 1.0 {ds})))", t = t, x = a[0], ds = ds, eq = if d > 0.0 { "=" } else { "" });
                            let s = match n.op {
                                Op::FFloor => fl,
                                Op::FCeil => ce,
                                _ => format!("(ite (>= {} 0.0) {} {})", a[0], fl, ce),
                            };
                            let _ = writeln!(body, "(assert {})", s);
                            format!("(to_real k{})", t)
                        }
                        _ => return Err(format!("cannot encode {:?}", n.op)),
                    };
                    let _ = writeln!(body, "(define-fun t{} () Real {})", t, e);
                }
                Sort::I(w) => {
                    let m = mask(w);
                    let iv = |k: usize| self.iv[&n.a[k]];
                    let e = match n.op {
                        Op::IC(_) => continue,
                        Op::Var(i) => {
                            self.has_int = true;
                            self.used_vars.insert(i);
                            let v = &self.tm.vars[i as usize];
                            let _ = writeln!(decl, "(declare-const v{} Int)\n(assert (and (<= {} v{}) (<= v{} {})))", i, v.ilo, i, i, v.ihi);
                            continue;
                        }
                        Op::Ite => match self.fixed_b(n.a[0]) {
                            Some(true) => a[1].clone(),
                            Some(false) => a[2].clone(),
                            None => format!("(ite {} {} {})", a[0], a[1], a[2]),
                        },
                        Op::Add => {
                            let (x, y) = (iv(0), iv(1));
                            let s = format!("(+ {} {})", a[0], a[1]);
                            if w >= 127 {
                                return Err("wide add".into());
                            }
                            if x.ihi + y.ihi <= m {
                                s
                            } else if x.ilo + y.ilo > m {
                                format!("(- {} {})", s, wconst(w))
                            } else {
                                format!("(ite (>= {s} {c}) (- {s} {c}) {s})", s = s, c = wconst(w))
                            }
                        }
                        Op::Sub => {
                            let (x, y) = (iv(0), iv(1));
                            let s = format!("(- {} {})", a[0], a[1]);
                            if x.ilo >= y.ihi {
                                s
                            } else {
                                format!("(ite (< {s} 0) (+ {s} {c}) {s})", s = s, c = wconst(w))
                            }
                        }
                        Op::Mul => {
                            let (x, y) = (iv(0), iv(1));
                            let s = format!("(* {} {})", a[0], a[1]);
                            if self.tm.is_const(n.a[0]).is_none() && self.tm.is_const(n.a[1]).is_none() {
                                self.nonlinear = true;
                            }
                            if x.ihi.checked_mul(y.ihi).map_or(false, |v| v <= m) {
                                s
                            } else {
                                format!("(mod {} {})", s, wconst(w))
                            }
                        }
                        Op::UDiv => format!("(div {} {})", a[0], a[1]),
                        Op::URem => format!("(mod {} {})", a[0], a[1]),
                        Op::SDiv | Op::SRem => {
                            let (x, y) = (iv(0), iv(1));
                            if x.ihi <= m >> 1 && y.ihi <= m >> 1 {
                                format!("({} {} {})", if n.op == Op::SDiv { "div" } else { "mod" }, a[0], a[1])
                            } else {
                                return Err("signed division".into());
                            }
                        }
                        Op::LShr => match self.tm.is_const(n.a[1]) {
                            Some(CV::I(c)) => format!("(div {} {})", a[0], 1u128 << c),
                            _ => {
                                let y = iv(1);
                                if y.ihi > 64 {
                                    return Err("symbolic shift".into());
                                }
                                let mut s = a[0].clone();
                                for k in (y.ilo.max(1)..=y.ihi).rev() {
                                    s = format!("(ite (= {} {}) (div {} {}) {})", a[1], k, a[0], 1u128 << k, s);
                                }
                                s
                            }
                        },
                        Op::Shl => {
                            let y = iv(1);
                            if y.ihi > 64 {
                                return Err("symbolic shift".into());
                            }
                            let mut s = "0".to_string();
                            for k in (y.ilo..=y.ihi).rev() {
                                if k < w as u128 {
                                    s = format!("(ite (= {} {}) (mod (* {} {}) {}) {})", a[1], k, a[0], 1u128 << k, wconst(w), s);
                                }
                            }
                            s
                        }
                        Op::AShr => match self.tm.is_const(n.a[1]) {
                            Some(CV::I(c)) => format!("(mod (div {} {}) {})", self.signed(n.a[0]), 1u128 << c, wconst(w)),
                            _ => return Err("symbolic ashr".into()),
                        },
                        Op::IAnd => self.int_and(n.a[0], n.a[1])?,
                        Op::IOr => {
                            let s = self.int_and(n.a[0], n.a[1])?;
                            format!("(- (+ {} {}) {})", a[0], a[1], s)
                        }
                        Op::IXor => {
                            let s = self.int_and(n.a[0], n.a[1])?;
                            format!("(- (+ {} {}) (* 2 {}))", a[0], a[1], s)
                        }
                        Op::ZExt => a[0].clone(),
                        Op::SExt => {
                            let w0 = self.tm.width(n.a[0]);
                            format!("(ite (>= {x} {h}) (+ {x} {d}) {x})", x = a[0], h = 1u128 << (w0 - 1), d = m - mask(w0))
                        }
                        Op::Trunc => {
                            if iv(0).ihi <= m {
                                a[0].clone()
                            } else {
                                format!("(mod {} {})", a[0], wconst(w))
                            }
                        }
                        Op::B2I => format!("(ite {} 1 0)", a[0]),
                        Op::FToU => {
                            self.has_int = true;
                            let x = iv(0);
                            let d = if x.err.is_finite() && x.err < 1e-3 { x.err } else { self.ideal += 1; 0.0 };
                            let ds = delta_str(d);
                            let _ = writeln!(body, "(declare-const k{} Int)", t);
                            let _ = writeln!(body, "(assert (and (<= (- (to_real k{t}) {ds}) {x}) (<{eq} {x} (+ (to_real k{t}) 1.0 {ds}))))", t = t, ds = ds, x = a[0], eq = if d > 0.0 { "=" } else { "" });
                            let mut s = format!("k{}", t);
                            if x.lo - d < 0.0 {
                                s = format!("(ite (< {} 0) 0 {})", s, s);
                            }
                            if x.hi + d >= m as f64 {
                                s = format!("(ite (> {} {}) {} {})", s, m, m, s);
                            }
                            s
                        }
                        Op::FToS => {
                            self.has_int = true;
                            let x = iv(0);
                            if x.lo - x.err < 0.0 || x.hi + x.err >= (m >> 1) as f64 {
                                return Err("signed float conversion".into());
                            }
                            let d = x.err;
                            let ds = delta_str(d);
                            let _ = writeln!(body, "(declare-const k{} Int)", t);
                            let _ = writeln!(body, "(assert (and (<= (- (to_real k{t}) {ds}) {x}) (<{eq} {x} (+ (to_real k{t}) 1.0 {ds}))))", t = t, ds = ds, x = a[0], eq = if d > 0.0 { "=" } else { "" });
                            format!("k{}", t)
                        }
                        _ => return Err(format!("cannot encode {:?}", n.op)),
                    };
                    self.has_int = true;
                    let _ = writeln!(body, "(define-fun t{} () Int {})", t, e);
                }
            }
        }
        let lits = self.lits.clone();
        for (t, p) in lits {
            let n = self.tm.n(t);
            let s = match n.op {
                Op::FLt | Op::FLe | Op::FEq => self.atom(t, p),
                Op::BC(b) => (b == p).to_string(),
                Op::Var(i) => if p { format!("v{}", i) } else { format!("(not v{})", i) },
                _ => if p { format!("t{}", t) } else { format!("(not t{})", t) },
            };
            let _ = writeln!(body, "(assert {})", s);
        }
        decl.push_str(&body);
        Ok(decl)
    }

    fn nm_opt(&self, t: T) -> String {
        self.nm(t)
    }

    fn signed(&self, t: T) -> String {
        let w = self.tm.width(t);
        let h = 1u128 << (w - 1);
        let e = self.iv[&t];
        let a = self.nm(t);
        let full = if w >= 127 { "340282366920938463463374607431768211456".to_string() } else { (1u128 << w).to_string() };
        if e.ihi < h {
            a
        } else if e.ilo >= h {
            format!("(- {} {})", a, full)
        } else {
            format!("(ite (>= {} {}) (- {} {}) {})", a, h, a, full, a)
        }
    }

    fn int_and(&self, a: T, b: T) -> Result<String, String> {
        let (na, nb) = (self.nm(a), self.nm(b));
        let c = match (self.tm.is_const(a), self.tm.is_const(b)) {
            (Some(CV::I(c)), _) => Some((c, nb.clone(), self.iv[&b].ihi)),
            (_, Some(CV::I(c))) => Some((c, na.clone(), self.iv[&a].ihi)),
            _ => None,
        };
        if let Some((c, x, hi)) = c {
            let bits = 128 - hi.leading_zeros();
            let c = if bits == 0 { 0 } else { c & mask(bits) };
            // sum of contiguous runs
            let mut parts = vec![];
            let mut k = 0;
            while k < 128 {
                if (c >> k) & 1 == 1 {
                    let mut e = k;
                    while e < 128 && (c >> e) & 1 == 1 {
                        e += 1;
                    }
                    let sh = if k == 0 { x.clone() } else { format!("(div {} {})", x, 1u128 << k) };
                    let len = e - k;
                    let mm = if e as u32 >= bits { sh } else { format!("(mod {} {})", sh, 1u128 << len) };
                    parts.push(if k == 0 { mm } else { format!("(* {} {})", 1u128 << k, mm) });
                    k = e;
                } else {
                    k += 1;
                }
            }
            return Ok(match parts.len() {
                0 => "0".into(),
                1 => parts.pop().unwrap(),
                _ => format!("(+ {})", parts.join(" ")),
            });
        }
        let hi = self.iv[&a].ihi.min(self.iv[&b].ihi);
        let bits = 128 - hi.leading_zeros();
        if bits > 24 {
            return Err("wide symbolic bitwise and".into());
        }
        let bit = |x: &str, k: u32| format!("(= (mod {} 2) 1)", if k == 0 { x.to_string() } else { format!("(div {} {})", x, 1u128 << k) });
        let mut parts = vec!["0".to_string(), "0".to_string()];
        for k in 0..bits {
            parts.push(format!("(ite (and {} {}) {} 0)", bit(&na, k), bit(&nb, k), 1u128 << k));
        }
        Ok(format!("(+ {})", parts.join(" ")))
    }

    // -------------------------------------------------------------- FP/BV

    fn print_fp(&mut self) -> Result<String, String> {
        let mut s = String::new();
        let bv = |v: u128, w: u32| format!("(_ bv{} {})", v, w);
        let nm = |tm: &Terms, t: T| -> String {
            let n = tm.n(t);
            match n.op {
                Op::BC(b) => b.to_string(),
                Op::IC(v) => format!("(_ bv{} {})", v, tm.width(t)),
                Op::FC(b) => fp_const(b),
                Op::Var(i) => format!("v{}", i),
                _ => format!("t{}", t),
            }
        };
        for &t in &self.order.clone() {
            let n = self.tm.n(t);
            let a: Vec<String> = n.a.iter().filter(|y| **y != NONE).map(|y| nm(self.tm, *y)).collect();
            let so = match n.sort {
                Sort::B => "Bool".to_string(),
                Sort::F => "(_ FloatingPoint 11 53)".to_string(),
                Sort::I(w) => format!("(_ BitVec {})", w),
            };
            let w = self.tm.width(t);
            let bin = |o: &str| format!("({} {} {})", o, a[0], a[1]);
            let e = match n.op {
                Op::BC(_) | Op::FC(_) | Op::IC(_) => continue,
                Op::Var(i) => {
                    self.used_vars.insert(i);
                    let v = &self.tm.vars[i as usize];
                    let _ = writeln!(s, "(declare-const v{} {})", i, so);
                    match n.sort {
                        Sort::F => {
                            if v.flo.is_finite() || v.fhi.is_finite() {
                                let _ = writeln!(s, "(assert (and (fp.leq {} v{}) (fp.leq v{} {})))", fp_const(v.flo.to_bits()), i, i, fp_const(v.fhi.to_bits()));
                            }
                        }
                        Sort::I(w) => {
                            if v.ilo > 0 {
                                let _ = writeln!(s, "(assert (bvuge v{} {}))", i, bv(v.ilo, w));
                            }
                            if v.ihi < mask(w) {
                                let _ = writeln!(s, "(assert (bvule v{} {}))", i, bv(v.ihi, w));
                            }
                        }
                        _ => {}
                    }
                    continue;
                }
                Op::Not => format!("(not {})", a[0]),
                Op::And => bin("and"),
                Op::Or => bin("or"),
                Op::Xor => bin("xor"),
                Op::Ite => format!("(ite {} {} {})", a[0], a[1], a[2]),
                Op::FLt => bin("fp.lt"),
                Op::FLe => bin("fp.leq"),
                Op::FEq => bin("fp.eq"),
                Op::FNan => format!("(fp.isNaN {})", a[0]),
                Op::IEq => bin("="),
                Op::Ult => bin("bvult"),
                Op::Ule => bin("bvule"),
                Op::Slt => bin("bvslt"),
                Op::Sle => bin("bvsle"),
                Op::Add => bin("bvadd"),
                Op::Sub => bin("bvsub"),
                Op::Mul => bin("bvmul"),
                Op::UDiv => bin("bvudiv"),
                Op::SDiv => bin("bvsdiv"),
                Op::URem => bin("bvurem"),
                Op::SRem => bin("bvsrem"),
                Op::Shl => bin("bvshl"),
                Op::LShr => bin("bvlshr"),
                Op::AShr => bin("bvashr"),
                Op::IAnd => bin("bvand"),
                Op::IOr => bin("bvor"),
                Op::IXor => bin("bvxor"),
                Op::ZExt => format!("((_ zero_extend {}) {})", w - self.tm.width(n.a[0]), a[0]),
                Op::SExt => format!("((_ sign_extend {}) {})", w - self.tm.width(n.a[0]), a[0]),
                Op::Trunc => format!("((_ extract {} 0) {})", w - 1, a[0]),
                Op::B2I => format!("(ite {} {} {})", a[0], bv(1, w), bv(0, w)),
                Op::Ctpop => {
                    let parts: Vec<String> = (0..w).map(|k| format!("((_ zero_extend {}) ((_ extract {} {}) {}))", w - 1, k, k, a[0])).collect();
                    format!("(bvadd {})", parts.join(" "))
                }
                Op::Cttz => {
                    let mut r = bv(w as u128, w);
                    for k in (0..w).rev() {
                        r = format!("(ite (= ((_ extract {k} {k}) {x}) #b1) {v} {r})", k = k, x = a[0], v = bv(k as u128, w), r = r);
                    }
                    r
                }
                Op::FAdd => format!("(fp.add RNE {} {})", a[0], a[1]),
                Op::FSub => format!("(fp.sub RNE {} {})", a[0], a[1]),
                Op::FMul => format!("(fp.mul RNE {} {})", a[0], a[1]),
                Op::FDiv => format!("(fp.div RNE {} {})", a[0], a[1]),
                Op::FNeg => format!("(fp.neg {})", a[0]),
                Op::Approx(_) => unreachable!(),
                Op::FAbs => format!("(fp.abs {})", a[0]),
                Op::FSqrt => format!("(fp.sqrt RNE {})", a[0]),
                Op::FMin => format!("(ite (fp.isNaN {0}) {1} (ite (fp.isNaN {1}) {0} (ite (fp.lt {1} {0}) {1} {0})))", a[0], a[1]),
                Op::FMax => format!("(ite (fp.isNaN {0}) {1} (ite (fp.isNaN {1}) {0} (ite (fp.lt {0} {1}) {1} {0})))", a[0], a[1]),
                Op::FFloor => format!("(fp.roundToIntegral RTN {})", a[0]),
                Op::FCeil => format!("(fp.roundToIntegral RTP {})", a[0]),
                Op::FTrunc => format!("(fp.roundToIntegral RTZ {})", a[0]),
                Op::FToU => {
                    let lim = fp_const(2f64.powi(w as i32).to_bits());
                    format!("(ite (fp.gt {x} (_ +zero 11 53)) (ite (fp.geq {x} {l}) (bvnot {z}) ((_ fp.to_ubv {w}) RTZ {x})) {z})", x = a[0], l = lim, z = bv(0, w), w = w)
                }
                Op::FToS => {
                    let lim = fp_const(2f64.powi(w as i32 - 1).to_bits());
                    let nlim = fp_const((-(2f64.powi(w as i32 - 1))).to_bits());
                    format!("(ite (fp.isNaN {x}) {z} (ite (fp.geq {x} {l}) {mx} (ite (fp.leq {x} {nl}) {mn} ((_ fp.to_sbv {w}) RTZ {x}))))", x = a[0], l = lim, nl = nlim, z = bv(0, w), mx = bv(mask(w) >> 1, w), mn = bv(1u128 << (w - 1), w), w = w)
                }
                Op::UToF => format!("((_ to_fp_unsigned 11 53) RNE {})", a[0]),
                Op::SToF => format!("((_ to_fp 11 53) RNE {})", a[0]),
                Op::Bits => {
                    let _ = writeln!(s, "(declare-const t{} {})\n(assert (= ((_ to_fp 11 53) t{}) {}))", t, so, t, a[0]);
                    continue;
                }
                Op::FromBits => format!("((_ to_fp 11 53) {})", a[0]),
            };
            let _ = writeln!(s, "(define-fun t{} () {} {})", t, so, e);
        }
        for &(t, p) in &self.lits {
            let x = nm(self.tm, t);
            if p {
                let _ = writeln!(s, "(assert {})", x);
            } else {
                let _ = writeln!(s, "(assert (not {}))", x);
            }
        }
        Ok(s)
    }
}

fn fp_const(b: u64) -> String {
    if f64::from_bits(b).is_nan() {
        return "(_ NaN 11 53)".into();
    }
    format!("(fp #b{:01b} #b{:011b} #b{:052b})", b >> 63, (b >> 52) & 0x7ff, b & ((1 << 52) - 1))
}

fn real_const(c: f64) -> String {
    let s = format!("{:?}", c.abs());
    // Rust never prints exponents with {}; use it for very small/large values
    let s = if s.contains('e') { format!("{}", c.abs()) } else { s };
    let s = if s.contains('.') { s } else { format!("{}.0", s) };
    if c < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}

fn delta_str(d: f64) -> String {
    if d == 0.0 {
        return "0.0".into();
    }
    let neg = d < 0.0;
    let k = d.abs().log10().ceil() as i32;
    let k = if 10f64.powi(k) < d.abs() { k + 1 } else { k };
    let s = if k >= 0 { format!("{}.0", 10f64.powi(k)) } else { format!("0.{}1", "0".repeat((-k - 1) as usize)) };
    if neg {
        format!("(- {})", s)
    } else {
        s
    }
}
