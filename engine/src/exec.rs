//! Symbolic interpreter.
use crate::comp::edge_n;
use crate::expr::{self, FxMap, B, E, P};
use crate::ext::{Ext, Vfs};
use crate::ll::*;
use crate::mem::{norm, Fault, Mem};
use crate::solver::{Res, Solver};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub base: u32,
    pub sp: u64,
    pub dst: u32,
    pub nret: u16,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub sp: u64,
    pub pcs: Vec<E>,
    /// constraints that are not single-byte-variable constraints
    pub multi: Vec<E>,
    pub multi_vars: u128,
    pub known: FxMap<E, bool>,
    pub dom: Vec<[u64; 4]>,
    pub fixed: u128,
    pub model: Rc<Vec<u64>>,
    pub model_id: u64,
    pub names: Rc<FxMap<String, u32>>,
    pub vars: Vec<u32>,
    pub vfs: Rc<Vfs>,
    pub errno: u64,
    pub clock: u64,
    pub notes: Vec<Vec<V>>,
    /// digest of the checks and covers passed
    pub ev: u64,
    pub steps: u64,
    pub forks: u32,
    pub last_check: String,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Infeasible,
    Panic(String),
    Crash(String),
    Unsupported(String),
    Exit,
}
impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::Crash(format!("invalid memory access at {:#x}", f.0))
    }
}
pub type Rs<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: String,
    pub inputs: Vec<(String, u16, u64)>,
    pub notes: Vec<String>,
    pub trace: String,
}

/// A finished path: one assignment that takes it, and what it passed.
#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(String, u16, u64)>,
    pub notes: Vec<String>,
    pub ev: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks_solver: u64,
    pub checks_const: u64,
    pub check_ids: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub fns: std::collections::BTreeSet<u32>,
    pub notes: Vec<String>,
}

pub struct Engine {
    pub m: Module,
    pub sol: Solver,
    pub pending: Vec<State>,
    pub rep: Report,
    pub ext_of: Vec<Option<Ext>>,
    pub model_ids: u64,
    pub max_steps: u64,
    pub errno_addr: u64,
    pub trace: bool,
    pub fork_sites: FxMap<(u32, u32), u64>,
    pub max_viol: usize,
    pub strict: bool,
    pub prof: Option<Vec<u64>>,
    pub deadline: std::time::Instant,
}

impl Engine {
    pub fn new(mut m: Module) -> (Engine, Mem) {
        let mut mem = Mem::new();
        for g in 0..m.globals.len() {
            m.init_global(g, &mut |a, b| {
                mem.write(a, b).unwrap();
            });
        }
        let errno_addr = (m.globals_end + 63) / 64 * 64;
        let ext_of = m.funcs.iter().map(|f| crate::ext::lookup(f.name, f.def.is_some())).collect();
        let e = Engine {
            m,
            sol: Solver::new(100_000_000),
            pending: vec![],
            rep: Report::default(),
            ext_of,
            model_ids: 1,
            max_steps: 2_000_000_000,
            errno_addr,
            trace: false,
            fork_sites: FxMap::default(),
            max_viol: 40,
            strict: false,
            prof: None,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(36000),
        };
        (e, mem)
    }
    pub fn initial(&mut self, mem: Mem, entry: &str) -> State {
        let id = *self.m.fn_by_name.get(entry.as_bytes()).unwrap_or_else(|| panic!("no function {entry}"));
        let f = self.m.compile(id);
        let errno = self.errno_addr;
        State {
            mem,
            regs: vec![V::C(0); f.nregs as usize],
            frames: vec![Frame { f, pc: 0, base: 0, sp: STACK_BASE, dst: 0, nret: 0 }],
            sp: STACK_BASE + 4096,
            pcs: vec![],
            multi: vec![],
            multi_vars: 0,
            known: FxMap::default(),
            dom: vec![],
            fixed: 0,
            model: Rc::new(vec![]),
            model_id: 0,
            names: Rc::new(FxMap::default()),
            vars: vec![],
            vfs: Rc::new(Vfs::default()),
            errno,
            clock: 1_000_000_000,
            notes: vec![],
            ev: 0xcbf29ce484222325,
            steps: 0,
            forks: 0,
            last_check: String::new(),
        }
    }
    pub fn eval(&mut self, st: &State, e: E) -> u128 {
        expr::with(|a| a.eval(e, &st.model, st.model_id))
    }
    pub fn vars_of(e: E) -> u128 {
        expr::with(|a| a.vars_of[e as usize])
    }
    /// If all variables of the value are fixed on this path, its concrete value.
    #[inline]
    pub fn simp(&mut self, st: &State, v: V) -> V {
        match v {
            V::C(_) => v,
            V::S(e) => {
                if Self::vars_of(e) & !st.fixed == 0 {
                    let w = expr::with(|a| a.width(e));
                    if w <= 64 {
                        return V::C(self.eval(st, e) as u64);
                    }
                }
                v
            }
        }
    }
    pub fn inset(var: u32, set: [u64; 4]) -> E {
        expr::with(|a| {
            let v = a.mk(expr::N::Var(8, var));
            let has = |x: u32| set[(x >> 6) as usize] >> (x & 63) & 1 == 1;
            let mut r = a.c(1, 0);
            let mut i = 0u32;
            while i < 256 {
                if has(i) {
                    let mut j = i;
                    while j < 255 && has(j + 1) {
                        j += 1
                    }
                    let lo = a.c(8, i as u128);
                    let hi = a.c(8, j as u128);
                    let c = if i == j {
                        a.cmp(P::Eq, v, lo)
                    } else {
                        let c1 = a.cmp(P::Ule, lo, v);
                        let c2 = a.cmp(P::Ule, v, hi);
                        a.bin(B::And, c1, c2)
                    };
                    r = a.bin(B::Or, r, c);
                    i = j + 1;
                } else {
                    i += 1
                }
            }
            r
        })
    }
    /// constraints relevant to `mask`, as solver input
    pub fn slice(&self, st: &State, mut mask: u128, raw: bool) -> (Vec<E>, u128) {
        let src = if raw { &st.pcs } else { &st.multi };
        let mut out = vec![];
        let vs: Vec<u128> = expr::with(|a| src.iter().map(|e| a.vars_of[*e as usize]).collect());
        let mut used = vec![false; vs.len()];
        loop {
            let mut ch = false;
            for (i, v) in vs.iter().enumerate() {
                if !used[i] && v & mask != 0 {
                    used[i] = true;
                    if v & !mask != 0 {
                        mask |= v;
                    }
                    ch = true;
                    out.push(src[i]);
                }
            }
            if !ch {
                break;
            }
        }
        if !raw {
            for i in 0..st.dom.len() {
                if mask >> i & 1 == 1 && st.dom[i] != [u64::MAX; 4] {
                    out.push(Self::inset(i as u32, st.dom[i]));
                }
            }
        }
        (out, mask)
    }
    /// Is `c` satisfiable together with the path condition? Returns a model if so.
    pub fn feasible(&mut self, st: &State, c: E, force: bool) -> Rs<Option<Vec<u64>>> {
        let (mask, truth) = expr::with(|a| (a.vars_of[c as usize], if force { None } else { a.truth(c) }));
        if let Some((v, t)) = truth {
            let d = st.dom[v as usize];
            let x = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            if x == [0; 4] {
                self.sol.st.presolved += 1;
                if self.strict {
                    let (mut cs, _) = self.slice(st, mask, true);
                    cs.push(c);
                    if !matches!(self.sol.check(&cs), Res::Unsat) {
                        return Err(Stop::Unsupported("presolver disagrees with z3".into()));
                    }
                }
                return Ok(None);
            }
            if st.multi_vars >> v & 1 == 0 {
                self.sol.st.presolved += 1;
                let mut m = (*st.model).clone();
                for i in 0..4 {
                    if x[i] != 0 {
                        m[v as usize] = (i * 64) as u64 + x[i].trailing_zeros() as u64;
                        break;
                    }
                }
                return Ok(Some(m));
            }
        }
        let (mut cs, _) = self.slice(st, mask, force);
        cs.push(c);
        match self.sol.check(&cs) {
            Res::Sat(vals) => {
                let mut m = (*st.model).clone();
                for (i, v) in vals {
                    if m.len() <= i as usize {
                        m.resize(i as usize + 1, 0);
                    }
                    m[i as usize] = v;
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Unsupported("solver returned unknown (resource limit)".into())),
        }
    }
    pub fn add(&mut self, st: &mut State, c: E) {
        let parts = expr::with(|a| {
            if let expr::N::Bin(B::And, 1, x, y) = a.nodes[c as usize] {
                Some((x, y))
            } else {
                None
            }
        });
        let nc = expr::with(|a| a.not(c));
        st.known.insert(c, true);
        st.known.insert(nc, false);
        if let Some((x, y)) = parts {
            self.add(st, x);
            self.add(st, y);
            return;
        }
        if expr::with(|a| a.as_const(c)).is_some() {
            return;
        }
        st.pcs.push(c);
        if let Some((v, t)) = expr::with(|a| a.truth(c)) {
            let d = &mut st.dom[v as usize];
            for i in 0..4 {
                d[i] &= t[i]
            }
            if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                st.fixed |= 1 << v;
            }
        } else {
            st.multi.push(c);
            st.multi_vars |= Self::vars_of(c);
            // wide variable equal to a constant
            expr::with(|a| {
                if let expr::N::Cmp(P::Eq, x, y) = a.nodes[c as usize] {
                    if let (expr::N::Var(_, i), Some(_)) = (a.nodes[x as usize], a.as_const(y)) {
                        st.fixed |= 1 << i;
                    }
                }
            });
        }
    }
    pub fn set_model(&mut self, st: &mut State, m: Vec<u64>) {
        self.model_ids += 1;
        st.model = Rc::new(m);
        st.model_id = self.model_ids;
    }
    /// Branch on a width-1 value; forks the other side if it is feasible.
    pub fn decide(&mut self, st: &mut State, c: V) -> Rs<bool> {
        let e = match c {
            V::C(x) => return Ok(x & 1 == 1),
            V::S(e) => e,
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let cur = self.eval(st, e) == 1;
        if Self::vars_of(e) & !st.fixed == 0 {
            return Ok(cur);
        }
        let (yes, no) = expr::with(|a| {
            let n = a.not(e);
            if cur {
                (e, n)
            } else {
                (n, e)
            }
        });
        match self.feasible(st, no, false)? {
            None => {
                st.known.insert(yes, true);
                st.known.insert(no, false);
            }
            Some(m) => {
                let fr = st.frames.last().unwrap();
                *self.fork_sites.entry((fr.f.id, fr.pc)).or_insert(0) += 1;
                self.rep.forks += 1;
                st.forks += 1;
                let mut o = st.clone();
                o.steps = 0;
                self.set_model(&mut o, m);
                self.add(&mut o, no);
                self.pending.push(o);
                self.add(st, yes);
            }
        }
        Ok(cur)
    }
    pub fn conc(&mut self, st: &mut State, v: V) -> Rs<u64> {
        match v {
            V::C(x) => Ok(x),
            V::S(e) => {
                let val = self.eval(st, e);
                if Self::vars_of(e) & !st.fixed != 0 {
                    let c = expr::with(|a| {
                        let w = a.width(e);
                        let k = a.c(w, val);
                        let x = a.cmp(P::Eq, e, k);
                        norm(a, x)
                    });
                    self.decide(st, c)?;
                    if Self::vars_of(e) & !st.fixed != 0 && expr::with(|a| matches!(a.nodes[e as usize], expr::N::Var(..))) {
                        // implied, and so not yet written down
                        if let V::S(c) = c {
                            self.add(st, c);
                        }
                    }
                }
                Ok(val as u64)
            }
        }
    }
    /// Bytes are hashed one value at a time: a hash of symbolic bytes is a term too large to reason about.
    fn hash_write(&mut self, st: &mut State, a: &[V]) -> Rs<()> {
        let p = self.conc(st, a[1])?;
        let n = self.conc(st, a[2])?;
        for i in 0..n {
            let v = self.load(st, V::C(p), i, 8)?;
            self.conc(st, v)?;
        }
        Ok(())
    }
    pub fn e(v: V, w: u16) -> E {
        match v {
            V::S(e) => e,
            V::C(x) => expr::with(|a| a.c(w, x as u128)),
        }
    }
    pub fn load(&mut self, st: &mut State, addr: V, off: u64, w: u16) -> Rs<V> {
        match addr {
            V::C(a) => {
                let v = st.mem.load(a.wrapping_add(off), w)?;
                Ok(self.simp(st, v))
            }
            V::S(e) => {
                if let V::C(a) = self.simp(st, addr) {
                    let v = st.mem.load(a.wrapping_add(off), w)?;
                    return Ok(self.simp(st, v));
                }
                if w <= 64 {
                    if let Some((var, tab)) = expr::with(|a| a.table(e)) {
                        let mut groups: Vec<(u64, [u64; 4])> = vec![];
                        let mut ok = true;
                        let dom = st.dom[var as usize];
                        for x in 0..256usize {
                            if dom[x >> 6] >> (x & 63) & 1 == 0 {
                                continue;
                            }
                            match st.mem.load((tab[x] as u64).wrapping_add(off), w) {
                                Ok(V::C(v)) => {
                                    match groups.iter_mut().find(|g| g.0 == v) {
                                        Some(g) => g.1[x >> 6] |= 1 << (x & 63),
                                        None => {
                                            let mut s = [0u64; 4];
                                            s[x >> 6] |= 1 << (x & 63);
                                            groups.push((v, s));
                                        }
                                    }
                                }
                                _ => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            if groups.len() == 1 {
                                return Ok(V::C(groups[0].0));
                            }
                            if groups.len() <= 4 || w == 64 {
                                let cur = st.model[var as usize] as usize;
                                let g = groups.iter().find(|g| g.1[cur >> 6] >> (cur & 63) & 1 == 1).unwrap();
                                let c = Self::inset(var, g.1);
                                self.decide(st, V::S(c))?;
                                return Ok(V::C(g.0));
                            }
                            let mut r = expr::with(|a| a.c(w, groups[0].0 as u128));
                            for g in &groups[1..] {
                                let c = Self::inset(var, g.1);
                                r = expr::with(|a| {
                                    let k = a.c(w, g.0 as u128);
                                    a.ite(c, k, r)
                                });
                            }
                            return Ok(expr::with(|a| norm(a, r)));
                        }
                    }
                }
                let a = self.conc(st, addr)?;
                let v = st.mem.load(a.wrapping_add(off), w)?;
                Ok(self.simp(st, v))
            }
        }
    }
    pub fn fname(&self, id: u32) -> String {
        crate::demangle(self.m.funcs[id as usize].name)
    }
    pub fn backtrace(&self, st: &State) -> String {
        st.frames.iter().rev().take(14).map(|f| self.fname(f.f.id)).collect::<Vec<_>>().join(" < ")
    }
    pub fn inputs(&self, st: &State) -> Vec<(String, u16, u64)> {
        expr::with(|a| {
            st.vars
                .iter()
                .map(|v| {
                    let i = &a.vars[*v as usize];
                    (i.name.clone(), i.width, st.model.get(*v as usize).copied().unwrap_or(0))
                })
                .collect()
        })
    }
    pub fn notes(&mut self, st: &State) -> Vec<String> {
        st.notes
            .iter()
            .map(|n| {
                let b: Vec<u8> = n
                    .iter()
                    .map(|v| match v {
                        V::C(x) => *x as u8,
                        V::S(e) => self.eval(st, *e) as u8,
                    })
                    .collect();
                String::from_utf8_lossy(&b).into_owned()
            })
            .collect()
    }
    pub fn violation(&mut self, st: &State, kind: &str, id: String) {
        if self.rep.violations.iter().filter(|v| v.id == id && v.kind == kind).count() >= 3
            || self.rep.violations.len() >= self.max_viol
        {
            return;
        }
        let v = Violation {
            kind: kind.into(),
            id,
            inputs: self.inputs(st),
            notes: self.notes(st),
            trace: self.backtrace(st),
        };
        self.rep.violations.push(v);
    }

    /// Run one state to completion.
    pub fn run(&mut self, mut st: State) {
        let r = self.exec(&mut st);
        self.rep.steps += st.steps;
        match r {
            Ok(()) | Err(Stop::Done) | Err(Stop::Exit) => {
                self.rep.paths += 1;
                if self.rep.samples.len() < 12 && (self.rep.paths.is_power_of_two()) {
                    let s = Sample { inputs: self.inputs(&st), notes: self.notes(&st), ev: st.ev };
                    self.rep.samples.push(s);
                }
            }
            Err(Stop::Infeasible) => self.rep.infeasible += 1,
            Err(Stop::Panic(m)) => {
                self.rep.paths += 1;
                self.violation(&st, "panic", m);
            }
            Err(Stop::Crash(m)) => {
                self.rep.paths += 1;
                self.violation(&st, "crash", m);
            }
            Err(Stop::Unsupported(m)) => {
                let m = format!("{m} in {}", self.backtrace(&st));
                if self.rep.errors.len() < 20 {
                    self.rep.errors.push(m);
                }
            }
        }
    }

    fn exec(&mut self, st: &mut State) -> Rs<()> {
        let mut tmp: Vec<V> = vec![];
        'outer: loop {
            let fr = st.frames.last().unwrap();
            let f: &'static Func = fr.f;
            let base = fr.base as usize;
            let mut pc = fr.pc as usize;
            let mut budget = 0u64;
            macro_rules! g {
                ($r:expr) => {{
                    let r = $r;
                    if r & CONST != 0 {
                        f.consts[(r & !CONST) as usize]
                    } else {
                        st.regs[base + r as usize]
                    }
                }};
            }
            macro_rules! set {
                ($r:expr, $v:expr) => {{
                    let v = $v;
                    st.regs[base + $r as usize] = v;
                }};
            }
            macro_rules! save {
                () => {
                    st.frames.last_mut().unwrap().pc = pc as u32
                };
            }
            macro_rules! jump {
                ($e:expr) => {{
                    let e = f.edges[$e as usize];
                    let (n, t) = edge_n(e.n);
                    let mv = &f.moves[e.moves as usize..e.moves as usize + n];
                    if !t {
                        for (d, s) in mv {
                            let v = g!(*s);
                            st.regs[base + *d as usize] = v;
                        }
                    } else {
                        tmp.clear();
                        for (_, s) in mv {
                            let v = g!(*s);
                            tmp.push(v);
                        }
                        for ((d, _), v) in mv.iter().zip(&tmp) {
                            st.regs[base + *d as usize] = *v;
                        }
                    }
                    pc = e.target as usize;
                }};
            }
            loop {
                budget += 1;
                match f.code[pc] {
                    Ins::Bin(op, w, d, a, b) => {
                        let (x, y) = (g!(a), g!(b));
                        if let (V::C(x), V::C(y)) = (x, y) {
                            set!(d, V::C(bin64(op, w, x, y)));
                        } else {
                            let v = expr::with(|ar| {
                                let x = ev(ar, x, w);
                                let y = ev(ar, y, w);
                                let r = ar.bin(op, x, y);
                                norm(ar, r)
                            });
                            set!(d, v);
                        }
                        pc += 1;
                    }
                    Ins::Cmp(p, w, d, a, b) => {
                        let (x, y) = (g!(a), g!(b));
                        if let (V::C(x), V::C(y)) = (x, y) {
                            set!(d, V::C(cmp64(p, w, x, y) as u64));
                        } else {
                            set!(d, cmpsym(p, w, x, y));
                        }
                        pc += 1;
                    }
                    Ins::ZExt(wf, wt, d, a) => {
                        let x = g!(a);
                        let v = match x {
                            V::C(_) if wt <= 64 => x,
                            _ => expr::with(|ar| {
                                let x = ev(ar, x, wf);
                                let r = ar.zext(wt, x);
                                norm(ar, r)
                            }),
                        };
                        set!(d, v);
                        pc += 1;
                    }
                    Ins::SExt(wf, wt, d, a) => {
                        let x = g!(a);
                        let v = match x {
                            V::C(x) if wt <= 64 => V::C((expr::sx(x as u128, wf) as u128 & expr::mask(wt)) as u64),
                            _ => expr::with(|ar| {
                                let x = ev(ar, x, wf);
                                let r = ar.sext(wt, x);
                                norm(ar, r)
                            }),
                        };
                        set!(d, v);
                        pc += 1;
                    }
                    Ins::Trunc(wf, wt, d, a) => {
                        let x = g!(a);
                        let v = match x {
                            V::C(x) => V::C(x & m64(wt)),
                            V::S(_) => expr::with(|ar| {
                                let x = ev(ar, x, wf);
                                let r = ar.extract(wt, 0, x);
                                norm(ar, r)
                            }),
                        };
                        set!(d, v);
                        pc += 1;
                    }
                    Ins::Mov(d, a) => {
                        set!(d, g!(a));
                        pc += 1;
                    }
                    Ins::Sel { w, ptr, dst, c, a, b } => {
                        let cv = g!(c);
                        let v = match cv {
                            V::C(x) => {
                                if x & 1 == 1 {
                                    g!(a)
                                } else {
                                    g!(b)
                                }
                            }
                            V::S(e) => {
                                let (x, y) = (g!(a), g!(b));
                                if x == y {
                                    x
                                } else if let Some(k) = st.known.get(&e) {
                                    if *k {
                                        x
                                    } else {
                                        y
                                    }
                                } else if ptr {
                                    save!();
                                    if self.decide(st, cv)? {
                                        x
                                    } else {
                                        y
                                    }
                                } else {
                                    expr::with(|ar| {
                                        let x = ev(ar, x, w);
                                        let y = ev(ar, y, w);
                                        let r = ar.ite(e, x, y);
                                        norm(ar, r)
                                    })
                                }
                            }
                        };
                        set!(dst, v);
                        pc += 1;
                    }
                    Ins::Load { w, dst, addr, off } => {
                        let a = g!(addr);
                        let v = match a {
                            V::C(x) => match st.mem.load(x.wrapping_add(off as u64), w) {
                                Ok(v @ V::C(_)) => v,
                                Ok(v) => self.simp(st, v),
                                Err(e) => {
                                    save!();
                                    return Err(e.into());
                                }
                            },
                            V::S(_) => {
                                save!();
                                self.load(st, a, off as u64, w)?
                            }
                        };
                        set!(dst, v);
                        pc += 1;
                    }
                    Ins::Store { w, val, addr, off } => {
                        let a = match g!(addr) {
                            V::C(x) => x,
                            s => {
                                save!();
                                self.conc(st, s)?
                            }
                        };
                        let v = g!(val);
                        if let Err(e) = st.mem.store(a.wrapping_add(off as u64), v, w) {
                            save!();
                            return Err(e.into());
                        }
                        pc += 1;
                    }
                    Ins::Lea { dst, base: b, off } => {
                        let v = match g!(b) {
                            V::C(x) => V::C(x.wrapping_add(off as i64 as u64)),
                            V::S(e) => expr::with(|ar| {
                                let k = ar.c(64, off as i64 as u64 as u128);
                                let r = ar.bin(B::Add, e, k);
                                norm(ar, r)
                            }),
                        };
                        set!(dst, v);
                        pc += 1;
                    }
                    Ins::LeaI { w, dst, base: b, idx, scale } => {
                        let (x, i) = (g!(b), g!(idx));
                        let v = match (x, i) {
                            (V::C(x), V::C(i)) => {
                                let i = expr::sx(i as u128, w) as i64 as u64;
                                V::C(x.wrapping_add(i.wrapping_mul(scale as u64)))
                            }
                            _ => expr::with(|ar| {
                                let x = ev(ar, x, 64);
                                let i = ev(ar, i, w);
                                let i = if w < 64 { ar.sext(64, i) } else { ar.extract(64, 0, i) };
                                let k = ar.c(64, scale as u128);
                                let i = ar.bin(B::Mul, i, k);
                                let r = ar.bin(B::Add, x, i);
                                norm(ar, r)
                            }),
                        };
                        set!(dst, v);
                        pc += 1;
                    }
                    Ins::Jmp(e) => jump!(e),
                    Ins::Br(c, e1, e2) => {
                        let v = g!(c);
                        let t = match v {
                            V::C(x) => x & 1 == 1,
                            V::S(_) => {
                                save!();
                                self.decide(st, v)?
                            }
                        };
                        if t {
                            jump!(e1)
                        } else {
                            jump!(e2)
                        }
                    }
                    Ins::Switch { w, v, start, n, def } => {
                        let x = g!(v);
                        let cs = &f.cases[start as usize..(start + n) as usize];
                        let x = if let V::S(_) = x { self.simp(st, x) } else { x };
                        let e = match x {
                            V::C(x) => match cs.binary_search_by_key(&(x as u128), |c| c.0) {
                                Ok(i) => cs[i].1,
                                Err(_) => def,
                            },
                            V::S(e) => {
                                let val = self.eval(st, e);
                                let ed = match cs.binary_search_by_key(&val, |c| c.0) {
                                    Ok(i) => cs[i].1,
                                    Err(_) => def,
                                };
                                if Self::vars_of(e) & !st.fixed != 0 {
                                    // condition for reaching the same target block
                                    let same = |x: u32| {
                                        let (p, q) = (f.edges[x as usize], f.edges[ed as usize]);
                                        p.target == q.target
                                            && edge_n(p.n).0 == edge_n(q.n).0
                                            && f.moves[p.moves as usize..p.moves as usize + edge_n(p.n).0]
                                                == f.moves[q.moves as usize..q.moves as usize + edge_n(q.n).0]
                                    };
                                    let c = expr::with(|ar| {
                                        let isdef = same(def);
                                        let mut r = ar.c(1, 0);
                                        for (k, x) in cs {
                                            if same(*x) != isdef {
                                                let kk = ar.c(w, *k);
                                                let q = ar.cmp(P::Eq, e, kk);
                                                r = ar.bin(B::Or, r, q);
                                            }
                                        }
                                        if isdef {
                                            r = ar.not(r);
                                        }
                                        norm(ar, r)
                                    });
                                    save!();
                                    self.decide(st, c)?;
                                }
                                ed
                            }
                        };
                        jump!(e)
                    }
                    Ins::Call { f: id, args, nargs, nret, dst } => {
                        save!();
                        st.steps += budget;
                        budget = 0;
                        if let Some(x) = self.ext_of[id as usize] {
                            let av: Vec<V> = (0..nargs as usize).map(|k| g!(f.pool[args as usize + k])).collect();
                            if matches!(x, crate::ext::Ext::HashWrite) {
                                self.hash_write(st, &av)?;
                                self.enter(st, id, f, args, nargs, nret, dst, base)?;
                                continue 'outer;
                            }
                            let r = self.ext(st, x, id, &av)?;
                            if nret > 0 {
                                set!(dst, r);
                            }
                            pc += 1;
                        } else {
                            self.enter(st, id, f, args, nargs, nret, dst, base)?;
                            continue 'outer;
                        }
                    }
                    Ins::CallInd { f: fv, args, nargs, nret, dst } => {
                        save!();
                        st.steps += budget;
                        budget = 0;
                        let v = g!(fv);
                        let a = self.conc(st, v)?;
                        if a < FUNC_BASE || a & 15 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
                            return Err(Stop::Crash(format!("call of invalid address {a:#x}")));
                        }
                        let id = ((a - FUNC_BASE) / 16) as u32;
                        if let Some(x) = self.ext_of[id as usize] {
                            let av: Vec<V> = (0..nargs as usize).map(|k| g!(f.pool[args as usize + k])).collect();
                            if matches!(x, crate::ext::Ext::HashWrite) {
                                self.hash_write(st, &av)?;
                                self.enter(st, id, f, args, nargs, nret, dst, base)?;
                                continue 'outer;
                            }
                            let r = self.ext(st, x, id, &av)?;
                            if nret > 0 {
                                set!(dst, r);
                            }
                            pc += 1;
                        } else {
                            self.enter(st, id, f, args, nargs, nret, dst, base)?;
                            continue 'outer;
                        }
                    }
                    Ins::Ret(s, n) => {
                        st.steps += budget;
                        let fr = st.frames.pop().unwrap();
                        if st.frames.is_empty() {
                            st.frames.push(fr);
                            return Err(Stop::Done);
                        }
                        for k in 0..(n.min(fr.nret)) as usize {
                            let v = g!(f.pool[s as usize + k]);
                            st.regs[fr.dst as usize + k] = v;
                        }
                        st.sp = fr.sp;
                        st.regs.truncate(base);
                        continue 'outer;
                    }
                    Ins::Alloca { dst, size, align } => {
                        let a = (st.sp + align as u64 - 1) / align as u64 * align as u64;
                        st.sp = a + size.max(1) as u64;
                        if st.sp >= STACK_END - 65536 {
                            save!();
                            return Err(Stop::Crash("stack overflow".into()));
                        }
                        set!(dst, V::C(a));
                        pc += 1;
                    }
                    Ins::AtomicRmw { op, w, dst, addr, val } => {
                        save!();
                        let a = self.conc(st, g!(addr))?;
                        let old = st.mem.load(a, w)?;
                        let v = g!(val);
                        let nv = expr::with(|ar| {
                            let x = ev(ar, old, w);
                            let y = ev(ar, v, w);
                            let r = match op {
                                0 => y,
                                1 => ar.bin(B::Add, x, y),
                                2 => ar.bin(B::Sub, x, y),
                                3 => ar.bin(B::And, x, y),
                                4 => ar.bin(B::Or, x, y),
                                5 => ar.bin(B::Xor, x, y),
                                6 => {
                                    let c = ar.cmp(P::Ult, x, y);
                                    ar.ite(c, y, x)
                                }
                                7 => {
                                    let c = ar.cmp(P::Ult, x, y);
                                    ar.ite(c, x, y)
                                }
                                _ => {
                                    let z = ar.bin(B::And, x, y);
                                    ar.not(z)
                                }
                            };
                            norm(ar, r)
                        });
                        if op > 8 {
                            return Err(Stop::Unsupported("atomicrmw".into()));
                        }
                        st.mem.store(a, nv, w)?;
                        set!(dst, old);
                        pc += 1;
                    }
                    Ins::CmpXchg { w, dst, addr, cmp, new } => {
                        save!();
                        let a = self.conc(st, g!(addr))?;
                        let old = st.mem.load(a, w)?;
                        let c = cmpsym(Pred::Eq, w, old, g!(cmp));
                        let eq = self.decide(st, c)?;
                        if eq {
                            st.mem.store(a, g!(new), w)?;
                        }
                        set!(dst, old);
                        set!(dst + 1, V::C(eq as u64));
                        pc += 1;
                    }
                    Ins::Bitcast { ws, n, wd, m, src, dst } => {
                        let vs: Vec<V> = (0..n as usize).map(|k| g!(f.pool[src as usize + k])).collect();
                        let out = bitcast(&vs, ws, wd, m);
                        for (k, v) in out.into_iter().enumerate() {
                            set!(dst + k as u32, v);
                        }
                        pc += 1;
                    }
                    Ins::ExtractElt { n, src, idx, dst } => {
                        save!();
                        let i = self.conc(st, g!(idx))? as usize;
                        if i >= n as usize {
                            return Err(Stop::Unsupported("extractelement index".into()));
                        }
                        set!(dst, g!(f.pool[src as usize + i]));
                        pc += 1;
                    }
                    Ins::InsertElt { n, src, val, idx, dst, .. } => {
                        save!();
                        let i = self.conc(st, g!(idx))? as usize;
                        for k in 0..n as usize {
                            let v = if k == i { g!(val) } else { g!(f.pool[src as usize + k]) };
                            set!(dst + k as u32, v);
                        }
                        pc += 1;
                    }
                    Ins::Intr { i, w, args, nargs, nret, dst } => {
                        save!();
                        let a = |k: usize| f.pool[args as usize + k];
                        match i {
                            Intr::MemCpy => {
                                let n = self.conc(st, g!(a(2)))?;
                                let d = self.conc(st, g!(a(0)))?;
                                let s = self.conc(st, g!(a(1)))?;
                                st.mem.copy(d, s, n)?;
                                budget += n / 64;
                            }
                            Intr::MemSet => {
                                let n = self.conc(st, g!(a(2)))?;
                                let d = self.conc(st, g!(a(0)))?;
                                let v = g!(a(1));
                                match v {
                                    V::C(v) => st.mem.fill(d, v as u8, n)?,
                                    V::S(e) => {
                                        for k in 0..n {
                                            st.mem.set_byte(d + k, 0, e)?;
                                        }
                                    }
                                }
                                budget += n / 64;
                            }
                            Intr::LoadRel => {
                                let b = self.conc(st, g!(a(0)))?;
                                let o = g!(a(1));
                                let ad = expr::with(|ar| {
                                    let x = ar.c(64, b as u128);
                                    let y = ev(ar, o, 64);
                                    let r = ar.bin(B::Add, x, y);
                                    norm(ar, r)
                                });
                                let v = self.load(st, ad, 0, 32)?;
                                let v = self.conc(st, v)?;
                                set!(dst, V::C(b.wrapping_add(v as u32 as i32 as i64 as u64)));
                            }
                            Intr::Trap => return Err(Stop::Crash("trap".into())),
                            Intr::Psad => {
                                // 2 x <16 x i8> -> <2 x i64>
                                for h in 0..2usize {
                                    let mut r = expr::with(|ar| ar.c(64, 0));
                                    for k in 0..8usize {
                                        let x = g!(a(h * 8 + k));
                                        let y = g!(a(16 + h * 8 + k));
                                        r = expr::with(|ar| {
                                            let x = ev(ar, x, 8);
                                            let y = ev(ar, y, 8);
                                            let c = ar.cmp(P::Ult, x, y);
                                            let d1 = ar.bin(B::Sub, y, x);
                                            let d2 = ar.bin(B::Sub, x, y);
                                            let d = ar.ite(c, d1, d2);
                                            let d = ar.zext(64, d);
                                            ar.bin(B::Add, r, d)
                                        });
                                    }
                                    let v = expr::with(|ar| norm(ar, r));
                                    set!(dst + h as u32, v);
                                }
                            }
                            Intr::VReduce(op) => {
                                let mut r = g!(a(0));
                                for k in 1..nargs as usize {
                                    let y = g!(a(k));
                                    r = expr::with(|ar| {
                                        let x = ev(ar, r, w);
                                        let y = ev(ar, y, w);
                                        let z = ar.bin(op, x, y);
                                        norm(ar, z)
                                    });
                                }
                                set!(dst, r);
                            }
                            _ => {
                                let xs: Vec<V> = (0..nargs as usize).map(|k| g!(a(k))).collect();
                                let out = intrinsic(i, w, nret, &xs)?;
                                for (k, v) in out.into_iter().enumerate() {
                                    set!(dst + k as u32, v);
                                }
                            }
                        }
                        pc += 1;
                    }
                    Ins::Unreachable => {
                        save!();
                        return Err(Stop::Crash("unreachable executed".into()));
                    }
                    Ins::Fp { op, w, dst, a, b } => {
                        save!();
                        let x = fp(self.conc(st, g!(a))?, w);
                        let y = fp(self.conc(st, g!(b))?, w);
                        let r = if op < 16 {
                            let r = match op {
                                0 => x + y,
                                1 => x - y,
                                2 => x * y,
                                3 => x / y,
                                _ => x % y,
                            };
                            unfp(r, w)
                        } else {
                            let u = x.is_nan() || y.is_nan();
                            let r = match op - 16 {
                                0 => false,
                                1 => x == y,
                                2 => x > y,
                                3 => x >= y,
                                4 => x < y,
                                5 => x <= y,
                                6 => !u && x != y,
                                7 => !u,
                                8 => u,
                                9 => u || x == y,
                                10 => u || x > y,
                                11 => u || x >= y,
                                12 => u || x < y,
                                13 => u || x <= y,
                                14 => x != y,
                                _ => true,
                            };
                            r as u64
                        };
                        set!(dst, V::C(r));
                        pc += 1;
                    }
                    Ins::FpCvt { op, wf, wt, dst, a } => {
                        save!();
                        let x = self.conc(st, g!(a))?;
                        let r = match op {
                            0 => unfp(expr::sx(x as u128, wf) as i64 as f64, wt),
                            1 => unfp(x as f64, wt),
                            2 => (fp(x, wf) as i64 as u64) & expr::mask(wt) as u64,
                            3 => (fp(x, wf) as u64) & expr::mask(wt) as u64,
                            4 | 5 => unfp(fp(x, wf), wt),
                            _ => unfp(-fp(x, wf), wt),
                        };
                        set!(dst, V::C(r));
                        pc += 1;
                    }
                    Ins::Unsupported(i) => {
                        save!();
                        return Err(Stop::Unsupported(f.msgs[i as usize].clone()));
                    }
                }
                if budget > 1_000_000 {
                    save!();
                    st.steps += budget;
                    budget = 0;
                    if st.steps > self.max_steps {
                        return Err(Stop::Unsupported("step limit".into()));
                    }
                    if std::time::Instant::now() > self.deadline {
                        return Err(Stop::Unsupported("time limit".into()));
                    }
                }
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn enter(
        &mut self,
        st: &mut State,
        id: u32,
        f: &'static Func,
        args: u32,
        nargs: u16,
        nret: u16,
        dst: R,
        base: usize,
    ) -> Rs<()> {
        let g = match self.m.funcs[id as usize].compiled {
            Some(g) => g,
            None => {
                if self.m.funcs[id as usize].def.is_none() {
                    return Err(Stop::Unsupported(format!("external function {}", self.m.funcs[id as usize].name)));
                }
                self.m.compile(id)
            }
        };
        if st.frames.len() > 20000 {
            return Err(Stop::Crash("stack overflow (call depth)".into()));
        }
        if let Some(p) = &mut self.prof {
            if p.len() <= id as usize {
                p.resize(id as usize + 1, 0);
            }
            p[id as usize] += 1;
        }
        let nb = st.regs.len();
        st.regs.resize(nb + g.nregs as usize, V::C(0));
        let n = (nargs as usize).min(g.nparams as usize);
        for k in 0..n {
            let r = f.pool[args as usize + k];
            let v = if r & CONST != 0 { f.consts[(r & !CONST) as usize] } else { st.regs[base + r as usize] };
            st.regs[nb + k] = v;
        }
        let sp = st.sp;
        for (r, sz) in &g.byval {
            let a = (st.sp + 15) / 16 * 16;
            st.sp = a + *sz as u64;
            let s = self.conc(st, st.regs[nb + *r as usize])?;
            st.mem.copy(a, s, *sz as u64)?;
            st.regs[nb + *r as usize] = V::C(a);
        }
        st.frames.last_mut().unwrap().pc += 1;
        st.frames.push(Frame { f: g, pc: 0, base: nb as u32, sp, dst: base as u32 + dst, nret });
        Ok(())
    }
}

#[inline]
pub fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(x: u64, w: u16) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        let s = 64 - w as u32;
        ((x << s) as i64) >> s
    }
}
#[inline]
fn bin64(op: B, w: u16, x: u64, y: u64) -> u64 {
    let m = m64(w);
    match op {
        B::Add => x.wrapping_add(y) & m,
        B::Sub => x.wrapping_sub(y) & m,
        B::Mul => x.wrapping_mul(y) & m,
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
        B::Shl => {
            if y >= w as u64 {
                0
            } else {
                (x << y) & m
            }
        }
        B::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        _ => expr::cbin(op, w, x as u128, y as u128) as u64,
    }
}
#[inline]
fn cmp64(p: Pred, w: u16, x: u64, y: u64) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sx64(x, w) < sx64(y, w),
        Pred::Sle => sx64(x, w) <= sx64(y, w),
        Pred::Sgt => sx64(x, w) > sx64(y, w),
        Pred::Sge => sx64(x, w) >= sx64(y, w),
    }
}
pub fn ev(ar: &mut expr::Arena, v: V, w: u16) -> E {
    match v {
        V::S(e) => e,
        V::C(x) => ar.c(w, x as u128),
    }
}
pub fn cmpsym(p: Pred, w: u16, x: V, y: V) -> V {
    expr::with(|ar| {
        let x = ev(ar, x, w);
        let y = ev(ar, y, w);
        let r = match p {
            Pred::Eq => ar.cmp(P::Eq, x, y),
            Pred::Ne => {
                let e = ar.cmp(P::Eq, x, y);
                ar.not(e)
            }
            Pred::Ult => ar.cmp(P::Ult, x, y),
            Pred::Ule => ar.cmp(P::Ule, x, y),
            Pred::Ugt => ar.cmp(P::Ult, y, x),
            Pred::Uge => ar.cmp(P::Ule, y, x),
            Pred::Slt => ar.cmp(P::Slt, x, y),
            Pred::Sle => ar.cmp(P::Sle, x, y),
            Pred::Sgt => ar.cmp(P::Slt, y, x),
            Pred::Sge => ar.cmp(P::Sle, y, x),
        };
        norm(ar, r)
    })
}
fn bitcast(vs: &[V], ws: u16, wd: u16, m: u16) -> Vec<V> {
    let total = ws as usize * vs.len();
    if vs.iter().all(|v| matches!(v, V::C(_))) && total <= 128 {
        let mut x = 0u128;
        for (k, v) in vs.iter().enumerate() {
            if let V::C(c) = v {
                x |= (*c as u128 & expr::mask(ws)) << (k * ws as usize)
            }
        }
        return (0..m as usize)
            .map(|k| {
                let y = (x >> (k * wd as usize)) & expr::mask(wd);
                if wd <= 64 {
                    V::C(y as u64)
                } else {
                    V::S(expr::with(|a| a.c(wd, y)))
                }
            })
            .collect();
    }
    expr::with(|a| {
        if total <= 128 {
            let mut e: Option<E> = None;
            for v in vs.iter().rev() {
                let x = ev(a, *v, ws);
                e = Some(match e {
                    None => x,
                    Some(h) => a.concat(h, x),
                });
            }
            let e = e.unwrap();
            (0..m)
                .map(|k| {
                    let x = a.extract(wd, k * wd, e);
                    norm(a, x)
                })
                .collect()
        } else {
            panic!("bitcast wider than 128 bits")
        }
    })
}

fn intrinsic(i: Intr, w: u16, nret: u16, xs: &[V]) -> Rs<Vec<V>> {
    let allc = xs.iter().all(|v| matches!(v, V::C(_)));
    if allc && w <= 64 {
        let c = |k: usize| if let V::C(x) = xs[k] { x } else { 0 };
        let m = m64(w);
        let s = |x: u64| sx64(x, w);
        let one = |x: u64| Ok(vec![V::C(x & m)]);
        return match i {
            Intr::UMax => one(c(0).max(c(1))),
            Intr::UMin => one(c(0).min(c(1))),
            Intr::SMax => one(s(c(0)).max(s(c(1))) as u64),
            Intr::SMin => one(s(c(0)).min(s(c(1))) as u64),
            Intr::Abs => one(s(c(0)).wrapping_abs() as u64),
            Intr::Fshl | Intr::Fshr => {
                let k = c(2) % w as u64;
                let cat = ((c(0) as u128) << w) | c(1) as u128;
                let r = if let Intr::Fshl = i { cat >> (w as u64 - k) } else { cat >> k };
                one((r & expr::mask(w)) as u64)
            }
            Intr::Cttz => one(if c(0) == 0 { w as u64 } else { c(0).trailing_zeros() as u64 }),
            Intr::Ctlz => one(if c(0) == 0 { w as u64 } else { c(0).leading_zeros() as u64 - (64 - w as u64) }),
            Intr::Ctpop => one(c(0).count_ones() as u64),
            Intr::Bswap => one(c(0).swap_bytes() >> (64 - w)),
            Intr::Bitrev => one(c(0).reverse_bits() >> (64 - w)),
            Intr::UAddSat => {
                let r = c(0) as u128 + c(1) as u128;
                one(if r > m as u128 { m } else { r as u64 })
            }
            Intr::USubSat => one(c(0).saturating_sub(c(1))),
            Intr::SAddSat | Intr::SSubSat => {
                let r = if let Intr::SAddSat = i {
                    s(c(0)) as i128 + s(c(1)) as i128
                } else {
                    s(c(0)) as i128 - s(c(1)) as i128
                };
                let hi = (m >> 1) as i128;
                one(r.clamp(-hi - 1, hi) as u64)
            }
            Intr::UAddO => {
                let r = c(0) as u128 + c(1) as u128;
                Ok(vec![V::C(r as u64 & m), V::C((r > m as u128) as u64)])
            }
            Intr::USubO => Ok(vec![V::C(c(0).wrapping_sub(c(1)) & m), V::C((c(0) < c(1)) as u64)]),
            Intr::UMulO => {
                let r = c(0) as u128 * c(1) as u128;
                Ok(vec![V::C(r as u64 & m), V::C((r > m as u128) as u64)])
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (a, b) = (s(c(0)) as i128, s(c(1)) as i128);
                let r = match i {
                    Intr::SAddO => a + b,
                    Intr::SSubO => a - b,
                    _ => a * b,
                };
                let t = r as u64 & m;
                Ok(vec![V::C(t), V::C((s(t) as i128 != r) as u64)])
            }
            Intr::Ucmp | Intr::Scmp => {
                let o = if let Intr::Ucmp = i { c(0).cmp(&c(1)) } else { s(c(0)).cmp(&s(c(1))) };
                Ok(vec![V::C(o as i64 as u64 & m64(nret))])
            }
            Intr::Ptrmask => one(c(0) & c(1)),
            _ => Err(Stop::Unsupported(format!("intrinsic {i:?}"))),
        };
    }
    expr::with(|a| {
        let x: Vec<E> = xs.iter().map(|v| ev(a, *v, w)).collect();
        let r = |a: &mut expr::Arena, e: E| Ok(vec![norm(a, e)]);
        match i {
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = if matches!(i, Intr::UMax | Intr::UMin) { P::Ult } else { P::Slt };
                let c = a.cmp(p, x[0], x[1]);
                let e = if matches!(i, Intr::UMax | Intr::SMax) { a.ite(c, x[1], x[0]) } else { a.ite(c, x[0], x[1]) };
                r(a, e)
            }
            Intr::Abs => {
                let z = a.c(w, 0);
                let c = a.cmp(P::Slt, x[0], z);
                let n = a.bin(B::Sub, z, x[0]);
                let e = a.ite(c, n, x[0]);
                r(a, e)
            }
            Intr::Fshl | Intr::Fshr => {
                if let Some(k) = a.as_const(x[2]) {
                    let k = (k % w as u128) as u16;
                    let k = if let Intr::Fshl = i { k } else { (w - k) % w };
                    if k == 0 {
                        let e = if let Intr::Fshl = i { x[0] } else { x[1] };
                        return r(a, e);
                    }
                    let hi = a.extract(w - k, 0, x[0]);
                    let lo = a.extract(k, w - k, x[1]);
                    let e = a.concat(hi, lo);
                    return r(a, e);
                }
                Err(Stop::Unsupported("symbolic funnel shift amount".into()))
            }
            Intr::Cttz | Intr::Ctlz => {
                let mut e = a.c(w, w as u128);
                for k in 0..w {
                    let k = if let Intr::Cttz = i { w - 1 - k } else { k };
                    let b = a.extract(1, k, x[0]);
                    let v = a.c(w, if let Intr::Cttz = i { k as u128 } else { (w - 1 - k) as u128 });
                    e = a.ite(b, v, e);
                }
                r(a, e)
            }
            Intr::Ctpop => {
                let mut e = a.c(w, 0);
                for k in 0..w {
                    let b = a.extract(1, k, x[0]);
                    let b = a.zext(w, b);
                    e = a.bin(B::Add, e, b);
                }
                r(a, e)
            }
            Intr::Bswap => {
                let mut e = a.extract(8, 0, x[0]);
                for k in 1..w / 8 {
                    let b = a.extract(8, k * 8, x[0]);
                    e = a.concat(e, b);
                }
                r(a, e)
            }
            Intr::Bitrev => {
                let mut e = a.extract(1, 0, x[0]);
                for k in 1..w {
                    let b = a.extract(1, k, x[0]);
                    e = a.concat(e, b);
                }
                r(a, e)
            }
            Intr::UAddSat | Intr::UAddO => {
                let p = a.zext(w + 1, x[0]);
                let q = a.zext(w + 1, x[1]);
                let s = a.bin(B::Add, p, q);
                let o = a.extract(1, w, s);
                let t = a.bin(B::Add, x[0], x[1]);
                if let Intr::UAddO = i {
                    return Ok(vec![norm(a, t), norm(a, o)]);
                }
                let m = a.c(w, expr::mask(w));
                let e = a.ite(o, m, t);
                r(a, e)
            }
            Intr::USubSat | Intr::USubO => {
                let c = a.cmp(P::Ult, x[0], x[1]);
                let d = a.bin(B::Sub, x[0], x[1]);
                if let Intr::USubO = i {
                    return Ok(vec![norm(a, d), norm(a, c)]);
                }
                let z = a.c(w, 0);
                let e = a.ite(c, z, d);
                r(a, e)
            }
            Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let ww = match i {
                    Intr::UMulO | Intr::SMulO => 2 * w,
                    _ => w + 1,
                };
                if ww > 128 {
                    return Err(Stop::Unsupported("wide multiplication".into()));
                }
                let uns = matches!(i, Intr::UMulO);
                let p = if uns { a.zext(ww, x[0]) } else { a.sext(ww, x[0]) };
                let q = if uns { a.zext(ww, x[1]) } else { a.sext(ww, x[1]) };
                let op = match i {
                    Intr::SAddO => B::Add,
                    Intr::SSubO => B::Sub,
                    _ => B::Mul,
                };
                let s = a.bin(op, p, q);
                let t = a.extract(w, 0, s);
                let back = if uns { a.zext(ww, t) } else { a.sext(ww, t) };
                let eq = a.cmp(P::Eq, s, back);
                let o = a.not(eq);
                Ok(vec![norm(a, t), norm(a, o)])
            }
            Intr::Ucmp | Intr::Scmp => {
                let p = if let Intr::Ucmp = i { P::Ult } else { P::Slt };
                let lt = a.cmp(p, x[0], x[1]);
                let eq = a.cmp(P::Eq, x[0], x[1]);
                let m1 = a.c(nret, u128::MAX);
                let z = a.c(nret, 0);
                let p1 = a.c(nret, 1);
                let e = a.ite(eq, z, p1);
                let e = a.ite(lt, m1, e);
                r(a, e)
            }
            Intr::Ptrmask => {
                let e = a.bin(B::And, x[0], x[1]);
                r(a, e)
            }
            _ => Err(Stop::Unsupported(format!("symbolic intrinsic {i:?}"))),
        }
    })
}

/// f32 arithmetic in f64 rounds the same for one operation on f32 operands (+ - * /)
fn fp(x: u64, w: u16) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x)
    }
}
fn unfp(x: f64, w: u16) -> u64 {
    if w == 32 {
        (x as f32).to_bits() as u64
    } else {
        x.to_bits()
    }
}
