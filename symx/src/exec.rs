//! Symbolic execution of LLVM IR with post-dominator state merging.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Model, Sat, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete byte
    pub ro: bool,
    pub freed: bool,
    /// stores at symbolic offsets, in order, not yet applied to `data`/`sym`
    pub log: Vec<LogW>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LogW {
    guard: E,
    d: E,
    n: u16,
    val: E,
}
enum Ov {
    No,
    /// iff the condition holds, the access lies inside the store, `r` bytes in
    In(E, u64),
    Maybe,
}
impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false, freed: false, log: vec![] }
    }
    #[inline]
    fn size(&self) -> u64 {
        self.data.len() as u64
    }
    #[inline]
    fn conc(&self, off: usize, n: usize) -> bool {
        // of the bytes below the log
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|e| *e == 0),
        }
    }
    fn symv(&mut self) -> &mut Vec<E> {
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])
    }
    #[inline]
    fn set_byte(&mut self, cx: &Ctx, off: usize, e: E) {
        match cx.as_const(e) {
            Some(v) => {
                self.data[off] = v as u8;
                if let Some(s) = &mut self.sym {
                    s[off] = 0;
                }
            }
            None => {
                self.symv()[off] = e;
            }
        }
    }
    #[inline]
    fn byte(&self, cx: &mut Ctx, off: usize) -> E {
        if let Some(s) = &self.sym {
            if s[off] != 0 {
                return s[off];
            }
        }
        cx.cst(self.data[off] as u128, 8)
    }
}

const PAGE: usize = 32;
type Page = [Option<Rc<Obj>>; PAGE];
#[derive(Clone, Default)]
struct Table {
    pages: Vec<Rc<Page>>,
}
impl Table {
    #[inline]
    fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        self.pages.get(id as usize / PAGE)?[id as usize % PAGE].as_ref()
    }
    fn get_mut(&mut self, id: u64) -> Option<&mut Rc<Obj>> {
        Rc::make_mut(self.pages.get_mut(id as usize / PAGE)?)[id as usize % PAGE].as_mut()
    }
    fn set(&mut self, id: u64, o: Option<Rc<Obj>>) {
        let p = id as usize / PAGE;
        while self.pages.len() <= p {
            const N: Option<Rc<Obj>> = None;
            self.pages.push(Rc::new([N; PAGE]));
        }
        Rc::make_mut(&mut self.pages[p])[id as usize % PAGE] = o;
    }
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    block: u32,
    idx: usize,
    regs: Vec<Val>,
    stack_base: usize,
    ret_dst: u32,
    ret_norm: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Table,
    next_heap: u64,
    stack: Vec<Rc<Obj>>,
    globals: Rc<FxMap<u64, Rc<Obj>>>,
    pc: Vec<E>,
    model: Rc<Model>,
    inputs: Vec<(u32, u32, Rc<Vec<E>>)>,
    obs: Vec<(u32, Rc<Vec<E>>)>,
    trace: u64,
    steps: u64,
    known: Rc<FxMap<E, bool>>,
    eqs: Rc<FxMap<E, E>>,
    panic_ok: bool,
    nomerge: bool,
    heap_bytes: u64,
}

enum Ctl {
    /// re-execute the current instruction in two states
    Fork(E),
    /// path ended (violation recorded, or infeasible)
    End,
}
type X<T> = Result<T, Ctl>;

#[derive(Clone, Copy, PartialEq)]
pub struct Stop {
    depth: usize,
    block: u32,
}

enum Step {
    Next,
    Jump(u32),
    Branch(E, u32, u32),
    Called,
    Returned,
}

enum Dec {
    T,
    F,
    Both(Rc<Model>), // model of the side the current model is not on; bool = current side
    Unknown,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, u32, Vec<u8>)>,
}
pub struct Sample {
    pub inputs: Vec<(u32, u32, Vec<u8>)>,
    pub obs: Vec<(u32, Vec<u8>)>,
}

pub struct Opts {
    pub timeout: Duration,
    pub max_paths: u64,
    pub max_steps: u64,
    pub samples: usize,
    pub alloc_limit: u64,
    pub merge: bool,
    pub verbose: bool,
    pub max_viol: usize,
}

pub struct Exec {
    pub m: Module,
    pub cx: Ctx,
    pub sol: Solver,
    funcs: Vec<Option<Rc<Func>>>,
    gcache: FxMap<u64, Rc<Obj>>,
    pub opts: Opts,
    start: Instant,
    varmap: HashMap<(u32, u32, u32, u16), E>,
    pub violations: Vec<Violation>,
    vkeys: HashMap<String, u32>,
    pub covers: BTreeSet<u32>,
    pub asserts: BTreeMap<u32, u64>,
    pub executed: BTreeMap<String, u64>,
    pub paths: u64,
    pub pruned: u64,
    pub panics_ok: BTreeMap<String, u64>,
    pub forks: u64,
    pub merges: u64,
    pub merge_refused: u64,
    pub instructions: u64,
    pub samples: Vec<Sample>,
    pub incomplete: Vec<String>,
    pub blocks_seen: BTreeSet<(u32, u32)>,
    last_tick: Instant,
    pub prof: std::collections::HashMap<String, (u64, f64)>,
}

fn mixh(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    x.wrapping_add(0x1234_5678_9abc_def1)
}

impl Exec {
    pub fn new(m: Module, opts: Opts) -> Exec {
        Exec {
            m,
            cx: Ctx::new(),
            sol: Solver::new(),
            funcs: vec![],
            gcache: FxMap::default(),
            opts,
            start: Instant::now(),
            varmap: HashMap::new(),
            violations: vec![],
            vkeys: HashMap::new(),
            covers: BTreeSet::new(),
            asserts: BTreeMap::new(),
            executed: BTreeMap::new(),
            paths: 0,
            pruned: 0,
            panics_ok: BTreeMap::new(),
            forks: 0,
            merges: 0,
            merge_refused: 0,
            instructions: 0,
            samples: vec![],
            incomplete: vec![],
            blocks_seen: BTreeSet::new(),
            last_tick: Instant::now(),
            prof: Default::default(),
        }
    }
    fn func(&mut self, sym: u32) -> Result<Rc<Func>, String> {
        if self.funcs.len() <= sym as usize {
            self.funcs.resize(sym as usize + 1, None);
        }
        if let Some(f) = &self.funcs[sym as usize] {
            return Ok(f.clone());
        }
        let f = Rc::new(parse_func(&mut self.m, &mut self.cx, sym)?);
        if self.funcs.len() <= sym as usize {
            self.funcs.resize(sym as usize + 1, None);
        }
        self.funcs[sym as usize] = Some(f.clone());
        Ok(f)
    }
    fn give_up(&mut self, why: String) {
        if self.opts.verbose {
            eprintln!("incomplete: {why}");
        }
        if self.incomplete.len() < 50 && !self.incomplete.contains(&why) {
            self.incomplete.push(why);
        }
    }

    pub fn run_entry(&mut self, name: &str) -> Result<(), String> {
        let sym = self.m.sym(name);
        let f = self.func(sym)?;
        let fr = Frame {
            regs: vec![Val::U; f.nregs as usize],
            func: f,
            block: 0,
            idx: 0,
            stack_base: 0,
            ret_dst: NOREG,
            ret_norm: None,
        };
        let st = State {
            frames: vec![Rc::new(fr)],
            heap: Table::default(),
            next_heap: 1,
            stack: vec![],
            globals: Rc::new(FxMap::default()),
            pc: vec![],
            model: Rc::new(Model::default()),
            inputs: vec![],
            obs: vec![],
            trace: 0,
            steps: 0,
            known: Rc::new(FxMap::default()),
            eqs: Rc::new(FxMap::default()),
            panic_ok: false,
            nomerge: false,
            heap_bytes: 0,
        };
        let done = self.run(st, Stop { depth: 1, block: EXIT });
        for s in done {
            self.finish(s);
        }
        Ok(())
    }

    fn finish(&mut self, st: State) {
        self.paths += 1;
        if self.samples.len() < self.opts.samples {
            let inputs = self.concrete_inputs(&st, &st.model.clone());
            let mut ev = Evaluator::new(&self.cx, &st.model);
            let obs = st.obs.iter().map(|(i, b)| (*i, b.iter().map(|e| ev.eval(*e) as u8).collect())).collect();
            self.samples.push(Sample { inputs, obs });
        }
    }
    fn concrete_inputs(&self, st: &State, m: &Model) -> Vec<(u32, u32, Vec<u8>)> {
        let mut ev = Evaluator::new(&self.cx, m);
        st.inputs.iter().map(|(i, o, b)| (*i, *o, b.iter().map(|e| ev.eval(*e) as u8).collect())).collect()
    }
    fn callstack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.func.name)).collect()
    }
    fn violation(&mut self, st: &State, m: &Model, kind: &str, msg: String) {
        let key = format!("{kind}|{msg}");
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 || self.violations.len() >= self.opts.max_viol {
            return;
        }
        let v = Violation {
            kind: kind.into(),
            msg,
            stack: self.callstack(st),
            inputs: self.concrete_inputs(st, m),
        };
        if self.opts.verbose {
            eprintln!("VIOLATION {} {} {:?}", v.kind, v.msg, v.stack.iter().take(4).collect::<Vec<_>>());
        }
        self.violations.push(v);
    }
    fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.opts.timeout
    }

    // ---------------------------------------------------------------- run
    fn run(&mut self, mut st: State, stop: Stop) -> Vec<State> {
        loop {
            if self.instructions & 0xfff == 0 && self.out_of_time() {
                self.give_up("time limit".into());
                return vec![];
            }
            if self.opts.verbose && self.instructions & 0xfffff == 0 && self.last_tick.elapsed().as_secs() >= 10 {
                self.last_tick = Instant::now();
                eprintln!(
                    "[{:.0}s] insts {}M paths {} forks {} merges {} refused {} queries {} (ext {}) solver {:.1}s nodes {} pc {} in {}",
                    self.start.elapsed().as_secs_f64(),
                    self.instructions >> 20,
                    self.paths,
                    self.forks,
                    self.merges,
                    self.merge_refused,
                    self.sol.queries,
                    self.sol.ext_queries,
                    self.sol.solver_time.as_secs_f64(),
                    self.cx.nodes.len(),
                    st.pc.len(),
                    demangle(&st.frames.last().unwrap().func.name)
                );
            }
            self.instructions += 1;
            st.steps += 1;
            if st.steps > self.opts.max_steps {
                self.give_up(format!("step limit in {}", demangle(&st.frames.last().unwrap().func.name)));
                return vec![];
            }
            let r = self.step(&mut st);
            let (cond, targets) = match r {
                Ok(Step::Next) => {
                    Rc::make_mut(st.frames.last_mut().unwrap()).idx += 1;
                    continue;
                }
                Ok(Step::Called) => continue,
                Ok(Step::Jump(b)) => {
                    self.jump(&mut st, b);
                    if st.frames.len() == stop.depth && b == stop.block {
                        return vec![st];
                    }
                    continue;
                }
                Ok(Step::Returned) => {
                    if st.frames.len() < stop.depth {
                        return vec![st];
                    }
                    if let Some(b) = st.pending_jump() {
                        self.jump(&mut st, b);
                        if st.frames.len() == stop.depth && b == stop.block {
                            return vec![st];
                        }
                    }
                    continue;
                }
                Ok(Step::Branch(c, a, b)) => (c, Some((a, b))),
                Err(Ctl::Fork(c)) => (c, None),
                Err(Ctl::End) => return vec![],
            };
            let t0 = Instant::now();
            let dec = self.decide(&st, cond);
            if self.opts.verbose {
                let f = st.frames.last().unwrap();
                let e = self.prof.entry(format!("{} b{} i{}", demangle(&f.func.name), f.block, f.idx)).or_default();
                e.0 += matches!(dec, Dec::Both(_)) as u64;
                e.1 += t0.elapsed().as_secs_f64();
            }
            if self.out_of_time() {
                self.give_up("time limit".into());
                return vec![];
            }
            match dec {
                Dec::Unknown => {
                    self.give_up(format!("solver gave no answer in {}", demangle(&st.frames.last().unwrap().func.name)));
                    return vec![];
                }
                Dec::T => {
                    self.learn(&mut st, cond);
                    if let Some((a, _)) = targets {
                        self.jump(&mut st, a);
                        if st.frames.len() == stop.depth && a == stop.block {
                            return vec![st];
                        }
                    }
                }
                Dec::F => {
                    let nc = self.cx.not(cond);
                    self.learn(&mut st, nc);
                    if let Some((_, b)) = targets {
                        self.jump(&mut st, b);
                        if st.frames.len() == stop.depth && b == stop.block {
                            return vec![st];
                        }
                    }
                }
                Dec::Both(other) => {
                    self.forks += 1;
                    let depth = st.frames.len();
                    let top = st.frames.last().unwrap();
                    let pd = top.func.ipdom[top.block as usize];
                    let stop2 = Stop { depth, block: pd };
                    let mut s2 = st.clone();
                    let cur = Evaluator::new(&self.cx, &st.model).eval(cond) == 1;
                    let nc = self.cx.not(cond);
                    // st takes the true side, s2 the false side
                    if cur {
                        s2.model = other;
                    } else {
                        st.model = other;
                    }
                    self.assume(&mut st, cond);
                    self.assume(&mut s2, nc);
                    let mut outs = vec![];
                    for (mut s, t) in [(st, targets.map(|t| t.0)), (s2, targets.map(|t| t.1))] {
                        if let Some(b) = t {
                            self.jump(&mut s, b);
                            if b == pd {
                                outs.push(s);
                                continue;
                            }
                        }
                        outs.extend(self.run(s, stop2));
                    }
                    let merged = self.merge_all(outs);
                    let at_stop = |s: &State| {
                        if pd == EXIT {
                            // stopped after returning from frame `depth`
                            stop.block == EXIT && s.frames.len() < stop.depth
                                || stop.block != EXIT && s.frames.len() < stop.depth
                        } else {
                            stop2 == stop
                        }
                    };
                    let mut cont = vec![];
                    let mut ret = vec![];
                    for mut s in merged {
                        if at_stop(&s) {
                            ret.push(s);
                            continue;
                        }
                        if pd == EXIT {
                            if let Some(b) = s.pending_jump() {
                                self.jump(&mut s, b);
                                if s.frames.len() == stop.depth && b == stop.block {
                                    ret.push(s);
                                    continue;
                                }
                            }
                        }
                        cont.push(s);
                    }
                    if ret.is_empty() && cont.len() == 1 {
                        st = cont.pop().unwrap();
                        continue;
                    }
                    if self.paths + cont.len() as u64 > self.opts.max_paths {
                        self.give_up("path limit".into());
                        return vec![];
                    }
                    for s in cont {
                        ret.extend(self.run(s, stop));
                    }
                    // states arriving at an outer stop are merged there
                    return ret;
                }
            }
        }
    }

    fn jump(&mut self, st: &mut State, b: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.func.clone();
        let from = fr.block;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let mut v = Val::U;
                for (pb, o) in &p.inc {
                    if *pb == from {
                        v = match o {
                            Opd::R(r) => fr.regs[*r as usize].clone(),
                            Opd::C(c) => c.clone(),
                        };
                        break;
                    }
                }
                vals.push((p.dst, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = b;
        fr.idx = 0;
        if self.blocks_seen.insert((f.sym, b)) {}
    }

    // ------------------------------------------------------------ path condition
    fn assume(&mut self, st: &mut State, c: E) {
        let nc = self.cx.norm(c);
        if nc == self.cx.tt {
            return;
        }
        st.pc.push(nc);
        self.learn(st, nc);
        self.learn(st, c);
    }
    /// remember syntactic consequences of a condition implied by the path condition
    fn learn(&mut self, st: &mut State, c: E) {
        if self.cx.as_const(c).is_some() {
            return;
        }
        let mut todo = vec![c];
        if std::env::var("SYMX_LEARN").is_ok() {
            eprintln!("LEARN {}", self.cx.show(c, 12));
        }
        let known = Rc::make_mut(&mut st.known);
        let mut eqs: Vec<(E, E)> = vec![];
        let mut fits: Vec<(E, u16)> = vec![];
        while let Some(c) = todo.pop() {
            if known.insert(c, true).is_some() {
                continue;
            }
            let n = *self.cx.n(c);
            match n.op {
                Op::And => {
                    todo.push(n.a);
                    todo.push(n.b);
                }
                Op::Eq => {
                    if self.cx.as_const(n.b).is_some() {
                        eqs.push((n.a, n.b));
                    } else if self.cx.as_const(n.a).is_some() {
                        eqs.push((n.b, n.a));
                    } else if self.cx.n(n.a).op == Op::SExt {
                        eqs.push((n.a, n.b));
                    } else if self.cx.n(n.b).op == Op::SExt {
                        eqs.push((n.b, n.a));
                    }
                }
                Op::Ult => {
                    if let Some(k) = self.cx.as_const(n.b) {
                        if k.is_power_of_two() && k > 1 {
                            fits.push((n.a, k.trailing_zeros() as u16));
                        }
                    }
                }
                _ => {}
            }
            let nc = self.cx.not(c);
            known.insert(nc, false);
            let n = *self.cx.n(nc);
            if n.op == Op::Or {
                let (x, y) = (self.cx.not(n.a), self.cx.not(n.b));
                todo.push(x);
                todo.push(y);
            }
        }
        // "d fits k bits": d + 2^(k-1) < 2^k, so sext(extract[..k] d) == d
        for (h, k) in fits {
            let w = self.cx.w(h);
            if self.cx.n(h).op != Op::Add {
                continue;
            }
            let half = self.cx.cst(1u128 << (k - 1), w);
            let d = self.cx.sub(h, half);
            let lo = self.cx.extract(d, 0, k);
            let nlo = self.cx.norm(lo);
            for l in [lo, nlo] {
                let key = self.cx.sext(l, w);
                if key != d {
                    eqs.push((key, d));
                }
            }
        }
        if !eqs.is_empty() {
            let m = Rc::make_mut(&mut st.eqs);
            for (a, b) in eqs {
                m.insert(a, b);
            }
        }
    }
    /// cheap simplification of e under the path condition
    fn reduce(&mut self, st: &State, e: E) -> E {
        self.reduce_d(st, e, 12)
    }
    fn reduce_d(&mut self, st: &State, e: E, d: u32) -> E {
        if self.cx.as_const(e).is_some() || (st.eqs.is_empty() && st.known.is_empty()) {
            return e;
        }
        if let Some(c) = st.eqs.get(&e) {
            return *c;
        }
        let n = *self.cx.n(e);
        if n.w == 1 {
            if let Some(b) = st.known.get(&e) {
                return self.cx.boolc(*b);
            }
        }
        if d == 0 {
            return e;
        }
        match n.op {
            Op::Ite => {
                let c = self.reduce_d(st, n.a, d - 1);
                if c == self.cx.tt {
                    return self.reduce_d(st, n.b, d - 1);
                }
                if c == self.cx.ff {
                    return self.reduce_d(st, n.c, d - 1);
                }
                e
            }
            Op::Add => {
                let a = self.reduce_d(st, n.a, d - 1);
                let b = self.reduce_d(st, n.b, d - 1);
                if a == n.a && b == n.b {
                    e
                } else {
                    self.cx.add(a, b)
                }
            }
            Op::Sub => {
                let a = self.reduce_d(st, n.a, d - 1);
                let b = self.reduce_d(st, n.b, d - 1);
                if a == n.a && b == n.b {
                    e
                } else {
                    self.cx.sub(a, b)
                }
            }
            Op::Mul => {
                let a = self.reduce_d(st, n.a, d - 1);
                if a == n.a {
                    e
                } else {
                    self.cx.mul(a, n.b)
                }
            }
            Op::Concat => {
                let a = self.reduce_d(st, n.a, d - 1);
                let b = self.reduce_d(st, n.b, d - 1);
                if a == n.a && b == n.b {
                    e
                } else {
                    self.cx.concat(a, b)
                }
            }
            Op::Extract => {
                let a = self.reduce_d(st, n.a, d - 1);
                if a == n.a {
                    e
                } else {
                    self.cx.extract(a, n.k as u16, n.w)
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.reduce_d(st, n.a, d - 1);
                let b = self.reduce_d(st, n.b, d - 1);
                if a == n.a && b == n.b {
                    e
                } else {
                    match n.op {
                        Op::Eq => self.cx.eq(a, b),
                        Op::Ult => self.cx.ult(a, b),
                        Op::Ule => self.cx.ule(a, b),
                        Op::Slt => self.cx.slt(a, b),
                        _ => self.cx.sle(a, b),
                    }
                }
            }
            _ => e,
        }
    }
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut vars: FxMap<u32, ()> = FxMap::default();
        for v in self.cx.vars(c).iter() {
            vars.insert(*v, ());
        }
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, p) in st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = self.cx.vars(*p);
                if pv.iter().any(|v| vars.contains_key(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(*p);
                    for v in pv.iter() {
                        vars.insert(*v, ());
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// model of pc && c, extending/overriding the state's model
    fn solve(&mut self, st: &State, c: E) -> Sat {
        if c == self.cx.ff {
            return Sat::Unsat;
        }
        let mut q = self.slice(st, c);
        q.push(c);
        let mut vs: Vec<u32> = vec![];
        for x in &q {
            vs.extend_from_slice(&self.cx.vars(*x));
        }
        match self.sol.check(&mut self.cx, &q) {
            Sat::Sat(m) => {
                let mut nm = (*st.model).clone();
                for v in vs {
                    nm.insert(v, m.get(&v).copied().unwrap_or(0));
                }
                Sat::Sat(Rc::new(nm))
            }
            r => r,
        }
    }
    fn decide(&mut self, st: &State, c: E) -> Dec {
        let c = self.reduce(st, c);
        if c == self.cx.tt {
            return Dec::T;
        }
        if c == self.cx.ff {
            return Dec::F;
        }
        let c = self.cx.norm(c);
        if c == self.cx.tt {
            return Dec::T;
        }
        if c == self.cx.ff {
            return Dec::F;
        }
        let cur = Evaluator::new(&self.cx, &st.model).eval(c) == 1;
        let other = if cur { self.cx.not(c) } else { c };
        let t0 = Instant::now();
        let r = self.solve(st, other);
        if self.opts.verbose && t0.elapsed().as_millis() > 500 {
            eprintln!("SLOW {:.1}s {}", t0.elapsed().as_secs_f64(), self.cx.show(other, 30));
        }
        match r {
            Sat::Unsat => {
                if cur {
                    Dec::T
                } else {
                    Dec::F
                }
            }
            Sat::Sat(m) => Dec::Both(m),
            Sat::Unknown => Dec::Unknown,
        }
    }
    /// require `c`; None = holds for sure; otherwise records a violation and
    /// continues on the side where it holds (End when there is none)
    fn require(&mut self, st: &mut State, c: E, kind: &str, msg: impl Fn() -> String) -> X<()> {
        let t0 = Instant::now();
        let dec = self.decide(st, c);
        if self.opts.verbose && t0.elapsed().as_millis() > 0 {
            let f = st.frames.last().unwrap();
            let e = self.prof.entry(format!("{kind} {} b{} i{}", demangle(&f.func.name), f.block, f.idx)).or_default();
            e.0 += 1;
            e.1 += t0.elapsed().as_secs_f64();
            if t0.elapsed().as_millis() > 15 && std::env::var("SYMX_MED").is_ok() {
                eprintln!("MED {:?} {}", t0.elapsed(), self.cx.show(c, 12));
            }
        }
        match dec {
            Dec::T => Ok(()),
            Dec::F => {
                let m = st.model.clone();
                self.violation(st, &m, kind, msg());
                Err(Ctl::End)
            }
            Dec::Both(m) => {
                let cur = Evaluator::new(&self.cx, &st.model).eval(c) == 1;
                if cur {
                    self.violation(st, &m, kind, msg());
                } else {
                    let old = st.model.clone();
                    self.violation(st, &old, kind, msg());
                    st.model = m;
                }
                self.assume(st, c);
                Ok(())
            }
            Dec::Unknown => {
                self.give_up(format!("solver gave no answer on {kind} {}", msg()));
                // the path continues under the assumption; the run is inconclusive
                match self.solve(st, c) {
                    Sat::Sat(m) => {
                        st.model = m;
                        self.assume(st, c);
                        Ok(())
                    }
                    _ => Err(Ctl::End),
                }
            }
        }
    }
    fn conjuncts(&mut self, st: &State, c: E) -> Vec<E> {
        let mut out = vec![];
        let c = self.reduce(st, c);
        let c = self.cx.norm(c);
        let mut todo = vec![c];
        while let Some(c) = todo.pop() {
            let n = *self.cx.n(c);
            if n.op == Op::And && n.w == 1 {
                todo.push(n.b);
                todo.push(n.a);
            } else if n.op == Op::Eq && self.cx.w(n.a) % 8 == 0 && self.cx.w(n.a) > 8 && out.len() < 200 {
                let w = self.cx.w(n.a);
                let (a, b) = (self.reduce(st, n.a), self.reduce(st, n.b));
                for k in 0..w / 8 {
                    let x = self.cx.extract(a, 8 * k, 8);
                    let y = self.cx.extract(b, 8 * k, 8);
                    let e = self.cx.eq(x, y);
                    let e = self.cx.norm(e);
                    if e != self.cx.tt {
                        out.push(e);
                    }
                }
            } else {
                out.push(c);
            }
        }
        out
    }
    fn concretize(&mut self, st: &State, v: &Val) -> X<u64> {
        match v {
            Val::K(k) => Ok(*k),
            Val::U => Ok(0),
            Val::S(e) => {
                let e = self.reduce(st, *e);
                if let Some(k) = self.cx.as_const(e) {
                    return Ok(k as u64);
                }
                let k = Evaluator::new(&self.cx, &st.model).eval(e);
                let w = self.cx.w(e);
                let kc = self.cx.cst(k, w);
                let c = self.cx.eq(e, kc);
                match self.decide(st, c) {
                    Dec::T => Ok(k as u64),
                    Dec::Both(_) => { if std::env::var("SYMX_DBG").is_ok() { eprintln!("CONC {}", self.cx.show(e, 6)); } Err(Ctl::Fork(c)) }
                    Dec::F => unreachable!(),
                    Dec::Unknown => {
                        self.give_up("solver gave no answer while concretizing".into());
                        Err(Ctl::End)
                    }
                }
            }
            Val::A(_) => {
                self.give_up("aggregate where a scalar was expected".into());
                Err(Ctl::End)
            }
        }
    }

    // ------------------------------------------------------------------- merge
    fn merge_all(&mut self, v: Vec<State>) -> Vec<State> {
        if v.len() < 2 || !self.opts.merge {
            return v;
        }
        let mut out: Vec<State> = vec![];
        for s in v {
            let mut s = Some(s);
            for o in out.iter_mut() {
                if let Some(m) = self.try_merge(o, s.as_ref().unwrap()) {
                    *o = m;
                    s = None;
                    self.merges += 1;
                    break;
                }
            }
            if let Some(s) = s {
                out.push(s);
            }
        }
        out
    }
    fn looks_ptr(&self, a: &State, b: &State, v: u64) -> bool {
        let id = v >> 32;
        if id == 0 || id > 0x3000_0000 {
            return false;
        }
        let off = (v & 0xffff_ffff) as u64;
        if off < BASE_OFF || off > BASE_OFF + 0x1000_0000 {
            return false;
        }
        id >= STACK_ID || a.heap.get(id).is_some() || b.heap.get(id).is_some()
    }
    fn merge_val(&mut self, a: &State, b: &State, c: E, x: &Val, y: &Val) -> Option<Val> {
        if x == y {
            return Some(x.clone());
        }
        match (x, y) {
            (Val::U, v) | (v, Val::U) => Some(v.clone()),
            (Val::A(p), Val::A(q)) => {
                if p.len() != q.len() {
                    return None;
                }
                let mut v = vec![];
                for (i, j) in p.iter().zip(q.iter()) {
                    v.push(self.merge_val(a, b, c, i, j)?);
                }
                Some(Val::A(Rc::new(v)))
            }
            (Val::K(p), Val::K(q)) => {
                if self.looks_ptr(a, b, *p) && self.looks_ptr(a, b, *q) && (p >> 32) != (q >> 32) {
                    return None;
                }
                // width is unknown for two constants: use the 64-bit form and let
                // the use truncate it
                let (p, q) = (self.cx.cst(*p as u128, 64), self.cx.cst(*q as u128, 64));
                Some(Val::S(self.cx.ite(c, p, q)))
            }
            (Val::K(p), Val::S(q)) => {
                let w = self.cx.w(*q);
                let p = self.cx.cst(*p as u128 & mask(w), w);
                let e = self.cx.ite(c, p, *q);
                Some(self.val(e))
            }
            (Val::S(p), Val::K(q)) => {
                let w = self.cx.w(*p);
                let q = self.cx.cst(*q as u128 & mask(w), w);
                let e = self.cx.ite(c, *p, q);
                Some(self.val(e))
            }
            (Val::S(p), Val::S(q)) => {
                let (wp, wq) = (self.cx.w(*p), self.cx.w(*q));
                let (mut p, mut q) = (*p, *q);
                if wp < wq {
                    p = self.cx.zext(p, wq);
                } else if wq < wp {
                    q = self.cx.zext(q, wp);
                }
                let e = self.cx.ite(c, p, q);
                Some(self.val(e))
            }
            _ => None,
        }
    }
    fn merge_obj(&mut self, a: &State, b: &State, c: E, x: &Rc<Obj>, y: &Rc<Obj>) -> Option<Rc<Obj>> {
        if Rc::ptr_eq(x, y) {
            return Some(x.clone());
        }
        if x.size() != y.size() || x.freed != y.freed {
            return None;
        }
        let n = x.data.len();
        let mut out: Obj = (**x).clone();
        let mut i = 0;
        while i < n {
            let xs = x.sym.as_ref().map(|s| s[i]).unwrap_or(0);
            let ys = y.sym.as_ref().map(|s| s[i]).unwrap_or(0);
            if xs == ys && (xs != 0 || x.data[i] == y.data[i]) {
                i += 1;
                continue;
            }
            // differing byte: merge a whole aligned word when it is one value
            let w8 = i & !7;
            if w8 + 8 <= n && x.conc(w8, 8) && y.conc(w8, 8) {
                let p = u64::from_le_bytes(x.data[w8..w8 + 8].try_into().unwrap());
                let q = u64::from_le_bytes(y.data[w8..w8 + 8].try_into().unwrap());
                if self.looks_ptr(a, b, p) && self.looks_ptr(a, b, q) && p >> 32 != q >> 32 {
                    return None;
                }
            }
            let xe = x.byte(&mut self.cx, i);
            let ye = y.byte(&mut self.cx, i);
            let e = self.cx.ite(c, xe, ye);
            out.set_byte(&self.cx, i, e);
            i += 1;
        }
        if x.log != y.log {
            let k = x.log.iter().zip(&y.log).take_while(|(p, q)| p == q).count();
            out.log.truncate(k);
            let nc = self.cx.not(c);
            let (mut i, mut j) = (k, k);
            while i < x.log.len() && j < y.log.len() && x.log[i].d == y.log[j].d && x.log[i].n == y.log[j].n {
                let (p, q) = (&x.log[i], &y.log[j]);
                let guard = self.cx.ite(c, p.guard, q.guard);
                let val = self.cx.ite(c, p.val, q.val);
                out.log.push(LogW { guard, d: p.d, n: p.n, val });
                i += 1;
                j += 1;
            }
            for w in &x.log[i..] {
                let guard = self.cx.and(c, w.guard);
                out.log.push(LogW { guard, ..w.clone() });
            }
            for w in &y.log[j..] {
                let guard = self.cx.and(nc, w.guard);
                out.log.push(LogW { guard, ..w.clone() });
            }
        }
        Some(Rc::new(out))
    }
    fn try_merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.trace != b.trace
            || a.nomerge
            || b.nomerge
            || a.frames.len() != b.frames.len()
            || a.inputs.len() != b.inputs.len()
            || a.obs.len() != b.obs.len()
            || a.stack.len() != b.stack.len()
            || a.panic_ok != b.panic_ok
            || a.inputs.iter().zip(&b.inputs).any(|(x, y)| x.0 != y.0 || x.1 != y.1)
            || a.obs.iter().zip(&b.obs).any(|(x, y)| x.0 != y.0 || x.1.len() != y.1.len())
        {
            self.merge_refused += 1;
            return None;
        }
        let k = a.pc.iter().zip(&b.pc).take_while(|(x, y)| x == y).count();
        let (ra, rb) = (&a.pc[k..], &b.pc[k..]);
        if ra.is_empty() || rb.is_empty() {
            // one path condition contains the other: not disjoint (should not happen)
            self.merge_refused += 1;
            return None;
        }
        let (ra, rb) = (ra.to_vec(), rb.to_vec());
        let ca = self.conj(&ra);
        let cb = self.conj(&rb);
        let n0 = self.cx.not(ra[0]);
        let c = if n0 == rb[0] { ra[0] } else { ca };
        let mut out = a.clone();
        // frames
        for i in 0..a.frames.len() {
            let (fa, fb) = (&a.frames[i], &b.frames[i]);
            if Rc::ptr_eq(fa, fb) {
                continue;
            }
            if !Rc::ptr_eq(&fa.func, &fb.func) || fa.block != fb.block || fa.idx != fb.idx {
                self.merge_refused += 1;
                return None;
            }
            let top = i + 1 == a.frames.len();
            let f = fa.func.clone();
            let mut regs = fa.regs.clone();
            for r in 0..regs.len() {
                if fa.regs[r] == fb.regs[r] {
                    continue;
                }
                if top && fa.idx == 0 {
                    let l = &f.live_in[fa.block as usize];
                    if l[r / 64] >> (r % 64) & 1 == 0 {
                        regs[r] = Val::U;
                        continue;
                    }
                }
                match self.merge_val(a, b, c, &fa.regs[r], &fb.regs[r]) {
                    Some(v) => regs[r] = v,
                    None => {
                        self.merge_refused += 1;
                        return None;
                    }
                }
            }
            Rc::make_mut(&mut out.frames[i]).regs = regs;
        }
        // stack
        for i in 0..a.stack.len() {
            if !Rc::ptr_eq(&a.stack[i], &b.stack[i]) {
                match self.merge_obj(a, b, c, &a.stack[i], &b.stack[i]) {
                    Some(o) => out.stack[i] = o,
                    None => {
                        self.merge_refused += 1;
                        return None;
                    }
                }
            }
        }
        // heap
        let np = a.heap.pages.len().max(b.heap.pages.len());
        for p in 0..np {
            match (a.heap.pages.get(p), b.heap.pages.get(p)) {
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => {}
                (pa, pb) => {
                    for k in 0..PAGE {
                        let id = (p * PAGE + k) as u64;
                        let oa = pa.and_then(|x| x[k].as_ref());
                        let ob = pb.and_then(|x| x[k].as_ref());
                        match (oa, ob) {
                            (Some(x), Some(y)) => {
                                if !Rc::ptr_eq(x, y) {
                                    match self.merge_obj(a, b, c, x, y) {
                                        Some(o) => out.heap.set(id, Some(o)),
                                        None => {
                                            self.merge_refused += 1;
                                            return None;
                                        }
                                    }
                                }
                            }
                            (None, Some(y)) => out.heap.set(id, Some(y.clone())),
                            _ => {}
                        }
                    }
                }
            }
        }
        out.next_heap = a.next_heap.max(b.next_heap);
        out.heap_bytes = a.heap_bytes.max(b.heap_bytes);
        // globals
        if !Rc::ptr_eq(&a.globals, &b.globals) {
            let mut g = (*a.globals).clone();
            let ids: BTreeSet<u64> = a.globals.keys().chain(b.globals.keys()).copied().collect();
            for id in ids {
                let x = match a.globals.get(&id) {
                    Some(x) => x.clone(),
                    None => self.gcache.get(&id)?.clone(),
                };
                let y = match b.globals.get(&id) {
                    Some(x) => x.clone(),
                    None => self.gcache.get(&id)?.clone(),
                };
                g.insert(id, self.merge_obj(a, b, c, &x, &y)?);
            }
            out.globals = Rc::new(g);
        }
        for i in 0..a.obs.len() {
            if !Rc::ptr_eq(&a.obs[i].1, &b.obs[i].1) && a.obs[i].1 != b.obs[i].1 {
                let mut v = vec![];
                for (x, y) in a.obs[i].1.iter().zip(b.obs[i].1.iter()) {
                    v.push(self.cx.ite(c, *x, *y));
                }
                out.obs[i].1 = Rc::new(v);
            }
        }
        out.steps = a.steps.max(b.steps);
        out.pc.truncate(k);
        let d = self.cx.or(ca, cb);
        let d = if n0 == rb[0] && ra.len() == 1 && rb.len() == 1 { self.cx.tt } else { d };
        // what is known must hold on both sides
        let mut kn = FxMap::default();
        for (e, v) in a.known.iter() {
            if b.known.get(e) == Some(v) {
                kn.insert(*e, *v);
            }
        }
        out.known = Rc::new(kn);
        let mut eq = FxMap::default();
        for (e, v) in a.eqs.iter() {
            if b.eqs.get(e) == Some(v) {
                eq.insert(*e, *v);
            }
        }
        out.eqs = Rc::new(eq);
        self.assume(&mut out, d);
        Some(out)
    }
    fn conj(&mut self, v: &[E]) -> E {
        let mut r = self.cx.tt;
        for x in v.iter().rev() {
            r = self.cx.and(*x, r);
        }
        r
    }

    // --------------------------------------------------------------- values
    #[inline]
    fn val(&self, e: E) -> Val {
        match self.cx.as_const(e) {
            Some(v) if self.cx.w(e) <= 64 => Val::K(v as u64),
            _ => Val::S(e),
        }
    }
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => c.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != NOREG {
            Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
        }
    }
    fn ex(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::K(k) => self.cx.cst(*k as u128 & mask(w), w),
            Val::S(e) => {
                let ew = self.cx.w(*e);
                if ew == w {
                    *e
                } else if ew > w {
                    self.cx.extract(*e, 0, w)
                } else {
                    self.cx.zext(*e, w)
                }
            }
            Val::U => self.cx.cst(0, w),
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }

    // --------------------------------------------------------------- memory
    fn obj<'a>(&'a mut self, st: &'a State, id: u64) -> Option<&'a Rc<Obj>> {
        if id < STACK_ID {
            return st.heap.get(id);
        }
        if id < GLOBAL_ID {
            return st.stack.get((id - STACK_ID) as usize);
        }
        if id < FUNC_ID {
            if st.globals.contains_key(&id) {
                return st.globals.get(&id);
            }
            if !self.gcache.contains_key(&id) {
                let sym = (id - GLOBAL_ID) as u32;
                if sym as usize >= self.m.syms.len() {
                    return None;
                }
                match self.m.global_init(&mut self.cx, sym) {
                    Ok(g) => {
                        let mut o = Obj::new(0);
                        o.data = g.bytes;
                        o.ro = g.constant;
                        self.gcache.insert(id, Rc::new(o));
                    }
                    Err(e) => {
                        let n = self.m.names.get(sym as usize).cloned().unwrap_or_default();
                        self.give_up(format!("global {n}: {e}"));
                        return None;
                    }
                }
            }
            return self.gcache.get(&id);
        }
        None
    }
    fn obj_mut<'a>(&'a mut self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        if id < STACK_ID {
            return st.heap.get_mut(id).map(Rc::make_mut);
        }
        if id < GLOBAL_ID {
            return st.stack.get_mut((id - STACK_ID) as usize).map(Rc::make_mut);
        }
        if id < FUNC_ID {
            if !st.globals.contains_key(&id) {
                let o = self.obj(st, id)?.clone();
                Rc::make_mut(&mut st.globals).insert(id, o);
            }
            return Rc::make_mut(&mut st.globals).get_mut(&id).map(Rc::make_mut);
        }
        None
    }
    fn mem_fault(&mut self, st: &State, m: &Model, addr: u64, n: u64, write: bool) {
        let id = addr >> 32;
        let what = match self.obj(st, id) {
            None => "dangling or wild pointer".to_string(),
            Some(o) if o.freed => "use after free".to_string(),
            Some(o) => {
                if write && o.ro {
                    "write to constant".into()
                } else {
                    format!("offset {} of {}-byte object", (addr as u32 as i64) - BASE_OFF as i64, o.size())
                }
            }
        };
        let top = demangle(&st.frames.last().unwrap().func.name);
        let msg = format!("{} of {n} bytes in {top}", if write { "write" } else { "read" });
        let _ = what;
        self.violation(st, m, "memory", format!("{msg}: invalid access ({what})"));
    }
    /// resolve an address to (object, offset); the access is in bounds afterwards
    fn resolve(&mut self, st: &mut State, addr: &Val, n: u64, write: bool) -> X<(u64, Result<u64, E>)> {
        let addr = match addr {
            Val::S(e) => {
                let r = self.reduce(st, *e);
                self.val(r)
            }
            v => v.clone(),
        };
        match addr {
            Val::K(a) => {
                let id = a >> 32;
                let off = (a & 0xffff_ffff).wrapping_sub(BASE_OFF);
                let ok = match self.obj(st, id) {
                    Some(o) => !o.freed && !(write && o.ro) && off <= o.size() && n <= o.size() - off,
                    None => false,
                };
                if ok {
                    Ok((id, Ok(off)))
                } else {
                    let m = st.model.clone();
                    self.mem_fault(st, &m, a, n, write);
                    Err(Ctl::End)
                }
            }
            Val::S(e) => {
                let a = Evaluator::new(&self.cx, &st.model).eval(e) as u64;
                let id = a >> 32;
                let off = (a & 0xffff_ffff).wrapping_sub(BASE_OFF);
                let (ok, size) = match self.obj(st, id) {
                    Some(o) => {
                        (!o.freed && !(write && o.ro) && off <= o.size() && n <= o.size() - off, o.size())
                    }
                    None => (false, 0),
                };
                if !ok {
                    // a genuine out-of-bounds access under the current model
                    let m = st.model.clone();
                    self.mem_fault(st, &m, a, n, write);
                    // continue on the in-bounds side if there is one: find any
                    // in-bounds model by excluding this address
                    let ac = self.cx.cst(a as u128, 64);
                    let ne = self.cx.ne(e, ac);
                    // only the object named by the constant part can be meant
                    let base = match self.cx.linear(e) {
                        Some((_, k)) => (k as u64) >> 32,
                        None => 0,
                    };
                    if let Some(o) = self.obj(st, base) {
                        let sz = o.size();
                        if sz >= n {
                            let b = self.cx.cst(base_addr(base) as u128, 64);
                            let d = self.cx.sub(e, b);
                            let lim = self.cx.cst((sz - n) as u128, 64);
                            let c = self.cx.ule(d, lim);
                            if let Sat::Sat(m) = self.solve(st, c) {
                                st.model = m;
                                self.assume(st, c);
                                return Ok((base, Err(d)));
                            }
                        }
                    }
                    let _ = ne;
                    return Err(Ctl::End);
                }
                let b = self.cx.cst(base_addr(id) as u128, 64);
                let d = self.cx.sub(e, b);
                let lim = self.cx.cst((size - n) as u128, 64);
                let c = self.cx.ule(d, lim);
                match self.decide(st, c) {
                    Dec::T => {
                        let d = self.reduce(st, d);
                        match self.cx.as_const(d) {
                            Some(k) => Ok((id, Ok(k as u64))),
                            None => Ok((id, Err(d))),
                        }
                    }
                    Dec::Both(_) => Err(Ctl::Fork(c)),
                    Dec::F => unreachable!(),
                    Dec::Unknown => {
                        self.give_up("solver gave no answer on an address".into());
                        Err(Ctl::End)
                    }
                }
            }
            _ => {
                let m = st.model.clone();
                self.mem_fault(st, &m, 0, n, write);
                Err(Ctl::End)
            }
        }
    }
    /// candidate (condition-index, offset) pairs for a symbolic offset
    fn candidates(&mut self, d: E, size: u64, n: u64, max: u64) -> Option<(E, Vec<(u64, u64)>)> {
        let lim = size - n;
        // offset = coef * t + c with one symbolic term?
        if let Some((terms, c)) = self.cx.linear(d) {
            if terms.len() == 1 {
                let (t, coef) = terms[0];
                let (coef, c) = (coef as u64, c as u64);
                let ti = self.cx.info[t as usize];
                if coef != 0 && ti.hi - ti.lo < max as u128 * 4 {
                    let mut v = vec![];
                    for k in ti.lo..=ti.hi {
                        let bad = k & ti.kz != 0 || (!k & ti.ko) != 0;
                        let off = (k as u64).wrapping_mul(coef).wrapping_add(c);
                        if !bad && off <= lim {
                            v.push((k as u64, off));
                        }
                    }
                    if v.len() as u64 <= max {
                        return Some((t, v));
                    }
                }
            }
        }
        let i = self.cx.info[d as usize];
        let lo = i.lo.min(lim as u128) as u64;
        let hi = i.hi.min(lim as u128) as u64;
        // several terms: step by their common factor
        if let Some((terms, c)) = self.cx.linear(d) {
            if terms.len() > 1 && self.cx.w(d) == 64 {
                let mut g = 0u64;
                for (_, k) in &terms {
                    let mut b = (*k as u64 as i64).unsigned_abs();
                    while b != 0 {
                        (g, b) = (b, g % b);
                    }
                }
                if g > 1 && g < 1 << 31 {
                    let r = (c as u64 as i64).rem_euclid(g as i64) as u64;
                    let first = lo + (r + g - lo % g) % g;
                    if first > hi || (hi - first) / g <= max {
                        let v = (0..)
                            .map(|k| first + k * g)
                            .take_while(|o| *o <= hi)
                            .filter(|o| *o as u128 & i.kz == 0 && (!*o as u128 & i.ko) == 0)
                            .map(|o| (o, o))
                            .collect();
                        return Some((d, v));
                    }
                }
            }
        }
        let fixed = i.kz | i.ko;
        let tz = (!fixed).trailing_zeros().min(12);
        let stride = 1u64 << tz;
        let r = (i.ko as u64) & (stride - 1);
        if (hi - lo) / stride > max {
            return None;
        }
        let mut v = vec![];
        let mut o = (lo & !(stride - 1)) | r;
        while o <= hi {
            let k = o as u128;
            if o >= lo && k & i.kz == 0 && (!k & i.ko) == 0 {
                v.push((o, o));
            }
            o += stride;
        }
        Some((d, v))
    }
    fn mux(&mut self, idx: E, items: &[(u64, E)], bit: i32) -> E {
        if items.len() == 1 || bit < 0 {
            return items[0].1;
        }
        if items.iter().all(|x| x.1 == items[0].1) {
            return items[0].1;
        }
        let cut = items.partition_point(|x| x.0 >> bit & 1 == 0);
        if cut == 0 || cut == items.len() {
            return self.mux(idx, items, bit - 1);
        }
        // items share all bits above `bit`
        let lo = self.mux(idx, &items[..cut], bit - 1);
        let hi = self.mux(idx, &items[cut..], bit - 1);
        let b = self.cx.extract(idx, bit as u16, 1);
        self.cx.ite(b, hi, lo)
    }
    fn load_at(&mut self, o: &Obj, off: u64, n: usize) -> E {
        let off = off as usize;
        if o.conc(off, n) {
            let mut v = 0u128;
            for k in (0..n).rev() {
                v = (v << 8) | o.data[off + k] as u128;
            }
            return self.cx.cst(v, 8 * n as u16);
        }
        let mut e = o.byte(&mut self.cx, off);
        for k in 1..n {
            let b = o.byte(&mut self.cx, off + k);
            e = self.cx.concat(b, e);
        }
        e
    }
    fn store_at(&mut self, o: &mut Obj, off: u64, n: usize, e: E) {
        if let Some(v) = self.cx.as_const(e) {
            for k in 0..n {
                o.data[off as usize + k] = (v >> (8 * k)) as u8;
            }
            if let Some(s) = &mut o.sym {
                s[off as usize..off as usize + n].fill(0);
            }
            return;
        }
        for k in 0..n {
            let b = self.cx.extract(e, 8 * k as u16, 8);
            o.set_byte(&self.cx, off as usize + k, b);
        }
    }
    /// how an n-byte access at offset d meets an earlier m-byte store at offset e
    fn overlap(&mut self, d: E, n: u64, e: E, m: u64) -> Ov {
        if d == e {
            return if n <= m { Ov::In(self.cx.tt, 0) } else { Ov::Maybe };
        }
        let (Some((td, cd)), Some((te, ce))) = (self.cx.linear(d), self.cx.linear(e)) else {
            return Ov::Maybe;
        };
        let mut g: u64 = 0;
        fn gcd(a: u64, b: u64) -> u64 {
            if b == 0 {
                a
            } else {
                gcd(b, a % b)
            }
        }
        let mut diff: Vec<(E, i64)> = vec![];
        for (t, k) in &td {
            diff.push((*t, *k as u64 as i64));
        }
        for (t, k) in &te {
            let k = *k as u64 as i64;
            match diff.iter_mut().find(|x| x.0 == *t) {
                Some(x) => x.1 = x.1.wrapping_sub(k),
                None => diff.push((*t, k.wrapping_neg())),
            }
        }
        diff.retain(|x| x.1 != 0);
        for x in &diff {
            g = gcd(g, x.1.unsigned_abs());
        }
        let c = (cd as u64 as i64).wrapping_sub(ce as u64 as i64);
        if g == 0 {
            // constant distance
            return if c >= m as i64 || c <= -(n as i64) {
                Ov::No
            } else if c >= 0 && c as u64 + n <= m {
                Ov::In(self.cx.tt, c as u64)
            } else {
                Ov::Maybe
            };
        }
        if g >= 1 << 32 {
            return Ov::Maybe;
        }
        let r = c.rem_euclid(g as i64) as u64;
        // the distance is r + g * something
        if r >= m && g - r >= n {
            return Ov::No;
        }
        if r + n <= m && g >= m && g - r >= n {
            // inside iff the distance is exactly r
            let w = self.cx.w(d);
            let rc = self.cx.cst(r as u128, w);
            let er = self.cx.add(e, rc);
            let cond = if td.len() <= 1 && te.len() <= 1 && td.iter().chain(&te).all(|x| x.1 == g as u128) {
                // k*t + c == k*u + c' <=> t == u + (c' - c)/k, no wrapping for in-bounds offsets
                let small = |s: &Self, t: &Vec<(E, u128)>| t.iter().all(|x| s.cx.info[x.0 as usize].hi < 1 << 30);
                if small(self, &td) && small(self, &te) && g < 1 << 30 {
                    let q = (c - r as i64) / g as i64;
                    let t = td.first().map(|x| x.0).unwrap_or_else(|| self.cx.cst(0, w));
                    let u = te.first().map(|x| x.0).unwrap_or_else(|| self.cx.cst(0, w));
                    // t*g + q*g == u*g  <=>  t + q == u
                    let qc = self.cx.cst(q as u64 as u128, w);
                    let t = self.cx.add(t, qc);
                    self.cx.eq(t, u)
                } else {
                    self.cx.eq(d, er)
                }
            } else {
                self.cx.eq(d, er)
            };
            return Ov::In(cond, r);
        }
        Ov::Maybe
    }
    /// apply the log to the bytes
    fn flush(&mut self, st: &mut State, id: u64) {
        match self.obj(st, id) {
            Some(o) if !o.log.is_empty() => {}
            _ => return,
        }
        let o = self.obj_mut(st, id).unwrap() as *mut Obj;
        let o = unsafe { &mut *o };
        self.flush_obj(o);
    }
    fn flush_obj(&mut self, o: &mut Obj) {
        for w in std::mem::take(&mut o.log) {
            let n = w.n as u64;
            let (idx, c) = if let Some(k) = self.cx.as_const(w.d) {
                (w.d, vec![(k as u64, k as u64)])
            } else {
                self.candidates(w.d, o.size(), n, 2048).unwrap()
            };
            let iw = self.cx.w(idx);
            for (k, off) in c {
                let kc = self.cx.cst(k as u128, iw);
                let cond = self.cx.eq(idx, kc);
                let cond = self.cx.and(w.guard, cond);
                if cond == self.cx.ff {
                    continue;
                }
                let old = self.load_at(o, off, n as usize);
                let nv = self.cx.ite(cond, w.val, old);
                self.store_at(o, off, n as usize, nv);
            }
        }
    }
    fn log_store(&mut self, o: &mut Obj, d: E, n: u64, val: E) {
        let tt = self.cx.tt;
        for i in (0..o.log.len()).rev() {
            if o.log[i].d == d && o.log[i].n as u64 == n {
                o.log[i].val = val;
                o.log[i].guard = tt;
                return;
            }
            let (e, m) = (o.log[i].d, o.log[i].n as u64);
            if !matches!(self.overlap(d, n, e, m), Ov::No) {
                break;
            }
        }
        o.log.push(LogW { guard: tt, d, n: n as u16, val });
    }
    /// value at a (symbolic or constant) in-bounds offset; None: too many candidates
    fn load_off(&mut self, st: &mut State, id: u64, d: E, n: u64) -> Option<E> {
        let o = self.obj(st, id).unwrap().clone();
        // the stores that matter
        let mut hits: Vec<(E, u64, u16, E)> = vec![];
        let mut maybe = false;
        for w in o.log.iter() {
            match self.overlap(d, n, w.d, w.n as u64) {
                Ov::No => {}
                Ov::In(c, r) => {
                    let c = self.cx.and(c, w.guard);
                    let c = self.reduce(st, c);
                    if c == self.cx.ff {
                        continue;
                    }
                    if c == self.cx.tt {
                        hits.clear();
                    }
                    hits.push((c, r, w.n, w.val));
                }
                Ov::Maybe => {
                    maybe = true;
                    break;
                }
            }
        }
        if maybe {
            if n > 1 && n % 2 == 0 {
                let h = self.cx.cst(n as u128 / 2, 64);
                let d2 = self.cx.add(d, h);
                let lo = self.load_off(st, id, d, n / 2)?;
                let hi = self.load_off(st, id, d2, n / 2)?;
                return Some(self.cx.concat(hi, lo));
            }
            self.flush(st, id);
            return self.load_off(st, id, d, n);
        }
        let mut e = if hits.first().map(|h| h.0 == self.cx.tt) == Some(true) {
            0
        } else if let Some(k) = self.cx.as_const(d) {
            self.load_at(&o, k as u64, n as usize)
        } else {
            let (idx, c) = self.candidates(d, o.size(), n, 2048).filter(|c| !c.1.is_empty())?;
            let mut items = Vec::with_capacity(c.len());
            for (k, off) in c {
                items.push((k, self.load_at(&o, off, n as usize)));
            }
            items.sort_by_key(|x| x.0);
            let top = 63 - (items.last().unwrap().0 ^ items[0].0).leading_zeros() as i32;
            self.mux(idx, &items, top.max(0))
        };
        for (c, r, _, v) in hits {
            let x = self.cx.extract(v, 8 * r as u16, 8 * n as u16);
            e = if c == self.cx.tt { x } else { self.cx.ite(c, x, e) };
        }
        Some(e)
    }
    fn load_scalar(&mut self, st: &mut State, addr: &Val, bits: u16) -> X<Val> {
        let n = ((bits as usize + 7) / 8) as u64;
        let (id, off) = self.resolve(st, addr, n, false)?;
        let e = match off {
            Ok(off) => {
                let o = self.obj(st, id).unwrap();
                if o.log.is_empty() {
                    if bits <= 64 && o.conc(off as usize, n as usize) {
                        let mut v = 0u64;
                        for k in (0..n as usize).rev() {
                            v = (v << 8) | o.data[off as usize + k] as u64;
                        }
                        return Ok(Val::K(v & mask(bits) as u64));
                    }
                    let o = o.clone();
                    self.load_at(&o, off, n as usize)
                } else {
                    let d = self.cx.cst(off as u128, 64);
                    self.load_off(st, id, d, n).unwrap()
                }
            }
            Err(d) => match self.load_off(st, id, d, n) {
                Some(e) => self.reduce(st, e),
                None => {
                    let k = self.concretize(st, &Val::S(d))?;
                    self.flush(st, id);
                    let o = self.obj(st, id).unwrap().clone();
                    self.load_at(&o, k, n as usize)
                }
            },
        };
        let e = if bits % 8 != 0 { self.cx.extract(e, 0, bits) } else { e };
        Ok(self.val(e))
    }
    fn store_scalar(&mut self, st: &mut State, addr: &Val, bits: u16, v: &Val) -> X<()> {
        let n = ((bits as usize + 7) / 8) as u64;
        let (id, off) = self.resolve(st, addr, n, true)?;
        match off {
            Ok(off) => {
                if !self.obj(st, id).unwrap().log.is_empty() {
                    let d = self.cx.cst(off as u128, 64);
                    let log = self.obj(st, id).unwrap().log.clone();
                    if !log.iter().all(|w| matches!(self.overlap(d, n, w.d, w.n as u64), Ov::No)) {
                        let e = self.ex(v, bits);
                        let e = if bits % 8 != 0 { self.cx.zext(e, n as u16 * 8) } else { e };
                        let o = self.obj_mut(st, id).unwrap() as *mut Obj;
                        self.log_store(unsafe { &mut *o }, d, n, e);
                        return Ok(());
                    }
                }
                if let Val::K(k) = v {
                    let k = *k & mask(bits) as u64;
                    let o = self.obj_mut(st, id).unwrap();
                    o.data[off as usize..(off + n) as usize].copy_from_slice(&k.to_le_bytes()[..n as usize]);
                    if let Some(s) = &mut o.sym {
                        s[off as usize..(off + n) as usize].fill(0);
                    }
                    return Ok(());
                }
                let e = self.ex(v, bits);
                let e = if bits % 8 != 0 { self.cx.zext(e, n as u16 * 8) } else { e };
                // borrow dance: take the object out
                let o = self.obj_mut(st, id).unwrap() as *mut Obj;
                self.store_at(unsafe { &mut *o }, off, n as usize, e);
                Ok(())
            }
            Err(d) => {
                let e = self.ex(v, bits);
                let e = if bits % 8 != 0 { self.cx.zext(e, n as u16 * 8) } else { e };
                let size = self.obj(st, id).unwrap().size();
                match self.candidates(d, size, n, 512) {
                    Some((idx, c)) => {
                        let o = self.obj_mut(st, id).unwrap() as *mut Obj;
                        let o = unsafe { &mut *o };
                        if c.len() > 6 || !o.log.is_empty() {
                            if o.log.len() > 400 {
                                self.flush_obj(o);
                            }
                            self.log_store(o, d, n, e);
                            return Ok(());
                        }
                        let w = self.cx.w(idx);
                        for (k, off) in c {
                            let kc = self.cx.cst(k as u128, w);
                            let cond = self.cx.eq(idx, kc);
                            if cond == self.cx.ff {
                                continue;
                            }
                            let old = self.load_at(o, off, n as usize);
                            let nv = self.cx.ite(cond, e, old);
                            self.store_at(o, off, n as usize, nv);
                        }
                        Ok(())
                    }
                    None => {
                        let k = self.concretize(st, &Val::S(d))?;
                        self.flush(st, id);
                        let o = self.obj_mut(st, id).unwrap() as *mut Obj;
                        self.store_at(unsafe { &mut *o }, k, n as usize, e);
                        Ok(())
                    }
                }
            }
        }
    }
    fn addr_add(&mut self, a: &Val, k: u64) -> Val {
        match a {
            Val::K(x) => Val::K(x.wrapping_add(k)),
            Val::S(e) => {
                let kc = self.cx.cst(k as u128, 64);
                let r = self.cx.add(*e, kc);
                self.val(r)
            }
            v => v.clone(),
        }
    }
    fn load(&mut self, st: &mut State, addr: &Val, ty: &Ty) -> X<Val> {
        if ty.is_scalar() {
            return self.load_scalar(st, addr, ty.bits());
        }
        if let Ty::Vec(n, e) = ty {
            if **e == Ty::Int(1) {
                let v = self.load_scalar(st, addr, (*n as u16 + 7) / 8 * 8)?;
                let mut out = vec![];
                let e = self.ex(&v, (*n as u16 + 7) / 8 * 8);
                for k in 0..*n {
                    let b = self.cx.extract(e, k as u16, 1);
                    out.push(self.val(b));
                }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        let mut v = vec![];
        for k in 0..ty.count() {
            let a = self.addr_add(addr, ty.field_off(k));
            let e = ty.elem(k);
            v.push(self.load(st, &a, &e)?);
        }
        Ok(Val::A(Rc::new(v)))
    }
    fn store(&mut self, st: &mut State, addr: &Val, ty: &Ty, v: &Val) -> X<()> {
        if ty.is_scalar() {
            return self.store_scalar(st, addr, ty.bits(), v);
        }
        for k in 0..ty.count() {
            let a = self.addr_add(addr, ty.field_off(k));
            let e = ty.elem(k);
            let x = match v {
                Val::A(p) => p[k].clone(),
                _ => Val::U,
            };
            let x = if x == Val::U { Val::K(0) } else { x };
            self.store(st, &a, &e, &x)?;
        }
        Ok(())
    }
    fn alloc_heap(&mut self, st: &mut State, size: u64) -> u64 {
        let id = st.next_heap;
        st.next_heap += 1;
        st.heap_bytes += size;
        st.heap.set(id, Some(Rc::new(Obj::new(size as usize))));
        base_addr(id)
    }
    /// bytes of a concretely resolved range (forks until concrete)
    fn range(&mut self, st: &mut State, addr: &Val, n: u64, write: bool) -> X<(u64, u64)> {
        let (id, off) = self.resolve(st, addr, n, write)?;
        let k = match off {
            Ok(o) => o,
            Err(d) => self.concretize(st, &Val::S(d))?,
        };
        self.flush(st, id);
        Ok((id, k))
    }
    fn memcpy(&mut self, st: &mut State, dst: &Val, src: &Val, n: &Val) -> X<()> {
        let n = self.concretize(st, n)?;
        if n == 0 {
            return Ok(());
        }
        if n <= 256 {
            // piecewise when an end is symbolic
            let (si, so) = self.resolve(st, src, n, false)?;
            let (di, d0) = self.resolve(st, dst, n, true)?;
            let logged = |s: &mut Self, st: &State, i: u64| !s.obj(st, i).unwrap().log.is_empty();
            if so.is_err() || d0.is_err() || logged(self, st, si) || logged(self, st, di) {
                let mut vals = vec![];
                let mut k = 0;
                while k < n {
                    let p = match n - k {
                        8.. => 8,
                        4.. => 4,
                        2.. => 2,
                        _ => 1,
                    };
                    let a = self.addr_add(src, k);
                    vals.push((k, p, self.load_scalar(st, &a, 8 * p as u16)?));
                    k += p;
                }
                for (k, p, v) in vals {
                    let a = self.addr_add(dst, k);
                    self.store_scalar(st, &a, 8 * p as u16, &v)?;
                }
                return Ok(());
            }
        }
        let (si, so) = self.range(st, src, n, false)?;
        let (di, d0) = self.range(st, dst, n, true)?;
        let s = self.obj(st, si).unwrap();
        let (so, n) = (so as usize, n as usize);
        let data = s.data[so..so + n].to_vec();
        let sym = s.sym.as_ref().map(|v| v[so..so + n].to_vec()).filter(|v| v.iter().any(|e| *e != 0));
        let d = self.obj_mut(st, di).unwrap();
        let d0 = d0 as usize;
        d.data[d0..d0 + n].copy_from_slice(&data);
        match sym {
            Some(v) => d.symv()[d0..d0 + n].copy_from_slice(&v),
            None => {
                if let Some(v) = &mut d.sym {
                    v[d0..d0 + n].fill(0)
                }
            }
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, dst: &Val, b: &Val, n: &Val) -> X<()> {
        let n = self.concretize(st, n)? as usize;
        if n == 0 {
            return Ok(());
        }
        let (di, d0) = self.range(st, dst, n as u64, true)?;
        let e = self.ex(b, 8);
        let c = self.cx.as_const(e);
        let d0 = d0 as usize;
        let o = self.obj_mut(st, di).unwrap();
        match c {
            Some(v) => {
                o.data[d0..d0 + n].fill(v as u8);
                if let Some(s) = &mut o.sym {
                    s[d0..d0 + n].fill(0)
                }
            }
            None => o.symv()[d0..d0 + n].fill(e),
        }
        Ok(())
    }
    fn bytes(&mut self, st: &mut State, p: &Val, n: u64) -> X<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.range(st, p, n, false)?;
        let o = self.obj(st, id).unwrap().clone();
        Ok((0..n).map(|k| o.byte(&mut self.cx, (off + k) as usize)).collect())
    }
    fn memcmp(&mut self, st: &mut State, a: &Val, b: &Val, n: &Val, order: bool) -> X<Val> {
        let n = self.concretize(st, n)?;
        let x = self.bytes(st, a, n)?;
        let y = self.bytes(st, b, n)?;
        let zero = self.cx.cst(0, 32);
        let one = self.cx.cst(1, 32);
        let neg = self.cx.cst(0xffff_ffff, 32);
        if !order {
            let mut c = self.cx.tt;
            for (p, q) in x.iter().zip(&y).rev() {
                let e = self.cx.eq(*p, *q);
                c = self.cx.and(e, c);
            }
            let r = self.cx.ite(c, zero, one);
            return Ok(self.val(r));
        }
        let mut r = zero;
        for (p, q) in x.iter().zip(&y).rev() {
            let e = self.cx.eq(*p, *q);
            let l = self.cx.ult(*p, *q);
            let d = self.cx.ite(l, neg, one);
            r = self.cx.ite(e, r, d);
        }
        Ok(self.val(r))
    }

    // ----------------------------------------------------------------- step
    fn step(&mut self, st: &mut State) -> X<Step> {
        let fr = st.frames.last().unwrap();
        let func = fr.func.clone();
        let inst = &func.blocks[fr.block as usize].insts[fr.idx];
        match inst {
            Inst::Bin(d, op, ty, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if *op == Bop::UDiv && ty.bits() <= 64 {
                    if let Some(v) = self.euclid(st, ty.bits(), &x, &y) {
                        self.set(st, *d, v);
                        return Ok(Step::Next);
                    }
                }
                let v = self.bin_any(*op, ty, &x, &y);
                self.set(st, *d, v);
            }
            Inst::ICmp(d, p, ty, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.icmp_any(*p, ty, &x, &y);
                self.set(st, *d, v);
            }
            Inst::Cast(d, c, from, to, a) => {
                let x = self.get(st, a);
                let v = self.cast(*c, from, to, &x);
                self.set(st, *d, v);
            }
            Inst::Select(d, ct, c, ty, a, b) => {
                let (c, x, y) = (self.get(st, c), self.get(st, a), self.get(st, b));
                if !ct.is_scalar() {
                    let (Val::A(c), Val::A(x), Val::A(y)) = (&c, &x, &y) else {
                        self.give_up("vector select".into());
                        return Err(Ctl::End);
                    };
                    let et = ty.elem(0);
                    let v: Vec<Val> = (0..c.len()).map(|k| self.select(&c[k], &et, &x[k], &y[k])).collect();
                    self.set(st, *d, Val::A(Rc::new(v)));
                } else {
                    let c = match c {
                        Val::S(e) => {
                            let e = self.reduce(st, e);
                            self.val(e)
                        }
                        c => c,
                    };
                    // without joins, a condition the path decides is worth deciding
                    let c = match c {
                        Val::S(e) if st.nomerge => match self.decide(st, e) {
                            Dec::T => Val::K(1),
                            Dec::F => Val::K(0),
                            _ => c,
                        },
                        c => c,
                    };
                    // pointers into different objects: fork instead of building an ITE
                    if let (Val::S(ce), Ty::Ptr, Val::K(p), Val::K(q)) = (&c, ty, &x, &y) {
                        if p >> 32 != q >> 32 {
                            return Err(Ctl::Fork(*ce));
                        }
                    }
                    let v = self.select(&c, ty, &x, &y);
                    self.set(st, *d, v);
                }
            }
            Inst::Load(d, ty, p) => {
                let mut a = self.get(st, p);
                if st.nomerge && matches!(a, Val::S(_)) {
                    a = Val::K(self.concretize(st, &a)?);
                }
                let v = self.load(st, &a, ty)?;
                self.set(st, *d, v);
            }
            Inst::Store(ty, v, p) => {
                let a = self.get(st, p);
                let v = self.get(st, v);
                self.store(st, &a, ty, &v)?;
            }
            Inst::Gep(d, base, steps) => {
                let mut a = self.get(st, base);
                for s in steps.iter() {
                    match s {
                        GepStep::Const(k) => a = self.addr_add(&a, *k),
                        GepStep::Scaled(i, w, sz) => {
                            let iv = self.get(st, i);
                            match (&a, &iv) {
                                (Val::K(x), Val::K(k)) => {
                                    let k = sx(*k as u128, *w) as i64;
                                    a = Val::K(x.wrapping_add((k as u64).wrapping_mul(*sz)));
                                }
                                _ => {
                                    let ie = self.ex(&iv, *w);
                                    let ie = self.reduce(st, ie);
                                    let ie = if *w < 64 { self.cx.sext(ie, 64) } else { ie };
                                    let ie = if *w > 64 { self.cx.extract(ie, 0, 64) } else { ie };
                                    let sc = self.cx.cst(*sz as u128, 64);
                                    let off = self.cx.mul(ie, sc);
                                    let b = self.ex(&a, 64);
                                    let e = self.cx.add(b, off);
                                    a = self.val(e);
                                }
                            }
                        }
                    }
                }
                self.set(st, *d, a);
            }
            Inst::Alloca(d, sz, n, _) => {
                let nv = self.get(st, n);
                let n = self.concretize(st, &nv)?;
                let id = STACK_ID + st.stack.len() as u64;
                st.stack.push(Rc::new(Obj::new((sz * n) as usize)));
                self.set(st, *d, Val::K(base_addr(id)));
            }
            Inst::Extract(d, a, idx) => {
                let mut v = self.get(st, a);
                for k in idx.iter() {
                    v = match &v {
                        Val::A(p) => p[*k].clone(),
                        _ => Val::U,
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Insert(d, ty, a, v, idx) => {
                let agg = self.get(st, a);
                let v = self.get(st, v);
                let r = insert(&agg, ty, &v, idx);
                self.set(st, *d, r);
            }
            Inst::ExtractElem(d, a, k) => {
                let v = self.get(st, a);
                let kv = self.get(st, k);
                let k = self.concretize(st, &kv)? as usize;
                let r = match &v {
                    Val::A(p) => p.get(k).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                };
                self.set(st, *d, r);
            }
            Inst::InsertElem(d, ty, a, v, k) => {
                let agg = self.get(st, a);
                let v = self.get(st, v);
                let kv = self.get(st, k);
                let k = self.concretize(st, &kv)? as usize;
                let r = insert(&agg, ty, &v, &[k]);
                self.set(st, *d, r);
            }
            Inst::Freeze(d, a) => {
                let v = self.get(st, a);
                let v = if v == Val::U { Val::K(0) } else { v };
                self.set(st, *d, v);
            }
            Inst::FCmp(d, p, ty, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.fcmp(p, ty.bits(), &x, &y);
                self.set(st, *d, v);
            }
            Inst::FBin(d, op, ty, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.fbin(op, ty, &x, &y);
                self.set(st, *d, v);
            }
            Inst::FNeg(d, ty, a) => {
                let x = self.get(st, a);
                let w = ty.bits();
                let e = self.ex(&x, w);
                let s = self.cx.cst(1u128 << (w - 1), w);
                let r = self.cx.xor(e, s);
                let v = self.val(r);
                self.set(st, *d, v);
            }
            Inst::Rmw(d, op, ty, p, v) => {
                let a = self.get(st, p);
                let v = self.get(st, v);
                let old = self.load(st, &a, ty)?;
                let new = match *op {
                    "xchg" => v,
                    "add" => self.bin(Bop::Add, ty.bits(), &old, &v),
                    "sub" => self.bin(Bop::Sub, ty.bits(), &old, &v),
                    "and" => self.bin(Bop::And, ty.bits(), &old, &v),
                    "or" => self.bin(Bop::Or, ty.bits(), &old, &v),
                    "xor" => self.bin(Bop::Xor, ty.bits(), &old, &v),
                    o => {
                        self.give_up(format!("atomicrmw {o}"));
                        return Err(Ctl::End);
                    }
                };
                self.store(st, &a, ty, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, ty, p, c, n) => {
                let a = self.get(st, p);
                let c = self.get(st, c);
                let n = self.get(st, n);
                let old = self.load(st, &a, ty)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let new = self.select(&eq, ty, &n, &old);
                self.store(st, &a, ty, &new)?;
                self.set(st, *d, Val::A(Rc::new(vec![old, eq])));
            }
            Inst::Fence => {}
            Inst::Br(b) => return Ok(Step::Jump(*b)),
            Inst::CondBr(c, a, b) => {
                let c = self.get(st, c);
                match c {
                    Val::K(k) => return Ok(Step::Jump(if k & 1 == 1 { *a } else { *b })),
                    Val::S(e) => {
                        let e = if self.cx.w(e) > 1 { self.cx.extract(e, 0, 1) } else { e };
                        let e = self.reduce(st, e);
                        if e == self.cx.tt {
                            return Ok(Step::Jump(*a));
                        }
                        if e == self.cx.ff {
                            return Ok(Step::Jump(*b));
                        }
                        return Ok(Step::Branch(e, *a, *b));
                    }
                    _ => {
                        self.give_up(format!("branch on undefined value in {}", func.name));
                        return Err(Ctl::End);
                    }
                }
            }
            Inst::Switch(w, v, d, cs) => {
                let v = self.get(st, v);
                match v {
                    Val::K(k) => {
                        let t = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        return Ok(Step::Jump(t));
                    }
                    Val::S(e) => {
                        let e = if self.cx.w(e) > *w { self.cx.extract(e, 0, *w) } else { e };
                        let e = self.reduce(st, e);
                        if let Some(k) = self.cx.as_const(e) {
                            let t = cs.iter().find(|x| x.0 == k as u64).map(|x| x.1).unwrap_or(*d);
                            return Ok(Step::Jump(t));
                        }
                        // group cases per target; fork on the group the current model takes
                        let k = Evaluator::new(&self.cx, &st.model).eval(e) as u64;
                        let t = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        let mut any = self.cx.ff;
                        let mut mine = self.cx.ff;
                        for (k, b) in cs.iter() {
                            let kc = self.cx.cst(*k as u128, *w);
                            let c = self.cx.eq(e, kc);
                            any = self.cx.or(any, c);
                            if *b == t {
                                mine = self.cx.or(mine, c);
                            }
                        }
                        if t == *d {
                            let na = self.cx.not(any);
                            mine = self.cx.or(mine, na);
                        }
                        match self.decide(st, mine) {
                            Dec::T => return Ok(Step::Jump(t)),
                            Dec::Both(_) => return Err(Ctl::Fork(mine)),
                            Dec::F => unreachable!(),
                            Dec::Unknown => {
                                self.give_up("solver gave no answer on a switch".into());
                                return Err(Ctl::End);
                            }
                        }
                    }
                    _ => {
                        self.give_up(format!("switch on undefined value in {}", func.name));
                        return Err(Ctl::End);
                    }
                }
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_base);
                if let Some(c) = st.frames.last_mut() {
                    let c = Rc::make_mut(c);
                    if fr.ret_dst != NOREG {
                        c.regs[fr.ret_dst as usize] = v.unwrap_or(Val::U);
                    }
                    match fr.ret_norm {
                        // stay on the invoke; run() performs the jump
                        Some(b) => c.idx = PENDING + b as usize,
                        None => c.idx += 1,
                    }
                }
                return Ok(Step::Returned);
            }
            Inst::Unreachable => {
                let m = st.model.clone();
                self.violation(st, &m, "unreachable", format!("unreachable code reached in {}", demangle(&func.name)));
                return Err(Ctl::End);
            }
            Inst::Unsupported(s) => {
                self.give_up(format!("unsupported instruction: {s} (in {})", demangle(&func.name)));
                return Err(Ctl::End);
            }
            Inst::Call(d, rt, callee, args, norm, noret) => {
                return self.call(st, *d, rt, callee, args, *norm, *noret);
            }
        }
        Ok(Step::Next)
    }

    fn select(&mut self, c: &Val, ty: &Ty, x: &Val, y: &Val) -> Val {
        match c {
            Val::K(k) => {
                if k & 1 == 1 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            Val::S(ce) => {
                if x == y {
                    return x.clone();
                }
                if ty.is_scalar() {
                    let w = ty.bits();
                    let (p, q) = (self.ex(x, w), self.ex(y, w));
                    let ce = self.ex(&Val::S(*ce), 1);
                    let e = self.cx.ite(ce, p, q);
                    self.val(e)
                } else {
                    match (x, y) {
                        (Val::A(p), Val::A(q)) => {
                            let v = (0..p.len()).map(|k| self.select(c, &ty.elem(k), &p[k], &q[k])).collect();
                            Val::A(Rc::new(v))
                        }
                        (Val::U, v) | (v, Val::U) => v.clone(),
                        _ => Val::U,
                    }
                }
            }
            _ => y.clone(),
        }
    }
    fn bin_any(&mut self, op: Bop, ty: &Ty, x: &Val, y: &Val) -> Val {
        if let Ty::Vec(n, t) = ty {
            let w = t.bits();
            let v = (0..*n as usize)
                .map(|k| {
                    let a = elem(x, k);
                    let b = elem(y, k);
                    self.bin(op, w, &a, &b)
                })
                .collect();
            return Val::A(Rc::new(v));
        }
        self.bin(op, ty.bits(), x, y)
    }
    /// (s * b + r) / b = s when r < b and nothing wraps; the solver decides the side conditions
    fn euclid(&mut self, st: &State, w: u16, x: &Val, y: &Val) -> Option<Val> {
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        if self.cx.as_const(b).is_some() || self.cx.as_const(a).is_some() {
            return None;
        }
        if std::env::var("SYMX_DIV").is_ok() {
            eprintln!("DIV {} / {}", self.cx.show(a, 8), self.cx.show(b, 8));
        }
        let (terms, _) = self.cx.linear(a)?;
        let mut s = None;
        for (t, k) in &terms {
            let n = *self.cx.n(*t);
            if *t == b {
                s = Some(self.cx.cst(*k, w));
            } else if *k == 1 && n.op == Op::Mul && (n.a == b || n.b == b) {
                s = Some(if n.a == b { n.b } else { n.a });
            }
        }
        let s = s?;
        let bh = self.cx.info[b as usize].hi;
        // b < 2^(w - k)
        let k = w as u32 - (128 - bh.leading_zeros());
        if k == 0 {
            return None;
        }
        let m = self.cx.mul(s, b);
        let r = self.cx.sub(a, m);
        let small = if k >= w as u32 {
            return None;
        } else {
            let lim = self.cx.cst(1u128 << k, w);
            self.cx.ult(s, lim)
        };
        let fits = self.cx.ult(r, b);
        if let (Dec::T, Dec::T) = (self.decide(st, small), self.decide(st, fits)) {
            return Some(self.val(s));
        }
        None
    }
    fn bin(&mut self, op: Bop, w: u16, x: &Val, y: &Val) -> Val {
        if let (Val::K(a), Val::K(b)) = (x, y) {
            if w <= 64 {
                let (a, b) = (*a, *b);
                let m = mask(w) as u64;
                let s = |v: u64| sx(v as u128, w) as i64;
                let r = match op {
                    Bop::Add => a.wrapping_add(b),
                    Bop::Sub => a.wrapping_sub(b),
                    Bop::Mul => a.wrapping_mul(b),
                    Bop::And => a & b,
                    Bop::Or => a | b,
                    Bop::Xor => a ^ b,
                    Bop::Shl => {
                        if b >= w as u64 {
                            0
                        } else {
                            a << b
                        }
                    }
                    Bop::LShr => {
                        if b >= w as u64 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    Bop::AShr => (s(a) >> b.min(w as u64 - 1)) as u64,
                    Bop::UDiv => {
                        if b == 0 {
                            m
                        } else {
                            a / b
                        }
                    }
                    Bop::URem => {
                        if b == 0 {
                            a
                        } else {
                            a % b
                        }
                    }
                    Bop::SDiv => {
                        if b == 0 {
                            0
                        } else {
                            s(a).wrapping_div(s(b)) as u64
                        }
                    }
                    Bop::SRem => {
                        if b == 0 {
                            a
                        } else {
                            s(a).wrapping_rem(s(b)) as u64
                        }
                    }
                };
                return Val::K(r & m);
            }
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let e = match op {
            Bop::Add => self.cx.add(a, b),
            Bop::Sub => self.cx.sub(a, b),
            Bop::Mul => self.cx.mul(a, b),
            Bop::And => self.cx.and(a, b),
            Bop::Or => self.cx.or(a, b),
            Bop::Xor => self.cx.xor(a, b),
            Bop::Shl => self.cx.shl(a, b),
            Bop::LShr => self.cx.lshr(a, b),
            Bop::AShr => self.cx.ashr(a, b),
            Bop::UDiv => self.cx.udiv(a, b),
            Bop::URem => self.cx.urem(a, b),
            Bop::SDiv => self.cx.sdiv(a, b),
            Bop::SRem => self.cx.srem(a, b),
        };
        self.val(e)
    }
    fn icmp_any(&mut self, p: Pred, ty: &Ty, x: &Val, y: &Val) -> Val {
        if let Ty::Vec(n, t) = ty {
            let w = t.bits();
            let v = (0..*n as usize)
                .map(|k| {
                    let a = elem(x, k);
                    let b = elem(y, k);
                    self.icmp(p, w, &a, &b)
                })
                .collect();
            return Val::A(Rc::new(v));
        }
        self.icmp(p, ty.bits(), x, y)
    }
    fn icmp(&mut self, p: Pred, w: u16, x: &Val, y: &Val) -> Val {
        if let (Val::K(a), Val::K(b)) = (x, y) {
            let m = mask(w) as u64;
            let (a, b) = (*a & m, *b & m);
            let (sa, sb) = (sx(a as u128, w), sx(b as u128, w));
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            };
            return Val::K(r as u64);
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let e = match p {
            Pred::Eq => self.cx.eq(a, b),
            Pred::Ne => self.cx.ne(a, b),
            Pred::Ult => self.cx.ult(a, b),
            Pred::Ule => self.cx.ule(a, b),
            Pred::Ugt => self.cx.ult(b, a),
            Pred::Uge => self.cx.ule(b, a),
            Pred::Slt => self.cx.slt(a, b),
            Pred::Sle => self.cx.sle(a, b),
            Pred::Sgt => self.cx.slt(b, a),
            Pred::Sge => self.cx.sle(b, a),
        };
        self.val(e)
    }
    fn cast(&mut self, c: Cast, from: &Ty, to: &Ty, x: &Val) -> Val {
        if let (Ty::Vec(n, f), Ty::Vec(_, t)) = (from, to) {
            if c != Cast::Bit {
                let v = (0..*n as usize)
                    .map(|k| {
                        let a = elem(x, k);
                        self.cast(c, f, t, &a)
                    })
                    .collect();
                return Val::A(Rc::new(v));
            }
        }
        if let (Ty::Vec(n, f), Cast::Bit) = (from, c) {
            // vector to scalar / other vector through bits
            let fw = f.bits();
            if to.is_scalar() && fw as u64 * n <= 128 {
                let mut e = {
                    let a = elem(x, 0);
                    self.ex(&a, fw)
                };
                for k in 1..*n as usize {
                    let a = elem(x, k);
                    let h = self.ex(&a, fw);
                    e = self.cx.concat(h, e);
                }
                return self.val(e);
            }
            if let Ty::Vec(m, t) = to {
                let tw = t.bits();
                if fw as u64 * n <= 128 {
                    let s = self.cast(c, from, &Ty::Int(fw * *n as u16), x);
                    let e = self.ex(&s, fw * *n as u16);
                    let v = (0..*m as usize)
                        .map(|k| {
                            let b = self.cx.extract(e, k as u16 * tw, tw);
                            self.val(b)
                        })
                        .collect();
                    return Val::A(Rc::new(v));
                }
            }
            return Val::U;
        }
        if let (Ty::Vec(m, t), Cast::Bit) = (to, c) {
            let tw = t.bits();
            let e = self.ex(x, tw * *m as u16);
            let v = (0..*m as usize)
                .map(|k| {
                    let b = self.cx.extract(e, k as u16 * tw, tw);
                    self.val(b)
                })
                .collect();
            return Val::A(Rc::new(v));
        }
        let (fw, tw) = (from.bits(), to.bits());
        match c {
            Cast::Bit => {
                if fw == tw {
                    return x.clone();
                }
                if let Val::K(k) = x {
                    if tw <= 64 {
                        return Val::K(*k & mask(tw) as u64);
                    }
                }
                let e = self.ex(x, fw);
                let e = if tw < fw { self.cx.extract(e, 0, tw) } else { self.cx.zext(e, tw) };
                self.val(e)
            }
            Cast::Trunc => {
                if let Val::K(k) = x {
                    return Val::K(*k & mask(tw) as u64);
                }
                let e = self.ex(x, fw);
                let e = self.cx.extract(e, 0, tw);
                self.val(e)
            }
            Cast::Zext => {
                if let (Val::K(k), true) = (x, tw <= 64) {
                    return Val::K(*k & mask(fw) as u64);
                }
                let e = self.ex(x, fw);
                let e = self.cx.zext(e, tw);
                self.val(e)
            }
            Cast::Sext => {
                if let (Val::K(k), true) = (x, tw <= 64) {
                    return Val::K((sx(*k as u128, fw) as u64) & mask(tw) as u64);
                }
                let e = self.ex(x, fw);
                let e = self.cx.sext(e, tw);
                self.val(e)
            }
            _ => {
                if let Val::K(k) = x {
                    let k = *k;
                    let f = if fw == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k) };
                    let r = match (c, to) {
                        (Cast::SiToFp, Ty::F64) => (sx(k as u128, fw) as i64 as f64).to_bits(),
                        (Cast::SiToFp, _) => (sx(k as u128, fw) as i64 as f32).to_bits() as u64,
                        (Cast::UiToFp, Ty::F64) => (k as f64).to_bits(),
                        (Cast::UiToFp, _) => (k as f32).to_bits() as u64,
                        (Cast::FpToSi, _) => (f as i64 as u64) & mask(tw) as u64,
                        (Cast::FpToUi, _) => (f as u64) & mask(tw) as u64,
                        (Cast::FpExt, _) => f.to_bits(),
                        _ => (f as f32).to_bits() as u64,
                    };
                    return Val::K(r);
                }
                let e = self.ex(x, fw);
                let kind = 100 + c as u32 * 4 + (fw == 32) as u32 * 2 + (tw == 32) as u32;
                let r = self.cx.uf(kind, tw, e, 0);
                Val::S(r)
            }
        }
    }
    fn fbin(&mut self, op: &str, ty: &Ty, x: &Val, y: &Val) -> Val {
        if let (Val::K(a), Val::K(b)) = (x, y) {
            if *ty == Ty::F64 {
                let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                let r = match op {
                    "fadd" => a + b,
                    "fsub" => a - b,
                    "fmul" => a * b,
                    "fdiv" => a / b,
                    _ => a % b,
                };
                return Val::K(r.to_bits());
            } else {
                let (a, b) = (f32::from_bits(*a as u32), f32::from_bits(*b as u32));
                let r = match op {
                    "fadd" => a + b,
                    "fsub" => a - b,
                    "fmul" => a * b,
                    "fdiv" => a / b,
                    _ => a % b,
                };
                return Val::K(r.to_bits() as u64);
            }
        }
        let w = ty.bits();
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let kind = match op {
            "fadd" => 1,
            "fsub" => 2,
            "fmul" => 3,
            "fdiv" => 4,
            _ => 5,
        };
        let r = self.cx.uf(kind, w, a, b);
        Val::S(r)
    }
    fn fnan(&mut self, a: E) -> E {
        let w = self.cx.w(a);
        let inf = if w == 64 { 0x7ff0_0000_0000_0000u128 } else { 0x7f80_0000 };
        let m = self.cx.cst(mask(w - 1), w);
        let abs = self.cx.and(a, m);
        let i = self.cx.cst(inf, w);
        self.cx.ult(i, abs)
    }
    fn fcmp(&mut self, p: &str, w: u16, x: &Val, y: &Val) -> Val {
        if let (Val::K(a), Val::K(b)) = (x, y) {
            let (a, b) = if w == 64 {
                (f64::from_bits(*a), f64::from_bits(*b))
            } else {
                (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64)
            };
            let un = a.is_nan() || b.is_nan();
            let r = match p {
                "oeq" => a == b,
                "ogt" => a > b,
                "oge" => a >= b,
                "olt" => a < b,
                "ole" => a <= b,
                "one" => !un && a != b,
                "ord" => !un,
                "ueq" => un || a == b,
                "ugt" => un || a > b,
                "uge" => un || a >= b,
                "ult" => un || a < b,
                "ule" => un || a <= b,
                "une" => a != b,
                _ => un,
            };
            return Val::K(r as u64);
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let na = self.fnan(a);
        let nb = self.fnan(b);
        let un = self.cx.or(na, nb);
        let ord = self.cx.not(un);
        let z = self.cx.cst(0, w);
        let m = self.cx.cst(mask(w - 1), w);
        let sb = self.cx.cst(1u128 << (w - 1), w);
        let aa = self.cx.and(a, m);
        let ab = self.cx.and(b, m);
        let za = self.cx.eq(aa, z);
        let zb = self.cx.eq(ab, z);
        let bz = self.cx.and(za, zb);
        let same = self.cx.eq(a, b);
        let eq = self.cx.or(bz, same);
        // order-preserving key, with -0 normalised to +0
        let mut key = |s: &mut Self, a: E, iszero: E| {
            let an = s.cx.ite(iszero, z, a);
            let neg = s.cx.extract(an, w - 1, 1);
            let inv = s.cx.not(an);
            let pos = s.cx.or(an, sb);
            s.cx.ite(neg, inv, pos)
        };
        let ka = key(self, a, za);
        let kb = key(self, b, zb);
        let lt = self.cx.ult(ka, kb);
        let gt = self.cx.ult(kb, ka);
        let le = self.cx.ule(ka, kb);
        let ge = self.cx.ule(kb, ka);
        let ne = self.cx.not(eq);
        let r = match p {
            "oeq" => self.cx.and(ord, eq),
            "one" => self.cx.and(ord, ne),
            "ogt" => self.cx.and(ord, gt),
            "oge" => self.cx.and(ord, ge),
            "olt" => self.cx.and(ord, lt),
            "ole" => self.cx.and(ord, le),
            "ord" => ord,
            "ueq" => self.cx.or(un, eq),
            "une" => self.cx.or(un, ne),
            "ugt" => self.cx.or(un, gt),
            "uge" => self.cx.or(un, ge),
            "ult" => self.cx.or(un, lt),
            "ule" => self.cx.or(un, le),
            _ => un,
        };
        self.val(r)
    }

    // ----------------------------------------------------------------- calls
    fn location(&mut self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let Val::K(p) = a {
                let id = p >> 32;
                if (GLOBAL_ID..FUNC_ID).contains(&id) {
                    let o = match self.obj(st, id) {
                        Some(o) => o.clone(),
                        None => continue,
                    };
                    if o.size() == 24 {
                        let rd = |k: usize| u64::from_le_bytes(o.data[k..k + 8].try_into().unwrap());
                        let (sp, sl) = (rd(0), rd(8));
                        let line = u32::from_le_bytes(o.data[16..20].try_into().unwrap());
                        if let Some(s) = self.cstr(st, sp, sl) {
                            return format!("{s}:{line}");
                        }
                    }
                }
            }
        }
        String::new()
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> Option<String> {
        if n > 4096 {
            return None;
        }
        let o = self.obj(st, p >> 32)?.clone();
        let off = ((p & 0xffff_ffff) as usize).checked_sub(BASE_OFF as usize)?;
        let b = o.data.get(off..off + n as usize)?;
        String::from_utf8(b.to_vec()).ok()
    }
    fn panic_event(&mut self, st: &State, name: &str, args: &[Val]) {
        let loc = self.location(st, args);
        let d = demangle(name);
        let mut text = String::new();
        if let (Some(Val::K(p)), Some(Val::K(n))) = (args.first(), args.get(1)) {
            if (GLOBAL_ID..FUNC_ID).contains(&(p >> 32)) && *n > 0 && *n < 512 {
                if let Some(s) = self.cstr(st, *p, *n) {
                    text = s;
                }
            }
        }
        let top = demangle(&st.frames.last().unwrap().func.name);
        let msg = format!("{d} {text} at {loc} in {top}");
        if st.panic_ok {
            *self.panics_ok.entry(msg).or_insert(0) += 1;
            self.paths += 1;
            return;
        }
        let m = st.model.clone();
        self.violation(st, &m, "panic", msg);
    }

    fn call(
        &mut self,
        st: &mut State,
        d: u32,
        rt: &Ty,
        callee: &Callee,
        args: &Rc<Vec<(Ty, Opd)>>,
        norm: Option<u32>,
        noret: bool,
    ) -> X<Step> {
        let sym = match callee {
            Callee::Direct(s) => *s,
            Callee::Ind(o) => {
                let v = self.get(st, o);
                let a = self.concretize(st, &v)?;
                let id = a >> 32;
                if id < FUNC_ID || (id - FUNC_ID) as usize >= self.m.syms.len() || a & 0xffff_ffff != BASE_OFF {
                    let m = st.model.clone();
                    self.violation(st, &m, "memory", "call through a bad function pointer".into());
                    return Err(Ctl::End);
                }
                (id - FUNC_ID) as u32
            }
        };
        let mut av: Vec<Val> = Vec::with_capacity(args.len());
        for (_, o) in args.iter() {
            av.push(self.get(st, o));
        }
        if noret && !self.m.names[sym as usize].starts_with("sx_") {
            let n = self.m.names[sym as usize].clone();
            self.panic_event(st, &n, &av);
            return Err(Ctl::End);
        }
        let is_def = matches!(self.m.syms[sym as usize], Sym::Def(..));
        if !is_def {
            let name = self.m.names[sym as usize].clone();
            let v = self.builtin(st, &name, rt, args, &av)?;
            self.set(st, d, v);
            return Ok(match norm {
                Some(b) => Step::Jump(b),
                None => Step::Next,
            });
        }
        let f = match self.func(sym) {
            Ok(f) => f,
            Err(e) => {
                let n = self.m.names[sym as usize].clone();
                self.give_up(format!("cannot encode {}: {e}", demangle(&n)));
                return Err(Ctl::End);
            }
        };
        if st.frames.len() > 400 {
            let m = st.model.clone();
            self.violation(st, &m, "recursion", format!("calls nested {} deep, in {}", st.frames.len(), demangle(&f.name)));
            return Err(Ctl::End);
        }
        *self.executed.entry(f.name.clone()).or_insert(0) += 1;
        self.blocks_seen.insert((sym, 0));
        let mut regs = vec![Val::U; f.nregs as usize];
        for (p, v) in f.params.iter().zip(av) {
            regs[*p as usize] = v;
        }
        let fr = Frame {
            func: f,
            block: 0,
            idx: 0,
            regs,
            stack_base: st.stack.len(),
            ret_dst: d,
            ret_norm: norm,
        };
        st.frames.push(Rc::new(fr));
        Ok(Step::Called)
    }

    fn input_var(&mut self, id: u32, occ: u32, k: u32, w: u16) -> E {
        if let Some(e) = self.varmap.get(&(id, occ, k, w)) {
            return *e;
        }
        let e = self.cx.new_var(w, format!("i{id}_{occ}_{k}"));
        self.varmap.insert((id, occ, k, w), e);
        e
    }
    fn occ(&self, st: &State, id: u32) -> u32 {
        st.inputs.iter().filter(|x| x.0 == id).count() as u32
    }

    fn builtin(&mut self, st: &mut State, name: &str, rt: &Ty, args: &Rc<Vec<(Ty, Opd)>>, av: &[Val]) -> X<Val> {
        if let Some(s) = name.strip_prefix("sx_") {
            return self.sx_call(st, s, av);
        }
        if let Some(s) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, s, rt, args, av);
        }
        match name {
            "malloc" => {
                let n = self.alloc_size(st, &av[0])?;
                Ok(Val::K(self.alloc_heap(st, n)))
            }
            "calloc" => {
                let a = self.ex(&av[0], 64);
                let b = self.ex(&av[1], 64);
                let p = self.cx.mul(a, b);
                let p = self.val(p);
                let n = self.alloc_size(st, &p)?;
                Ok(Val::K(self.alloc_heap(st, n)))
            }
            "posix_memalign" => {
                let n = self.alloc_size(st, &av[2])?;
                let p = self.alloc_heap(st, n);
                self.store_scalar(st, &av[0], 64, &Val::K(p))?;
                Ok(Val::K(0))
            }
            "realloc" => {
                let n = self.alloc_size(st, &av[1])?;
                let old = self.concretize(st, &av[0])?;
                if old == 0 {
                    return Ok(Val::K(self.alloc_heap(st, n)));
                }
                let osz = match self.obj(st, old >> 32) {
                    Some(o) if !o.freed => o.size(),
                    _ => {
                        let m = st.model.clone();
                        self.violation(st, &m, "memory", "realloc of a bad pointer".into());
                        return Err(Ctl::End);
                    }
                };
                let p = self.alloc_heap(st, n);
                self.memcpy(st, &Val::K(p), &Val::K(old), &Val::K(osz.min(n)))?;
                self.free(st, old);
                Ok(Val::K(p))
            }
            "free" => {
                let p = self.concretize(st, &av[0])?;
                if p != 0 {
                    let bad = p & 0xffff_ffff != BASE_OFF
                        || p >> 32 >= STACK_ID
                        || !matches!(self.obj(st, p >> 32), Some(o) if !o.freed);
                    if bad {
                        let m = st.model.clone();
                        self.violation(st, &m, "memory", "invalid or double free".into());
                        return Err(Ctl::End);
                    }
                    self.free(st, p);
                }
                Ok(Val::U)
            }
            "memcpy" | "memmove" => {
                self.memcpy(st, &av[0], &av[1], &av[2])?;
                Ok(av[0].clone())
            }
            "memset" => {
                self.memset(st, &av[0], &av[1], &av[2])?;
                Ok(av[0].clone())
            }
            "bcmp" => self.memcmp(st, &av[0], &av[1], &av[2], false),
            "memcmp" => self.memcmp(st, &av[0], &av[1], &av[2], true),
            "getenv" => Ok(Val::K(0)),
            "strlen" => {
                let p = self.concretize(st, &av[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_scalar(st, &Val::K(p + n), 8)?;
                    match b {
                        Val::K(0) => return Ok(Val::K(n)),
                        Val::K(_) => n += 1,
                        _ => {
                            self.give_up("strlen of symbolic data".into());
                            return Err(Ctl::End);
                        }
                    }
                }
            }
            _ => {
                self.give_up(format!("call of external function {name}"));
                Err(Ctl::End)
            }
        }
    }
    fn free(&mut self, st: &mut State, p: u64) {
        let mut o = Obj::new(0);
        o.freed = true;
        if let Some(old) = st.heap.get(p >> 32) {
            st.heap_bytes -= old.size();
        }
        st.heap.set(p >> 32, Some(Rc::new(o)));
    }
    fn alloc_size(&mut self, st: &mut State, v: &Val) -> X<u64> {
        let lim = self.opts.alloc_limit;
        let e = self.ex(v, 64);
        let l = self.cx.cst(lim as u128, 64);
        let c = self.cx.ule(e, l);
        let top = demangle(&st.frames.last().unwrap().func.name);
        self.require(st, c, "alloc", || format!("allocation of more than {lim} bytes in {top}"))?;
        self.concretize(st, &self.val(e))
    }

    fn sx_call(&mut self, st: &mut State, s: &str, av: &[Val]) -> X<Val> {
        let id = |v: &Val| match v {
            Val::K(k) => *k as u32,
            _ => panic!("sx id must be constant"),
        };
        match s {
            "any" => {
                let n = self.concretize(st, &av[1])?;
                let id = id(&av[2]);
                let occ = self.occ(st, id);
                let mut v = vec![];
                for k in 0..n {
                    v.push(self.input_var(id, occ, k as u32, 8));
                }
                if n > 0 {
                    let (oi, off) = self.range(st, &av[0], n, true)?;
                    let o = self.obj_mut(st, oi).unwrap();
                    o.symv()[off as usize..(off + n) as usize].copy_from_slice(&v);
                }
                st.inputs.push((id, occ, Rc::new(v)));
                Ok(Val::U)
            }
            "u8" | "u16" | "u32" | "u64" => {
                let w: u16 = s[1..].parse().unwrap();
                let id = id(&av[0]);
                let occ = self.occ(st, id);
                let e = self.input_var(id, occ, 0, w);
                let v = (0..w / 8).map(|k| self.cx.extract(e, 8 * k, 8)).collect();
                st.inputs.push((id, occ, Rc::new(v)));
                Ok(Val::S(e))
            }
            "assume" => {
                let c = self.ex(&av[0], 1);
                match self.decide(st, c) {
                    Dec::T => {}
                    Dec::F => {
                        self.pruned += 1;
                        return Err(Ctl::End);
                    }
                    Dec::Both(m) => {
                        let cur = Evaluator::new(&self.cx, &st.model).eval(c) == 1;
                        if !cur {
                            st.model = m;
                        }
                        self.assume(st, c);
                    }
                    Dec::Unknown => {
                        self.give_up("solver gave no answer on an assumption".into());
                        return Err(Ctl::End);
                    }
                }
                Ok(Val::U)
            }
            "assert" => {
                let c = self.ex(&av[0], 1);
                let id = id(&av[1]);
                *self.asserts.entry(id).or_insert(0) += 1;
                // conjunct by conjunct, each helping the next
                let cs = self.conjuncts(st, c);
                let n = st.pc.len();
                for c in cs {
                    if std::env::var("SYMX_DBG").is_ok() {
                        eprintln!("ASSERT {id} {}", self.cx.show(c, 10));
                    }
                    let before = st.pc.len();
                    self.require(st, c, "assert", || format!("assertion {id}"))?;
                    if st.pc.len() == before {
                        st.pc.push(c);
                    }
                }
                // what was shown to hold adds nothing to the path condition
                if self.violations.is_empty() && self.incomplete.is_empty() {
                    st.pc.truncate(n);
                }
                Ok(Val::U)
            }
            "cover" => {
                let id = id(&av[0]);
                self.covers.insert(id);
                Ok(Val::U)
            }
            "observe" => {
                let id = id(&av[0]);
                let n = self.concretize(st, &av[2])?;
                let b = self.bytes(st, &av[1], n)?;
                st.obs.push((id, Rc::new(b)));
                Ok(Val::U)
            }
            "trace" => {
                let v = self.concretize(st, &av[0])?;
                st.trace = mixh(st.trace, v);
                Ok(Val::U)
            }
            "trace_reset" => {
                st.trace = 0;
                Ok(Val::U)
            }
            "concretize" => {
                let v = self.concretize(st, &av[0])?;
                Ok(Val::K(v))
            }
            "panic_ok" => {
                st.panic_ok = id(&av[0]) & 1 == 1;
                Ok(Val::U)
            }
            "nomerge" => {
                st.nomerge = id(&av[0]) & 1 == 1;
                Ok(Val::U)
            }
            "mix" => {
                let a = self.ex(&av[0], 64);
                let b = self.ex(&av[1], 64);
                let e = self.cx.mix(a, b);
                Ok(self.val(e))
            }
            "heap_bytes" => Ok(Val::K(st.heap_bytes)),
            "is_native" => Ok(Val::K(0)),
            "stop" => {
                self.pruned += 1;
                Err(Ctl::End)
            }
            _ => {
                self.give_up(format!("unknown sx_{s}"));
                Err(Ctl::End)
            }
        }
    }

    fn intrinsic(&mut self, st: &mut State, s: &str, rt: &Ty, args: &Rc<Vec<(Ty, Opd)>>, av: &[Val]) -> X<Val> {
        let base = s.split('.').next().unwrap();
        let w = rt.bits();
        match base {
            "memcpy" | "memmove" => {
                self.memcpy(st, &av[0], &av[1], &av[2])?;
                return Ok(Val::U);
            }
            "memset" => {
                self.memset(st, &av[0], &av[1], &av[2])?;
                return Ok(Val::U);
            }
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" => return Ok(Val::U),
            "expect" | "threadlocal" | "ssa" | "launder" | "strip" => return Ok(av[0].clone()),
            "is" => return Ok(Val::K(0)),
            "trap" | "debugtrap" | "ubsantrap" => {
                self.panic_event(st, "llvm.trap", &[]);
                return Err(Ctl::End);
            }
            _ => {}
        }
        if s.contains(".with.overflow") {
            let (op, aw) = (&s[..4], args[0].0.bits());
            let (r, o) = self.overflow(op, aw, &av[0], &av[1]);
            return Ok(Val::A(Rc::new(vec![r, o])));
        }
        if let (Ty::Vec(n, t), false) = (rt, av.is_empty()) {
            // element-wise
            let mut out = vec![];
            for k in 0..*n as usize {
                let ea: Vec<Val> = av.iter().map(|v| if let Val::A(_) = v { elem(v, k) } else { v.clone() }).collect();
                out.push(self.intrinsic(st, s, t, args, &ea)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        let r = match base {
            "umin" | "umax" | "smin" | "smax" => {
                let (a, b) = (self.ex(&av[0], w), self.ex(&av[1], w));
                let c = match base {
                    "umin" => self.cx.ult(a, b),
                    "umax" => self.cx.ult(b, a),
                    "smin" => self.cx.slt(a, b),
                    _ => self.cx.slt(b, a),
                };
                self.cx.ite(c, a, b)
            }
            "abs" => {
                let a = self.ex(&av[0], w);
                let z = self.cx.cst(0, w);
                let n = self.cx.neg(a);
                let c = self.cx.slt(a, z);
                self.cx.ite(c, n, a)
            }
            "uadd" | "usub" | "sadd" | "ssub" => {
                let (v, o) = self.overflow(base, w, &av[0], &av[1]);
                let (v, o) = (self.ex(&v, w), self.ex(&o, 1));
                let sat = match base {
                    "uadd" => self.cx.cst(mask(w), w),
                    "usub" => self.cx.cst(0, w),
                    _ => {
                        let a = self.ex(&av[0], w);
                        let neg = self.cx.extract(a, w - 1, 1);
                        let lo = self.cx.cst(1 << (w - 1), w);
                        let hi = self.cx.cst(mask(w - 1), w);
                        self.cx.ite(neg, lo, hi)
                    }
                };
                self.cx.ite(o, sat, v)
            }
            "bswap" => {
                let a = self.ex(&av[0], w);
                let mut e = self.cx.extract(a, 0, 8);
                for k in 1..w / 8 {
                    let b = self.cx.extract(a, 8 * k, 8);
                    e = self.cx.concat(e, b);
                }
                e
            }
            "bitreverse" => {
                let a = self.ex(&av[0], w);
                let mut e = self.cx.extract(a, 0, 1);
                for k in 1..w {
                    let b = self.cx.extract(a, k, 1);
                    e = self.cx.concat(e, b);
                }
                e
            }
            "ctlz" | "cttz" => {
                let a = self.ex(&av[0], w);
                let mut e = self.cx.cst(w as u128, w);
                for k in 0..w {
                    // ctlz: scan from the low bit up so the highest set bit wins
                    let bit = if base == "ctlz" { k } else { w - 1 - k };
                    let val = if base == "ctlz" { w - 1 - k } else { w - 1 - k };
                    let b = self.cx.extract(a, bit, 1);
                    let c = self.cx.cst(val as u128, w);
                    e = self.cx.ite(b, c, e);
                }
                e
            }
            "ctpop" => {
                let a = self.ex(&av[0], w);
                let mut e = self.cx.cst(0, w);
                for k in 0..w {
                    let b = self.cx.extract(a, k, 1);
                    let b = self.cx.zext(b, w);
                    e = self.cx.add(e, b);
                }
                e
            }
            "fshl" | "fshr" => {
                let (a, b) = (self.ex(&av[0], w), self.ex(&av[1], w));
                let k = self.concretize(st, &av[2])? as u16 % w;
                let k = if base == "fshl" { k } else { (w - k) % w };
                if k == 0 {
                    if base == "fshl" {
                        a
                    } else {
                        b
                    }
                } else {
                    let h = self.cx.extract(a, 0, w - k);
                    let l = self.cx.extract(b, w - k, k);
                    self.cx.concat(h, l)
                }
            }
            "ucmp" | "scmp" => {
                let aw = args[0].0.bits();
                let (a, b) = (self.ex(&av[0], aw), self.ex(&av[1], aw));
                let (l, g) = if base == "ucmp" {
                    (self.cx.ult(a, b), self.cx.ult(b, a))
                } else {
                    (self.cx.slt(a, b), self.cx.slt(b, a))
                };
                let m1 = self.cx.cst(mask(w), w);
                let p1 = self.cx.cst(1, w);
                let z = self.cx.cst(0, w);
                let t = self.cx.ite(g, p1, z);
                self.cx.ite(l, m1, t)
            }
            "fptosi" | "fptoui" => {
                let fw = args[0].0.bits();
                if let Val::K(k) = &av[0] {
                    let f = if fw == 32 { f32::from_bits(*k as u32) as f64 } else { f64::from_bits(*k) };
                    let r: u128 = if base == "fptosi" {
                        if f.is_nan() {
                            0
                        } else {
                            let hi = (mask(w - 1)) as i128;
                            let lo = -hi - 1;
                            (f as i128).clamp(lo, hi) as u128
                        }
                    } else {
                        (f as u128).min(mask(w))
                    };
                    return Ok(Val::K((r & mask(w)) as u64));
                }
                let a = self.ex(&av[0], fw);
                self.cx.uf(50 + (base == "fptosi") as u32 * 2 + (fw == 32) as u32, w, a, 0)
            }
            "fabs" => {
                let a = self.ex(&av[0], w);
                let m = self.cx.cst(mask(w - 1), w);
                self.cx.and(a, m)
            }
            "floor" | "ceil" | "trunc" | "round" | "sqrt" | "rint" | "nearbyint" => {
                if let Val::K(k) = &av[0] {
                    let go = |f: f64| match base {
                        "floor" => f.floor(),
                        "ceil" => f.ceil(),
                        "trunc" => f.trunc(),
                        "round" => f.round(),
                        "sqrt" => f.sqrt(),
                        _ => f.round_ties_even(),
                    };
                    return Ok(Val::K(if w == 64 {
                        go(f64::from_bits(*k)).to_bits()
                    } else {
                        (go(f32::from_bits(*k as u32) as f64) as f32).to_bits() as u64
                    }));
                }
                let kind = 60 + base.len() as u32 + base.as_bytes()[0] as u32;
                let a = self.ex(&av[0], w);
                self.cx.uf(kind, w, a, 0)
            }
            "ptrmask" => {
                let (a, b) = (self.ex(&av[0], 64), self.ex(&av[1], 64));
                self.cx.and(a, b)
            }
            "vector" => {
                // reductions over small integer vectors
                let Val::A(v) = &av[0] else { return Ok(Val::U) };
                let mut acc = self.ex(&v[0], w);
                for x in v.iter().skip(1) {
                    let x = self.ex(x, w);
                    acc = if s.contains("reduce.or") {
                        self.cx.or(acc, x)
                    } else if s.contains("reduce.and") {
                        self.cx.and(acc, x)
                    } else if s.contains("reduce.add") {
                        self.cx.add(acc, x)
                    } else if s.contains("reduce.xor") {
                        self.cx.xor(acc, x)
                    } else {
                        self.give_up(format!("intrinsic llvm.{s}"));
                        return Err(Ctl::End);
                    };
                }
                acc
            }
            _ => {
                self.give_up(format!("intrinsic llvm.{s}"));
                return Err(Ctl::End);
            }
        };
        Ok(self.val(r))
    }
    fn overflow(&mut self, op: &str, w: u16, x: &Val, y: &Val) -> (Val, Val) {
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let (ia, ib) = (self.cx.info[a as usize], self.cx.info[b as usize]);
        let fits = |v: i128| v >= -((1i128) << (w - 1)) && v < (1i128 << (w - 1));
        let (r, o) = match op {
            "uadd" => {
                let r = self.cx.add(a, b);
                let o = if w < 127 && ia.hi + ib.hi <= mask(w) { self.cx.ff } else { self.cx.ult(r, a) };
                (r, o)
            }
            "usub" => {
                let r = self.cx.sub(a, b);
                let o = self.cx.ult(a, b);
                (r, o)
            }
            "umul" => {
                let r = self.cx.mul(a, b);
                if w <= 64 && ia.hi * ib.hi <= mask(w) {
                    (r, self.cx.ff)
                } else {
                    let (za, zb) = (self.cx.zext(a, 2 * w), self.cx.zext(b, 2 * w));
                    let p = self.cx.mul(za, zb);
                    let h = self.cx.extract(p, w, w);
                    let z = self.cx.cst(0, w);
                    let o = self.cx.ne(h, z);
                    (r, o)
                }
            }
            _ => {
                let (sa, sb) = (self.cx.srange(a), self.cx.srange(b));
                let (safe, wide, r) = match op {
                    "sadd" => (w < 127 && fits(sa.0 + sb.0) && fits(sa.1 + sb.1), w + 1, self.cx.add(a, b)),
                    "ssub" => (w < 127 && fits(sa.0 - sb.1) && fits(sa.1 - sb.0), w + 1, self.cx.sub(a, b)),
                    _ => {
                        let mut safe = w <= 64;
                        if safe {
                            for p in [sa.0, sa.1] {
                                for q in [sb.0, sb.1] {
                                    match p.checked_mul(q) {
                                        Some(v) if fits(v) => {}
                                        _ => safe = false,
                                    }
                                }
                            }
                        }
                        (safe, 2 * w, self.cx.mul(a, b))
                    }
                };
                if safe {
                    (r, self.cx.ff)
                } else {
                    let (za, zb) = (self.cx.sext(a, wide), self.cx.sext(b, wide));
                    let p = match op {
                        "sadd" => self.cx.add(za, zb),
                        "ssub" => self.cx.sub(za, zb),
                        _ => self.cx.mul(za, zb),
                    };
                    // overflow iff p does not lie in the signed range of w bits
                    let lo = self.cx.cst((-(1i128 << (w - 1))) as u128 & mask(wide), wide);
                    let hi = self.cx.cst(mask(w - 1), wide);
                    let l = self.cx.slt(p, lo);
                    let h = self.cx.slt(hi, p);
                    let o = self.cx.or(l, h);
                    (r, o)
                }
            }
        };
        (self.val(r), self.val(o))
    }
}

const PENDING: usize = 1 << 40;
impl State {
    /// after returning from an invoked function: the block to continue in
    fn pending_jump(&mut self) -> Option<u32> {
        let f = self.frames.last()?;
        if f.idx >= PENDING {
            Some((f.idx - PENDING) as u32)
        } else {
            None
        }
    }
}

fn elem(v: &Val, k: usize) -> Val {
    match v {
        Val::A(p) => p[k].clone(),
        v => v.clone(),
    }
}
fn insert(agg: &Val, ty: &Ty, v: &Val, idx: &[usize]) -> Val {
    if idx.is_empty() {
        return v.clone();
    }
    let mut e: Vec<Val> = match agg {
        Val::A(p) => (**p).clone(),
        _ => vec![Val::U; ty.count()],
    };
    let sub = ty.elem(idx[0]);
    e[idx[0]] = insert(&e[idx[0]], &sub, v, &idx[1..]);
    Val::A(Rc::new(e))
}

/// Best-effort readable name of a v0/legacy mangled symbol: the identifier path.
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() && out.len() < 12 {
        if b[i].is_ascii_digit() && !(i > 0 && b[i - 1] == b'_' && false) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let n: usize = s[i..j].parse().unwrap_or(0);
            let mut st = j;
            if st < b.len() && b[st] == b'_' {
                st += 1;
            }
            if n > 0 && st + n <= b.len() && !b[st].is_ascii_digit() {
                out.push(s[st..st + n].to_string());
                i = st + n;
                continue;
            }
            i = j;
        } else if b[i] == b's' || b[i] == b'C' {
            // disambiguator: s<base62>_
            if b[i] == b's' {
                if let Some(k) = s[i..].find('_') {
                    if k < 14 {
                        i += k + 1;
                        continue;
                    }
                }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    out.join("::")
}
