//! Satisfiability of conjunctions of 1-bit expressions: z3 (in process) first,
//! then a portfolio of external solvers (cvc5 with integer blasting, cvc5
//! bit-blasting, newer z3) for the queries z3 cannot decide quickly.
use crate::expr::*;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
use std::fmt::Write as _;
use std::rc::Rc;
use std::time::{Duration, Instant};

type P = *mut c_void;
type MkBin = unsafe extern "C" fn(P, P, P) -> P;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: i32) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

pub type Model = FxMap<u32, u128>;

#[derive(Clone)]
pub enum Sat {
    Unsat,
    Sat(Rc<Model>),
    Unknown,
}

fn pow2(w: u16) -> String {
    (1u128 << w).to_string()
}
fn neg(k: i128) -> String {
    if k < 0 {
        format!("(- {})", -k)
    } else {
        k.to_string()
    }
}

pub struct Solver {
    z: P,
    bv: Vec<P>,
    bo: Vec<P>,
    params: P,
    cache: FxMap<Vec<E>, Sat>,
    pub z3_timeout_ms: u32,
    pub ext_timeout: Duration,
    pub queries: u64,
    pub ext_queries: u64,
    pub cache_hits: u64,
    pub solver_time: Duration,
    pub unknowns: u64,
    pub sat: u64,
    pub unsat: u64,
    pub crosscheck: u64,
    recent: Vec<Rc<Model>>,
    tmp_id: u64,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let z = Z3_mk_context_rc(cfg);
            let params = Z3_mk_params(z);
            Z3_params_inc_ref(z, params);
            let mut s = Solver {
                z,
                bv: vec![],
                bo: vec![],
                params,
                cache: FxMap::default(),
                z3_timeout_ms: 0,
                ext_timeout: Duration::from_secs(60),
                queries: 0,
                ext_queries: 0,
                cache_hits: 0,
                solver_time: Duration::ZERO,
                unknowns: 0,
                sat: 0,
                unsat: 0,
                crosscheck: 0,
                recent: vec![],
                tmp_id: 0,
            };
            s.set_z3_timeout(1500);
            s
        }
    }
    pub fn set_z3_timeout(&mut self, ms: u32) {
        self.z3_timeout_ms = ms;
        unsafe {
            let k = CString::new("timeout").unwrap();
            let sym = Z3_mk_string_symbol(self.z, k.as_ptr());
            Z3_params_set_uint(self.z, self.params, sym, ms);
        }
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n, std::ptr::null_mut());
            self.bo.resize(n, std::ptr::null_mut());
        }
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.z, a);
        a
    }
    fn build(&mut self, cx: &Ctx, root: E) {
        self.grow(cx.nodes.len());
        let mut st = vec![(root, false)];
        while let Some((e, done)) = st.pop() {
            if !self.bv[e as usize].is_null() {
                continue;
            }
            let n = *cx.n(e);
            if !done {
                st.push((e, true));
                if n.op != Op::Uf {
                    for k in [n.a, n.b, n.c] {
                        if k != 0 && self.bv[k as usize].is_null() {
                            st.push((k, false));
                        }
                    }
                }
                continue;
            }
            unsafe {
                let z = self.z;
                let b2 = |f: MkBin| f(z, self.bv[n.a as usize], self.bv[n.b as usize]);
                let mut as_bool: P = std::ptr::null_mut();
                let one_bit = n.w == 1;
                let r: P = match n.op {
                    Op::Nil => unreachable!(),
                    Op::Const => {
                        if one_bit {
                            as_bool = if n.k == 1 { Z3_mk_true(z) } else { Z3_mk_false(z) };
                        }
                        let so = Z3_mk_bv_sort(z, n.w as u32);
                        if n.w <= 64 {
                            Z3_mk_unsigned_int64(z, n.k as u64, so)
                        } else {
                            let s = CString::new(n.k.to_string()).unwrap();
                            Z3_mk_numeral(z, s.as_ptr(), so)
                        }
                    }
                    Op::Var => {
                        let so = Z3_mk_bv_sort(z, n.w as u32);
                        Z3_mk_const(z, Z3_mk_int_symbol(z, n.k as i32), so)
                    }
                    Op::Uf => {
                        let so = Z3_mk_bv_sort(z, n.w as u32);
                        Z3_mk_const(z, Z3_mk_int_symbol(z, (0x4000_0000 | e) as i32), so)
                    }
                    Op::Mix => {
                        let so = Z3_mk_bv_sort(z, 64);
                        let k = Z3_mk_unsigned_int64(z, 31, so);
                        Z3_inc_ref(z, k);
                        let p = Z3_mk_bvmul(z, self.bv[n.a as usize], k);
                        Z3_inc_ref(z, p);
                        Z3_mk_bvadd(z, p, self.bv[n.b as usize])
                    }
                    Op::Add => b2(Z3_mk_bvadd),
                    Op::Sub => b2(Z3_mk_bvsub),
                    Op::Mul => b2(Z3_mk_bvmul),
                    Op::UDiv => b2(Z3_mk_bvudiv),
                    Op::SDiv => b2(Z3_mk_bvsdiv),
                    Op::URem => b2(Z3_mk_bvurem),
                    Op::SRem => b2(Z3_mk_bvsrem),
                    Op::Shl => b2(Z3_mk_bvshl),
                    Op::LShr => b2(Z3_mk_bvlshr),
                    Op::AShr => b2(Z3_mk_bvashr),
                    Op::Concat => b2(Z3_mk_concat),
                    Op::Extract => Z3_mk_extract(z, (n.k as u32) + n.w as u32 - 1, n.k as u32, self.bv[n.a as usize]),
                    Op::SExt => Z3_mk_sign_ext(z, (n.w - cx.w(n.a)) as u32, self.bv[n.a as usize]),
                    Op::And | Op::Or | Op::Xor if one_bit => {
                        let (a, b) = (self.bo[n.a as usize], self.bo[n.b as usize]);
                        as_bool = match n.op {
                            Op::And => Z3_mk_and(z, 2, [a, b].as_ptr()),
                            Op::Or => Z3_mk_or(z, 2, [a, b].as_ptr()),
                            _ => {
                                if cx.as_const(n.b) == Some(1) {
                                    Z3_mk_not(z, a)
                                } else {
                                    Z3_mk_xor(z, a, b)
                                }
                            }
                        };
                        std::ptr::null_mut()
                    }
                    Op::And => b2(Z3_mk_bvand),
                    Op::Or => b2(Z3_mk_bvor),
                    Op::Xor => b2(Z3_mk_bvxor),
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        as_bool = match n.op {
                            Op::Eq => {
                                if cx.w(n.a) == 1 {
                                    Z3_mk_eq(z, self.bo[n.a as usize], self.bo[n.b as usize])
                                } else {
                                    b2(Z3_mk_eq)
                                }
                            }
                            Op::Ult => b2(Z3_mk_bvult),
                            Op::Ule => b2(Z3_mk_bvule),
                            Op::Slt => b2(Z3_mk_bvslt),
                            _ => b2(Z3_mk_bvsle),
                        };
                        std::ptr::null_mut()
                    }
                    Op::Ite => {
                        if one_bit {
                            as_bool = Z3_mk_ite(z, self.bo[n.a as usize], self.bo[n.b as usize], self.bo[n.c as usize]);
                            std::ptr::null_mut()
                        } else {
                            Z3_mk_ite(z, self.bo[n.a as usize], self.bv[n.b as usize], self.bv[n.c as usize])
                        }
                    }
                };
                let mut r = r;
                // results live only until the next API call unless referenced
                if !r.is_null() {
                    r = self.keep(r);
                }
                if !as_bool.is_null() {
                    as_bool = self.keep(as_bool);
                }
                if one_bit {
                    let so = Z3_mk_bv_sort(z, 1);
                    let one = self.keep(Z3_mk_unsigned_int64(z, 1, so));
                    if as_bool.is_null() {
                        as_bool = self.keep(Z3_mk_eq(z, r, one));
                    }
                    if r.is_null() {
                        let zero = self.keep(Z3_mk_unsigned_int64(z, 0, so));
                        r = self.keep(Z3_mk_ite(z, as_bool, one, zero));
                    }
                    self.bo[e as usize] = as_bool;
                }
                self.bv[e as usize] = r;
            }
        }
    }

    /// Is the conjunction of `cs` satisfiable?  The model covers the variables in `cs`.
    pub fn check(&mut self, cx: &mut Ctx, cs: &[E]) -> Sat {
        let mut key: Vec<E> = cs.iter().copied().filter(|c| *c != cx.tt).collect();
        if key.iter().any(|c| *c == cx.ff) {
            return Sat::Unsat;
        }
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return Sat::Sat(Rc::new(Model::default()));
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        // recent models
        for m in self.recent.iter().rev() {
            let mut ev = Evaluator::new(cx, m);
            if key.iter().all(|c| ev.eval(*c) == 1) {
                self.cache_hits += 1;
                return Sat::Sat(m.clone());
            }
        }
        let t0 = Instant::now();
        self.queries += 1;
        let hard = key.iter().any(|c| self.has_hard(cx, *c));
        let semi = !hard && key.iter().any(|c| self.has_products(cx, *c));
        let mut r = if hard {
            Sat::Unknown
        } else if semi {
            let full = self.z3_timeout_ms;
            self.set_z3_timeout(150);
            let r = self.z3(cx, &key);
            self.set_z3_timeout(full);
            r
        } else {
            self.z3(cx, &key)
        };
        if let Sat::Unknown = r {
            self.ext_queries += 1;
            r = self.portfolio(cx, &key);
            if hard {
                if let Sat::Unknown = r {
                    r = self.z3(cx, &key);
                }
            }
        }
        // a satisfying assignment is always checked against our own evaluator
        if let Sat::Sat(m) = &r {
            let mut ev = Evaluator::new(cx, m);
            if !key.iter().all(|c| ev.eval(*c) == 1) {
                eprintln!("symx: solver model does not satisfy the query (encoding bug?)");
                std::process::exit(3);
            }
        }
        self.solver_time += t0.elapsed();
        match &r {
            Sat::Unknown => self.unknowns += 1,
            Sat::Sat(m) => {
                self.sat += 1;
                self.recent.push(m.clone());
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
            }
            Sat::Unsat => self.unsat += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }
    /// symbolic * symbolic or division by a symbolic value
    fn has_hard(&self, cx: &Ctx, root: E) -> bool {
        let mut seen: FxMap<E, ()> = FxMap::default();
        let mut st = vec![root];
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = cx.n(e);
            match n.op {
                Op::Mul if cx.as_const(n.b).is_none() => return true,
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if cx.w(e) >= 16 => return true,
                Op::Uf => continue,
                _ => {}
            }
            for k in [n.a, n.b, n.c] {
                if k != 0 {
                    st.push(k);
                }
            }
        }
        false
    }

    /// a product of a wide value and a constant with several bits: better over the integers
    fn has_products(&self, cx: &Ctx, root: E) -> bool {
        let mut seen: FxMap<E, ()> = FxMap::default();
        let mut st = vec![root];
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = cx.n(e);
            if n.op == Op::Mul && n.w >= 32 {
                if let Some(k) = cx.as_const(n.b) {
                    let k = if k > crate::expr::mask(n.w) / 2 { crate::expr::mask(n.w) - k + 1 } else { k };
                    if k.count_ones() >= 3 {
                        return true;
                    }
                }
            }
            for k in [n.a, n.b, n.c] {
                if k != 0 && n.op != Op::Uf {
                    st.push(k);
                }
            }
        }
        false
    }

    fn z3(&mut self, cx: &mut Ctx, key: &[E]) -> Sat {
        for c in key {
            self.build(cx, *c);
        }
        let mut vars: Vec<u32> = vec![];
        for c in key {
            vars.extend_from_slice(&cx.vars(*c));
        }
        vars.sort_unstable();
        vars.dedup();
        unsafe {
            let s = Z3_mk_simple_solver(self.z);
            Z3_solver_inc_ref(self.z, s);
            Z3_solver_set_params(self.z, s, self.params);
            for c in key {
                Z3_solver_assert(self.z, s, self.bo[*c as usize]);
            }
            let r = Z3_solver_check(self.z, s);
            let out = if r < 0 {
                Sat::Unsat
            } else if r == 0 {
                Sat::Unknown
            } else {
                let m = Z3_solver_get_model(self.z, s);
                Z3_model_inc_ref(self.z, m);
                let mut model = Model::default();
                for v in vars {
                    let (w, sym) = if v & 0x8000_0000 != 0 {
                        (cx.w(v & 0x7fff_ffff), (0x4000_0000 | (v & 0x7fff_ffff)) as i32)
                    } else {
                        (cx.var_w[v as usize], v as i32)
                    };
                    let so = Z3_mk_bv_sort(self.z, w as u32);
                    let c = Z3_mk_const(self.z, Z3_mk_int_symbol(self.z, sym), so);
                    Z3_inc_ref(self.z, c);
                    let mut o: P = std::ptr::null_mut();
                    if Z3_model_eval(self.z, m, c, true, &mut o) {
                        Z3_inc_ref(self.z, o);
                        let st = CStr::from_ptr(Z3_get_numeral_string(self.z, o)).to_str().unwrap();
                        model.insert(v, st.parse::<u128>().unwrap());
                    }
                }
                Z3_model_dec_ref(self.z, m);
                Sat::Sat(Rc::new(model))
            };
            Z3_solver_dec_ref(self.z, s);
            out
        }
    }

    pub fn smtlib(&self, cx: &mut Ctx, key: &[E]) -> (String, Vec<(u32, u16)>) {
        let mut vars: Vec<u32> = vec![];
        for c in key {
            vars.extend_from_slice(&cx.vars(*c));
        }
        vars.sort_unstable();
        vars.dedup();
        let mut out = String::from("(set-logic QF_BV)\n(set-option :produce-models true)\n");
        let mut vw = vec![];
        for v in &vars {
            let w = if v & 0x8000_0000 != 0 { cx.w(v & 0x7fff_ffff) } else { cx.var_w[*v as usize] };
            vw.push((*v, w));
            writeln!(out, "(declare-const v{} (_ BitVec {}))", v, w).unwrap();
        }
        let mut done: FxMap<E, ()> = FxMap::default();
        let mut st: Vec<(E, bool)> = key.iter().rev().map(|k| (*k, false)).collect();
        let nm = |e: E| -> String {
            let n = cx.n(e);
            match n.op {
                Op::Const => format!("(_ bv{} {})", n.k, n.w),
                Op::Var => format!("v{}", n.k),
                Op::Uf => format!("v{}", 0x8000_0000 | e),
                _ => format!("n{}", e),
            }
        };
        while let Some((e, d)) = st.pop() {
            let n = *cx.n(e);
            if matches!(n.op, Op::Const | Op::Var | Op::Uf) || done.contains_key(&e) {
                continue;
            }
            if !d {
                st.push((e, true));
                for k in [n.a, n.b, n.c] {
                    if k != 0 {
                        st.push((k, false));
                    }
                }
                continue;
            }
            done.insert(e, ());
            let (a, b, c) = (nm(n.a), nm(n.b), nm(n.c));
            let bin = |s: &str| format!("({} {} {})", s, a, b);
            let cmp = |s: &str| format!("(ite ({} {} {}) #b1 #b0)", s, a, b);
            let t = match n.op {
                Op::Mix => format!("(bvadd (bvmul {} (_ bv31 64)) {})", a, b),
                Op::Add => bin("bvadd"),
                Op::Sub => bin("bvsub"),
                Op::Mul => bin("bvmul"),
                Op::UDiv => bin("bvudiv"),
                Op::SDiv => bin("bvsdiv"),
                Op::URem => bin("bvurem"),
                Op::SRem => bin("bvsrem"),
                Op::And => bin("bvand"),
                Op::Or => bin("bvor"),
                Op::Xor => bin("bvxor"),
                Op::Shl => bin("bvshl"),
                Op::LShr => bin("bvlshr"),
                Op::AShr => bin("bvashr"),
                Op::Concat => bin("concat"),
                Op::Extract => format!("((_ extract {} {}) {})", n.k as u32 + n.w as u32 - 1, n.k, a),
                Op::SExt => format!("((_ sign_extend {}) {})", n.w - cx.w(n.a), a),
                Op::Eq => cmp("="),
                Op::Ult => cmp("bvult"),
                Op::Ule => cmp("bvule"),
                Op::Slt => cmp("bvslt"),
                Op::Sle => cmp("bvsle"),
                Op::Ite => format!("(ite (= {} #b1) {} {})", a, b, c),
                _ => unreachable!(),
            };
            writeln!(out, "(define-fun n{} () (_ BitVec {}) {})", e, n.w, t).unwrap();
        }
        for k in key {
            writeln!(out, "(assert (= {} #b1))", nm(*k)).unwrap();
        }
        out.push_str("(check-sat)\n");
        if !vw.is_empty() {
            out.push_str("(get-value (");
            for (v, _) in &vw {
                write!(out, "v{} ", v).unwrap();
            }
            out.push_str("))\n");
        }
        (out, vw)
    }

    /// The query over mathematical integers: every node is an integer in [0, 2^w), sums and
    /// products that may wrap get an explicit quotient.  None when an operation has no such form.
    /// Returns the text and whether it is linear.
    pub fn smtlib_int(&self, cx: &mut Ctx, key: &[E]) -> Option<(String, Vec<(u32, u16)>, bool)> {
        let mut vars: Vec<u32> = vec![];
        for c in key {
            vars.extend_from_slice(&cx.vars(*c));
        }
        vars.sort_unstable();
        vars.dedup();
        let mut out = String::from("(set-option :produce-models true)\n");
        let mut vw = vec![];
        let p2 = |w: u16| -> String { pow2(w) };
        for v in &vars {
            let w = if v & 0x8000_0000 != 0 { cx.w(v & 0x7fff_ffff) } else { cx.var_w[*v as usize] };
            vw.push((*v, w));
            writeln!(out, "(declare-const v{v} Int)(assert (and (<= 0 v{v}) (< v{v} {})))", p2(w)).unwrap();
        }
        let mut linear = true;
        let mut done: FxMap<E, ()> = FxMap::default();
        let mut st: Vec<(E, bool)> = key.iter().rev().map(|k| (*k, false)).collect();
        // booleans are Bool, everything else Int
        let nm = |e: E| -> String {
            let n = cx.n(e);
            let isb = n.w == 1;
            match n.op {
                Op::Const if isb => (if n.k == 1 { "true" } else { "false" }).to_string(),
                Op::Const => n.k.to_string(),
                Op::Var if isb => format!("(= v{} 1)", n.k),
                Op::Uf if isb => format!("(= v{} 1)", 0x8000_0000 | e),
                Op::Var => format!("v{}", n.k),
                Op::Uf => format!("v{}", 0x8000_0000 | e),
                _ => format!("n{}", e),
            }
        };
        let num = |e: E| -> String {
            if cx.n(e).w == 1 {
                format!("(ite {} 1 0)", nm(e))
            } else {
                nm(e)
            }
        };
        while let Some((e, d)) = st.pop() {
            let n = *cx.n(e);
            if matches!(n.op, Op::Const | Op::Var | Op::Uf) || done.contains_key(&e) {
                continue;
            }
            if !d {
                st.push((e, true));
                for k in [n.a, n.b, n.c] {
                    if k != 0 {
                        st.push((k, false));
                    }
                }
                continue;
            }
            done.insert(e, ());
            let m = crate::expr::mask(n.w);
            let def = |out: &mut String, t: String| {
                writeln!(out, "(define-fun n{} () {} {})", e, if n.w == 1 { "Bool" } else { "Int" }, t).unwrap()
            };
            // t reduced modulo 2^w, when it may leave [0, 2^w)
            let modw = |out: &mut String, t: String, lo: i128, hi: i128| {
                let (kl, kh) = (lo.div_euclid(1i128 << n.w), hi.div_euclid(1i128 << n.w));
                if kl == 0 && kh == 0 {
                    writeln!(out, "(define-fun n{} () Int {})", e, t).unwrap();
                } else {
                    writeln!(
                        out,
                        "(declare-const n{e} Int)(declare-const q{e} Int)(assert (and (= (+ n{e} (* q{e} {})) {t}) (<= 0 n{e}) (< n{e} {}) (<= {} q{e}) (<= q{e} {})))",
                        p2(n.w), p2(n.w), neg(kl), neg(kh)
                    )
                    .unwrap();
                }
            };
            let rng = |x: E| -> (i128, i128) { (cx.info[x as usize].lo as i128, cx.info[x as usize].hi as i128) };
            if n.w > 64 || [n.a, n.b, n.c].iter().any(|k| *k != 0 && cx.w(*k) > 64) {
                return None;
            }
            match n.op {
                Op::Add if n.w > 1 => {
                    let (a, b) = (rng(n.a), rng(n.b));
                    modw(&mut out, format!("(+ {} {})", nm(n.a), nm(n.b)), a.0 + b.0, a.1 + b.1)
                }
                Op::Sub if n.w > 1 => {
                    let (a, b) = (rng(n.a), rng(n.b));
                    modw(&mut out, format!("(- {} {})", nm(n.a), nm(n.b)), a.0 - b.1, a.1 - b.0)
                }
                Op::Mul if n.w > 1 => {
                    let (a, b) = (rng(n.a), rng(n.b));
                    if let Some(c) = cx.as_const(n.b) {
                        // a factor near 2^w is a small negative one
                        let c = if c > m / 2 { c as i128 - (m as i128 + 1) } else { c as i128 };
                        let (x, y) = (a.0.checked_mul(c)?, a.1.checked_mul(c)?);
                        modw(&mut out, format!("(* {} {})", neg(c), nm(n.a)), x.min(y), x.max(y))
                    } else {
                        linear = false;
                        modw(&mut out, format!("(* {} {})", nm(n.a), nm(n.b)), a.0.checked_mul(b.0)?, a.1.checked_mul(b.1)?)
                    }
                }
                Op::UDiv if n.w > 1 => {
                    let c = cx.as_const(n.b);
                    linear &= c.is_some();
                    writeln!(
                        out,
                        "(declare-const n{e} Int)(declare-const r{e} Int)(assert (ite (= {b} 0) (and (= n{e} {m}) (= r{e} 0)) (and (= (+ (* n{e} {b}) r{e}) {a}) (<= 0 r{e}) (< r{e} {b}) (<= 0 n{e}))))",
                        a = nm(n.a), b = nm(n.b)
                    )
                    .unwrap()
                }
                Op::URem if n.w > 1 => {
                    linear &= cx.as_const(n.b).is_some();
                    writeln!(
                        out,
                        "(declare-const n{e} Int)(declare-const q{e} Int)(assert (ite (= {b} 0) (and (= n{e} {a}) (= q{e} 0)) (and (= (+ (* q{e} {b}) n{e}) {a}) (<= 0 n{e}) (< n{e} {b}) (<= 0 q{e}))))",
                        a = nm(n.a), b = nm(n.b)
                    )
                    .unwrap()
                }
                Op::Concat => def(&mut out, format!("(+ (* {} {}) {})", p2(cx.w(n.b)), num(n.a), num(n.b))),
                Op::Extract if n.w > 1 || cx.w(n.a) > 1 => {
                    let (lo, wa) = (n.k as u16, cx.w(n.a));
                    let x = nm(n.a);
                    let hi_fits = cx.info[n.a as usize].hi <= crate::expr::mask(lo + n.w);
                    if lo == 0 && hi_fits && n.w > 1 {
                        def(&mut out, x)
                    } else {
                        // x = (h * 2^w + n) * 2^lo + l
                        let (h, l) = (!hi_fits && lo + n.w < wa, lo > 0);
                        let nn = if n.w == 1 { format!("b{e}") } else { format!("n{e}") };
                        writeln!(out, "(declare-const {nn} Int)(assert (and (<= 0 {nn}) (< {nn} {})))", p2(n.w)).unwrap();
                        let mut t = format!("(* {nn} {})", p2(lo));
                        if h {
                            writeln!(out, "(declare-const h{e} Int)(assert (and (<= 0 h{e}) (< h{e} {})))", p2(wa - lo - n.w)).unwrap();
                            t = format!("(+ {t} (* h{e} {}))", p2(lo + n.w));
                        }
                        if l {
                            writeln!(out, "(declare-const l{e} Int)(assert (and (<= 0 l{e}) (< l{e} {})))", p2(lo)).unwrap();
                            t = format!("(+ {t} l{e})");
                        }
                        writeln!(out, "(assert (= {x} {t}))").unwrap();
                        if n.w == 1 {
                            def(&mut out, format!("(= {nn} 1)"))
                        }
                    }
                }
                Op::SExt => {
                    let wa = cx.w(n.a);
                    let x = num(n.a);
                    def(&mut out, format!("(ite (< {x} {}) {x} (+ {x} {}))", p2(wa - 1), m - crate::expr::mask(wa)))
                }
                Op::Eq => def(&mut out, format!("(= {} {})", nm(n.a), nm(n.b))),
                Op::Ult => def(&mut out, format!("(< {} {})", num(n.a), num(n.b))),
                Op::Ule => def(&mut out, format!("(<= {} {})", num(n.a), num(n.b))),
                Op::Slt | Op::Sle if cx.w(n.a) > 1 => {
                    let w = cx.w(n.a);
                    let sg = |e: E| format!("(ite (< {x} {h}) {x} (- {x} {f}))", x = nm(e), h = p2(w - 1), f = p2(w));
                    def(&mut out, format!("({} {} {})", if n.op == Op::Slt { "<" } else { "<=" }, sg(n.a), sg(n.b)))
                }
                Op::Ite => def(&mut out, format!("(ite {} {} {})", nm(n.a), nm(n.b), nm(n.c))),
                Op::And if n.w == 1 => def(&mut out, format!("(and {} {})", nm(n.a), nm(n.b))),
                Op::Or if n.w == 1 => def(&mut out, format!("(or {} {})", nm(n.a), nm(n.b))),
                Op::Xor if n.w == 1 => def(&mut out, format!("(xor {} {})", nm(n.a), nm(n.b))),
                _ => return None,
            }
        }
        for k in key {
            writeln!(out, "(assert {})", nm(*k)).unwrap();
        }
        out.push_str("(check-sat)\n");
        if !vw.is_empty() {
            out.push_str("(get-value (");
            for (v, _) in &vw {
                write!(out, "v{} ", v).unwrap();
            }
            out.push_str("))\n");
        }
        let head = format!("(set-logic {})\n", if linear { "QF_LIA" } else { "QF_NIA" });
        Some((head + &out, vw, linear))
    }

    fn portfolio(&mut self, cx: &mut Ctx, key: &[E]) -> Sat {
        let (txt, vw) = self.smtlib(cx, key);
        self.tmp_id += 1;
        let base = std::env::temp_dir().join(format!("symx_{}_{}", std::process::id(), self.tmp_id));
        let file = base.with_extension("smt2");
        std::fs::write(&file, &txt).unwrap();
        if let Ok(d) = std::env::var("SYMX_DUMP") {
            let _ = std::fs::copy(&file, format!("{}/q{}.smt2", d, self.tmp_id));
        }
        let tl = self.ext_timeout.as_millis().to_string();
        let cmds: Vec<Vec<String>> = vec![
            vec!["cvc5".into(), "--produce-models".into(), "--solve-bv-as-int=sum".into(), format!("--tlimit={}", tl)],
            vec![
                "cvc5".into(),
                "--produce-models".into(),
                "--bitblast=eager".into(),
                "--bv-sat-solver=cadical".into(),
                format!("--tlimit={}", tl),
            ],
            vec!["cvc5".into(), "--produce-models".into(), format!("--tlimit={}", tl)],
            vec!["z3-new".into(), format!("-T:{}", self.ext_timeout.as_secs())],
        ];
        let mut cmds: Vec<(Vec<String>, std::path::PathBuf)> = cmds.into_iter().map(|c| (c, file.clone())).collect();
        let ifile = base.with_extension("int.smt2");
        let mut has_int = false;
        if let Some((t, _, _)) = self.smtlib_int(cx, key) {
            has_int = true;
            std::fs::write(&ifile, &t).unwrap();
            if let Ok(d) = std::env::var("SYMX_DUMP") {
                let _ = std::fs::copy(&ifile, format!("{}/q{}.int.smt2", d, self.tmp_id));
            }
            cmds.insert(0, (vec!["z3-new".into(), format!("-T:{}", self.ext_timeout.as_secs())], ifile.clone()));
            cmds.insert(0, (vec!["cvc5".into(), "--produce-models".into(), format!("--tlimit={}", tl)], ifile.clone()));
        }
        let mut kids = vec![];
        for (i, (c, file)) in cmds.iter().enumerate() {
            let outp = base.with_extension(format!("out{}", i));
            let f = std::fs::File::create(&outp).unwrap();
            if let Ok(ch) = std::process::Command::new(&c[0])
                .args(&c[1..])
                .arg(file)
                .stdout(f)
                .stderr(std::process::Stdio::null())
                .stdin(std::process::Stdio::null())
                .spawn()
            {
                kids.push((ch, outp, false));
            }
        }
        let t0 = Instant::now();
        let mut res = Sat::Unknown;
        'o: loop {
            let mut alive = false;
            for k in kids.iter_mut() {
                if k.2 {
                    continue;
                }
                match k.0.try_wait() {
                    Ok(Some(_)) => {
                        k.2 = true;
                        let s = std::fs::read_to_string(&k.1).unwrap_or_default();
                        if let Some(r) = Self::parse_answer(&s, &vw) {
                            if let Sat::Sat(m) = &r {
                                // only believe models that check
                                let mut ev = Evaluator::new(cx, m);
                                if !key.iter().all(|c| ev.eval(*c) == 1) {
                                    continue;
                                }
                            }
                            res = r;
                            break 'o;
                        }
                    }
                    Ok(None) => alive = true,
                    Err(_) => k.2 = true,
                }
            }
            if !alive || t0.elapsed() > self.ext_timeout + Duration::from_secs(2) {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        for k in kids.iter_mut() {
            if !k.2 {
                let _ = k.0.kill();
            }
            let _ = k.0.wait();
            let _ = std::fs::remove_file(&k.1);
        }
        let _ = std::fs::remove_file(&file);
        if has_int {
            let _ = std::fs::remove_file(&ifile);
        }
        res
    }
    fn parse_answer(s: &str, vw: &[(u32, u16)]) -> Option<Sat> {
        let mut lines = s.lines().skip_while(|l| l.trim().is_empty());
        let first = lines.next()?.trim();
        if first == "unsat" {
            return Some(Sat::Unsat);
        }
        if first != "sat" {
            return None;
        }
        let rest: String = lines.collect::<Vec<_>>().join(" ");
        let mut m = Model::default();
        // ((v0 #x00) (v1 #b0) (v2 (_ bv3 8)))
        let toks: Vec<&str> = rest
            .split(|c: char| c == '(' || c == ')' || c.is_whitespace())
            .filter(|t| !t.is_empty())
            .collect();
        let mut i = 0;
        while i < toks.len() {
            if let Some(v) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
                let t = *toks.get(i + 1)?;
                let val = if let Some(h) = t.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()?
                } else if let Some(b) = t.strip_prefix("#b") {
                    u128::from_str_radix(b, 2).ok()?
                } else if t == "_" {
                    i += 1;
                    toks.get(i + 1)?.strip_prefix("bv")?.parse().ok()?
                } else if let Ok(x) = t.parse::<u128>() {
                    x
                } else {
                    return None;
                };
                m.insert(v, val);
                i += 2;
            } else {
                i += 1;
            }
        }
        if vw.iter().any(|(v, _)| !m.contains_key(v)) {
            return None;
        }
        Some(Sat::Sat(Rc::new(m)))
    }
}
