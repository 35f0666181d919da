//! Hash-consed bit-vector expressions with an eager simplifier.
//!
//! Every expression has a width of 1..=128 bits.  Index 0 is reserved (never a
//! valid expression) so that memory can use 0 for "this byte is concrete".
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Nil,
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    /// uninterpreted function; `k` is its kind
    Uf,
    /// a * 31 + b, compared as the pair (a, b): a digest taken as injective
    Mix,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub kz: u128, // known zero bits
    pub ko: u128, // known one bits
    pub lo: u128, // unsigned range
    pub hi: u128,
}

#[derive(Default)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type BH = std::hash::BuildHasherDefault<FxH>;
pub type FxMap<K, V> = HashMap<K, V, BH>;

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, E>,
    xcache: FxMap<(E, u16, u16), E>,
    ecache: FxMap<(E, E), E>,
    ncache: FxMap<E, E>,
    /// push extractions through sums and choices
    narrow: bool,
    vars_cache: Vec<Option<Rc<[u32]>>>,
    pub var_w: Vec<u16>,
    pub var_names: Vec<String>,
    pub tt: E,
    pub ff: E,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![Node { op: Op::Nil, w: 0, a: 0, b: 0, c: 0, k: 0 }],
            info: vec![Info { kz: 0, ko: 0, lo: 0, hi: 0 }],
            map: FxMap::default(),
            xcache: FxMap::default(),
            ecache: FxMap::default(),
            ncache: FxMap::default(),
            narrow: false,
            vars_cache: vec![None],
            var_w: vec![],
            var_names: vec![],
            tt: 0,
            ff: 0,
        };
        c.ff = c.cst(0, 1);
        c.tt = c.cst(1, 1);
        c
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let inf = self.compute_info(&n);
        // fully known?
        if n.op != Op::Const {
            let m = mask(n.w);
            if (inf.kz | inf.ko) & m == m {
                return self.cst(inf.ko & m, n.w);
            }
            if inf.lo == inf.hi {
                return self.cst(inf.lo, n.w);
            }
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(inf);
        self.vars_cache.push(None);
        self.map.insert(n, e);
        e
    }
    fn compute_info(&self, n: &Node) -> Info {
        let m = mask(n.w);
        let ia = self.info[n.a as usize];
        let ib = self.info[n.b as usize];
        let ic = self.info[n.c as usize];
        let mut r = Info { kz: 0, ko: 0, lo: 0, hi: m };
        match n.op {
            Op::Const => {
                r = Info { kz: !n.k & m, ko: n.k, lo: n.k, hi: n.k };
                return r;
            }
            Op::And => {
                r.kz = ia.kz | ib.kz;
                r.ko = ia.ko & ib.ko;
                r.hi = ia.hi.min(ib.hi);
            }
            Op::Or => {
                r.kz = ia.kz & ib.kz;
                r.ko = ia.ko | ib.ko;
                r.lo = ia.lo.max(ib.lo);
            }
            Op::Xor => {
                r.kz = (ia.kz & ib.kz) | (ia.ko & ib.ko);
                r.ko = (ia.kz & ib.ko) | (ia.ko & ib.kz);
            }
            Op::Concat => {
                let wb = self.w(n.b);
                r.kz = (ia.kz << wb) | ib.kz;
                r.ko = (ia.ko << wb) | ib.ko;
                r.lo = (ia.lo << wb) | ib.lo;
                r.hi = (ia.hi << wb) | ib.hi;
            }
            Op::Extract => {
                let lo = n.k as u32;
                r.kz = (ia.kz >> lo) & m;
                r.ko = (ia.ko >> lo) & m;
                // range: if the top part above is constant
                let top = lo + n.w as u32;
                if top >= 128 || (ia.lo >> top) == (ia.hi >> top) {
                    r.lo = (ia.lo >> lo) & m;
                    r.hi = (ia.hi >> lo) & m;
                }
            }
            Op::SExt => {
                let wa = self.w(n.a);
                let sb = 1u128 << (wa - 1);
                let ext = m & !mask(wa);
                r.kz = ia.kz;
                r.ko = ia.ko;
                if ia.kz & sb != 0 || ia.hi < sb {
                    r.kz |= ext;
                    r.lo = ia.lo;
                    r.hi = ia.hi;
                } else if ia.ko & sb != 0 || ia.lo >= sb {
                    r.ko |= ext;
                    r.lo = ia.lo | ext;
                    r.hi = ia.hi | ext;
                }
            }
            Op::Add => {
                if let (Some(lo), Some(hi)) = (ia.lo.checked_add(ib.lo), ia.hi.checked_add(ib.hi)) {
                    if hi <= m {
                        r.lo = lo;
                        r.hi = hi;
                    } else if lo > m && n.w < 128 && hi - lo <= m && (hi & m) >= (lo & m) {
                        r.lo = lo & m;
                        r.hi = hi & m;
                    }
                }
                let tz = (!(ia.kz)).trailing_zeros().min((!(ib.kz)).trailing_zeros());
                r.kz |= mask(tz.min(n.w as u32) as u16);
            }
            Op::Sub => {
                if ia.lo >= ib.hi {
                    r.lo = ia.lo - ib.hi;
                    r.hi = ia.hi - ib.lo;
                }
                let tz = (!(ia.kz)).trailing_zeros().min((!(ib.kz)).trailing_zeros());
                r.kz |= mask(tz.min(n.w as u32) as u16);
            }
            Op::Mul => {
                if let (Some(lo), Some(hi)) = (ia.lo.checked_mul(ib.lo), ia.hi.checked_mul(ib.hi)) {
                    if hi <= m {
                        r.lo = lo;
                        r.hi = hi;
                    }
                }
                let tz = (!(ia.kz)).trailing_zeros() + (!(ib.kz)).trailing_zeros();
                r.kz |= mask(tz.min(n.w as u32) as u16);
            }
            Op::UDiv => {
                if ib.lo > 0 {
                    r.lo = ia.lo / ib.hi;
                    r.hi = ia.hi / ib.lo;
                }
            }
            Op::URem => {
                if ib.lo > 0 {
                    r.hi = (ib.hi - 1).min(ia.hi);
                }
            }
            Op::LShr => {
                r.hi = ia.hi;
            }
            Op::Ite => {
                r.kz = ib.kz & ic.kz;
                r.ko = ib.ko & ic.ko;
                r.lo = ib.lo.min(ic.lo);
                r.hi = ib.hi.max(ic.hi);
            }
            _ => {}
        }
        // combine
        let bits_hi = m & !r.kz;
        if r.hi > bits_hi {
            r.hi = bits_hi;
        }
        if r.lo < r.ko {
            r.lo = r.ko;
        }
        // leading zeros from hi
        if r.hi < m {
            let lz = 128 - r.hi.leading_zeros(); // significant bits
            let hm = m & !mask(lz.min(128) as u16);
            r.kz |= hm & !r.ko;
        }
        r
    }

    pub fn cst(&mut self, v: u128, w: u16) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn new_var(&mut self, w: u16, name: String) -> E {
        let id = self.var_w.len() as u128;
        self.var_w.push(w);
        self.var_names.push(name);
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id })
    }
    pub fn boolc(&self, b: bool) -> E {
        if b {
            self.tt
        } else {
            self.ff
        }
    }
    fn raw2(&mut self, op: Op, w: u16, a: E, b: E) -> E {
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }

    // ---- linear forms ----
    fn lin_collect(&self, e: E, coef: u128, m: u128, terms: &mut Vec<(E, u128)>, cst: &mut u128, depth: u32) -> bool {
        let n = *self.n(e);
        match n.op {
            Op::Const => {
                *cst = cst.wrapping_add(n.k.wrapping_mul(coef)) & m;
                true
            }
            Op::Add if depth < 12 => {
                self.lin_collect(n.a, coef, m, terms, cst, depth + 1)
                    && self.lin_collect(n.b, coef, m, terms, cst, depth + 1)
            }
            Op::Sub if depth < 12 => {
                self.lin_collect(n.a, coef, m, terms, cst, depth + 1)
                    && self.lin_collect(n.b, coef.wrapping_neg() & m, m, terms, cst, depth + 1)
            }
            Op::Mul if depth < 12 && self.as_const(n.b).is_some() => {
                let k = self.as_const(n.b).unwrap();
                self.lin_collect(n.a, coef.wrapping_mul(k) & m, m, terms, cst, depth + 1)
            }
            // K ++ low bits of a value that fits: K << n + value
            Op::Concat if depth < 12 && self.as_const(n.a).is_some() && {
                let y = self.n(n.b);
                y.op == Op::Extract && y.k == 0 && self.w(y.a) == n.w && self.info[y.a as usize].hi <= mask(y.w)
            } =>
            {
                let y = *self.n(n.b);
                let k = self.as_const(n.a).unwrap() << y.w;
                *cst = cst.wrapping_add(k.wrapping_mul(coef)) & m;
                self.lin_collect(y.a, coef, m, terms, cst, depth + 1)
            }
            _ => {
                for t in terms.iter_mut() {
                    if t.0 == e {
                        t.1 = t.1.wrapping_add(coef) & m;
                        return true;
                    }
                }
                if terms.len() >= 10 {
                    return false;
                }
                terms.push((e, coef & m));
                true
            }
        }
    }
    /// (terms, constant) of `e` seen as a linear sum; None if too big
    /// for debugging
    #[allow(dead_code)]
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ if d == 0 => format!("#{e}"),
            _ => {
                let mut s = format!("({:?}{}", n.op, n.w);
                if n.op == Op::Extract {
                    s += &format!("@{}", n.k);
                }
                for k in [n.a, n.b, n.c] {
                    if k != 0 {
                        s += " ";
                        s += &self.show(k, d - 1);
                    }
                }
                s + ")"
            }
        }
    }
    pub fn linear(&self, e: E) -> Option<(Vec<(E, u128)>, u128)> {
        let mut t = vec![];
        let mut c = 0;
        let m = mask(self.w(e));
        if self.lin_collect(e, 1, m, &mut t, &mut c, 0) {
            t.retain(|x| x.1 != 0);
            Some((t, c))
        } else {
            None
        }
    }
    fn lin_build(&mut self, mut terms: Vec<(E, u128)>, c: u128, w: u16) -> E {
        let m = mask(w);
        terms.retain(|t| t.1 & m != 0);
        terms.sort();
        let mut acc: Option<E> = None;
        let mut negs = vec![];
        for (t, k) in terms {
            let neg = sx(k, w) < 0 && k != (1u128 << (w - 1));
            let kk = if neg { k.wrapping_neg() & m } else { k };
            let te = if kk == 1 {
                t
            } else {
                let ke = self.cst(kk, w);
                self.raw2(Op::Mul, w, t, ke)
            };
            if neg {
                negs.push(te);
            } else {
                acc = Some(match acc {
                    None => te,
                    Some(a) => self.raw2(Op::Add, w, a, te),
                });
            }
        }
        let mut c = c & m;
        let mut acc = match acc {
            Some(a) => a,
            None => {
                let r = self.cst(c, w);
                c = 0;
                r
            }
        };
        for t in negs {
            acc = self.raw2(Op::Sub, w, acc, t);
        }
        if c != 0 {
            let ce = self.cst(c, w);
            acc = self.raw2(Op::Add, w, acc, ce);
        }
        acc
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.cst(x.wrapping_add(y), w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.disjoint(a, b) {
            return r;
        }
        // (x ++ y) + (z ++ 0) = (x + z) ++ y
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            if self.as_const(nb.b) == Some(0) || self.as_const(na.b) == Some(0) {
                let h = self.add(na.a, nb.a);
                let l = if self.as_const(nb.b) == Some(0) { na.b } else { nb.b };
                return self.concat(h, l);
            }
        }
        if let Some(r) = self.lift_ite2(a, b, |s, x, y| s.add(x, y)) {
            return r;
        }
        let m = mask(w);
        let mut t = vec![];
        let mut c = 0;
        if self.lin_collect(a, 1, m, &mut t, &mut c, 0) && self.lin_collect(b, 1, m, &mut t, &mut c, 0) {
            return self.lin_build(t, c, w);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.raw2(Op::Add, w, a, b)
    }
    /// A - B * (A / B) is A mod B, also for B = 0, and so are the lower bits of all three
    fn remainder(&mut self, a: E, b: E) -> Option<E> {
        let nb = *self.n(b);
        if nb.op != Op::Mul {
            return None;
        }
        let w = self.w(a);
        for (y, z) in [(nb.a, nb.b), (nb.b, nb.a)] {
            let mut q = *self.n(z);
            if q.op == Op::Extract && q.k == 0 {
                q = *self.n(q.a);
            }
            if q.op != Op::UDiv {
                continue;
            }
            if self.extract(q.a, 0, w) == a && self.extract(q.b, 0, w) == y {
                let r = self.urem(q.a, q.b);
                return Some(self.extract(r, 0, w));
            }
        }
        None
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        if let Some(0) = self.as_const(b) {
            return a;
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.cst(x.wrapping_sub(y), w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.remainder(a, b) {
            return r;
        }
        if let Some(r) = self.lift_ite2(a, b, |s, x, y| s.sub(x, y)) {
            return r;
        }
        let m = mask(w);
        let mut t = vec![];
        let mut c = 0;
        if self.lin_collect(a, 1, m, &mut t, &mut c, 0) && self.lin_collect(b, m, m, &mut t, &mut c, 0) {
            return self.lin_build(t, c, w);
        }
        self.raw2(Op::Sub, w, a, b)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let z = self.cst(0, w);
        self.sub(z, a)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(x.wrapping_mul(y), w);
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if w == 1 {
                return self.and(a, b);
            }
            if let Some(r) = self.lift_ite2(a, b, |s, x, y| s.mul(x, y)) {
                return r;
            }
            if y.is_power_of_two() {
                // only when a is not a sum (keeps linear forms)
                if !matches!(self.n(a).op, Op::Add | Op::Sub | Op::Mul) {
                    let s = y.trailing_zeros() as u16;
                    return self.shl_const(a, s);
                }
            }
            let m = mask(w);
            let mut t = vec![];
            let mut c = 0;
            if self.lin_collect(a, y, m, &mut t, &mut c, 0) {
                return self.lin_build(t, c, w);
            }
            return self.raw2(Op::Mul, w, a, b);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.raw2(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(if y == 0 { mask(w) } else { x / y }, w);
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                return self.lshr_const(a, y.trailing_zeros() as u16);
            }
        }
        self.raw2(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(if y == 0 { x } else { x % y }, w);
            }
            if y.is_power_of_two() {
                let m = self.cst(y - 1, w);
                return self.and(a, m);
            }
            if y != 0 && self.info[a as usize].hi < y {
                return a;
            }
        }
        self.raw2(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                return self.cst(x.wrapping_div(y) as u128, w);
            }
        }
        let sb = 1u128 << (w - 1);
        if self.info[a as usize].hi < sb && self.info[b as usize].hi < sb {
            return self.udiv(a, b);
        }
        if let Some(y) = self.as_const(b) {
            if y.is_power_of_two() && y > 1 && y < sb {
                // shift, rounding towards zero
                let k = y.trailing_zeros() as u16;
                let sign = self.extract(a, w - 1, 1);
                let bias = self.sext(sign, k);
                let bias = self.zext(bias, w);
                let s = self.add(a, bias);
                let top = self.extract(s, k, w - k);
                return self.sext(top, w);
            }
        }
        self.raw2(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                return self.cst(x.wrapping_rem(y) as u128, w);
            }
        }
        let sb = 1u128 << (w - 1);
        if self.info[a as usize].hi < sb && self.info[b as usize].hi < sb {
            return self.urem(a, b);
        }
        self.raw2(Op::SRem, w, a, b)
    }

    fn runs(m: u128, w: u16) -> Vec<(bool, u16, u16)> {
        // (bit, lo, len) runs from low to high
        let mut v: Vec<(bool, u16, u16)> = vec![];
        let mut i = 0;
        while i < w {
            let b = (m >> i) & 1 == 1;
            let mut j = i + 1;
            while j < w && ((m >> j) & 1 == 1) == b {
                j += 1;
            }
            v.push((b, i, j - i));
            i = j;
        }
        v
    }
    /// a op b where at each bit at least one side is known zero: build a concat
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let m = mask(w);
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if (ia.kz | ib.kz) & m != m {
            return None;
        }
        // take from a where a not known zero, else from b
        let ra = Self::runs(!ia.kz & m, w);
        if ra.len() > 7 {
            return None;
        }
        let mut acc: Option<E> = None;
        for (bit, lo, len) in ra {
            let part = if bit { self.extract(a, lo, len) } else { self.extract(b, lo, len) };
            acc = Some(match acc {
                None => part,
                Some(x) => self.concat(part, x),
            });
        }
        acc
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.as_const(a).is_some() || a > b && self.as_const(b).is_none() { (b, a) } else { (a, b) };
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(x & y, w);
            }
            let m = mask(w);
            if y == 0 {
                return b;
            }
            if y | self.info[a as usize].kz == m {
                return a;
            }
            let r = Self::runs(y, w);
            if r.len() <= 7 {
                let mut acc: Option<E> = None;
                for (bit, lo, len) in r {
                    let part = if bit { self.extract(a, lo, len) } else { self.cst(0, len) };
                    acc = Some(match acc {
                        None => part,
                        Some(x) => self.concat(part, x),
                    });
                }
                return acc.unwrap();
            }
        }
        if w == 1 {
            if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) {
                return self.ff;
            }
        }
        // zext operands: and(concat(0,x), concat(0,y)) = concat(0, and(x,y))
        if let Some(r) = self.zsplit(a, b, |s, x, y| s.and(x, y)) {
            return r;
        }
        self.raw2(Op::And, w, a, b)
    }
    fn zsplit(&mut self, a: E, b: E, f: impl Fn(&mut Self, E, E) -> E) -> Option<E> {
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
            if self.as_const(na.a) == Some(0) && self.as_const(nb.a) == Some(0) {
                let r = f(self, na.b, nb.b);
                return Some(self.concat(na.a, r));
            }
        }
        None
    }
    fn not_of(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.op == Op::Xor && n.w == 1 && n.b == self.tt {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.as_const(a).is_some() || a > b && self.as_const(b).is_none() { (b, a) } else { (a, b) };
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(x | y, w);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
        }
        if w == 1 {
            if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) {
                return self.tt;
            }
        }
        if let Some(r) = self.disjoint(a, b) {
            return r;
        }
        if let Some(y) = self.as_const(b) {
            let r = Self::runs(y, w);
            if r.len() <= 5 {
                let mut acc: Option<E> = None;
                for (bit, lo, len) in r {
                    let part = if bit { self.cst(mask(len), len) } else { self.extract(a, lo, len) };
                    acc = Some(match acc {
                        None => part,
                        Some(x) => self.concat(part, x),
                    });
                }
                return acc.unwrap();
            }
        }
        if let Some(r) = self.zsplit(a, b, |s, x, y| s.or(x, y)) {
            return r;
        }
        self.raw2(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        let (a, b) = if self.as_const(a).is_some() || a > b && self.as_const(b).is_none() { (b, a) } else { (a, b) };
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(x ^ y, w);
            }
            if y == 0 {
                return a;
            }
            let na = *self.n(a);
            if na.op == Op::Xor && self.as_const(na.b).is_some() {
                let k = self.as_const(na.b).unwrap();
                let c = self.cst(k ^ y, w);
                return self.xor(na.a, c);
            }
            if w == 1 {
                match na.op {
                    Op::Ult => return self.ule(na.b, na.a),
                    Op::Ule => return self.ult(na.b, na.a),
                    Op::Slt => return self.sle(na.b, na.a),
                    Op::Sle => return self.slt(na.b, na.a),
                    _ => {}
                }
            }
            if na.op == Op::Ite && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                let x = self.xor(na.b, b);
                let z = self.xor(na.c, b);
                return self.ite(na.a, x, z);
            }
        }
        // x ^ (x ^ y)
        let (na, nb) = (*self.n(a), *self.n(b));
        if nb.op == Op::Xor {
            if nb.a == a {
                return nb.b;
            }
            if nb.b == a {
                return nb.a;
            }
        }
        if na.op == Op::Xor {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if w > 1 {
            if let Some(r) = self.disjoint(a, b) {
                return r;
            }
        }
        if let Some(r) = self.zsplit(a, b, |s, x, y| s.xor(x, y)) {
            return r;
        }
        self.raw2(Op::Xor, w, a, b)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(mask(w), w);
        self.xor(a, m)
    }
    pub fn shl_const(&mut self, a: E, s: u16) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.cst(0, w);
        }
        let x = self.extract(a, 0, w - s);
        let z = self.cst(0, s);
        self.concat(x, z)
    }
    pub fn lshr_const(&mut self, a: E, s: u16) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.cst(0, w);
        }
        let x = self.extract(a, s, w - s);
        self.zext(x, w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(if s >= w as u128 { 0 } else { x << s }, w);
            }
            return self.shl_const(a, s.min(w as u128) as u16);
        }
        if let Some(r) = self.lift_ite2(a, b, |s, x, y| s.shl(x, y)) {
            return r;
        }
        self.raw2(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                return self.cst(if s >= w as u128 { 0 } else { x >> s }, w);
            }
            return self.lshr_const(a, s.min(w as u128) as u16);
        }
        if let Some(r) = self.lift_ite2(a, b, |s, x, y| s.lshr(x, y)) {
            return r;
        }
        self.raw2(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.as_const(b) {
            let s = s.min(w as u128 - 1) as u16;
            if let Some(x) = self.as_const(a) {
                return self.cst((sx(x, w) >> s) as u128, w);
            }
            if s == 0 {
                return a;
            }
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        if self.info[a as usize].hi < 1u128 << (w - 1) {
            return self.lshr(a, b);
        }
        self.raw2(Op::AShr, w, a, b)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.cst(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(x) = self.as_const(a) {
            return self.cst(sx(x, wa) as u128, w);
        }
        let sb = 1u128 << (wa - 1);
        let i = self.info[a as usize];
        if i.kz & sb != 0 || i.hi < sb {
            return self.zext(a, w);
        }
        let na = *self.n(a);
        if na.op == Op::SExt {
            return self.sext(na.a, w);
        }
        if na.op == Op::Ite && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
            let x = self.sext(na.b, w);
            let y = self.sext(na.c, w);
            return self.ite(na.a, x, y);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn trunc(&mut self, a: E, w: u16) -> E {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = *self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo < wa {
                    let x = self.extract(n.a, lo, wa - lo);
                    return self.sext(x, w);
                }
                let s = self.extract(n.a, wa - 1, 1);
                return self.sext(s, w);
            }
            Op::Ite => {
                if self.as_const(n.b).is_none() && self.as_const(n.c).is_none() && !self.narrow {
                    return self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 });
                }
                if let Some(r) = self.xcache.get(&(a, lo, w)).filter(|_| self.narrow) {
                    return *r;
                }
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                let r = self.ite(n.a, x, y);
                if self.narrow {
                    self.xcache.insert((a, lo, w), r);
                }
                return r;
            }
            // the low bits of a sum depend on the low bits of its terms only
            Op::Add | Op::Sub | Op::Mul if lo == 0 && self.narrow => {
                if let Some(r) = self.xcache.get(&(a, lo, w)) {
                    return *r;
                }
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                let r = match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
                self.xcache.insert((a, lo, w), r);
                return r;
            }
            Op::And | Op::Or | Op::Xor if self.as_const(n.b).is_some() || w == 1 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            _ => {}
        }
        let i = self.info[a as usize];
        let m = mask(w);
        if (i.kz >> lo) & m == m {
            return self.cst(0, w);
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    fn try_join(&mut self, a: E, b: E) -> Option<E> {
        // join high part a and low part b
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w + nb.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return Some(self.cst((na.k << nb.w) | nb.k, w));
        }
        if nb.op == Op::Extract {
            if na.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
                return Some(self.extract(na.a, nb.k as u16, w));
            }
            // low part extract, high = sext of something of same node
            if na.op == Op::SExt {
                let ns = *self.n(na.a);
                if ns.op == Op::Extract && ns.a == nb.a && ns.k == nb.k + nb.w as u128 {
                    let j = self.extract(nb.a, nb.k as u16, nb.w + ns.w);
                    return Some(self.sext(j, w));
                }
                // sign replication: high is sext(extract(x, top,1)) and low ends at top
                if ns.op == Op::Extract && ns.w == 1 && ns.a == nb.a && ns.k + 1 == nb.k + nb.w as u128 {
                    return Some(self.sext(b, w));
                }
            }
        }
        if na.op == Op::SExt {
            let ns = *self.n(na.a);
            // sext(top bit of b)
            if ns.w == 1 && ns.op == Op::Extract && ns.a == b && ns.k == nb.w as u128 - 1 {
                return Some(self.sext(b, w));
            }
        }
        // high = extract(b, top bit) of width 1 : two bits sext
        if na.op == Op::Extract && na.a == b && na.w == 1 && na.k == nb.w as u128 - 1 {
            return Some(self.sext(b, w));
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return Some(self.ite(na.a, x, y));
        }
        None
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w + nb.w;
        debug_assert!(w <= 128);
        if let Some(r) = self.try_join(a, b) {
            return r;
        }
        // right associate
        if na.op == Op::Concat {
            let t = self.concat(na.b, b);
            return self.concat(na.a, t);
        }
        if nb.op == Op::Concat {
            if let Some(j) = self.try_join(a, nb.a) {
                return self.concat(j, nb.b);
            }
        }
        self.raw2(Op::Concat, w, a, b)
    }
    fn lift_ite2(&mut self, a: E, b: E, f: impl Fn(&mut Self, E, E) -> E) -> Option<E> {
        let (na, nb) = (*self.n(a), *self.n(b));
        let ca = na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some();
        let cb = nb.op == Op::Ite && self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some();
        if ca && nb.op == Op::Const {
            let x = f(self, na.b, b);
            let y = f(self, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        if cb && na.op == Op::Const {
            let x = f(self, a, nb.b);
            let y = f(self, a, nb.c);
            return Some(self.ite(nb.a, x, y));
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a && (ca || cb) {
            let x = f(self, na.b, nb.b);
            let y = f(self, na.c, nb.c);
            return Some(self.ite(na.a, x, y));
        }
        None
    }
    /// ite tree whose leaves are all constants (bounded)
    fn const_tree(&self, e: E, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let n = self.n(e);
        match n.op {
            Op::Const => true,
            Op::Ite => self.const_tree(n.b, budget) && self.const_tree(n.c, budget),
            _ => false,
        }
    }
    fn map_tree(&mut self, e: E, f: &dyn Fn(&mut Self, E) -> E) -> E {
        let n = *self.n(e);
        if n.op == Op::Ite {
            let x = self.map_tree(n.b, f);
            let y = self.map_tree(n.c, f);
            return self.ite(n.a, x, y);
        }
        f(self, e)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == self.tt {
            return a;
        }
        if c == self.ff {
            return b;
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.not_of(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if a == self.tt {
                return self.or(c, b);
            }
            if a == self.ff {
                let nc = self.not(c);
                return self.and(nc, b);
            }
            if b == self.tt {
                let nc = self.not(c);
                return self.or(nc, a);
            }
            if b == self.ff {
                return self.and(c, a);
            }
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let cd = self.or(c, nb.a);
            return self.ite(cd, a, nb.c);
        }
        // common high/low parts of concats
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
            if na.a == nb.a {
                let r = self.ite(c, na.b, nb.b);
                return self.concat(na.a, r);
            }
            if na.b == nb.b {
                let r = self.ite(c, na.a, nb.a);
                return self.concat(r, na.b);
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if self.as_const(a).is_some() || a > b && self.as_const(b).is_none() { (b, a) } else { (a, b) };
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if (ia.kz & ib.ko) | (ia.ko & ib.kz) != 0 || ia.hi < ib.lo || ib.hi < ia.lo {
            return self.ff;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if w == 64 {
            if na.op == Op::Mix && nb.op == Op::Mix {
                let h = self.eq(na.b, nb.b);
                if h == self.ff {
                    return h;
                }
                let l = self.eq(na.a, nb.a);
                return self.and(h, l);
            }
            let small = |n: &Node| n.op == Op::Const && n.k < 256;
            if na.op == Op::Mix && small(&nb) || nb.op == Op::Mix && small(&na) {
                return self.ff;
            }
            if na.op == Op::Ite || nb.op == Op::Ite {
                let (x, y, ny) = if na.op == Op::Ite { (na, b, nb) } else { (nb, a, na) };
                if (ny.op == Op::Mix || ny.op == Op::Ite || small(&ny)) && (self.has_mix(if na.op == Op::Ite { a } else { b }, &mut 200) || ny.op == Op::Mix) {
                    if let Some(r) = self.ecache.get(&(a, b)) {
                        return *r;
                    }
                    let (p, q) = if ny.op == Op::Ite && ny.a == x.a { (ny.b, ny.c) } else { (y, y) };
                    let t = self.eq(x.b, p);
                    let f = self.eq(x.c, q);
                    let r = self.ite(x.a, t, f);
                    self.ecache.insert((a, b), r);
                    return r;
                }
            }
        }
        if let Some(y) = self.as_const(b) {
            if matches!(na.op, Op::UDiv | Op::Extract | Op::Concat) && w > 1 && w <= 64 && y < mask(w) {
                // a quotient equal to y: in [y, y + 1)
                if let Some(up) = self.quot_below(a, y + 1) {
                    if y == 0 {
                        return up;
                    }
                    if let Some(below) = self.quot_below(a, y) {
                        let nb = self.not(below);
                        return self.and(up, nb);
                    }
                }
            }
            if na.op == Op::Const {
                return self.boolc(na.k == y);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::Concat => {
                    let wb = self.w(na.b);
                    let bh = self.cst(y >> wb, w - wb);
                    let bl = self.cst(y, wb);
                    let h = self.eq(na.a, bh);
                    if h == self.ff {
                        return h;
                    }
                    let l = self.eq(na.b, bl);
                    return self.and(h, l);
                }
                Op::SExt => {
                    let wa = self.w(na.a);
                    let lo = y & mask(wa);
                    if (sx(lo, wa) as u128) & mask(w) != y {
                        return self.ff;
                    }
                    let c = self.cst(lo, wa);
                    return self.eq(na.a, c);
                }
                Op::Ite => {
                    let mut bud = 64;
                    if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() || self.const_tree(a, &mut bud) {
                        let x = self.eq(na.b, b);
                        let z = self.eq(na.c, b);
                        return self.ite(na.a, x, z);
                    }
                }
                Op::Xor => {
                    if let Some(k) = self.as_const(na.b) {
                        let c = self.cst(k ^ y, w);
                        return self.eq(na.a, c);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Add | Op::Sub => {
                    if let Some(k) = self.as_const(na.b) {
                        if na.op == Op::Add {
                            let c = self.cst(y.wrapping_sub(k), w);
                            return self.eq(na.a, c);
                        }
                    }
                    if na.op == Op::Sub {
                        // k - x == y  ->  x == k - y
                        if let Some(k) = self.as_const(na.a) {
                            let c = self.cst(k.wrapping_sub(y), w);
                            return self.eq(na.b, c);
                        }
                        if y == 0 {
                            return self.eq(na.a, na.b);
                        }
                    }
                }
                Op::Or => {
                    if y == 0 {
                        let z = self.cst(0, w);
                        let p = self.eq(na.a, z);
                        let q = self.eq(na.b, z);
                        return self.and(p, q);
                    }
                }
                _ => {}
            }
        } else {
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if w > 1 && (matches!(na.op, Op::Add | Op::Sub) || matches!(nb.op, Op::Add | Op::Sub)) {
                let m = mask(w);
                let mut t = vec![];
                let mut c = 0;
                if self.lin_collect(a, 1, m, &mut t, &mut c, 0) && self.lin_collect(b, m, m, &mut t, &mut c, 0) {
                    t.retain(|x| x.1 != 0);
                    if t.is_empty() {
                        return self.boolc(c == 0);
                    }
                    if t.len() == 1 && (t[0].1 == 1 || t[0].1 == m) {
                        let v = if t[0].1 == 1 { c.wrapping_neg() } else { c };
                        let ce = self.cst(v, w);
                        return self.eq(t[0].0, ce);
                    }
                    if t.len() == 2 && c == 0 && (t[0].1.wrapping_add(t[1].1)) & m == 0 && (t[0].1 == 1 || t[0].1 == m) {
                        let (p, q) = (t[0].0.min(t[1].0), t[0].0.max(t[1].0));
                        if (p, q) != (a, b) {
                            return self.eq(p, q);
                        }
                    }
                }
            }
            if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                let x = self.eq(na.b, nb.b);
                let y = self.eq(na.c, nb.c);
                return self.ite(na.a, x, y);
            }
            if na.op == Op::Ite && (na.b == b || na.c == b) {
                let x = self.eq(na.b, b);
                let y = self.eq(na.c, b);
                return self.ite(na.a, x, y);
            }
            if nb.op == Op::Ite && (nb.b == a || nb.c == a) {
                let x = self.eq(nb.b, a);
                let y = self.eq(nb.c, a);
                return self.ite(nb.a, x, y);
            }
        }
        self.raw2(Op::Eq, 1, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    fn cmp_lift(&mut self, a: E, b: E, f: &dyn Fn(&mut Self, E, E) -> E) -> Option<E> {
        let mut bud = 64;
        if self.n(a).op == Op::Ite && self.as_const(b).is_some() && self.const_tree(a, &mut bud) {
            return Some(self.map_tree(a, &|s, x| f(s, x, b)));
        }
        let mut bud = 64;
        if self.n(b).op == Op::Ite && self.as_const(a).is_some() && self.const_tree(b, &mut bud) {
            return Some(self.map_tree(b, &|s, x| f(s, a, x)));
        }
        None
    }
    /// `q < y` for a quotient `q = a / b` (or the upper bits of one) without the division:
    /// a / b < y  <=>  a < y * b, also for b = 0 when a / 0 is all ones (y <= all ones)
    fn quot_below(&mut self, q: E, y: u128) -> Option<E> {
        let w = self.w(q);
        let n = *self.n(q);
        match n.op {
            Op::UDiv if y != 0 && self.as_const(n.b).is_none() => {
                let bh = self.info[n.b as usize].hi;
                if let Some(p) = bh.checked_mul(y) {
                    if p <= mask(w) {
                        let c = self.cst(y, w);
                        let m = self.mul(n.b, c);
                        return Some(self.ult(n.a, m));
                    }
                }
                if w > 32 {
                    return None;
                }
                let (za, zb) = (self.zext(n.a, 2 * w), self.zext(n.b, 2 * w));
                let c = self.cst(y, 2 * w);
                let m = self.mul(zb, c);
                Some(self.ult(za, m))
            }
            // upper bits: (q >> lo) < y  <=>  q < y << lo
            Op::Extract => {
                let x = n.a;
                let (lo, wx) = (n.k as u16, self.w(x));
                if self.n(x).op != Op::UDiv || lo + w != wx || y == 0 || y > mask(w) {
                    return None;
                }
                self.quot_below(x, y << lo)
            }
            Op::Concat if self.as_const(n.a) == Some(0) => {
                let x = *self.n(n.b);
                if x.op == Op::Extract && self.n(x.a).op == Op::UDiv {
                    self.quot_below(n.b, y)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff;
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi < ib.lo {
            return self.tt;
        }
        if ia.lo >= ib.hi {
            return self.ff;
        }
        let w = self.w(a);
        let (na, nb) = (*self.n(a), *self.n(b));
        if let Some(y) = self.as_const(b) {
            if let Some(r) = self.quot_below(a, y) {
                return r;
            }
            if y == 1 {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            // concat(0,x) < y
            if na.op == Op::Concat && self.as_const(na.a) == Some(0) {
                let wb = self.w(na.b);
                let c = self.cst(y, wb);
                return self.ult(na.b, c);
            }
            // concat(x, low) < y with low bits of y zero -> x < y>>k
            if na.op == Op::Concat {
                let wb = self.w(na.b);
                if y & mask(wb) == 0 {
                    let c = self.cst(y >> wb, w - wb);
                    return self.ult(na.a, c);
                }
            }
        }
        if let Some(x) = self.as_const(a) {
            if x < mask(w) {
                if let Some(r) = self.quot_below(b, x + 1) {
                    return self.not(r);
                }
            }
            if x == mask(w) - 1 {
                let z = self.cst(mask(w), w);
                return self.eq(b, z);
            }
            if x == 0 {
                let z = self.cst(0, w);
                return self.ne(b, z);
            }
            if nb.op == Op::Concat && self.as_const(nb.a) == Some(0) {
                let wb = self.w(nb.b);
                let c = self.cst(x, wb);
                return self.ult(c, nb.b);
            }
        }
        if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a {
            return self.ult(na.b, nb.b);
        }
        if let Some(r) = self.cmp_lift(a, b, &|s, x, y| s.ult(x, y)) {
            return r;
        }
        self.raw2(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt;
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        if ia.hi <= ib.lo {
            return self.tt;
        }
        if ia.lo > ib.hi {
            return self.ff;
        }
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            // a <= y  ->  a < y+1
            if y != mask(w) {
                let c = self.cst(y + 1, w);
                return self.ult(a, c);
            }
        }
        if let Some(x) = self.as_const(a) {
            if x != 0 {
                let c = self.cst(x - 1, w);
                return self.ult(c, b);
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a {
            return self.ule(na.b, nb.b);
        }
        self.raw2(Op::Ule, 1, a, b)
    }
    pub fn srange(&self, e: E) -> (i128, i128) {
        self.srange_d(e, 0)
    }
    fn srange_d(&self, e: E, d: u32) -> (i128, i128) {
        let n = *self.n(e);
        let w = n.w;
        let i = self.info[e as usize];
        let sb = 1u128 << (w - 1);
        if i.hi < sb {
            return (i.lo as i128, i.hi as i128);
        }
        if i.lo >= sb {
            return (sx(i.lo, w), sx(i.hi, w));
        }
        let full = (sx(sb, w), (sb - 1) as i128);
        if d > 8 || w > 120 {
            return full;
        }
        let r = match n.op {
            Op::SExt => self.srange_d(n.a, d + 1),
            Op::Ite => {
                let x = self.srange_d(n.b, d + 1);
                let y = self.srange_d(n.c, d + 1);
                (x.0.min(y.0), x.1.max(y.1))
            }
            Op::Add => {
                let x = self.srange_d(n.a, d + 1);
                let y = self.srange_d(n.b, d + 1);
                (x.0 + y.0, x.1 + y.1)
            }
            Op::Sub => {
                let x = self.srange_d(n.a, d + 1);
                let y = self.srange_d(n.b, d + 1);
                (x.0 - y.1, x.1 - y.0)
            }
            Op::Mul if w <= 64 => {
                let x = self.srange_d(n.a, d + 1);
                let y = self.srange_d(n.b, d + 1);
                match (x.0.checked_mul(y.0), x.0.checked_mul(y.1), x.1.checked_mul(y.0), x.1.checked_mul(y.1)) {
                    (Some(a), Some(b), Some(c), Some(d)) => (a.min(b).min(c).min(d), a.max(b).max(c).max(d)),
                    _ => full,
                }
            }
            _ => full,
        };
        if r.0 < full.0 || r.1 > full.1 {
            full
        } else {
            r
        }
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff;
        }
        let (ra, rb) = (self.srange(a), self.srange(b));
        if ra.1 < rb.0 {
            return self.tt;
        }
        if ra.0 >= rb.1 {
            return self.ff;
        }
        let w = self.w(a);
        if ra.0 >= 0 && rb.0 >= 0 {
            return self.ult(a, b);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if let Some(y) = self.as_const(b) {
            if y == 0 {
                let s = self.extract(a, w - 1, 1);
                return s;
            }
            if na.op == Op::SExt {
                // constant fits in narrower width (ranges already excluded others)
                let wa = self.w(na.a);
                let c = self.cst(y, wa);
                return self.slt(na.a, c);
            }
        }
        if let Some(x) = self.as_const(a) {
            if x == mask(w) {
                // -1 < b  <=> b >= 0
                let s = self.extract(b, w - 1, 1);
                return self.not(s);
            }
            if nb.op == Op::SExt {
                let wb = self.w(nb.a);
                let c = self.cst(x, wb);
                return self.slt(c, nb.a);
            }
        }
        if let Some(r) = self.cmp_lift(a, b, &|s, x, y| s.slt(x, y)) {
            return r;
        }
        self.raw2(Op::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt;
        }
        let (ra, rb) = (self.srange(a), self.srange(b));
        if ra.1 <= rb.0 {
            return self.tt;
        }
        if ra.0 > rb.1 {
            return self.ff;
        }
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y != mask(w) >> 1 {
                let c = self.cst(y.wrapping_add(1), w);
                return self.slt(a, c);
            }
        }
        if let Some(x) = self.as_const(a) {
            if x != 1u128 << (w - 1) {
                let c = self.cst(x.wrapping_sub(1), w);
                return self.slt(c, b);
            }
        }
        if ra.0 >= 0 && rb.0 >= 0 {
            return self.ule(a, b);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.sle(na.a, nb.a);
        }
        self.raw2(Op::Sle, 1, a, b)
    }
    /// an equal expression, rebuilt with extractions pushed towards the leaves
    pub fn norm(&mut self, e: E) -> E {
        self.narrow = true;
        let r = self.norm_rec(e);
        self.narrow = false;
        r
    }
    fn norm_rec(&mut self, e: E) -> E {
        if let Some(r) = self.ncache.get(&e) {
            return *r;
        }
        let n = *self.n(e);
        if matches!(n.op, Op::Const | Op::Var | Op::Nil | Op::Uf) {
            return e;
        }
        let a = if n.a != 0 { self.norm_rec(n.a) } else { 0 };
        let r = if n.op == Op::Ite && a == self.tt {
            self.norm_rec(n.b)
        } else if n.op == Op::Ite && a == self.ff {
            self.norm_rec(n.c)
        } else {
            let b = if n.b != 0 { self.norm_rec(n.b) } else { 0 };
            let c = if n.c != 0 { self.norm_rec(n.c) } else { 0 };
            match n.op {
                Op::Add => self.add(a, b),
                Op::Sub => self.sub(a, b),
                Op::Mul => self.mul(a, b),
                Op::And => self.and(a, b),
                Op::Or => self.or(a, b),
                Op::Xor => self.xor(a, b),
                Op::Concat => self.concat(a, b),
                Op::Extract => self.extract(a, n.k as u16, n.w),
                Op::SExt => self.sext(a, n.w),
                Op::Eq => self.eq(a, b),
                Op::Ult => self.ult(a, b),
                Op::Ule => self.ule(a, b),
                Op::Slt => self.slt(a, b),
                Op::Sle => self.sle(a, b),
                Op::Ite => self.ite(a, b, c),
                Op::Mix => self.mix(a, b),
                _ => self.mk(Node { a, b, c, ..n }),
            }
        };
        self.ncache.insert(e, r);
        r
    }
    pub fn mix(&mut self, a: E, b: E) -> E {
        self.raw2(Op::Mix, 64, a, b)
    }
    fn has_mix(&self, e: E, bud: &mut u32) -> bool {
        if *bud == 0 {
            return false;
        }
        *bud -= 1;
        let n = self.n(e);
        match n.op {
            Op::Mix => true,
            Op::Ite => self.has_mix(n.b, bud) || self.has_mix(n.c, bud),
            _ => false,
        }
    }
    pub fn uf(&mut self, kind: u32, w: u16, a: E, b: E) -> E {
        self.mk(Node { op: Op::Uf, w, a, b, c: 0, k: kind as u128 })
    }

    /// variables (and uninterpreted applications, encoded as 0x8000_0000|node) of e
    pub fn vars(&mut self, e: E) -> Rc<[u32]> {
        if let Some(v) = &self.vars_cache[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars_cache[x as usize].is_some() {
                continue;
            }
            let n = *self.n(x);
            if !done {
                stack.push((x, true));
                for k in [n.a, n.b, n.c] {
                    if k != 0 && self.vars_cache[k as usize].is_none() {
                        stack.push((k, false));
                    }
                }
            } else {
                let mut v: Vec<u32> = vec![];
                if n.op == Op::Var {
                    v.push(n.k as u32);
                }
                if n.op == Op::Uf {
                    v.push(0x8000_0000 | x);
                }
                let kids: Vec<Rc<[u32]>> = [n.a, n.b, n.c]
                    .iter()
                    .filter(|k| **k != 0)
                    .map(|k| self.vars_cache[*k as usize].clone().unwrap())
                    .filter(|r| !r.is_empty())
                    .collect();
                if v.is_empty() && kids.len() == 1 {
                    self.vars_cache[x as usize] = Some(kids[0].clone());
                    continue;
                }
                for k in &kids {
                    v.extend_from_slice(k);
                }
                v.sort_unstable();
                v.dedup();
                // share with a kid if identical
                let shared = kids.iter().find(|k| k.len() == v.len()).cloned();
                self.vars_cache[x as usize] = Some(shared.unwrap_or_else(|| v.into()));
            }
        }
        self.vars_cache[e as usize].clone().unwrap()
    }

    pub fn eval_op(n: &Node, a: u128, b: u128, c: u128, wa: u16, wb: u16) -> u128 {
        let w = n.w;
        let m = mask(w);
        (match n.op {
            Op::Const => n.k,
            Op::Add => a.wrapping_add(b),
            Op::Mix => a.wrapping_mul(31).wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => (sx(a, w) >> b.min(w as u128 - 1)) as u128,
            Op::Concat => (a << wb) | b,
            Op::Extract => a >> n.k,
            Op::SExt => sx(a, wa) as u128,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sx(a, wa) < sx(b, wb)) as u128,
            Op::Sle => (sx(a, wa) <= sx(b, wb)) as u128,
            Op::Ite => {
                if a != 0 {
                    b
                } else {
                    c
                }
            }
            Op::Nil | Op::Var | Op::Uf => 0,
        }) & m
    }
}

/// Evaluates expressions under a (partial) assignment; unassigned variables are 0.
pub struct Evaluator<'a> {
    pub cx: &'a Ctx,
    pub vals: &'a FxMap<u32, u128>,
    cache: FxMap<E, u128>,
}
impl<'a> Evaluator<'a> {
    pub fn new(cx: &'a Ctx, vals: &'a FxMap<u32, u128>) -> Self {
        Evaluator { cx, vals, cache: FxMap::default() }
    }
    pub fn eval(&mut self, e: E) -> u128 {
        let n = *self.cx.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.vals.get(&(n.k as u32)).copied().unwrap_or(0) & mask(n.w),
            Op::Uf => {
                return self.vals.get(&(0x8000_0000 | e)).copied().unwrap_or(0) & mask(n.w)
            }
            _ => {}
        }
        if let Some(v) = self.cache.get(&e) {
            return *v;
        }
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.get(x).is_some() {
                continue;
            }
            let n = *self.cx.n(x);
            if !done {
                stack.push((x, true));
                if n.op == Op::Ite {
                    // lazily: evaluate the condition first
                    match self.get(n.a) {
                        None => stack.push((n.a, false)),
                        Some(v) => {
                            let k = if v != 0 { n.b } else { n.c };
                            if self.get(k).is_none() {
                                stack.push((k, false));
                            }
                        }
                    }
                } else {
                    for k in [n.a, n.b, n.c] {
                        if k != 0 && self.get(k).is_none() {
                            stack.push((k, false));
                        }
                    }
                }
            } else if n.op == Op::Ite {
                match self.get(n.a) {
                    None => stack.push((x, false)),
                    Some(v) => {
                        let k = if v != 0 { n.b } else { n.c };
                        match self.get(k) {
                            Some(r) => {
                                self.cache.insert(x, r);
                            }
                            None => stack.push((x, false)),
                        }
                    }
                }
            } else {
                let a = if n.a != 0 { self.get(n.a).unwrap() } else { 0 };
                let b = if n.b != 0 { self.get(n.b).unwrap() } else { 0 };
                let c = if n.c != 0 { self.get(n.c).unwrap() } else { 0 };
                let (wa, wb) = (self.cx.w(n.a), self.cx.w(n.b));
                let r = Ctx::eval_op(&n, a, b, c, wa, wb);
                self.cache.insert(x, r);
            }
        }
        self.cache[&e]
    }
    fn get(&self, e: E) -> Option<u128> {
        let n = self.cx.n(e);
        match n.op {
            Op::Const => Some(n.k),
            Op::Var => Some(self.vals.get(&(n.k as u32)).copied().unwrap_or(0) & mask(n.w)),
            Op::Uf => Some(self.vals.get(&(0x8000_0000 | e)).copied().unwrap_or(0) & mask(n.w)),
            _ => self.cache.get(&e).copied(),
        }
    }
}
