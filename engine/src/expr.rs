//! Hash-consed bit-vector expressions over the symbolic input bytes.
//!
//! Every constructor simplifies; whatever it returns is semantically the same function of the
//! input. `eval` is an independent evaluator, used to cross-check both the simplifier (against the
//! concrete value the interpreter carries along) and the models the solver returns.

use std::collections::HashMap;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
    UMulOvf,
    SMulOvf,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    /// Const: the value. Var: input byte index. Extract: low bit.
    pub k: u128,
}

pub type VarSet = [u64; 4];

pub struct Table {
    pub nodes: Vec<Node>,
    pub sup: Vec<VarSet>,
    /// Number of leaves of a tree of `Ite` over constants, 0 for everything else.
    leaves: Vec<u16>,
    map: HashMap<Node, Ex, Fx>,
}

#[derive(Default, Clone)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// Concrete semantics of the binary operators, shared by the interpreter and by `eval`.
pub fn cbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        // SMT-LIB semantics for the division by zero, the interpreter never gets there
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 { 1 } else { m }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::UMulOvf => {
            if w <= 64 {
                (a * b > m) as u128
            } else {
                match a.checked_mul(b) {
                    Some(v) => (v > m) as u128,
                    None => 1,
                }
            }
        }
        Op::SMulOvf => match sext(a, w).checked_mul(sext(b, w)) {
            Some(v) => (sext((v as u128) & m, w) != v) as u128,
            None => 1,
        },
        _ => unreachable!("cbin {op:?}"),
    }
}

impl Table {
    pub fn new() -> Self {
        let mut t = Self {
            nodes: Vec::new(),
            sup: Vec::new(),
            leaves: vec![0],
            map: HashMap::with_hasher(Fx),
        };
        // slot 0 is reserved as "no expression"
        t.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        t.sup.push([0; 4]);
        // the variables always occupy the slots 1..=256
        for i in 0..256 {
            t.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i });
        }
        t
    }

    pub fn len(&self) -> usize {
        self.nodes.len()
    }

    fn intern(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as Ex;
        let mut s = [0u64; 4];
        if n.op == Op::Var {
            s[(n.k / 64) as usize] |= 1 << (n.k % 64);
        } else {
            for x in [n.a, n.b, n.c] {
                if x != 0 {
                    let o = self.sup[x as usize];
                    for i in 0..4 {
                        s[i] |= o[i];
                    }
                }
            }
        }
        let l = match n.op {
            Op::Const => 1,
            Op::Ite => match (self.leaves[n.b as usize], self.leaves[n.c as usize]) {
                (0, _) | (_, 0) => 0,
                (x, y) if x + y > 160 => 0,
                (x, y) => x + y,
            },
            _ => 0,
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.leaves.push(l);
        self.map.insert(n, e);
        e
    }

    pub fn n(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        (n.op == Op::Const).then_some(n.k)
    }

    pub fn c(&mut self, w: u32, k: u128) -> Ex {
        assert!(w > 0 && w <= 128, "constant width {w}");
        self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&self, i: u32) -> Ex {
        assert!(i < 256);
        i + 1
    }
    fn raw(&mut self, op: Op, w: u32, a: Ex, b: Ex, c: Ex) -> Ex {
        self.intern(Node { op, w: w as u16, a, b, c, k: 0 })
    }

    /// A proper tree of `Ite` over constants (not just a constant).
    fn ctree(&self, e: Ex) -> bool {
        self.leaves[e as usize] > 1
    }

    /// Apply a function to every leaf of such a tree.
    fn map_leaves(&mut self, e: Ex, f: &mut dyn FnMut(&mut Self, Ex) -> Ex) -> Ex {
        let n = self.n(e);
        if n.op == Op::Const {
            return f(self, e);
        }
        let x = self.map_leaves(n.b, f);
        let y = self.map_leaves(n.c, f);
        self.ite(n.a, x, y)
    }

    pub fn not(&mut self, a: Ex) -> Ex {
        let n = self.n(a);
        match n.op {
            Op::Ite if n.w > 1 && self.ctree(a) => self.map_leaves(a, &mut |t, e| t.not(e)),
            Op::Const => self.c(n.w as u32, !n.k),
            Op::Not => n.a,
            _ => self.raw(Op::Not, n.w as u32, a, 0, 0),
        }
    }

    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let n = self.n(a);
        let aw = n.w as u32;
        assert!(lo + w <= aw, "extract {lo}+{w} of {aw}");
        if w == aw {
            return a;
        }
        match n.op {
            Op::Ite if self.ctree(a) => self.map_leaves(a, &mut |t, e| t.extract(e, lo, w)),
            Op::Const => self.c(w, n.k >> lo),
            Op::Extract => self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw {
                    self.extract(n.a, lo - bw, w)
                } else if lo + w <= bw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, bw - lo);
                    let h = self.extract(n.a, 0, lo + w - bw);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let bw = self.w(n.a);
                if lo >= bw {
                    self.c(w, 0)
                } else if lo + w <= bw {
                    self.extract(n.a, lo, w)
                } else {
                    let l = self.extract(n.a, lo, bw - lo);
                    self.zext(l, w)
                }
            }
            Op::SExt => {
                let bw = self.w(n.a);
                if lo + w <= bw {
                    self.extract(n.a, lo, w)
                } else if lo < bw {
                    let l = self.extract(n.a, lo, bw - lo);
                    self.sxt(l, w)
                } else {
                    let l = self.extract(n.a, bw - 1, 1);
                    self.sxt(l, w)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite if self.konst(n.b).is_some() || self.konst(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            _ => self.intern(Node { op: Op::Extract, w: w as u16, a, b: 0, c: 0, k: lo as u128 }),
        }
    }

    pub fn concat(&mut self, hi: Ex, lo: Ex) -> Ex {
        let (h, l) = (self.n(hi), self.n(lo));
        let w = h.w as u32 + l.w as u32;
        if h.op == Op::Const && l.op == Op::Const && w <= 128 {
            return self.c(w, (h.k << l.w) | l.k);
        }
        if h.op == Op::Const && h.k == 0 {
            return self.zext(lo, w);
        }
        if h.op == Op::ZExt {
            let i = self.concat(h.a, lo);
            return self.zext(i, w);
        }
        // re-associate to the right: concat(concat(a,b),c) = concat(a, concat(b,c))
        if h.op == Op::Concat {
            let r = self.concat(h.b, lo);
            return self.concat(h.a, r);
        }
        // adjacent extracts
        let join = |t: &mut Self, x: Ex, y: Ex| -> Option<Ex> {
            let (p, q) = (t.n(x), t.n(y));
            if p.op == Op::Extract && q.op == Op::Extract && p.a == q.a && p.k == q.k + q.w as u128 {
                return Some(t.extract(p.a, q.k as u32, p.w as u32 + q.w as u32));
            }
            if p.op == Op::Extract && p.a == y && p.k == q.w as u128 {
                return None;
            }
            None
        };
        if let Some(j) = join(self, hi, lo) {
            return j;
        }
        if l.op == Op::Concat {
            if let Some(j) = join(self, hi, l.a) {
                return self.concat(j, l.b);
            }
            let m = self.n(l.a);
            if h.op == Op::Const && m.op == Op::Const && h.w as u32 + m.w as u32 <= 128 {
                let k = self.c(h.w as u32 + m.w as u32, (h.k << m.w) | m.k);
                return self.concat(k, l.b);
            }
        }
        self.raw(Op::Concat, w, hi, lo, 0)
    }

    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const if w <= 128 => self.c(w, n.k),
            Op::Ite if w <= 128 && self.ctree(a) => self.map_leaves(a, &mut |t, e| t.zext(e, w)),
            Op::ZExt => self.raw(Op::ZExt, w, n.a, 0, 0),
            _ => self.raw(Op::ZExt, w, a, 0, 0),
        }
    }

    pub fn sxt(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const if w <= 128 => self.c(w, sext(n.k, n.w as u32) as u128),
            Op::Ite if w <= 128 && self.ctree(a) => self.map_leaves(a, &mut |t, e| t.sxt(e, w)),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.raw(Op::SExt, w, n.a, 0, 0),
            _ => self.raw(Op::SExt, w, a, 0, 0),
        }
    }

    /// Flatten into segments from low to high: (offset, width, expr).
    fn segs(&self, e: Ex, off: u32, out: &mut Vec<(u32, u32, Option<Ex>)>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                self.segs(n.b, off, out);
                self.segs(n.a, off + self.w(n.b), out);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                self.segs(n.a, off, out);
                out.push((off + iw, n.w as u32 - iw, None));
            }
            Op::Const if n.k == 0 => out.push((off, n.w as u32, None)),
            _ => out.push((off, n.w as u32, Some(e))),
        }
    }

    fn segwise(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        let (mut sa, mut sb) = (Vec::new(), Vec::new());
        self.segs(a, 0, &mut sa);
        self.segs(b, 0, &mut sb);
        if sa.len() + sb.len() < 3 || sa.len() + sb.len() > 64 {
            return None;
        }
        let mut cuts: Vec<u32> = sa.iter().chain(&sb).map(|s| s.0).collect();
        cuts.push(w);
        cuts.sort_unstable();
        cuts.dedup();
        let find = |s: &[(u32, u32, Option<Ex>)], o: u32| *s.iter().rev().find(|x| x.0 <= o).unwrap();
        // only worthwhile when every piece collapses
        for c in cuts.windows(2) {
            let (x, y) = (find(&sa, c[0]), find(&sb, c[0]));
            if x.2.is_some() && y.2.is_some() {
                let kx = self.konst(x.2.unwrap()).is_some();
                let ky = self.konst(y.2.unwrap()).is_some();
                if !(kx && ky) {
                    return None;
                }
            }
        }
        let mut res: Option<Ex> = None;
        for c in cuts.windows(2) {
            let (o, pw) = (c[0], c[1] - c[0]);
            let (x, y) = (find(&sa, o), find(&sb, o));
            let get = |t: &mut Self, s: (u32, u32, Option<Ex>)| match s.2 {
                None => t.c(pw, 0),
                Some(e) => t.extract(e, o - s.0, pw),
            };
            let piece = match (x.2, y.2) {
                (None, None) => self.c(pw, 0),
                (Some(_), None) => {
                    if op == Op::And { self.c(pw, 0) } else { get(self, x) }
                }
                (None, Some(_)) => {
                    if op == Op::And { self.c(pw, 0) } else { get(self, y) }
                }
                _ => {
                    let (p, q) = (get(self, x), get(self, y));
                    let (p, q) = (self.konst(p).unwrap(), self.konst(q).unwrap());
                    self.c(pw, cbin(op, pw, p, q))
                }
            };
            res = Some(match res {
                None => piece,
                Some(r) => self.concat(piece, r),
            });
        }
        res
    }

    pub fn bin(&mut self, op: Op, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "width mismatch in {op:?}");
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt | Op::UMulOvf | Op::SMulOvf => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            return self.c(rw, cbin(op, w, x, y));
        }
        let comm = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq | Op::UMulOvf | Op::SMulOvf);
        if comm && (self.konst(a).is_some() || (self.konst(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        if self.ctree(a) && self.konst(b).is_some() {
            return self.map_leaves(a, &mut |t, e| t.bin(op, e, b));
        }
        if self.ctree(b) && self.konst(a).is_some() {
            return self.map_leaves(b, &mut |t, e| t.bin(op, a, e));
        }
        let kb = self.konst(b);
        let na = self.n(a);
        let m = mask(w);
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // contiguous mask -> extract
                    let lo = k.trailing_zeros();
                    let run = (k >> lo).trailing_ones();
                    if (k >> lo) == mask(run) {
                        let x = self.extract(a, lo, run);
                        let x = self.zext(x, w - lo);
                        if lo == 0 {
                            return x;
                        }
                        let z = self.c(lo, 0);
                        return self.concat(x, z);
                    }
                }
                if let Some(r) = self.segwise(op, a, b) {
                    return r;
                }
                if w == 1 {
                    let nb = self.n(b);
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.c(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b || kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if let Some(r) = self.segwise(op, a, b) {
                    return r;
                }
                // x | mask with contiguous ones at the top or the bottom
                if let Some(k) = kb {
                    let lo = k.trailing_zeros();
                    let run = (k >> lo).trailing_ones();
                    if (k >> lo) == mask(run) {
                        let ones = self.c(run, !0);
                        let mut r = ones;
                        if lo > 0 {
                            let l = self.extract(a, 0, lo);
                            r = self.concat(ones, l);
                        }
                        if lo + run < w {
                            let h = self.extract(a, lo + run, w - lo - run);
                            r = self.concat(h, r);
                        }
                        return r;
                    }
                }
                if w == 1 {
                    let nb = self.n(b);
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.c(1, 1);
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return self.not(a);
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.konst(na.b) {
                            let c = self.c(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                }
                if let Some(r) = self.segwise(op, a, b) {
                    return r;
                }
            }
            Op::Add => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.konst(na.b) {
                            let c = self.c(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.c(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k != 0 && k.is_power_of_two() {
                        let c = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, c);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k != 0 && k.is_power_of_two() {
                        let c = self.c(w, k - 1);
                        return self.bin(Op::And, a, c);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let x = self.extract(a, 0, w - k as u32);
                    let z = self.c(k as u32, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1);
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.sxt(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if let Some(k) = kb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k >> iw != 0 {
                                return self.c(1, 0);
                            }
                            let c = self.c(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if (sext(k & mask(iw), iw) as u128) & m != k {
                                return self.c(1, 0);
                            }
                            let c = self.c(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let bw = self.w(na.b);
                            let kl = self.c(bw, k);
                            let l = self.bin(Op::Eq, na.b, kl);
                            if self.konst(l) == Some(0) {
                                return l;
                            }
                            let kh = self.c(w - bw, k >> bw);
                            let h = self.bin(Op::Eq, na.a, kh);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let (x, y) = (self.konst(na.b), self.konst(na.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, na.b, b);
                                let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        Op::Add | Op::Xor => {
                            if let Some(k2) = self.konst(na.b) {
                                let nk = if na.op == Op::Add { k.wrapping_sub(k2) } else { k ^ k2 };
                                let c = self.c(w, nk);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Not => {
                            let c = self.c(w, !k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        return self.bin(Op::And, h, l);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.c(1, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return self.c(1, 0);
                    }
                    if k == 1 {
                        let z = self.c(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if k == m {
                        let e = self.bin(Op::Eq, a, b);
                        return self.not(e);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.c(1, 1);
                        }
                        let c = self.c(iw, k);
                        return self.bin(Op::Ult, na.a, c);
                    }
                    if na.op == Op::Ite && (self.konst(na.b).is_some() || self.konst(na.c).is_some()) {
                        let p = self.bin(Op::Ult, na.b, b);
                        let q = self.bin(Op::Ult, na.c, b);
                        return self.ite(na.a, p, q);
                    }
                    // x < 2^j  <=>  the high bits are zero
                    if k.is_power_of_two() {
                        let j = k.trailing_zeros();
                        let h = self.extract(a, j, w - j);
                        let z = self.c(w - j, 0);
                        return self.bin(Op::Eq, h, z);
                    }
                }
                if let Some(k) = na.op.eq(&Op::Const).then_some(na.k) {
                    let nb = self.n(b);
                    if k == m {
                        return self.c(1, 0);
                    }
                    if k == 0 {
                        let e = self.bin(Op::Eq, b, a);
                        return self.not(e);
                    }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if k >= mask(iw) {
                            return self.c(1, 0);
                        }
                        let c = self.c(iw, k);
                        return self.bin(Op::Ult, c, nb.a);
                    }
                    if nb.op == Op::Ite && (self.konst(nb.b).is_some() || self.konst(nb.c).is_some()) {
                        let p = self.bin(Op::Ult, a, nb.b);
                        let q = self.bin(Op::Ult, a, nb.c);
                        return self.ite(nb.a, p, q);
                    }
                    // 2^j - 1 < x  <=>  some high bit is set
                    if (k + 1).is_power_of_two() {
                        let j = (k + 1).trailing_zeros();
                        let h = self.extract(b, j, w - j);
                        let z = self.c(w - j, 0);
                        let e = self.bin(Op::Eq, h, z);
                        return self.not(e);
                    }
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.c(1, 0);
                }
                if kb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                let nb = self.n(b);
                let pos = |n: &Node| n.op == Op::ZExt || (n.op == Op::Const && n.k >> (n.w - 1) == 0);
                if pos(&na) && pos(&nb) {
                    return self.bin(Op::Ult, a, b);
                }
                if na.op == Op::Const && na.k == m {
                    // -1 < x
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
            }
            Op::UMulOvf => {
                if kb == Some(0) || kb == Some(1) {
                    return self.c(1, 0);
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0)
    }

    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.konst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // equal leaves next to each other share one condition
        let (ia, ib) = (self.n(a), self.n(b));
        if ib.op == Op::Ite && ib.b == a {
            let d = self.bin(Op::Or, c, ib.a);
            return self.ite(d, a, ib.c);
        }
        if ia.op == Op::Ite && ia.c == b {
            let d = self.bin(Op::And, c, ia.a);
            return self.ite(d, ia.b, b);
        }
        self.raw(Op::Ite, w, c, a, b)
    }

    /// Evaluate under a concrete input. `memo` maps expression -> value for this input.
    pub fn eval(&self, e: Ex, input: &dyn Fn(u32) -> u8, memo: &mut HashMap<Ex, u128, Fx>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return input(n.k as u32) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Not => !self.eval(n.a, input, memo) & mask(w),
            Op::Concat => {
                let h = self.eval(n.a, input, memo);
                let l = self.eval(n.b, input, memo);
                let lw = self.w(n.b);
                if lw >= 128 {
                    l
                } else {
                    ((h << lw) | l) & mask(w)
                }
            }
            Op::Extract => (self.eval(n.a, input, memo) >> n.k as u32) & mask(w),
            Op::ZExt => self.eval(n.a, input, memo),
            Op::SExt => (sext(self.eval(n.a, input, memo), self.w(n.a)) as u128) & mask(w),
            Op::Ite => {
                if self.eval(n.a, input, memo) == 1 {
                    self.eval(n.b, input, memo)
                } else {
                    self.eval(n.c, input, memo)
                }
            }
            op => {
                let x = self.eval(n.a, input, memo);
                let y = self.eval(n.b, input, memo);
                cbin(op, self.w(n.a), x, y)
            }
        };
        memo.insert(e, v);
        v
    }

    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return format!("#{e}");
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("in[{}]", n.k),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            op => {
                let mut s = format!("({op:?}:{}", n.w);
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s.push(' ');
                        s += &self.show(x, depth - 1);
                    }
                }
                s.push(')');
                s
            }
        }
    }
}
