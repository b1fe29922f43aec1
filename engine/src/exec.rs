//! The interpreter: runs one path of a harness entry point concretely and symbolically at once.

use crate::expr::{cbin, mask, sext, Ex, Fx, Op, Table, VarSet};
use crate::ir::*;
use crate::z3::{Solver, Verdict};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::Instant;

pub struct Config {
    pub max_steps: u64,
    pub max_heap: u64,
    pub max_one_alloc: u64,
    pub selfcheck: bool,
}

#[derive(Clone, Debug)]
pub struct Work {
    pub input: Vec<u8>,
    /// Number of decisions fixed by the prefix (0 for the root).
    pub bound: usize,
    /// Values already taken at decision `bound - 1`, when that is a value decision.
    pub excl: Vec<u128>,
    /// Rolling hash over the places of the first `bound - 1` decisions.
    pub hash: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub what: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}

#[derive(Debug)]
pub enum End {
    Done,
    Assume,
    Violation(Violation),
    Inconclusive(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub assumed_away: u64,
    pub steps: u64,
    pub decisions: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_cached: u64,
    pub solver_ns: u64,
    pub max_query_ns: u64,
    pub max_vars: u64,
    pub covers: HashMap<String, u64>,
    pub check_sites: HashMap<String, (u64, u64)>,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.done += o.done;
        self.assumed_away += o.assumed_away;
        self.steps += o.steps;
        self.decisions += o.decisions;
        self.checks += o.checks;
        self.checks_solver += o.checks_solver;
        self.q_sat += o.q_sat;
        self.q_unsat += o.q_unsat;
        self.q_unknown += o.q_unknown;
        self.q_cached += o.q_cached;
        self.solver_ns += o.solver_ns;
        self.max_query_ns = self.max_query_ns.max(o.max_query_ns);
        self.max_vars = self.max_vars.max(o.max_vars);
        for (k, v) in &o.covers {
            *self.covers.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.check_sites {
            let e = self.check_sites.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Builtin {
    None,
    SymBytes,
    Assume,
    Check,
    Observe,
    Pin,
    Settle,
    Cover,
    Heap,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Abort,
    Panic,
    HashOne,
    Zero,
    Write,
    Errno,
    Syscall,
    RandomKeys,
}

pub fn builtin(name: &str) -> Builtin {
    use Builtin::*;
    match name {
        "sym_bytes" => SymBytes,
        "sym_assume" => Assume,
        "sym_check" => Check,
        "sym_observe" => Observe,
        "sym_pin" => Pin,
        "sym_settle" => Settle,
        "sym_cover" => Cover,
        "sym_heap" => Heap,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" | "bcmp" => Memcmp,
        "strlen" => Strlen,
        "abort" | "_exit" | "exit" => Abort,
        "getenv" | "isatty" | "__cxa_thread_atexit_impl" | "getauxval" | "sysconf" | "pthread_key_create" | "pthread_setspecific" | "sched_yield" => Zero,
        "write" | "writev" => Write,
        "__errno_location" => Errno,
        "syscall" => Syscall,
        _ => {
            if name.contains("9panicking9panic_fmt")
                || name.contains("9panicking18panic_nounwind_fmt")
                || name.contains("rust_begin_unwind")
                || name.contains("20rust_panic_with_hook")
                || name.contains("18handle_alloc_error")
            {
                Panic
            } else if name.contains("hash_one") {
                HashOne
            } else if name.contains("hashmap_random_keys") {
                RandomKeys
            } else {
                None
            }
        }
    }
}

struct Obj {
    base: u64,
    size: u64,
    data: Vec<u8>,
    sym: Vec<Ex>,
    alive: bool,
}

struct Frame {
    func: u32,
    block: u32,
    pc: u32,
    base: usize,
    stack_objs: usize,
    ret: u32,
}

pub struct Worker {
    pub t: Table,
    pub solver: Solver,
    cache: HashMap<Vec<(Ex, bool)>, Option<Vec<(u32, u8)>>, Fx>,
    pub stats: Stats,
}

impl Worker {
    pub fn new(timeout_ms: u32) -> Self {
        Self {
            t: Table::new(),
            solver: Solver::new(timeout_ms),
            cache: HashMap::with_hasher(Fx),
            stats: Stats::default(),
        }
    }
    pub fn trim(&mut self) {
        if self.t.len() > 400_000 {
            self.t = Table::new();
            self.solver.reset();
            self.cache.clear();
        }
    }
}

pub struct Path<'a> {
    m: &'a Module,
    bi: &'a [Builtin],
    cfg: &'a Config,
    w: &'a mut Worker,
    pub work: Work,
    pub spawned: Vec<Work>,
    nvars: u32,
    pc: Vec<(Ex, bool)>,
    known: HashMap<Ex, bool, Fx>,
    memo: HashMap<Ex, u128, Fx>,
    idx: usize,
    hash: u64,
    globals: Vec<Option<Box<Obj>>>,
    heap: Vec<Obj>,
    heap_next: u64,
    stack: Vec<Obj>,
    stack_next: u64,
    heap_total: u64,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    steps: u64,
    pub obs: Vec<u64>,
    pub touched: &'a mut HashSet<u32>,
}

type R<X> = Result<X, End>;

fn viol(kind: &str, what: String) -> End {
    End::Violation(Violation { kind: kind.into(), what, input: vec![], stack: vec![] })
}

fn unsup<X>(s: impl Into<String>) -> R<X> {
    Err(End::Inconclusive(s.into()))
}

#[derive(Clone, Copy)]
enum Loc {
    G(usize),
    H(usize),
    S(usize),
}

impl<'a> Path<'a> {
    pub fn new(m: &'a Module, bi: &'a [Builtin], cfg: &'a Config, w: &'a mut Worker, work: Work, touched: &'a mut HashSet<u32>) -> Self {
        Self {
            m,
            bi,
            cfg,
            w,
            work,
            spawned: vec![],
            nvars: 0,
            pc: vec![],
            known: HashMap::with_hasher(Fx),
            memo: HashMap::with_hasher(Fx),
            idx: 0,
            hash: 0,
            globals: (0..m.globals.len()).map(|_| None).collect(),
            heap: vec![],
            heap_next: HEAP_BASE,
            stack: vec![],
            stack_next: STACK_BASE,
            heap_total: 0,
            regs: vec![],
            frames: vec![],
            steps: 0,
            obs: vec![],
            touched,
        }
    }

    pub fn input(&self) -> Vec<u8> {
        let mut v = self.work.input.clone();
        v.resize(self.nvars as usize, 0);
        v
    }

    fn stack_trace(&self) -> Vec<String> {
        self.frames.iter().rev().take(12).map(|f| self.m.funcs[f.func as usize].name.clone()).collect()
    }

    // ---- decisions -------------------------------------------------------------------------

    fn eval(&mut self, e: Ex) -> u128 {
        let inp = &self.work.input;
        self.w.t.eval(e, &|i| inp.get(i as usize).copied().unwrap_or(0), &mut self.memo)
    }

    fn place(&mut self) {
        let f = self.frames.last().unwrap();
        let x = (f.func as u64) << 40 ^ (f.block as u64) << 16 ^ f.pc as u64;
        self.hash = (self.hash.rotate_left(7) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }

    /// Solve `path condition && lits`; returns the new full input on SAT.
    fn query(&mut self, lits: &[(Ex, bool)]) -> R<Option<Vec<u8>>> {
        let mut set: VarSet = [0; 4];
        for (e, _) in lits {
            for i in 0..4 {
                set[i] |= self.w.t.sup[*e as usize][i];
            }
        }
        let mut used = vec![false; self.pc.len()];
        let mut key: Vec<(Ex, bool)> = lits.to_vec();
        loop {
            let mut grew = false;
            for (i, c) in self.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = self.w.t.sup[c.0 as usize];
                if (0..4).any(|j| s[j] & set[j] != 0) {
                    used[i] = true;
                    key.push(*c);
                    for j in 0..4 {
                        if s[j] & !set[j] != 0 {
                            grew = true;
                            set[j] |= s[j];
                        }
                    }
                }
            }
            if !grew {
                break;
            }
        }
        key.sort_unstable();
        key.dedup();
        let res = if let Some(r) = self.w.cache.get(&key) {
            self.w.stats.q_cached += 1;
            r.clone()
        } else {
            let mut vars = vec![];
            for v in 0..256u32 {
                if set[(v / 64) as usize] >> (v % 64) & 1 == 1 {
                    vars.push(v);
                }
            }
            let t0 = Instant::now();
            let r = self.w.solver.check(&self.w.t, &key, &vars);
            let dt = t0.elapsed().as_nanos() as u64;
            self.w.stats.solver_ns += dt;
            self.w.stats.max_query_ns = self.w.stats.max_query_ns.max(dt);
            if dt > 500_000_000 && std::env::var("MSX_SLOW").is_ok() {
                let mut seen = std::collections::HashSet::new();
                let mut st: Vec<Ex> = key.iter().map(|k| k.0).collect();
                let mut h: std::collections::BTreeMap<String, usize> = Default::default();
                while let Some(e) = st.pop() {
                    if seen.insert(e) {
                        let n = self.w.t.n(e);
                        *h.entry(format!("{:?}{}", n.op, n.w)).or_default() += 1;
                        if !matches!(n.op, Op::Const | Op::Var) {
                            st.push(n.a);
                            if !matches!(n.op, Op::Not | Op::Extract | Op::ZExt | Op::SExt) { st.push(n.b); }
                            if n.op == Op::Ite { st.push(n.c); }
                        }
                    }
                }
                eprintln!("SLOW {:.2}s {} lits {} nodes {:?} live {} at {:?} :: {}", dt as f64 / 1e9, key.len(), seen.len(), h, self.w.t.len(),
                    self.stack_trace().first(), lits.iter().map(|(e, v)| format!("{}={v}", self.w.t.show(*e, 5))).collect::<Vec<_>>().join(" & "));
            }
            let r = match r {
                Verdict::Sat(m) => {
                    self.w.stats.q_sat += 1;
                    // cross-check the model against our own reading of the formula
                    let map: HashMap<u32, u8> = m.iter().copied().collect();
                    let mut memo = HashMap::with_hasher(Fx);
                    for (e, v) in &key {
                        let x = self.w.t.eval(*e, &|i| map[&i], &mut memo);
                        if x != *v as u128 {
                            return unsup(format!("solver model does not satisfy {} = {v}", self.w.t.show(*e, 6)));
                        }
                    }
                    Some(m)
                }
                Verdict::Unsat => {
                    self.w.stats.q_unsat += 1;
                    None
                }
                Verdict::Unknown => {
                    self.w.stats.q_unknown += 1;
                    return unsup(format!(
                        "solver gave no answer within its time limit at {:?}",
                        self.stack_trace().first()
                    ));
                }
            };
            self.w.cache.insert(key, r.clone());
            r
        };
        Ok(res.map(|m| {
            let mut inp = self.input();
            for (v, b) in m {
                if v as usize >= inp.len() {
                    inp.resize(v as usize + 1, 0);
                }
                inp[v as usize] = b;
            }
            inp
        }))
    }

    fn assert_lit(&mut self, e: Ex, v: bool) {
        let n = self.w.t.n(e);
        match (n.op, v) {
            (Op::Const, _) => return,
            (Op::Not, _) => return self.assert_lit(n.a, !v),
            (Op::And, true) | (Op::Or, false) => {
                self.assert_lit(n.a, v);
                self.assert_lit(n.b, v);
                return;
            }
            _ => {}
        }
        if self.known.insert(e, v).is_none() {
            self.pc.push((e, v));
        }
    }

    fn implied(&self, e: Ex) -> Option<bool> {
        let n = self.w.t.n(e);
        match n.op {
            Op::Const => Some(n.k == 1),
            Op::Not => self.implied(n.a).map(|x| !x),
            Op::And => match (self.implied(n.a), self.implied(n.b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Op::Or => match (self.implied(n.a), self.implied(n.b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            _ => self.known.get(&e).copied(),
        }
    }

    fn next_idx(&mut self) -> R<usize> {
        let i = self.idx;
        if self.work.bound > 0 && i == self.work.bound - 1 && self.hash != self.work.hash {
            return unsup("replay of a path prefix diverged");
        }
        self.idx += 1;
        self.w.stats.decisions += 1;
        Ok(i)
    }

    fn spawn(&mut self, input: Vec<u8>, bound: usize, excl: Vec<u128>, hash: u64) {
        self.spawned.push(Work { input, bound, excl, hash });
    }

    fn decide(&mut self, e: Ex, v: bool) -> R<()> {
        if let Some(k) = self.implied(e) {
            if k != v {
                return unsup("path condition contradicts the concrete run");
            }
            return Ok(());
        }
        if self.cfg.selfcheck && self.eval(e) != v as u128 {
            return unsup(format!("expression disagrees with the concrete run: {}", self.w.t.show(e, 6)));
        }
        let h0 = self.hash;
        let i = self.next_idx()?;
        if i >= self.work.bound {
            if let Some(inp) = self.query(&[(e, !v)])? {
                self.spawn(inp, i + 1, vec![], h0);
            }
        }
        self.place();
        self.assert_lit(e, v);
        Ok(())
    }

    fn decide_value(&mut self, e: Ex, v: u128) -> R<()> {
        if self.w.t.konst(e).is_some() {
            return Ok(());
        }
        let w = self.w.t.w(e);
        let k = self.w.t.c(w, v);
        let eq = self.w.t.bin(Op::Eq, e, k);
        if let Some(k) = self.implied(eq) {
            return if k { Ok(()) } else { unsup("path condition contradicts the concrete run") };
        }
        if self.cfg.selfcheck && self.eval(e) != v {
            return unsup(format!("expression disagrees with the concrete run: {}", self.w.t.show(e, 6)));
        }
        let h0 = self.hash;
        let i = self.next_idx()?;
        let mut excl = None;
        if i >= self.work.bound {
            excl = Some(vec![]);
        } else if i == self.work.bound - 1 {
            excl = Some(self.work.excl.clone());
        }
        if let Some(mut x) = excl {
            x.push(v);
            if x.len() > 4096 {
                return unsup("more than 4096 values at one place");
            }
            let mut lits = vec![];
            for y in &x {
                let c = self.w.t.c(w, *y);
                let q = self.w.t.bin(Op::Eq, e, c);
                if self.w.t.konst(q) == Some(0) {
                    continue;
                }
                lits.push((q, false));
            }
            if let Some(inp) = self.query(&lits)? {
                self.spawn(inp, i + 1, x, h0);
            }
        }
        self.place();
        self.assert_lit(eq, true);
        Ok(())
    }

    fn pin(&mut self, v: &Val) -> R<u128> {
        match v {
            Val::I(c, 0) => Ok(*c),
            Val::I(c, e) => {
                self.decide_value(*e, *c)?;
                Ok(*c)
            }
            _ => unsup("aggregate pinned"),
        }
    }

    // ---- memory ----------------------------------------------------------------------------

    fn locate(&self, a: u64) -> Option<Loc> {
        fn fs(v: &[Obj], a: u64) -> Option<usize> {
            let i = v.partition_point(|o| o.base <= a);
            i.checked_sub(1)
        }
        if a >= STACK_BASE {
            fs(&self.stack, a).map(Loc::S)
        } else if a >= HEAP_BASE {
            fs(&self.heap, a).map(Loc::H)
        } else if a >= GLOBAL_BASE {
            let i = self.m.globals.partition_point(|g| g.addr <= a);
            i.checked_sub(1).map(Loc::G)
        } else {
            None
        }
    }

    fn bounds(&self, l: Loc) -> (u64, u64, bool) {
        match l {
            Loc::G(i) => (self.m.globals[i].addr, self.m.globals[i].size, true),
            Loc::H(i) => (self.heap[i].base, self.heap[i].size, self.heap[i].alive),
            Loc::S(i) => (self.stack[i].base, self.stack[i].size, true),
        }
    }

    fn access(&self, a: u64, n: u64, what: &str) -> R<Loc> {
        let Some(l) = self.locate(a) else {
            return Err(viol("memory", format!("{what} of {n} bytes at an invalid address {a:#x}")));
        };
        let (b, s, alive) = self.bounds(l);
        if !alive {
            return Err(viol("memory", format!("{what} after free")));
        }
        if a - b > s || n > s - (a - b) {
            return Err(viol("memory", format!("{what} of {n} bytes at offset {} of an object of {s} bytes", a - b)));
        }
        Ok(l)
    }

    fn view(&self, l: Loc) -> (&[u8], &[Ex]) {
        match l {
            Loc::G(i) => match &self.globals[i] {
                Some(o) => (&o.data, &o.sym),
                None => (&self.m.globals[i].init, &[]),
            },
            Loc::H(i) => (&self.heap[i].data, &self.heap[i].sym),
            Loc::S(i) => (&self.stack[i].data, &self.stack[i].sym),
        }
    }

    fn obj_mut(&mut self, l: Loc) -> R<&mut Obj> {
        match l {
            Loc::G(i) => {
                let g = &self.m.globals[i];
                if g.constant {
                    return Err(viol("memory", format!("write to constant {}", g.name)));
                }
                Ok(self.globals[i].get_or_insert_with(|| {
                    Box::new(Obj { base: g.addr, size: g.size, data: g.init.clone(), sym: vec![], alive: true })
                }))
            }
            Loc::H(i) => Ok(&mut self.heap[i]),
            Loc::S(i) => Ok(&mut self.stack[i]),
        }
    }

    fn load_int(&mut self, a: u64, bits: u32) -> R<Val> {
        let n = bits.div_ceil(8) as u64;
        let l = self.access(a, n, "load")?;
        let o = (a - self.bounds(l).0) as usize;
        let (data, sym) = self.view(l);
        let mut buf = [0u8; 16];
        let n = n as usize;
        buf[..n].copy_from_slice(&data[o..o + n]);
        let v = u128::from_le_bytes(buf);
        let mut e = 0;
        if !sym.is_empty() && sym[o..o + n].iter().any(|x| *x != 0) {
            let s: Vec<Ex> = sym[o..o + n].to_vec();
            for (i, x) in s.iter().enumerate() {
                let x = if *x != 0 { *x } else { self.w.t.c(8, buf[i] as u128) };
                e = if i == 0 { x } else { self.w.t.concat(x, e) };
            }
            if (n as u32) * 8 != bits {
                e = self.w.t.extract(e, 0, bits);
            }
        }
        Ok(self.val(v & mask(bits), e))
    }

    fn val(&self, v: u128, e: Ex) -> Val {
        if e != 0 {
            if let Some(k) = self.w.t.konst(e) {
                debug_assert_eq!(k, v);
                return Val::I(v, 0);
            }
        }
        Val::I(v, e)
    }

    fn store_int(&mut self, a: u64, bits: u32, v: u128, e: Ex) -> R<()> {
        let n = bits.div_ceil(8) as u64;
        let l = self.access(a, n, "store")?;
        let o = (a - self.bounds(l).0) as usize;
        let n = n as usize;
        let mut ex = [0u32; 16];
        if e != 0 {
            let e = if (n as u32) * 8 != bits { self.w.t.zext(e, n as u32 * 8) } else { e };
            for i in 0..n {
                let x = self.w.t.extract(e, 8 * i as u32, 8);
                ex[i] = if self.w.t.konst(x).is_some() { 0 } else { x };
            }
        }
        let ob = self.obj_mut(l)?;
        ob.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if e != 0 {
            if ob.sym.is_empty() {
                ob.sym = vec![0; ob.data.len()];
            }
            ob.sym[o..o + n].copy_from_slice(&ex[..n]);
        } else if !ob.sym.is_empty() {
            ob.sym[o..o + n].fill(0);
        }
        Ok(())
    }

    fn load(&mut self, t: &Ty, a: u64) -> R<Val> {
        Ok(match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_int(a, t.bits())?,
            Ty::Vec(e, n) => {
                if e.bits() % 8 == 0 {
                    let s = e.store();
                    let mut v = Vec::with_capacity(*n as usize);
                    for i in 0..*n as u64 {
                        v.push(self.load_int(a + i * s, e.bits())?);
                    }
                    Val::A(Arc::new(v))
                } else {
                    let i = self.load_int(a, e.bits() * n)?;
                    self.from_bits(t, i)?
                }
            }
            Ty::Array(e, n) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(e, a + i * e.size())?);
                }
                Val::A(Arc::new(v))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = t.field(i as u64);
                    v.push(self.load(&ft, a + o)?);
                }
                Val::A(Arc::new(v))
            }
            _ => return unsup("load type"),
        })
    }

    fn store(&mut self, t: &Ty, a: u64, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, Val::I(c, e)) => self.store_int(a, t.bits(), *c, *e),
            (Ty::Vec(e, n), Val::A(x)) => {
                if e.bits() % 8 == 0 {
                    for i in 0..*n as usize {
                        self.store(e, a + i as u64 * e.store(), &x[i])?;
                    }
                    Ok(())
                } else {
                    let Val::I(c, ex) = self.to_bits(t, v)? else { unreachable!() };
                    self.store_int(a, e.bits() * n, c, ex)
                }
            }
            (Ty::Array(e, n), Val::A(x)) => {
                for i in 0..*n as usize {
                    self.store(e, a + i as u64 * e.size(), &x[i])?;
                }
                Ok(())
            }
            (Ty::Struct(f, _), Val::A(x)) => {
                for i in 0..f.len() {
                    let (o, ft) = t.field(i as u64);
                    self.store(&ft, a + o, &x[i])?;
                }
                Ok(())
            }
            _ => unsup("store type"),
        }
    }

    fn to_bits(&mut self, t: &Ty, v: &Val) -> R<Val> {
        match (t, v) {
            (Ty::Vec(e, n), Val::A(x)) => {
                let b = e.bits();
                if b * n > 128 {
                    return unsup("vector wider than 128 bits as an integer");
                }
                let (mut c, mut ex) = (0u128, 0);
                let any = x.iter().any(|y| matches!(y, Val::I(_, e) if *e != 0));
                for (i, y) in x.iter().enumerate() {
                    let Val::I(k, e) = *y else { return unsup("vector lane") };
                    c |= k << (b * i as u32);
                    if any {
                        let e = if e != 0 { e } else { self.w.t.c(b, k) };
                        ex = if i == 0 { e } else { self.w.t.concat(e, ex) };
                    }
                }
                Ok(self.val(c, ex))
            }
            (_, v) => Ok(v.clone()),
        }
    }

    fn from_bits(&mut self, t: &Ty, v: Val) -> R<Val> {
        match t {
            Ty::Vec(e, n) => {
                let Val::I(c, ex) = v else { return unsup("from_bits") };
                let b = e.bits();
                let mut o = vec![];
                for i in 0..*n {
                    let k = (c >> (b * i)) & mask(b);
                    let x = if ex != 0 { self.w.t.extract(ex, b * i, b) } else { 0 };
                    o.push(self.val(k, x));
                }
                Ok(Val::A(Arc::new(o)))
            }
            _ => Ok(v),
        }
    }

    fn tz(&self, e: Ex) -> u32 {
        let n = self.w.t.n(e);
        match n.op {
            Op::Const => if n.k == 0 { n.w as u32 } else { n.k.trailing_zeros() },
            Op::Concat => {
                let l = self.tz(n.b);
                if l == self.w.t.w(n.b) { l + self.tz(n.a) } else { l }
            }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::And => self.tz(n.a).max(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w as u32),
            Op::ZExt | Op::SExt => self.tz(n.a).min(self.w.t.w(n.a)),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }

    /// Load through an address that depends on the input.
    fn load_sym(&mut self, t: &Ty, a: u64, e: Ex) -> R<Val> {
        if self.implied_value(e, a as u128) {
            return self.load(t, a);
        }
        if t.scalar() {
            let n = t.store();
            if let Some(l) = self.locate(a) {
                let (b, s, alive) = self.bounds(l);
                if alive && a >= b && a - b <= s && n <= s - (a - b) {
                    let kb = self.w.t.c(64, b as u128);
                    let off = self.w.t.bin(Op::Sub, e, kb);
                    let tz = self.tz(off).min(16);
                    let stride = 1u64 << tz;
                    let cnt = (s - n) / stride + 1;
                    if cnt <= 300 {
                        let lim = self.w.t.c(64, (s - n + 1) as u128);
                        let inb = self.w.t.bin(Op::Ult, off, lim);
                        self.decide(inb, true)?;
                        // runs of equal values
                        let mut runs: Vec<(u64, u128, Ex)> = vec![];
                        for i in 0..cnt {
                            let Val::I(c, x) = self.load(t, b + i * stride)? else { return unsup("load") };
                            match runs.last() {
                                Some((_, c2, x2)) if *x2 == x && (x != 0 || *c2 == c) => {}
                                _ => runs.push((i * stride, c, x)),
                            }
                        }
                        let bits = t.bits();
                        let mut r = 0;
                        for (i, (_, c, x)) in runs.iter().enumerate().rev() {
                            let v = if *x != 0 { *x } else { self.w.t.c(bits, *c) };
                            r = if r == 0 {
                                v
                            } else {
                                let end = self.w.t.c(64, runs[i + 1].0 as u128);
                                let c = self.w.t.bin(Op::Ult, off, end);
                                self.w.t.ite(c, v, r)
                            };
                        }
                        let Val::I(c, _) = self.load(t, a)? else { unreachable!() };
                        return Ok(self.val(c, r));
                    }
                }
            }
        }
        self.decide_value(e, a as u128)?;
        self.load(t, a)
    }

    fn implied_value(&mut self, e: Ex, v: u128) -> bool {
        let w = self.w.t.w(e);
        let k = self.w.t.c(w, v);
        let q = self.w.t.bin(Op::Eq, e, k);
        self.implied(q) == Some(true)
    }

    fn alloc(&mut self, size: u64, align: u64) -> R<u64> {
        self.heap_total += size;
        if size > self.cfg.max_one_alloc || self.heap_total > self.cfg.max_heap {
            return Err(viol("memory-bound", format!("the path allocates more than {} bytes", self.cfg.max_heap)));
        }
        let a = self.heap_next.next_multiple_of(align.max(16));
        self.heap_next = a + size + 32;
        self.heap.push(Obj { base: a, size, data: vec![0; size as usize], sym: vec![], alive: true });
        Ok(a)
    }

    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        match self.locate(a) {
            Some(Loc::H(i)) if self.heap[i].base == a => {
                if !self.heap[i].alive {
                    return Err(viol("memory", "double free".into()));
                }
                self.heap[i].alive = false;
                self.heap[i].data = vec![];
                self.heap[i].sym = vec![];
                Ok(())
            }
            _ => Err(viol("memory", format!("free of {a:#x}"))),
        }
    }

    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let sl = self.access(s, n, "copy from")?;
        let so = (s - self.bounds(sl).0) as usize;
        let n = n as usize;
        let (data, sym) = self.view(sl);
        let data = data[so..so + n].to_vec();
        let sym = if sym.is_empty() { vec![] } else { sym[so..so + n].to_vec() };
        let dl = self.access(d, n as u64, "copy to")?;
        let dof = (d - self.bounds(dl).0) as usize;
        let o = self.obj_mut(dl)?;
        o.data[dof..dof + n].copy_from_slice(&data);
        if !sym.is_empty() && sym.iter().any(|x| *x != 0) {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[dof..dof + n].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            o.sym[dof..dof + n].fill(0);
        }
        Ok(())
    }

    fn bytes(&mut self, a: u64, n: u64) -> R<Vec<(u8, Ex)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let l = self.access(a, n, "read")?;
        let o = (a - self.bounds(l).0) as usize;
        let (d, s) = self.view(l);
        Ok((o..o + n as usize).map(|i| (d[i], if s.is_empty() { 0 } else { s[i] })).collect())
    }

    fn text(&mut self, a: u64, n: u64) -> R<String> {
        Ok(String::from_utf8_lossy(&self.bytes(a, n)?.iter().map(|x| x.0).collect::<Vec<_>>()).into_owned())
    }

    // ---- scalar operations -----------------------------------------------------------------

    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::I(c, 0) => self.w.t.c(w, *c),
            Val::I(_, e) => *e,
            _ => panic!("aggregate as scalar"),
        }
    }

    fn bin1(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (Val::I(x, ea), Val::I(y, eb)) = (a, b) else { return unsup("binary operation on an aggregate") };
        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            if *eb != 0 {
                let z = self.w.t.c(w, 0);
                let q = self.w.t.bin(Op::Eq, *eb, z);
                self.decide(q, *y == 0)?;
            }
            if *y == 0 {
                return Err(viol("memory", "division by zero".into()));
            }
        }
        let r = cbin(op, w, *x, *y);
        if *ea == 0 && *eb == 0 {
            return Ok(Val::I(r, 0));
        }
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        let e = self.w.t.bin(op, p, q);
        Ok(self.val(r, e))
    }

    fn icmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (Val::I(x, ea), Val::I(y, eb)) = (a, b) else { return unsup("comparison of aggregates") };
        let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ult, false, true),
            Pred::Ule => (Op::Ult, true, true),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Slt, false, true),
            Pred::Sle => (Op::Slt, true, true),
        };
        let (x, y) = if swap { (*y, *x) } else { (*x, *y) };
        let r = cbin(op, w, x, y) ^ neg as u128;
        if *ea == 0 && *eb == 0 {
            return Ok(Val::I(r, 0));
        }
        let (mut p, mut q) = (self.ex(a, w), self.ex(b, w));
        if swap {
            std::mem::swap(&mut p, &mut q);
        }
        let mut e = self.w.t.bin(op, p, q);
        if neg {
            e = self.w.t.not(e);
        }
        Ok(self.val(r, e))
    }

    fn lanes2(&mut self, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, u32, &Val, &Val) -> R<Val>) -> R<Val> {
        match t {
            Ty::Vec(e, _) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { return unsup("vector operand") };
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(f(self, e.bits(), p, q)?);
                }
                Ok(Val::A(Arc::new(o)))
            }
            t => f(self, t.bits(), a, b),
        }
    }

    fn cast1(&mut self, k: CastK, fw: u32, tw: u32, v: &Val) -> R<Val> {
        let Val::I(c, e) = *v else { return unsup("cast of an aggregate") };
        Ok(match k {
            CastK::Trunc => {
                let x = if e != 0 { self.w.t.extract(e, 0, tw) } else { 0 };
                self.val(c & mask(tw), x)
            }
            CastK::ZExt => {
                let x = if e != 0 { self.w.t.zext(e, tw) } else { 0 };
                self.val(c, x)
            }
            CastK::SExt => {
                let x = if e != 0 { self.w.t.sxt(e, tw) } else { 0 };
                self.val(sext(c, fw) as u128 & mask(tw), x)
            }
            CastK::Bit => v.clone(),
            _ => {
                let c = self.pin(v)?;
                let f = if fw == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                Val::int(match k {
                    CastK::FpToSi => (f as i128 as u128) & mask(tw),
                    CastK::FpToUi => (f as u128) & mask(tw),
                    CastK::SiToFp => {
                        let s = sext(c, fw);
                        if tw == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }
                    }
                    CastK::UiToFp => {
                        if tw == 32 { (c as f32).to_bits() as u128 } else { (c as f64).to_bits() as u128 }
                    }
                    CastK::FpExt => f.to_bits() as u128,
                    _ => (f as f32).to_bits() as u128,
                })
            }
        })
    }

    /// Comparison of floats by the meaning of their bits: a value that is not NaN orders like its
    /// magnitude bits with the sign applied, where both zeros are the same.
    fn fcmp(&mut self, p: &str, w: u32, x: &Val, y: &Val) -> R<Val> {
        let inf = Val::int(if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 });
        let mut nan = vec![];
        let mut key = vec![];
        for v in [x, y] {
            let m = self.bin1(Op::And, w, v, &Val::int(mask(w - 1)))?;
            nan.push(self.icmp1(Pred::Ugt, w, &m, &inf)?);
            let neg = self.bin1(Op::Sub, w, &Val::int(0), &m)?;
            let sign = self.icmp1(Pred::Slt, w, v, &Val::int(0))?;
            key.push(self.ite_val(&sign, &neg, &m, Some(w))?);
        }
        let un = self.bin1(Op::Or, 1, &nan[0], &nan[1])?;
        let pred = match &p[1..] {
            "rd" => return self.bin1(Op::Xor, 1, &un, &Val::int(1)),
            "no" => return Ok(un),
            "eq" => Pred::Eq,
            "ne" => Pred::Ne,
            "gt" => Pred::Sgt,
            "ge" => Pred::Sge,
            "lt" => Pred::Slt,
            "le" => Pred::Sle,
            _ => return unsup(format!("fcmp {p}")),
        };
        let c = self.icmp1(pred, w, &key[0], &key[1])?;
        if p.starts_with('u') {
            self.bin1(Op::Or, 1, &un, &c)
        } else {
            let ord = self.bin1(Op::Xor, 1, &un, &Val::int(1))?;
            self.bin1(Op::And, 1, &ord, &c)
        }
    }

    fn ite_val(&mut self, c: &Val, a: &Val, b: &Val, w: Option<u32>) -> R<Val> {
        let Val::I(k, e) = *c else { return unsup("select condition") };
        let pick = if k == 1 { a } else { b };
        if e == 0 {
            return Ok(pick.clone());
        }
        if let Some(i) = self.implied(e) {
            if (i as u128) != k {
                return unsup("path condition contradicts the concrete run");
            }
            return Ok(pick.clone());
        }
        match (a, b) {
            (Val::I(x, ea), Val::I(y, eb)) => {
                if ea == eb && (*ea != 0 || x == y) {
                    return Ok(pick.clone());
                }
                let w = match w {
                    Some(w) => w,
                    None if *ea != 0 => self.w.t.w(*ea),
                    None if *eb != 0 => self.w.t.w(*eb),
                    None => return unsup("select width"),
                };
                let (p, q) = (self.ex(a, w), self.ex(b, w));
                let r = self.w.t.ite(e, p, q);
                let Val::I(v, _) = pick else { unreachable!() };
                Ok(self.val(*v, r))
            }
            _ => {
                self.decide(e, k == 1)?;
                Ok(pick.clone())
            }
        }
    }

    fn get(&self, o: Opd) -> Val {
        let f = self.frames.last().unwrap();
        match o {
            Opd::R(r) => self.regs[f.base + r as usize].clone(),
            Opd::C(c) => self.m.funcs[f.func as usize].consts[c as usize].clone(),
        }
    }

    fn geti(&self, o: Opd) -> R<(u128, Ex)> {
        let f = self.frames.last().unwrap();
        let v = match o {
            Opd::R(r) => &self.regs[f.base + r as usize],
            Opd::C(c) => &self.m.funcs[f.func as usize].consts[c as usize],
        };
        match v {
            Val::I(c, e) => Ok((*c, *e)),
            _ => unsup("scalar operand expected"),
        }
    }

    fn pino(&mut self, o: Opd) -> R<u128> {
        let v = self.get(o);
        self.pin(&v)
    }

    fn set(&mut self, r: u32, v: Val) {
        let b = self.frames.last().unwrap().base;
        self.regs[b + r as usize] = v;
    }

    // ---- control ---------------------------------------------------------------------------

    fn push_frame(&mut self, func: u32, args: &[Val], ret: u32) -> R<()> {
        let f = &self.m.funcs[func as usize];
        if f.blocks.is_empty() {
            return unsup(format!("call of a function without a body: {}", f.name));
        }
        if self.frames.len() > 20_000 {
            return Err(viol("recursion", "call depth beyond 20000 frames".into()));
        }
        self.touched.insert(func);
        let base = self.regs.len();
        self.regs.resize(base + f.nregs as usize, Val::I(0, 0));
        for (i, a) in args.iter().enumerate() {
            if i < f.params as usize {
                self.regs[base + i] = a.clone();
            }
        }
        self.frames.push(Frame { func, block: 0, pc: 0, base, stack_objs: self.stack.len(), ret });
        Ok(())
    }

    fn pop_frame(&mut self) -> Frame {
        let f = self.frames.pop().unwrap();
        self.regs.truncate(f.base);
        if self.stack.len() > f.stack_objs {
            self.stack_next = self.stack[f.stack_objs].base;
            self.stack.truncate(f.stack_objs);
        }
        f
    }

    fn jump(&mut self, to: u32) -> R<()> {
        let fi = self.frames.len() - 1;
        let (func, from) = (self.frames[fi].func, self.frames[fi].block);
        let m = self.m;
        let b = &m.funcs[func as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let Some(p) = b.preds.iter().position(|x| *x == from) else {
                return unsup("phi without the incoming edge");
            };
            if b.phis.len() == 1 {
                let (d, o) = &b.phis[0];
                let v = self.get(o[p]);
                self.set(*d, v);
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, o)| self.get(o[p])).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    self.set(*d, v);
                }
            }
        }
        self.frames[fi].block = to;
        self.frames[fi].pc = 0;
        Ok(())
    }

    pub fn run(&mut self, entry: u32) -> End {
        let r = self.run_inner(entry);
        self.w.stats.paths += 1;
        self.w.stats.steps += self.steps;
        self.w.stats.max_vars = self.w.stats.max_vars.max(self.nvars as u64);
        match r {
            Ok(()) => {
                self.w.stats.done += 1;
                End::Done
            }
            Err(End::Violation(mut v)) => {
                if v.input.is_empty() {
                    v.input = self.input();
                }
                if v.stack.is_empty() {
                    v.stack = self.stack_trace();
                }
                End::Violation(v)
            }
            Err(End::Assume) => {
                self.w.stats.assumed_away += 1;
                End::Assume
            }
            Err(e) => e,
        }
    }

    fn run_inner(&mut self, entry: u32) -> R<()> {
        self.push_frame(entry, &[], u32::MAX)?;
        let m = self.m;
        while !self.frames.is_empty() {
            self.steps += 1;
            if self.steps > self.cfg.max_steps {
                return Err(viol("steps", format!("no end within {} steps", self.cfg.max_steps)));
            }
            let f = self.frames.last_mut().unwrap();
            let i = &m.funcs[f.func as usize].blocks[f.block as usize].ins[f.pc as usize];
            f.pc += 1;
            self.step(i)?;
        }
        Ok(())
    }

    fn step(&mut self, i: &Ins) -> R<()> {
        match i {
            Ins::Bin(op, t, d, a, b) => {
                if t.scalar() {
                    let (x, ea) = self.geti(*a)?;
                    let (y, eb) = self.geti(*b)?;
                    let v = if ea | eb == 0 && !matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                        Val::I(cbin(*op, t.bits(), x, y), 0)
                    } else {
                        self.bin1(*op, t.bits(), &Val::I(x, ea), &Val::I(y, eb))?
                    };
                    self.set(*d, v);
                } else {
                    let (a, b) = (self.get(*a), self.get(*b));
                    let op = *op;
                    let v = self.lanes2(t, &a, &b, &mut |s, w, x, y| s.bin1(op, w, x, y))?;
                    self.set(*d, v);
                }
            }
            Ins::ICmp(p, t, d, a, b) => {
                let (a, b) = (self.get(*a), self.get(*b));
                let p = *p;
                let v = self.lanes2(t, &a, &b, &mut |s, w, x, y| s.icmp1(p, w, x, y))?;
                self.set(*d, v);
            }
            Ins::Load(t, d, p) => {
                let (a, e) = self.geti(*p)?;
                let v = if e == 0 { self.load(t, a as u64)? } else { self.load_sym(t, a as u64, e)? };
                self.set(*d, v);
            }
            Ins::Store(t, v, p) => {
                let (a, e) = self.geti(*p)?;
                if e != 0 {
                    self.decide_value(e, a)?;
                }
                let v = self.get(*v);
                self.store(t, a as u64, &v)?;
            }
            Ins::Gep(d, b, off, idx) => {
                let (a, mut e) = self.geti(*b)?;
                let mut a = (a as u64).wrapping_add(*off);
                if e != 0 && *off != 0 {
                    let k = self.w.t.c(64, *off as u128);
                    e = self.w.t.bin(Op::Add, e, k);
                }
                for (o, w, sc) in idx {
                    let (v, ev) = self.geti(*o)?;
                    let base = a;
                    a = a.wrapping_add((sext(v, *w) as u64).wrapping_mul(*sc));
                    if ev != 0 {
                        let x = if *w < 64 { self.w.t.sxt(ev, 64) } else if *w > 64 { self.w.t.extract(ev, 0, 64) } else { ev };
                        let k = self.w.t.c(64, *sc as u128);
                        let x = self.w.t.bin(Op::Mul, x, k);
                        let eb = if e != 0 { e } else { self.w.t.c(64, base as u128) };
                        e = self.w.t.bin(Op::Add, eb, x);
                    } else if e != 0 {
                        let k = self.w.t.c(64, a.wrapping_sub(base) as u128);
                        e = self.w.t.bin(Op::Add, e, k);
                    }
                }
                let v = self.val(a as u128, e);
                self.set(*d, v);
            }
            Ins::Cast(k, f, t, d, a) => {
                let v = self.get(*a);
                let r = match (f, t) {
                    (Ty::Vec(fe, _), Ty::Vec(te, _)) if *k != CastK::Bit => {
                        let Val::A(x) = &v else { return unsup("cast") };
                        let mut o = vec![];
                        for y in x.iter() {
                            o.push(self.cast1(*k, fe.bits(), te.bits(), y)?);
                        }
                        Val::A(Arc::new(o))
                    }
                    _ if *k == CastK::Bit && !(f.scalar() && t.scalar()) => {
                        let b = self.to_bits(f, &v)?;
                        self.from_bits(t, b)?
                    }
                    _ => self.cast1(*k, f.bits(), t.bits(), &v)?,
                };
                self.set(*d, r);
            }
            Ins::Select(d, t, c, a, b) => {
                let (c, a, b) = (self.get(*c), self.get(*a), self.get(*b));
                let v = match &c {
                    Val::I(k, 0) => if *k == 1 { a } else { b },
                    Val::I(..) => {
                        let w = if t.scalar() { Some(t.bits()) } else { None };
                        self.ite_val(&c, &a, &b, w)?
                    }
                    Val::A(cs) => {
                        let (Val::A(x), Val::A(y), Ty::Vec(et, _)) = (&a, &b, t) else { return unsup("select") };
                        let mut o = vec![];
                        for ((c, p), q) in cs.iter().zip(x.iter()).zip(y.iter()) {
                            o.push(self.ite_val(c, p, q, Some(et.bits()))?);
                        }
                        Val::A(Arc::new(o))
                    }
                };
                self.set(*d, v);
            }
            Ins::Copy(d, a) => {
                let v = self.get(*a);
                self.set(*d, v);
            }
            Ins::Br(b) => self.jump(*b)?,
            Ins::CondBr(c, a, b) => {
                let (k, e) = self.geti(*c)?;
                if e != 0 {
                    self.decide(e, k == 1)?;
                }
                self.jump(if k == 1 { *a } else { *b })?;
            }
            Ins::Switch(c, w, def, cases) => {
                let (k, e) = self.geti(*c)?;
                let to = cases.iter().find(|x| x.0 == k).map_or(*def, |x| x.1);
                if e != 0 {
                    self.switch(e, *w, to, *def, cases)?;
                }
                self.jump(to)?;
            }
            Ins::Ret(v) => {
                let v = v.map(|o| self.get(o));
                let f = self.pop_frame();
                if !self.frames.is_empty() && f.ret != u32::MAX {
                    if let Some(v) = v {
                        self.set(f.ret, v);
                    }
                }
            }
            Ins::Alloca(d, size, al) => {
                let a = self.stack_next.next_multiple_of((*al).max(16));
                self.stack_next = a + size + 32;
                self.stack.push(Obj { base: a, size: *size, data: vec![0; *size as usize], sym: vec![], alive: true });
                if self.stack_next - STACK_BASE > 64 << 20 {
                    return Err(viol("recursion", "more than 64 MiB of stack".into()));
                }
                self.set(*d, Val::int(a as u128));
            }
            Ins::ExtractV(d, a, p) => {
                let mut v = self.get(*a);
                for i in p {
                    let Val::A(x) = &v else { return unsup("extractvalue") };
                    v = x[*i as usize].clone();
                }
                self.set(*d, v);
            }
            Ins::InsertV(d, a, v, p) => {
                fn ins(a: &Val, p: &[u32], v: Val) -> Val {
                    if p.is_empty() {
                        return v;
                    }
                    let Val::A(x) = a else { panic!("insertvalue") };
                    let mut y = (**x).clone();
                    y[p[0] as usize] = ins(&x[p[0] as usize], &p[1..], v);
                    Val::A(Arc::new(y))
                }
                let (a, v) = (self.get(*a), self.get(*v));
                let r = ins(&a, p, v);
                self.set(*d, r);
            }
            Ins::ExtractE(d, a, ix) => {
                let ix = self.pino(*ix)? as usize;
                let Val::A(x) = self.get(*a) else { return unsup("extractelement") };
                let v = x[ix].clone();
                self.set(*d, v);
            }
            Ins::InsertE(d, a, v, ix) => {
                let ix = self.pino(*ix)? as usize;
                let Val::A(x) = self.get(*a) else { return unsup("insertelement") };
                let mut y = (*x).clone();
                y[ix] = self.get(*v);
                self.set(*d, Val::A(Arc::new(y)));
            }
            Ins::Shuffle(d, a, b, m) => {
                let (Val::A(x), Val::A(y)) = (self.get(*a), self.get(*b)) else { return unsup("shuffle") };
                let o = m
                    .iter()
                    .map(|i| match i {
                        None => Val::int(0),
                        Some(i) => {
                            let i = *i as usize;
                            if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() }
                        }
                    })
                    .collect();
                self.set(*d, Val::A(Arc::new(o)));
            }
            Ins::FBin(op, w, d, a, b) => {
                let (x, y) = (self.pino(*a)?, self.pino(*b)?);
                let r = if *w == 32 {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op {
                        FOp::Add => p + q,
                        FOp::Sub => p - q,
                        FOp::Mul => p * q,
                        FOp::Div => p / q,
                        FOp::Rem => p % q,
                    })
                    .to_bits() as u128
                } else {
                    let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    (match op {
                        FOp::Add => p + q,
                        FOp::Sub => p - q,
                        FOp::Mul => p * q,
                        FOp::Div => p / q,
                        FOp::Rem => p % q,
                    })
                    .to_bits() as u128
                };
                self.set(*d, Val::int(r));
            }
            Ins::FNeg(w, d, a) => {
                let v = self.get(*a);
                let k = Val::int(1u128 << (w - 1));
                let r = self.bin1(Op::Xor, *w, &v, &k)?;
                self.set(*d, r);
            }
            Ins::FCmp(p, w, d, a, b) => {
                let (x, y) = (self.get(*a), self.get(*b));
                let r = self.fcmp(p, *w, &x, &y)?;
                self.set(*d, r);
            }
            Ins::Rmw(k, t, d, p, v) => {
                let a = self.pino(*p)? as u64;
                let old = self.load(t, a)?;
                let v = self.get(*v);
                let w = t.bits();
                let new = match k.as_str() {
                    "xchg" => v,
                    "add" => self.bin1(Op::Add, w, &old, &v)?,
                    "sub" => self.bin1(Op::Sub, w, &old, &v)?,
                    "and" => self.bin1(Op::And, w, &old, &v)?,
                    "or" => self.bin1(Op::Or, w, &old, &v)?,
                    "xor" => self.bin1(Op::Xor, w, &old, &v)?,
                    _ => return unsup(format!("atomicrmw {k}")),
                };
                self.store(t, a, &new)?;
                self.set(*d, old);
            }
            Ins::CmpXchg(t, d, p, c, n) => {
                let a = self.pino(*p)? as u64;
                let old = self.load(t, a)?;
                let (c, n) = (self.get(*c), self.get(*n));
                let eq = self.icmp1(Pred::Eq, t.bits(), &old, &c)?;
                if self.pin(&eq)? == 1 {
                    self.store(t, a, &n)?;
                }
                self.set(*d, Val::A(Arc::new(vec![old, eq])));
            }
            Ins::Unreachable => return Err(viol("memory", "unreachable code was reached".into())),
            Ins::Unsupported(s) => return unsup(format!("unsupported instruction: {s}")),
            Ins::Call { dst, ret, callee, args } => self.call(*dst, ret, callee, args)?,
        }
        Ok(())
    }

    fn switch(&mut self, e: Ex, w: u32, to: u32, def: u32, cases: &[(u128, u32)]) -> R<()> {
        // condition per target
        let mut targets: Vec<(u32, Ex)> = vec![];
        let mut none = self.w.t.c(1, 1);
        for (k, b) in cases {
            let c = self.w.t.c(w, *k);
            let q = self.w.t.bin(Op::Eq, e, c);
            let nq = self.w.t.not(q);
            none = self.w.t.bin(Op::And, none, nq);
            if let Some(x) = targets.iter_mut().find(|x| x.0 == *b) {
                x.1 = self.w.t.bin(Op::Or, x.1, q);
            } else {
                targets.push((*b, q));
            }
        }
        if let Some(x) = targets.iter_mut().find(|x| x.0 == def) {
            x.1 = self.w.t.bin(Op::Or, x.1, none);
        } else {
            targets.push((def, none));
        }
        let cond = targets.iter().find(|x| x.0 == to).unwrap().1;
        if let Some(k) = self.implied(cond) {
            return if k { Ok(()) } else { unsup("path condition contradicts the concrete run") };
        }
        if self.cfg.selfcheck && self.eval(cond) != 1 {
            return unsup(format!("switch expression disagrees with the concrete run: {}", self.w.t.show(e, 6)));
        }
        let h0 = self.hash;
        let i = self.next_idx()?;
        if i >= self.work.bound {
            for (b, c) in &targets {
                if *b != to && self.implied(*c) != Some(false) {
                    if let Some(inp) = self.query(&[(*c, true)])? {
                        self.spawn(inp, i + 1, vec![], h0);
                    }
                }
            }
        }
        self.place();
        self.assert_lit(cond, true);
        Ok(())
    }

    fn call(&mut self, dst: Option<u32>, ret: &Ty, callee: &Callee, args: &[(Opd, Ty)]) -> R<()> {
        let r = match callee {
            Callee::Intr(k) => self.intrinsic(k, args)?,
            Callee::Asm(s) => {
                if s.is_empty() {
                    None
                } else if s.contains("cpuid") {
                    // A processor without any of the optional features.
                    Some(Val::A(Arc::new(vec![Val::int(0), Val::int(0), Val::int(0), Val::int(0)])))
                } else {
                    return unsup(format!("inline assembly {s:?}"));
                }
            }
            Callee::Func(f) => {
                let f = *f;
                let b = self.bi[f as usize];
                if b != Builtin::None {
                    self.touched.insert(f);
                    let v: Vec<Val> = args.iter().map(|a| self.get(a.0)).collect();
                    self.builtin(b, &v, ret)?
                } else {
                    let v: Vec<Val> = args.iter().map(|a| self.get(a.0)).collect();
                    return self.push_frame(f, &v, dst.unwrap_or(u32::MAX));
                }
            }
            Callee::Dyn(o) => {
                let a = self.pino(*o)? as u64;
                let Some(f) = self.m.func_at(a) else {
                    return Err(viol("memory", format!("call through the invalid pointer {a:#x}")));
                };
                let v: Vec<Val> = args.iter().map(|a| self.get(a.0)).collect();
                let b = self.bi[f as usize];
                if b != Builtin::None {
                    self.builtin(b, &v, ret)?
                } else {
                    return self.push_frame(f, &v, dst.unwrap_or(u32::MAX));
                }
            }
        };
        if let (Some(d), Some(v)) = (dst, r) {
            self.set(d, v);
        }
        Ok(())
    }

    fn builtin(&mut self, b: Builtin, a: &[Val], ret: &Ty) -> R<Option<Val>> {
        let int = |v: u128| Ok(Some(Val::int(v)));
        match b {
            Builtin::SymBytes => {
                let p = self.pin(&a[0])? as u64;
                let n = self.pin(&a[1])? as u64;
                for i in 0..n {
                    let v = self.nvars;
                    if v >= 256 {
                        return unsup("more than 256 symbolic bytes");
                    }
                    self.nvars += 1;
                    let c = self.work.input.get(v as usize).copied().unwrap_or(0);
                    let e = self.w.t.var(v);
                    self.store_int(p + i, 8, c as u128, e)?;
                }
                Ok(None)
            }
            Builtin::Assume => {
                let Val::I(c, e) = a[0] else { return unsup("assume") };
                let (c, e) = if e != 0 && self.w.t.w(e) > 1 { (c & 1, self.w.t.extract(e, 0, 1)) } else { (c & 1, e) };
                if e == 0 || self.w.t.konst(e).is_some() {
                    return if c == 1 { Ok(None) } else { Err(End::Assume) };
                }
                if let Some(k) = self.implied(e) {
                    return if k { Ok(None) } else { Err(End::Assume) };
                }
                let h0 = self.hash;
                let i = self.next_idx()?;
                if c == 1 {
                    self.place();
                    self.assert_lit(e, true);
                    Ok(None)
                } else {
                    if i >= self.work.bound {
                        if let Some(inp) = self.query(&[(e, true)])? {
                            self.spawn(inp, i + 1, vec![], h0);
                        }
                    }
                    Err(End::Assume)
                }
            }
            Builtin::Check => {
                let Val::I(c, e) = a[0] else { return unsup("check") };
                let (p, n) = (self.pin(&a[1])? as u64, self.pin(&a[2])? as u64);
                let msg = self.text(p, n)?;
                self.w.stats.checks += 1;
                let s = self.w.stats.check_sites.entry(msg.clone()).or_default();
                s.0 += 1;
                if e != 0 {
                    let e = self.w.t.extract(e, 0, 1);
                    if self.implied(e).is_none() {
                        self.w.stats.checks_solver += 1;
                        self.w.stats.check_sites.get_mut(&msg).unwrap().1 += 1;
                    }
                    // asks the solver for an input on this path that fails the check; such an
                    // input becomes a path of its own, which then ends right here
                    self.decide(e, c & 1 == 1)?;
                }
                if c & 1 == 0 {
                    return Err(viol("check", msg));
                }
                Ok(None)
            }
            Builtin::Observe => {
                let Val::I(c, _) = a[0] else { return unsup("observe") };
                self.obs.push(c as u64);
                Ok(None)
            }
            Builtin::Pin => {
                let v = self.pin(&a[0])?;
                int(v)
            }
            // Bytes that can have but one value on this path stop being symbolic.
            Builtin::Settle => {
                let (p, n) = (self.pin(&a[0])? as u64, self.pin(&a[1])? as u64);
                for i in 0..n {
                    let Val::I(c, e) = self.load_int(p + i, 8)? else { unreachable!() };
                    if e == 0 || matches!(self.w.t.n(e).op, Op::Var | Op::Const) {
                        continue;
                    }
                    let k = self.w.t.c(8, c);
                    let eq = self.w.t.bin(Op::Eq, e, k);
                    let fixed = match self.implied(eq) {
                        Some(x) => x,
                        None => self.query(&[(eq, false)])?.is_none(),
                    };
                    if fixed {
                        self.store_int(p + i, 8, c, 0)?;
                    }
                }
                Ok(None)
            }
            Builtin::Cover => {
                let (p, n) = (self.pin(&a[0])? as u64, self.pin(&a[1])? as u64);
                let msg = self.text(p, n)?;
                *self.w.stats.covers.entry(msg).or_default() += 1;
                Ok(None)
            }
            Builtin::Heap => int(self.heap_total as u128),
            Builtin::Malloc => {
                self.alloc_limit(&a[0])?;
                let n = self.pin(&a[0])? as u64;
                let p = self.alloc(n, 16)?;
                int(p as u128)
            }
            Builtin::Calloc => {
                let n = self.bin1(Op::Mul, 64, &a[0], &a[1])?;
                self.alloc_limit(&n)?;
                let n = self.pin(&n)? as u64;
                let p = self.alloc(n, 16)?;
                int(p as u128)
            }
            Builtin::PosixMemalign => {
                let out = self.pin(&a[0])? as u64;
                let al = self.pin(&a[1])? as u64;
                self.alloc_limit(&a[2])?;
                let n = self.pin(&a[2])? as u64;
                let p = self.alloc(n, al)?;
                self.store_int(out, 64, p as u128, 0)?;
                int(0)
            }
            Builtin::Realloc => {
                let p = self.pin(&a[0])? as u64;
                self.alloc_limit(&a[1])?;
                let n = self.pin(&a[1])? as u64;
                if p == 0 {
                    let q = self.alloc(n, 16)?;
                    return int(q as u128);
                }
                let Some(Loc::H(i)) = self.locate(p) else { return Err(viol("memory", "realloc".into())) };
                if self.heap[i].base != p || !self.heap[i].alive {
                    return Err(viol("memory", "realloc of a dead object".into()));
                }
                let old = self.heap[i].size;
                let q = self.alloc(n, 16)?;
                self.copy(q, p, old.min(n))?;
                self.free(p)?;
                int(q as u128)
            }
            Builtin::Free => {
                let p = self.pin(&a[0])? as u64;
                self.free(p)?;
                Ok(None)
            }
            Builtin::Memcpy => {
                let (d, s, n) = (self.pin(&a[0])? as u64, self.pin(&a[1])? as u64, self.pin(&a[2])? as u64);
                self.copy(d, s, n)?;
                Ok(Some(a[0].clone()))
            }
            Builtin::Memset => {
                self.memset(&a[0], &a[1], &a[2])?;
                Ok(Some(a[0].clone()))
            }
            Builtin::Memcmp => {
                let (p, q, n) = (self.pin(&a[0])? as u64, self.pin(&a[1])? as u64, self.pin(&a[2])? as u64);
                let (x, y) = (self.bytes(p, n)?, self.bytes(q, n)?);
                let mut c = 0u128;
                let mut e = self.w.t.c(32, 0);
                let (neg, pos) = (0xffff_ffffu128, 1u128);
                let any = x.iter().chain(&y).any(|v| v.1 != 0);
                for i in (0..x.len()).rev() {
                    if x[i].0 != y[i].0 {
                        c = if x[i].0 < y[i].0 { neg } else { pos };
                    }
                    if any {
                        let p = if x[i].1 != 0 { x[i].1 } else { self.w.t.c(8, x[i].0 as u128) };
                        let q = if y[i].1 != 0 { y[i].1 } else { self.w.t.c(8, y[i].0 as u128) };
                        let eq = self.w.t.bin(Op::Eq, p, q);
                        let lt = self.w.t.bin(Op::Ult, p, q);
                        let (kn, kp) = (self.w.t.c(32, neg), self.w.t.c(32, pos));
                        let d = self.w.t.ite(lt, kn, kp);
                        e = self.w.t.ite(eq, e, d);
                    }
                }
                // the loop runs backwards, so the first difference wins
                Ok(Some(self.val(c, e)))
            }
            Builtin::Strlen => {
                let p = self.pin(&a[0])? as u64;
                let mut n = 0;
                loop {
                    let v = self.load_int(p + n, 8)?;
                    if self.pin(&v)? == 0 {
                        return int(n as u128);
                    }
                    n += 1;
                }
            }
            Builtin::Abort => Err(viol("abort", "the process is aborted".into())),
            Builtin::Panic => {
                let mut at = String::from("unknown place");
                for v in a.iter().rev() {
                    if let Val::I(p, 0) = v {
                        if let Ok(s) = self.location(*p as u64) {
                            at = s;
                            break;
                        }
                    }
                }
                Err(viol("panic", at))
            }
            Builtin::HashOne => int(0),
            Builtin::RandomKeys => Ok(Some(Val::A(Arc::new(vec![Val::int(1), Val::int(2)])))),
            Builtin::Zero => int(0),
            Builtin::Write => Ok(Some(a[2].clone())),
            Builtin::Errno => {
                let p = self.alloc(8, 16)?;
                int(p as u128)
            }
            Builtin::Syscall => {
                let nr = self.pin(&a[0])?;
                if nr == 318 {
                    self.memset(&a[1], &Val::int(7), &a[2])?;
                    return Ok(Some(a[2].clone()));
                }
                unsup(format!("system call {nr}"))
            }
            Builtin::None => unreachable!(),
        }
        .map(|v| if *ret == Ty::Void { None } else { v })
    }

    /// An allocation whose size depends on the input must stay below the limit for every input.
    fn alloc_limit(&mut self, n: &Val) -> R<()> {
        if let Val::I(c, e) = *n {
            if e != 0 {
                let k = self.w.t.c(64, self.cfg.max_one_alloc as u128);
                let big = self.w.t.bin(Op::Ult, k, e);
                self.decide(big, c > self.cfg.max_one_alloc as u128)?;
            }
            if c > self.cfg.max_one_alloc as u128 {
                return Err(viol("memory-bound", format!("a single allocation of more than {} bytes", self.cfg.max_one_alloc)));
            }
        }
        Ok(())
    }

    fn location(&mut self, p: u64) -> R<String> {
        let g = |s: &mut Self, a, n| match s.load_int(a, n)? {
            Val::I(c, _) => Ok(c as u64),
            _ => unsup("location"),
        };
        let (f, n) = (g(self, p, 64)?, g(self, p + 8, 64)?);
        let (l, c) = (g(self, p + 16, 32)?, g(self, p + 20, 32)?);
        if n > 400 || l > 1_000_000 || c > 100_000 || l == 0 {
            return unsup("location");
        }
        let s = self.text(f, n)?;
        if !s.ends_with(".rs") {
            return unsup("location");
        }
        Ok(format!("{s}:{l}:{c}"))
    }

    fn memset(&mut self, p: &Val, v: &Val, n: &Val) -> R<()> {
        let (p, n) = (self.pin(p)? as u64, self.pin(n)? as u64);
        if n == 0 {
            return Ok(());
        }
        let Val::I(c, e) = *v else { return unsup("memset") };
        let l = self.access(p, n, "memset")?;
        let o = (p - self.bounds(l).0) as usize;
        let n = n as usize;
        let e = if e != 0 { self.w.t.extract(e, 0, 8) } else { 0 };
        let ob = self.obj_mut(l)?;
        ob.data[o..o + n].fill(c as u8);
        if e != 0 && ob.sym.is_empty() {
            ob.sym = vec![0; ob.data.len()];
        }
        if !ob.sym.is_empty() {
            ob.sym[o..o + n].fill(e);
        }
        Ok(())
    }

    fn intrinsic(&mut self, k: &Intr, args: &[(Opd, Ty)]) -> R<Option<Val>> {
        let a: Vec<Val> = args.iter().map(|x| self.get(x.0)).collect();
        let t = args.first().map(|x| x.1.clone()).unwrap_or(Ty::Void);
        Ok(Some(match k {
            Intr::Nop => return Ok(None),
            Intr::Memcpy => {
                let (d, s, n) = (self.pin(&a[0])? as u64, self.pin(&a[1])? as u64, self.pin(&a[2])? as u64);
                self.copy(d, s, n)?;
                return Ok(None);
            }
            Intr::Memset => {
                self.memset(&a[0], &a[1], &a[2])?;
                return Ok(None);
            }
            Intr::Trap => return Err(viol("abort", "trap".into())),
            Intr::First => a[0].clone(),
            Intr::IsConst => Val::int(0),
            Intr::FAbs => {
                let w = t.bits();
                self.bin1(Op::And, w, &a[0], &Val::int(mask(w - 1)))?
            }
            Intr::FRound(c) => {
                let x = self.pin(&a[0])?;
                let f = |v: f64| match c {
                    't' => v.trunc(),
                    'f' => v.floor(),
                    'c' => v.ceil(),
                    _ => v.round_ties_even(),
                };
                // exact in either width
                if t == Ty::F32 {
                    Val::int((f(f32::from_bits(x as u32) as f64) as f32).to_bits() as u128)
                } else {
                    Val::int(f(f64::from_bits(x as u64)).to_bits() as u128)
                }
            }
            Intr::FpToSat(signed) => {
                let c = self.pin(&a[0])?;
                let f = if t == Ty::F32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                if *signed {
                    Val::int((f as i64) as u64 as u128)
                } else {
                    Val::int((f as u64) as u128)
                }
            }
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd | Intr::ReduceXor | Intr::ReduceUMax => {
                let (Ty::Vec(e, _), Val::A(x)) = (&t, &a[0]) else { return unsup("reduce") };
                let w = e.bits();
                let mut r = x[0].clone();
                for y in &x[1..] {
                    r = match k {
                        Intr::ReduceOr => self.bin1(Op::Or, w, &r, y)?,
                        Intr::ReduceAnd => self.bin1(Op::And, w, &r, y)?,
                        Intr::ReduceXor => self.bin1(Op::Xor, w, &r, y)?,
                        Intr::ReduceAdd => self.bin1(Op::Add, w, &r, y)?,
                        _ => {
                            let c = self.icmp1(Pred::Ult, w, &r, y)?;
                            self.ite_val(&c, y, &r, Some(w))?
                        }
                    };
                }
                r
            }
            Intr::Unsupported(n) => return unsup(format!("intrinsic {n}")),
            Intr::Psad => {
                // Sums of the absolute differences of eight bytes each.
                let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) else { return unsup("psad") };
                let (x, y) = (x.clone(), y.clone());
                let mut out = vec![];
                for (x, y) in x.chunks(8).zip(y.chunks(8)) {
                    let mut sum = Val::int(0);
                    for (x, y) in x.iter().zip(y) {
                        let less = self.icmp1(Pred::Ult, 8, x, y)?;
                        let (p, q) = (self.bin1(Op::Sub, 8, x, y)?, self.bin1(Op::Sub, 8, y, x)?);
                        let d = self.ite_val(&less, &q, &p, Some(8))?;
                        let d = self.cast1(CastK::ZExt, 8, 64, &d)?;
                        sum = self.bin1(Op::Add, 64, &sum, &d)?;
                    }
                    out.push(sum);
                }
                Val::A(Arc::new(out))
            }
            Intr::Fshl | Intr::Fshr => {
                let w = t.bits();
                let s = self.bin1(Op::URem, w, &a[2], &Val::int(w as u128))?;
                let z = self.icmp1(Pred::Eq, w, &s, &Val::int(0))?;
                let inv = self.bin1(Op::Sub, w, &Val::int(w as u128), &s)?;
                let (l, r, same) = if matches!(k, Intr::Fshl) {
                    (self.bin1(Op::Shl, w, &a[0], &s)?, self.bin1(Op::LShr, w, &a[1], &inv)?, &a[0])
                } else {
                    (self.bin1(Op::Shl, w, &a[0], &inv)?, self.bin1(Op::LShr, w, &a[1], &s)?, &a[1])
                };
                let o = self.bin1(Op::Or, w, &l, &r)?;
                self.ite_val(&z, same, &o, Some(w))?
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let w = t.bits();
                let (x, y) = (&a[0], &a[1]);
                let (op, r) = match k {
                    Intr::UAddO | Intr::SAddO => (Op::Add, self.bin1(Op::Add, w, x, y)?),
                    Intr::USubO | Intr::SSubO => (Op::Sub, self.bin1(Op::Sub, w, x, y)?),
                    _ => (Op::Mul, self.bin1(Op::Mul, w, x, y)?),
                };
                let o = match k {
                    Intr::UAddO => self.icmp1(Pred::Ult, w, &r, x)?,
                    Intr::USubO => self.icmp1(Pred::Ult, w, x, y)?,
                    Intr::UMulO | Intr::SMulO => {
                        let op = if matches!(k, Intr::UMulO) { Op::UMulOvf } else { Op::SMulOvf };
                        let (Val::I(p, ep), Val::I(q, eq)) = (x, y) else { return unsup("mul") };
                        let c = cbin(op, w, *p, *q);
                        let mut e = 0;
                        if *ep | *eq != 0 {
                            let (ex, ey) = (self.ex(x, w), self.ex(y, w));
                            e = self.w.t.bin(op, ex, ey);
                        }
                        self.val(c, e)
                    }
                    _ => {
                        // signed overflow of a +- b
                        let sr = self.bin1(Op::LShr, w, &r, &Val::int(w as u128 - 1))?;
                        let sx = self.bin1(Op::LShr, w, x, &Val::int(w as u128 - 1))?;
                        let sy = self.bin1(Op::LShr, w, y, &Val::int(w as u128 - 1))?;
                        let d1 = self.icmp1(Pred::Ne, w, &sr, &sx)?;
                        let p = if op == Op::Add { Pred::Eq } else { Pred::Ne };
                        let d2 = self.icmp1(p, w, &sx, &sy)?;
                        self.bin1(Op::And, 1, &d1, &d2)?
                    }
                };
                Val::A(Arc::new(vec![r, o]))
            }
            Intr::Ucmp | Intr::Scmp => {
                let w = t.bits();
                let lt = self.icmp1(if matches!(k, Intr::Ucmp) { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1])?;
                let gt = self.icmp1(if matches!(k, Intr::Ucmp) { Pred::Ugt } else { Pred::Sgt }, w, &a[0], &a[1])?;
                // result = gt - lt, in 8 bits (the only width rustc uses)
                let g = self.cast1(CastK::ZExt, 1, 8, &gt)?;
                let l = self.cast1(CastK::ZExt, 1, 8, &lt)?;
                self.bin1(Op::Sub, 8, &g, &l)?
            }
            _ => {
                let f = &mut |s: &mut Self, w: u32, x: &Val, y: &Val| -> R<Val> {
                    Ok(match k {
                        Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                            let p = match k {
                                Intr::UMin => Pred::Ult,
                                Intr::UMax => Pred::Ugt,
                                Intr::SMin => Pred::Slt,
                                _ => Pred::Sgt,
                            };
                            let c = s.icmp1(p, w, x, y)?;
                            s.ite_val(&c, x, y, Some(w))?
                        }
                        Intr::USubSat => {
                            let c = s.icmp1(Pred::Ult, w, x, y)?;
                            let d = s.bin1(Op::Sub, w, x, y)?;
                            s.ite_val(&c, &Val::int(0), &d, Some(w))?
                        }
                        Intr::UAddSat => {
                            let d = s.bin1(Op::Add, w, x, y)?;
                            let c = s.icmp1(Pred::Ult, w, &d, x)?;
                            s.ite_val(&c, &Val::int(mask(w)), &d, Some(w))?
                        }
                        Intr::Abs => {
                            let c = s.icmp1(Pred::Slt, w, x, &Val::int(0))?;
                            let d = s.bin1(Op::Sub, w, &Val::int(0), x)?;
                            s.ite_val(&c, &d, x, Some(w))?
                        }
                        Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::Bitreverse => s.bitcount(k, w, x)?,
                        k => return unsup(format!("intrinsic {k:?}")),
                    })
                };
                let y = if a.len() > 1 && args[1].1 == t { a[1].clone() } else { a[0].clone() };
                self.lanes2(&t, &a[0], &y, f)?
            }
        }))
    }

    fn bitcount(&mut self, k: &Intr, w: u32, x: &Val) -> R<Val> {
        let Val::I(c, e) = *x else { return unsup("bit count") };
        let v = match k {
            Intr::Ctlz => (if c == 0 { w } else { c.leading_zeros() - (128 - w) }) as u128,
            Intr::Cttz => (if c == 0 { w } else { c.trailing_zeros() }) as u128,
            Intr::Ctpop => c.count_ones() as u128,
            Intr::Bswap => c.swap_bytes() >> (128 - w),
            _ => c.reverse_bits() >> (128 - w),
        };
        if e == 0 {
            return Ok(Val::int(v));
        }
        let r = match k {
            Intr::Ctlz => {
                // from the top bit down
                let mut r = self.w.t.c(w, w as u128);
                for i in 0..w {
                    let b = self.w.t.extract(e, i, 1);
                    let n = self.w.t.c(w, (w - 1 - i) as u128);
                    r = self.w.t.ite(b, n, r);
                }
                r
            }
            Intr::Cttz => {
                let mut r = self.w.t.c(w, w as u128);
                for i in (0..w).rev() {
                    let b = self.w.t.extract(e, i, 1);
                    let n = self.w.t.c(w, i as u128);
                    r = self.w.t.ite(b, n, r);
                }
                r
            }
            Intr::Ctpop => {
                let mut r = self.w.t.c(w, 0);
                for i in 0..w {
                    let b = self.w.t.extract(e, i, 1);
                    let b = self.w.t.zext(b, w);
                    r = self.w.t.bin(Op::Add, r, b);
                }
                r
            }
            Intr::Bswap => {
                let mut r = 0;
                for i in 0..w / 8 {
                    let b = self.w.t.extract(e, w - 8 * (i + 1), 8);
                    r = if i == 0 { b } else { self.w.t.concat(b, r) };
                }
                r
            }
            _ => {
                let mut r = 0;
                for i in 0..w {
                    let b = self.w.t.extract(e, w - 1 - i, 1);
                    r = if i == 0 { b } else { self.w.t.concat(b, r) };
                }
                r
            }
        };
        Ok(self.val(v, r))
    }
}
