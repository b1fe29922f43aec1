//! Reader for textual LLVM IR, restricted to what rustc emits (after `prep` stripped metadata).

use crate::expr::{cbin, mask, Op};
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),
    L(String),
    G(String),
    S(Vec<u8>),
    P(char),
    End,
}

struct Lx {
    t: Vec<T>,
    i: usize,
    src: String,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'-' | b'$' | b'+')
}

impl Lx {
    fn new(s: &str) -> Self {
        let b = s.as_bytes();
        let mut t = Vec::new();
        let mut i = 0;
        let quoted = |i: &mut usize| -> Vec<u8> {
            // at opening quote
            *i += 1;
            let mut o = Vec::new();
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    if b[*i + 1] == b'\\' {
                        o.push(b'\\');
                        *i += 2;
                    } else {
                        o.push(u8::from_str_radix(std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap(), 16).unwrap());
                        *i += 3;
                    }
                } else {
                    o.push(b[*i]);
                    *i += 1;
                }
            }
            *i += 1;
            o
        };
        while i < b.len() {
            let c = b[i];
            match c {
                b' ' | b'\t' | b'\n' | b'\r' => i += 1,
                b';' => {
                    while i < b.len() && b[i] != b'\n' {
                        i += 1
                    }
                }
                b'%' | b'@' => {
                    i += 1;
                    let n = if b[i] == b'"' {
                        String::from_utf8_lossy(&quoted(&mut i)).into_owned()
                    } else {
                        let st = i;
                        while i < b.len() && is_word(b[i]) {
                            i += 1
                        }
                        s[st..i].to_string()
                    };
                    t.push(if c == b'%' { T::L(n) } else { T::G(n) });
                }
                b'c' if b.get(i + 1) == Some(&b'"') => {
                    i += 1;
                    t.push(T::S(quoted(&mut i)));
                }
                b'"' => t.push(T::S(quoted(&mut i))),
                b'#' | b'!' => {
                    let st = i;
                    i += 1;
                    while i < b.len() && is_word(b[i]) {
                        i += 1
                    }
                    t.push(T::W(s[st..i].to_string()));
                }
                _ if is_word(c) => {
                    let st = i;
                    while i < b.len() && is_word(b[i]) {
                        i += 1
                    }
                    t.push(T::W(s[st..i].to_string()));
                }
                _ => {
                    t.push(T::P(c as char));
                    i += 1;
                }
            }
        }
        Lx { t, i: 0, src: s.to_string() }
    }
    fn peek(&self) -> &T {
        self.t.get(self.i).unwrap_or(&T::End)
    }
    fn peek2(&self) -> &T {
        self.t.get(self.i + 1).unwrap_or(&T::End)
    }
    fn next(&mut self) -> T {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == T::P(c)
    }
    fn is_w(&self, s: &str) -> bool {
        matches!(self.peek(), T::W(w) if w == s)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if self.is_w(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            self.die(&format!("expected '{c}'"))
        }
    }
    fn die(&self, m: &str) -> ! {
        eprintln!("msx: cannot read IR: {m}, got {:?} (token {}) in: {}", self.peek(), self.i, self.src);
        std::process::exit(71)
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') | T::P('{') | T::P('[') | T::P('<') => d += 1,
                T::P(')') | T::P('}') | T::P(']') | T::P('>') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::End => self.die("unbalanced"),
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            T::W(w) => {
                matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P('{') | T::P('[') | T::P('<') => true,
            _ => false,
        }
    }
    /// Skip words (linkage, attributes, calling conventions, flags) up to the next type.
    fn skip_to_type(&mut self) {
        while !self.at_type() {
            match self.next() {
                T::W(_) | T::S(_) | T::P('=') => {
                    if self.is_p('(') {
                        self.skip_parens();
                    }
                }
                T::End => self.die("no type"),
                _ => {
                    self.i -= 1;
                    self.die("type expected")
                }
            }
        }
    }
    /// Skip parameter attributes after a type up to the value.
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                T::W(w) => {
                    let c = w.as_bytes()[0];
                    if c.is_ascii_digit() || c == b'-' || c == b'+' || is_const_word(w) {
                        return;
                    }
                    let align = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    } else if align {
                        self.i += 1;
                    }
                }
                T::S(_) if *self.peek2() == T::P('=') => self.i += 3,
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            T::W(w) => match w.as_str() {
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                _ if w.starts_with('i') => match w[1..].parse() {
                    Ok(n) => Ty::Int(n),
                    Err(_) => {
                        self.i -= 1;
                        self.die("type")
                    }
                },
                _ => {
                    self.i -= 1;
                    self.die("type")
                }
            },
            T::P('[') => {
                let n = self.num();
                if !self.eat_w("x") {
                    self.die("x");
                }
                let t = self.ty();
                self.exp_p(']');
                Ty::Array(Arc::new(t), n)
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let f = self.ty_list('}');
                    self.exp_p('>');
                    return Ty::Struct(Arc::new(f), true);
                }
                let n = self.num();
                if !self.eat_w("x") {
                    self.die("x");
                }
                let t = self.ty();
                self.exp_p('>');
                Ty::Vec(Arc::new(t), n as u32)
            }
            T::P('{') => Ty::Struct(Arc::new(self.ty_list('}')), false),
            _ => {
                self.i -= 1;
                self.die("type")
            }
        }
    }
    fn ty_list(&mut self, end: char) -> Vec<Ty> {
        let mut f = Vec::new();
        if self.eat_p(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat_p(end) {
                return f;
            }
            self.exp_p(',');
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            T::W(w) => match w.parse() {
                Ok(n) => n,
                Err(_) => {
                    self.i -= 1;
                    self.die("number")
                }
            },
            _ => {
                self.i -= 1;
                self.die("number")
            }
        }
    }
}

fn is_const_word(w: &str) -> bool {
    matches!(
        w,
        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint"
            | "ptrtoaddr" | "bitcast" | "trunc" | "add" | "sub" | "mul" | "xor" | "splat" | "addrspacecast" | "none" | "asm" | "no_cfi" | "dso_local_equivalent"
    ) || w.starts_with("0x")
        || w.starts_with("f0x")
}

struct Env {
    syms: HashMap<String, u64>,
}

fn zero(t: &Ty) -> Val {
    match t {
        Ty::Array(e, n) => Val::A(Arc::new((0..*n).map(|_| zero(e)).collect())),
        Ty::Vec(e, n) => Val::A(Arc::new((0..*n).map(|_| zero(e)).collect())),
        Ty::Struct(f, _) => Val::A(Arc::new(f.iter().map(zero).collect())),
        _ => Val::int(0),
    }
}

fn fconst(w: &str, t: &Ty) -> Option<u128> {
    if let Some(h) = w.strip_prefix("f0x") {
        return u128::from_str_radix(h, 16).ok();
    }
    let d = if let Some(h) = w.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).ok()?)
    } else {
        match w {
            "+inf" | "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "qnan" => f64::NAN,
            "-qnan" => -f64::NAN,
            _ => w.parse::<f64>().ok()?,
        }
    };
    Some(match t {
        Ty::F32 => (d as f32).to_bits() as u128,
        _ => d.to_bits() as u128,
    })
}

impl Env {
    /// A constant of type `t` at the cursor.
    fn konst(&self, l: &mut Lx, t: &Ty) -> Val {
        match l.next() {
            T::G(n) => match self.syms.get(&n) {
                Some(a) => Val::int(*a as u128),
                None => {
                    l.i -= 1;
                    l.die("unknown global")
                }
            },
            T::S(s) => Val::A(Arc::new(s.iter().map(|b| Val::int(*b as u128)).collect())),
            T::P('{') => Val::A(Arc::new(self.agg(l, '}'))),
            T::P('[') => Val::A(Arc::new(self.agg(l, ']'))),
            T::P('<') => {
                if l.eat_p('{') {
                    let v = self.agg(l, '}');
                    l.exp_p('>');
                    return Val::A(Arc::new(v));
                }
                Val::A(Arc::new(self.agg(l, '>')))
            }
            T::W(w) => match w.as_str() {
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => zero(t),
                "true" => Val::int(1),
                "false" => Val::int(0),
                "splat" => {
                    l.exp_p('(');
                    let et = l.ty();
                    let v = self.konst(l, &et);
                    l.exp_p(')');
                    match t {
                        Ty::Vec(_, n) => Val::A(Arc::new((0..*n).map(|_| v.clone()).collect())),
                        _ => l.die("splat of non-vector"),
                    }
                }
                "getelementptr" => {
                    while !l.is_p('(') {
                        l.i += 1;
                    }
                    l.exp_p('(');
                    // there may be inrange(...) before the parenthesis, handled by the loop above only
                    // when it has no parenthesis of its own
                    if matches!(l.peek(), T::W(w) if w.starts_with('-') || w.as_bytes()[0].is_ascii_digit()) {
                        while !l.eat_p(')') {
                            l.i += 1;
                        }
                        l.exp_p('(');
                    }
                    let st = l.ty();
                    l.exp_p(',');
                    let bt = l.ty();
                    let base = self.scalar(l, &bt);
                    let mut off = 0u64;
                    let mut cur = st;
                    let mut first = true;
                    while l.eat_p(',') {
                        let it = l.ty();
                        let i = self.scalar(l, &it);
                        let i = crate::expr::sext(i, it.bits()) as u64;
                        if first {
                            off = off.wrapping_add(cur.size().wrapping_mul(i));
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let (o, t) = cur.field(i);
                                    off = off.wrapping_add(o);
                                    cur = t;
                                }
                                Ty::Array(e, _) | Ty::Vec(e, _) => {
                                    off = off.wrapping_add(e.size().wrapping_mul(i));
                                    cur = (**e).clone();
                                }
                                _ => l.die("gep"),
                            }
                        }
                    }
                    l.exp_p(')');
                    Val::int((base as u64).wrapping_add(off) as u128)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                    l.exp_p('(');
                    let ft = l.ty();
                    let v = self.konst(l, &ft);
                    if !l.eat_w("to") {
                        l.die("to");
                    }
                    let tt = l.ty();
                    l.exp_p(')');
                    match v {
                        Val::I(v, _) => Val::int(v & mask(tt.bits())),
                        v => v,
                    }
                }
                "add" | "sub" | "mul" | "xor" => {
                    while !l.is_p('(') {
                        l.i += 1;
                    }
                    l.exp_p('(');
                    let at = l.ty();
                    let a = self.scalar(l, &at);
                    l.exp_p(',');
                    let bt = l.ty();
                    let b = self.scalar(l, &bt);
                    l.exp_p(')');
                    let op = match w.as_str() {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        "mul" => Op::Mul,
                        _ => Op::Xor,
                    };
                    Val::int(cbin(op, at.bits(), a, b))
                }
                "no_cfi" | "dso_local_equivalent" => self.konst(l, t),
                _ => match t {
                    Ty::F32 | Ty::F64 => match fconst(&w, t) {
                        Some(v) => Val::int(v),
                        None => l.die("float constant"),
                    },
                    Ty::Int(n) => {
                        if let Some(v) = w.strip_prefix('-') {
                            match v.parse::<u128>() {
                                Ok(v) => Val::int(v.wrapping_neg() & mask(*n)),
                                Err(_) => l.die("integer constant"),
                            }
                        } else {
                            match w.parse::<u128>() {
                                Ok(v) => Val::int(v & mask(*n)),
                                Err(_) => l.die("integer constant"),
                            }
                        }
                    }
                    _ => {
                        l.i -= 1;
                        l.die("constant")
                    }
                },
            },
            _ => {
                l.i -= 1;
                l.die("constant")
            }
        }
    }
    fn scalar(&self, l: &mut Lx, t: &Ty) -> u128 {
        match self.konst(l, t) {
            Val::I(v, _) => v,
            _ => l.die("scalar constant"),
        }
    }
    fn agg(&self, l: &mut Lx, end: char) -> Vec<Val> {
        let mut v = Vec::new();
        if l.eat_p(end) {
            return v;
        }
        loop {
            let t = l.ty();
            v.push(self.konst(l, &t));
            if l.eat_p(end) {
                return v;
            }
            l.exp_p(',');
        }
    }
}

/// Serialise a constant to bytes.
pub fn to_bytes(t: &Ty, v: &Val, out: &mut [u8]) {
    match (t, v) {
        (Ty::Array(e, _), Val::A(x)) => {
            let s = e.size() as usize;
            for (i, y) in x.iter().enumerate() {
                to_bytes(e, y, &mut out[i * s..]);
            }
        }
        (Ty::Struct(f, _), Val::A(x)) => {
            for (i, y) in x.iter().enumerate() {
                let (o, _) = t.field(i as u64);
                to_bytes(&f[i], y, &mut out[o as usize..]);
            }
        }
        (Ty::Vec(e, _), Val::A(x)) => {
            let s = e.store() as usize;
            assert!(e.bits() % 8 == 0, "constant vector of odd bits");
            for (i, y) in x.iter().enumerate() {
                to_bytes(e, y, &mut out[i * s..]);
            }
        }
        (t, Val::I(v, _)) => {
            let n = t.store() as usize;
            out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        _ => panic!("to_bytes {t:?}"),
    }
}

struct FnB<'a> {
    env: &'a Env,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    consts: Vec<Val>,
    cmap: HashMap<u128, u32>,
}

impl FnB<'_> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, l: &mut Lx) -> u32 {
        if !l.eat_w("label") {
            l.die("label");
        }
        match l.next() {
            T::L(n) => match self.labels.get(&n) {
                Some(b) => *b,
                None => l.die("unknown label"),
            },
            _ => l.die("label"),
        }
    }
    fn kc(&mut self, v: Val) -> Opd {
        if let Val::I(k, _) = v {
            if let Some(c) = self.cmap.get(&k) {
                return Opd::C(*c);
            }
            self.cmap.insert(k, self.consts.len() as u32);
        }
        self.consts.push(v);
        Opd::C(self.consts.len() as u32 - 1)
    }
    fn opd(&mut self, l: &mut Lx, t: &Ty) -> Opd {
        l.skip_attrs();
        if let T::L(n) = l.peek() {
            let n = n.clone();
            l.i += 1;
            return Opd::R(self.reg(&n));
        }
        if *t == Ty::Other {
            // metadata and the like, only in calls that are ignored
            while !l.is_p(',') && !l.is_p(')') && *l.peek() != T::End {
                if l.is_p('(') || l.is_p('{') {
                    l.skip_parens();
                } else {
                    l.i += 1;
                }
            }
            return self.kc(Val::int(0));
        }
        let v = self.env.konst(l, t);
        self.kc(v)
    }
    fn topd(&mut self, l: &mut Lx) -> (Opd, Ty) {
        let t = l.ty();
        let o = self.opd(l, &t);
        (o, t)
    }

    fn intr(name: &str) -> Intr {
        let n = name.strip_prefix("llvm.").unwrap();
        let p = |s: &str| n.starts_with(s);
        if p("lifetime") || p("experimental.noalias") || p("dbg") || p("invariant") || p("donothing") || p("x86.sse2.pause") || p("prefetch") || p("sideeffect") || p("va_") {
            Intr::Nop
        } else if p("assume") {
            Intr::Nop
        } else if p("memcpy") || p("memmove") {
            Intr::Memcpy
        } else if p("memset") {
            Intr::Memset
        } else if p("ctlz.") {
            Intr::Ctlz
        } else if p("cttz.") {
            Intr::Cttz
        } else if p("ctpop.") {
            Intr::Ctpop
        } else if p("bswap.") {
            Intr::Bswap
        } else if p("bitreverse.") {
            Intr::Bitreverse
        } else if p("abs.") {
            Intr::Abs
        } else if p("umin.") {
            Intr::UMin
        } else if p("umax.") {
            Intr::UMax
        } else if p("smin.") {
            Intr::SMin
        } else if p("smax.") {
            Intr::SMax
        } else if p("usub.sat") {
            Intr::USubSat
        } else if p("uadd.sat") {
            Intr::UAddSat
        } else if p("ssub.sat") {
            Intr::SSubSat
        } else if p("sadd.sat") {
            Intr::SAddSat
        } else if p("uadd.with.overflow") {
            Intr::UAddO
        } else if p("usub.with.overflow") {
            Intr::USubO
        } else if p("umul.with.overflow") {
            Intr::UMulO
        } else if p("sadd.with.overflow") {
            Intr::SAddO
        } else if p("ssub.with.overflow") {
            Intr::SSubO
        } else if p("smul.with.overflow") {
            Intr::SMulO
        } else if p("fshl.") {
            Intr::Fshl
        } else if p("fshr.") {
            Intr::Fshr
        } else if p("ucmp.") {
            Intr::Ucmp
        } else if p("scmp.") {
            Intr::Scmp
        } else if p("expect") || p("threadlocal.address") || p("launder") || p("strip.invariant") || p("ptrmask") && false {
            Intr::First
        } else if p("trap") || p("ubsantrap") || p("debugtrap") {
            Intr::Trap
        } else if p("is.constant") {
            Intr::IsConst
        } else if p("fabs.") {
            Intr::FAbs
        } else if p("trunc.f") {
            Intr::FRound('t')
        } else if p("floor.f") {
            Intr::FRound('f')
        } else if p("ceil.f") {
            Intr::FRound('c')
        } else if p("rint.f") || p("roundeven.f") || p("nearbyint.f") {
            Intr::FRound('e')
        } else if p("fptosi.sat") {
            Intr::FpToSat(true)
        } else if p("fptoui.sat") {
            Intr::FpToSat(false)
        } else if p("vector.reduce.or") {
            Intr::ReduceOr
        } else if p("vector.reduce.and") {
            Intr::ReduceAnd
        } else if p("vector.reduce.add") {
            Intr::ReduceAdd
        } else if p("vector.reduce.xor") {
            Intr::ReduceXor
        } else if p("x86.sse2.psad.bw") {
            Intr::Psad
        } else if p("vector.reduce.umax") {
            Intr::ReduceUMax
        } else {
            Intr::Unsupported(name.to_string())
        }
    }

    fn call(&mut self, l: &mut Lx, dst: Option<u32>, by_name: &HashMap<String, u32>) -> Ins {
        l.skip_to_type();
        let ret = l.ty();
        if l.is_p('(') {
            l.skip_parens();
        }
        let callee = match l.next() {
            T::G(n) => {
                if n.starts_with("llvm.") {
                    Callee::Intr(Self::intr(&n))
                } else {
                    Callee::Func(by_name[&n])
                }
            }
            T::L(n) => Callee::Dyn(Opd::R(self.reg(&n))),
            T::W(w) if w == "asm" => {
                while !matches!(l.peek(), T::S(_)) {
                    l.i += 1;
                }
                let T::S(s) = l.next() else { unreachable!() };
                l.exp_p(',');
                l.next();
                Callee::Asm(String::from_utf8_lossy(&s).into_owned())
            }
            T::W(w) if is_const_word(&w) => {
                l.i -= 1;
                let v = self.env.konst(l, &Ty::Ptr);
                Callee::Dyn(self.kc(v))
            }
            _ => {
                l.i -= 1;
                l.die("callee")
            }
        };
        if matches!(callee, Callee::Intr(Intr::Nop)) {
            return Ins::Copy(u32::MAX, Opd::C(0));
        }
        l.exp_p('(');
        let mut args = Vec::new();
        if !l.eat_p(')') {
            loop {
                let (o, t) = self.topd(l);
                args.push((o, t));
                if l.eat_p(')') {
                    break;
                }
                l.exp_p(',');
            }
        }
        Ins::Call { dst, ret, callee, args }
    }

    fn ins(&mut self, l: &mut Lx, by_name: &HashMap<String, u32>, cur: u32, blocks: &mut [Block], phis: &mut Vec<(u32, u32, Vec<(u32, Opd)>)>) {
        let mut dst = None;
        if let T::L(n) = l.peek() {
            let n = n.clone();
            l.i += 1;
            l.exp_p('=');
            dst = Some(self.reg(&n));
        }
        let d = dst.unwrap_or(u32::MAX);
        let T::W(op) = l.next() else { l.die("opcode") };
        let mut extra = None;
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                l.skip_to_type();
                let t = l.ty();
                let a = self.opd(l, &t);
                l.exp_p(',');
                let b = self.opd(l, &t);
                let o = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                if matches!(t, Ty::Int(n) if n > 128) {
                    Ins::Unsupported(format!("{op} {t:?}"))
                } else {
                    Ins::Bin(o, t, d, a, b)
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                l.skip_to_type();
                let t = l.ty();
                let a = self.opd(l, &t);
                l.exp_p(',');
                let b = self.opd(l, &t);
                let o = match op.as_str() {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                if t.scalar() {
                    Ins::FBin(o, t.bits(), d, a, b)
                } else {
                    Ins::Unsupported(format!("{op} {t:?}"))
                }
            }
            "fneg" => {
                l.skip_to_type();
                let t = l.ty();
                let a = self.opd(l, &t);
                Ins::FNeg(t.bits(), d, a)
            }
            "icmp" => {
                let mut p = None;
                while !l.at_type() {
                    let T::W(w) = l.next() else { l.die("icmp") };
                    p = Some(match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "samesign" => continue,
                        _ => l.die("icmp predicate"),
                    });
                }
                let t = l.ty();
                let a = self.opd(l, &t);
                l.exp_p(',');
                let b = self.opd(l, &t);
                Ins::ICmp(p.unwrap(), t, d, a, b)
            }
            "fcmp" => {
                let mut p = String::new();
                while !l.at_type() {
                    let T::W(w) = l.next() else { l.die("fcmp") };
                    p = w;
                }
                let t = l.ty();
                let a = self.opd(l, &t);
                l.exp_p(',');
                let b = self.opd(l, &t);
                if t.scalar() { Ins::FCmp(p, t.bits(), d, a, b) } else { Ins::Unsupported("fcmp vector".into()) }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                l.skip_to_type();
                let f = l.ty();
                let a = self.opd(l, &f);
                if !l.eat_w("to") {
                    l.die("to");
                }
                let t = l.ty();
                let k = match op.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptosi" => CastK::FpToSi,
                    "fptoui" => CastK::FpToUi,
                    "sitofp" => CastK::SiToFp,
                    "uitofp" => CastK::UiToFp,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                        if f.scalar() && t.scalar() {
                            if f.bits() > t.bits() { CastK::Trunc } else if f.bits() < t.bits() { CastK::ZExt } else { CastK::Bit }
                        } else {
                            CastK::Bit
                        }
                    }
                    _ => CastK::Bit,
                };
                let wide = |t: &Ty| matches!(t, Ty::Int(n) if *n > 128);
                if f == Ty::Other || t == Ty::Other || wide(&f) || wide(&t) {
                    Ins::Unsupported(format!("cast {}", l.src))
                } else {
                    Ins::Cast(k, f, t, d, a)
                }
            }
            "freeze" => {
                let (a, _) = self.topd(l);
                Ins::Copy(d, a)
            }
            "select" => {
                l.skip_to_type();
                let (c, _) = self.topd(l);
                l.exp_p(',');
                let (a, _) = self.topd(l);
                l.exp_p(',');
                let (b, t) = self.topd(l);
                Ins::Select(d, t, c, a, b)
            }
            "alloca" => {
                l.skip_to_type();
                let t = l.ty();
                let mut al = t.align();
                while l.eat_p(',') {
                    if l.eat_w("align") {
                        al = l.num();
                    } else {
                        l.die("alloca");
                    }
                }
                Ins::Alloca(d, t.size(), al)
            }
            "load" => {
                l.skip_to_type();
                let t = l.ty();
                l.exp_p(',');
                let (p, _) = self.topd(l);
                Ins::Load(t, d, p)
            }
            "store" => {
                l.skip_to_type();
                let (v, t) = self.topd(l);
                l.exp_p(',');
                let (p, _) = self.topd(l);
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                l.skip_to_type();
                let mut cur = l.ty();
                l.exp_p(',');
                let (base, bt) = self.topd(l);
                if bt != Ty::Ptr {
                    Ins::Unsupported("vector gep".into())
                } else {
                    let mut off = 0u64;
                    let mut idx = Vec::new();
                    let mut first = true;
                    let mut add = |fb: &mut Self, o: Opd, it: &Ty, sc: u64, off: &mut u64| match o {
                        Opd::C(c) => {
                            let Val::I(k, _) = fb.consts[c as usize] else { panic!("gep index") };
                            // constants are interned by value, re-extend from the index type
                            let k = crate::expr::sext(k & mask(it.bits()), it.bits()) as u64;
                            *off = off.wrapping_add(sc.wrapping_mul(k));
                        }
                        o => idx.push((o, it.bits(), sc)),
                    };
                    while l.eat_p(',') {
                        let (o, it) = self.topd(l);
                        if first {
                            add(self, o, &it, cur.size(), &mut off);
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let Opd::C(c) = o else { l.die("struct index") };
                                    let Val::I(k, _) = self.consts[c as usize] else { l.die("struct index") };
                                    let (fo, t) = cur.field(k as u64);
                                    off = off.wrapping_add(fo);
                                    cur = t;
                                }
                                Ty::Array(e, _) | Ty::Vec(e, _) => {
                                    add(self, o, &it, e.size(), &mut off);
                                    cur = (**e).clone();
                                }
                                _ => l.die("gep type"),
                            }
                        }
                    }
                    Ins::Gep(d, base, off, idx)
                }
            }
            "extractvalue" => {
                let (a, _) = self.topd(l);
                let mut p = Vec::new();
                while l.eat_p(',') {
                    p.push(l.num() as u32);
                }
                Ins::ExtractV(d, a, p)
            }
            "insertvalue" => {
                let (a, _) = self.topd(l);
                l.exp_p(',');
                let (v, _) = self.topd(l);
                let mut p = Vec::new();
                while l.eat_p(',') {
                    p.push(l.num() as u32);
                }
                Ins::InsertV(d, a, v, p)
            }
            "extractelement" => {
                let (a, _) = self.topd(l);
                l.exp_p(',');
                let (i, _) = self.topd(l);
                Ins::ExtractE(d, a, i)
            }
            "insertelement" => {
                let (a, _) = self.topd(l);
                l.exp_p(',');
                let (v, _) = self.topd(l);
                l.exp_p(',');
                let (i, _) = self.topd(l);
                Ins::InsertE(d, a, v, i)
            }
            "shufflevector" => {
                let (a, _) = self.topd(l);
                l.exp_p(',');
                let (b, _) = self.topd(l);
                l.exp_p(',');
                let mt = l.ty();
                let Ty::Vec(_, n) = mt else { l.die("mask") };
                let m = if l.eat_w("zeroinitializer") {
                    vec![Some(0); n as usize]
                } else if l.eat_w("poison") || l.eat_w("undef") {
                    vec![None; n as usize]
                } else if l.is_w("splat") {
                    let Val::A(v) = self.env.konst(l, &mt) else { unreachable!() };
                    v.iter().map(|x| match x { Val::I(k, _) => Some(*k as u32), _ => None }).collect()
                } else {
                    l.exp_p('<');
                    let mut m = Vec::new();
                    loop {
                        l.ty();
                        if l.eat_w("poison") || l.eat_w("undef") {
                            m.push(None);
                        } else {
                            m.push(Some(l.num() as u32));
                        }
                        if l.eat_p('>') {
                            break;
                        }
                        l.exp_p(',');
                    }
                    m
                };
                Ins::Shuffle(d, a, b, m)
            }
            "phi" => {
                l.skip_to_type();
                let t = l.ty();
                let mut v = Vec::new();
                loop {
                    l.exp_p('[');
                    let o = self.opd(l, &t);
                    l.exp_p(',');
                    let T::L(n) = l.next() else { l.die("phi") };
                    let b = self.labels[&n];
                    l.exp_p(']');
                    v.push((b, o));
                    if !l.eat_p(',') {
                        break;
                    }
                }
                phis.push((cur, d, v));
                return;
            }
            "call" | "tail" | "musttail" | "notail" => self.call(l, dst, by_name),
            "invoke" => {
                let c = self.call(l, dst, by_name);
                while !l.is_w("to") {
                    l.i += 1;
                }
                l.i += 1;
                let b = self.label(l);
                extra = Some(Ins::Br(b));
                c
            }
            "atomicrmw" => {
                let T::W(mut k) = l.next() else { l.die("atomicrmw") };
                if k == "volatile" {
                    let T::W(k2) = l.next() else { l.die("atomicrmw") };
                    k = k2;
                }
                let (p, _) = self.topd(l);
                l.exp_p(',');
                let (v, t) = self.topd(l);
                Ins::Rmw(k, t, d, p, v)
            }
            "cmpxchg" => {
                l.skip_to_type();
                let (p, _) = self.topd(l);
                l.exp_p(',');
                let (c, t) = self.topd(l);
                l.exp_p(',');
                let (n, _) = self.topd(l);
                Ins::CmpXchg(t, d, p, c, n)
            }
            "fence" => Ins::Copy(u32::MAX, Opd::C(0)),
            "br" => {
                if l.is_w("label") {
                    let b = self.label(l);
                    Ins::Br(b)
                } else {
                    let (c, _) = self.topd(l);
                    l.exp_p(',');
                    let a = self.label(l);
                    l.exp_p(',');
                    let b = self.label(l);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (c, t) = self.topd(l);
                l.exp_p(',');
                let def = self.label(l);
                l.exp_p('[');
                let mut v = Vec::new();
                while !l.eat_p(']') {
                    let ct = l.ty();
                    let k = self.env.scalar(l, &ct);
                    l.exp_p(',');
                    let b = self.label(l);
                    v.push((k, b));
                }
                Ins::Switch(c, t.bits(), def, v)
            }
            "ret" => {
                let t = l.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let o = self.opd(l, &t);
                    Ins::Ret(Some(o))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" | "landingpad" | "catchswitch" | "cleanuppad" | "indirectbr" | "callbr" | "va_arg" => Ins::Unsupported(op.clone()),
            _ => l.die("opcode"),
        };
        let b = &mut blocks[cur as usize];
        if !matches!(i, Ins::Copy(u32::MAX, _)) {
            b.ins.push(i);
        }
        if let Some(e) = extra {
            b.ins.push(e);
        }
    }
}

fn is_define(line: &str) -> bool {
    line.starts_with("define ")
}

fn header(l: &mut Lx) -> (Ty, String) {
    l.i = 1;
    l.skip_to_type();
    let ret = l.ty();
    let T::G(n) = l.next() else { l.die("function name") };
    (ret, n)
}

/// Rewrites arithmetic on 256 bit integers, which LLVM makes of wide multiplications of 128 bit
/// ones, into arithmetic on pairs of 128 bit registers. Whatever is not of the forms handled here
/// stays as it is and is refused when it is executed.
fn widen(text: &str) -> String {
    let mut out = String::with_capacity(text.len() + 4096);
    for line in text.lines() {
        match widen_line(line) {
            Some(new) => out.push_str(&new),
            None => {
                out.push_str(line);
                out.push('\n');
            }
        }
    }
    out
}

fn widen_line(line: &str) -> Option<String> {
    if !line.contains(" i256 ") && !line.ends_with(" i256") {
        return None;
    }
    let (dst, rest) = line.trim().split_once(" = ")?;
    if !dst.starts_with('%') || dst.starts_with("%\"") {
        return None;
    }
    let words: Vec<&str> = rest.split([' ', ',']).filter(|w| !w.is_empty() && !matches!(*w, "nuw" | "nsw" | "nneg" | "exact")).collect();
    let lo = |r: &str| format!("{r}.w256.lo");
    let hi = |r: &str| format!("{r}.w256.hi");
    let (dl, dh) = (lo(dst), hi(dst));
    let m = u64::MAX;
    Some(match words[..] {
        ["zext", from, v, "to", "i256"] if from != "i256" => {
            let first = if from == "i128" { format!("  {dl} = or i128 {v}, 0\n") } else { format!("  {dl} = zext {from} {v} to i128\n") };
            format!("{first}  {dh} = or i128 0, 0\n")
        }
        ["trunc", "i256", v, "to", "i128"] => format!("  {dst} = or i128 {}, 0\n", lo(v)),
        ["trunc", "i256", v, "to", to] => format!("  {dst} = trunc i128 {} to {to}\n", lo(v)),
        ["lshr", "i256", v, n] => {
            let n: u32 = n.parse().ok()?;
            match n {
                128 => format!("  {dl} = or i128 {}, 0\n  {dh} = or i128 0, 0\n", hi(v)),
                129..=255 => format!("  {dl} = lshr i128 {}, {}\n  {dh} = or i128 0, 0\n", hi(v), n - 128),
                1..=127 => format!(
                    "  {dl}.a = lshr i128 {}, {n}\n  {dl}.b = shl i128 {}, {}\n  {dl} = or i128 {dl}.a, {dl}.b\n  {dh} = lshr i128 {}, {n}\n",
                    lo(v),
                    hi(v),
                    128 - n,
                    hi(v)
                ),
                _ => return None,
            }
        }
        ["mul", "i256", v, c] => {
            let c: u128 = c.parse().ok()?;
            let (c0, c1) = (c & m as u128, c >> 64);
            let (l, h) = (lo(v), hi(v));
            format!(
                "  {dl}.a0 = and i128 {l}, {m}\n  {dl}.a1 = lshr i128 {l}, 64\n  \
                 {dl}.p00 = mul i128 {dl}.a0, {c0}\n  {dl}.p01 = mul i128 {dl}.a0, {c1}\n  \
                 {dl}.p10 = mul i128 {dl}.a1, {c0}\n  {dl}.p11 = mul i128 {dl}.a1, {c1}\n  \
                 {dl}.m0 = lshr i128 {dl}.p00, 64\n  {dl}.m1 = and i128 {dl}.p01, {m}\n  {dl}.m2 = and i128 {dl}.p10, {m}\n  \
                 {dl}.m3 = add i128 {dl}.m0, {dl}.m1\n  {dl}.m = add i128 {dl}.m3, {dl}.m2\n  \
                 {dl}.l0 = and i128 {dl}.p00, {m}\n  {dl}.l1 = shl i128 {dl}.m, 64\n  {dl} = or i128 {dl}.l0, {dl}.l1\n  \
                 {dh}.0 = lshr i128 {dl}.p01, 64\n  {dh}.1 = lshr i128 {dl}.p10, 64\n  {dh}.2 = lshr i128 {dl}.m, 64\n  \
                 {dh}.3 = add i128 {dl}.p11, {dh}.0\n  {dh}.4 = add i128 {dh}.3, {dh}.1\n  {dh}.5 = add i128 {dh}.4, {dh}.2\n  \
                 {dh}.6 = mul i128 {h}, {c}\n  {dh} = add i128 {dh}.5, {dh}.6\n"
            )
        }
        _ => return None,
    })
}

pub fn load(text: &str) -> Module {
    let text = &widen(text);
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: symbols
    let mut funcs: Vec<Func> = Vec::new();
    let mut by_name = HashMap::new();
    let mut syms = HashMap::new();
    let mut bodies: Vec<(u32, usize, usize)> = Vec::new();
    let mut gl: Vec<(String, usize)> = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let s = lines[i];
        if is_define(s) || s.starts_with("declare ") {
            let mut l = Lx::new(s);
            let (_, name) = header(&mut l);
            let id = funcs.len() as u32;
            syms.insert(name.clone(), FUNC_BASE + 16 * id as u64);
            by_name.insert(name.clone(), id);
            funcs.push(Func { name, params: 0, nregs: 0, consts: vec![], blocks: vec![] });
            if is_define(s) {
                let st = i;
                while lines[i] != "}" {
                    i += 1;
                }
                bodies.push((id, st, i));
            }
        } else if s.starts_with('@') {
            let l = Lx::new(s);
            let T::G(n) = l.peek().clone() else { l.die("global") };
            gl.push((n, i));
        }
        i += 1;
    }
    // pass 2: globals, addresses first
    let mut addr = GLOBAL_BASE;
    let mut globals = Vec::new();
    let mut pend = Vec::new();
    for (name, li) in &gl {
        let mut l = Lx::new(lines[*li]);
        l.i = 2;
        let mut external = false;
        let mut constant = false;
        let mut alias = false;
        loop {
            match l.peek().clone() {
                T::W(w) => {
                    match w.as_str() {
                        "external" | "extern_weak" => external = true,
                        "constant" => constant = true,
                        "alias" => alias = true,
                        _ => {}
                    }
                    l.i += 1;
                    if l.is_p('(') {
                        l.skip_parens();
                    }
                    if matches!(w.as_str(), "global" | "constant" | "alias" | "ifunc") {
                        break;
                    }
                }
                _ => l.die("global"),
            }
        }
        if alias {
            // alias <ty>, ptr @target
            l.ty();
            l.exp_p(',');
            l.ty();
            let T::G(t) = l.next() else { l.die("alias") };
            pend.push((name.clone(), t));
            continue;
        }
        let ty = l.ty();
        let at = l.i;
        let size = ty.size();
        // explicit alignment
        let mut al = ty.align().max(1);
        for k in at..l.t.len().saturating_sub(1) {
            if l.t[k] == T::W("align".into()) {
                if let T::W(n) = &l.t[k + 1] {
                    if let Ok(n) = n.parse::<u64>() {
                        al = al.max(n);
                    }
                }
            }
        }
        addr = addr.next_multiple_of(al.max(16));
        if external {
            // an undefined weak symbol resolves to null
            syms.insert(name.clone(), if lines[*li].contains("extern_weak") { 0 } else { addr });
        } else {
            syms.insert(name.clone(), addr);
        }
        globals.push((Global { name: name.clone(), addr, size, init: vec![0; size as usize], constant }, l, ty, external));
        addr += size + 32;
    }
    for (n, t) in pend {
        let a = syms[&t];
        syms.insert(n.clone(), a);
        if let Some(f) = by_name.get(&t).copied() {
            by_name.insert(n, f);
        }
    }
    let env = Env { syms };
    let globals: Vec<Global> = globals
        .into_iter()
        .map(|(mut g, mut l, ty, ext)| {
            if !ext {
                if l.is_w("undef") || l.is_w("poison") || l.is_w("zeroinitializer") {
                } else {
                    let v = env.konst(&mut l, &ty);
                    to_bytes(&ty, &v, &mut g.init);
                }
            }
            g
        })
        .collect();
    // pass 3: bodies
    for (id, st, en) in bodies {
        let mut fb = FnB { env: &env, regs: HashMap::new(), labels: HashMap::new(), consts: vec![Val::int(0)], cmap: HashMap::new() };
        fb.cmap.insert(0, 0);
        let mut l = Lx::new(lines[st]);
        header(&mut l);
        l.exp_p('(');
        let mut params = 0;
        if !l.eat_p(')') {
            loop {
                if l.is_p('.') {
                    l.i += 1;
                }
                l.ty();
                l.skip_attrs();
                match l.next() {
                    T::L(n) => {
                        let r = fb.reg(&n);
                        assert_eq!(r, params);
                    }
                    _ => l.die("parameter"),
                }
                params += 1;
                if l.eat_p(')') {
                    break;
                }
                l.exp_p(',');
            }
        }
        // labels
        let mut nb = 0u32;
        let mut started = false;
        for s in &lines[st + 1..en] {
            if s.is_empty() {
                continue;
            }
            if !s.starts_with(' ') && !s.starts_with('\t') {
                let e = if let Some(r) = s.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    s[..s.find(':').unwrap_or(s.len())].to_string()
                };
                fb.labels.insert(e, nb);
                nb += 1;
                started = true;
            } else if !started {
                // implicit entry label: the next free number
                let unnamed = fb.regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
                fb.labels.insert(unnamed.to_string(), nb);
                nb += 1;
                started = true;
            }
        }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block::default()).collect();
        let mut phis = Vec::new();
        let mut cur = 0u32;
        let mut seen = false;
        let mut j = st + 1;
        while j < en {
            let s = lines[j];
            if s.is_empty() {
                j += 1;
                continue;
            }
            if !s.starts_with(' ') && !s.starts_with('\t') {
                if seen {
                    cur += 1;
                }
                seen = true;
                j += 1;
                continue;
            }
            seen = true;
            let tr = s.trim_start();
            let mut full = s.to_string();
            if tr.starts_with("switch ") && !s.contains(']') {
                loop {
                    j += 1;
                    full.push('\n');
                    full += lines[j];
                    if lines[j].trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if (tr.starts_with("invoke ") || tr.contains("= invoke ")) && !s.contains(" unwind label ") {
                j += 1;
                full.push('\n');
                full += lines[j];
            } else if tr.contains("= landingpad ") {
                while j + 1 < en && lines[j + 1].starts_with("          ") {
                    j += 1;
                }
            }
            let mut lx = Lx::new(&full);
            fb.ins(&mut lx, &by_name, cur, &mut blocks, &mut phis);
            j += 1;
        }
        for (b, d, v) in phis {
            let blk = &mut blocks[b as usize];
            if blk.preds.is_empty() {
                for (p, _) in &v {
                    if !blk.preds.contains(p) {
                        blk.preds.push(*p);
                    }
                }
            }
            let ops = blk.preds.iter().map(|p| v.iter().find(|x| x.0 == *p).unwrap().1).collect();
            blk.phis.push((d, ops));
        }
        let f = &mut funcs[id as usize];
        f.params = params;
        f.nregs = fb.regs.len() as u32;
        f.consts = fb.consts;
        f.blocks = blocks;
    }
    Module { funcs, by_name, globals }
}
