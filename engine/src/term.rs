//! Hash-consed bit-vector terms (width 1..=128) with a canonicalising simplifier.
//! A boolean is a 1-bit vector.

use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    Concat(T, T),
    Extract(T, u16),
    SExt(T),
    Eq(T, T),
    Ult(T, T),
    Ite(T, T, T),
}

#[derive(Clone, Copy)]
pub struct Info {
    pub node: Node,
    pub w: u16,
    pub zeros: u128, // bits known to be 0
    pub ones: u128,  // bits known to be 1
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext_val(v: u128, w: u16) -> i128 {
    if w == 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

#[derive(Default)]
pub struct Arena {
    pub infos: Vec<Info>,
    map: HashMap<(Node, u16), T, Fx>,
    pub vars: Vec<u16>,
    rec: HashMap<(Node, u16), T, Fx>,
    depth: u32,
    // evaluation cache
    ev_val: Vec<u128>,
    ev_epoch: Vec<u32>,
    epoch: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx;
pub struct FxHasher(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxHasher;
    fn build_hasher(&self) -> FxHasher {
        FxHasher(0)
    }
}
impl FxHasher {
    fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}
impl std::hash::Hasher for FxHasher {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.add(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.add(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.add(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.add(i)
    }
    fn write_u128(&mut self, i: u128) {
        self.add(i as u64);
        self.add((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.add(i as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

impl Arena {
    /// for debugging
    pub fn show(&self, t: T, depth: u32) -> String {
        let f = |x: T| self.show(x, depth.wrapping_sub(1));
        if depth == 0 {
            return format!("t{t}");
        }
        match self.node(t) {
            Node::Const(v) => format!("{v:#x}"),
            Node::Var(v) => format!("v{v}:{}", self.w(t)),
            Node::Not(a) => format!("!{}", f(a)),
            Node::Extract(a, k) => format!("{}[{}+{}]", f(a), k, self.w(t)),
            Node::SExt(a) => format!("sext({})", f(a)),
            Node::Ite(c, a, b) => format!("({} ? {} : {})", f(c), f(a), f(b)),
            Node::Concat(a, b) => format!("({} . {})", f(a), f(b)),
            Node::Eq(a, b) => format!("({} == {})", f(a), f(b)),
            n => match n {
                Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) | Node::Add(a, b) | Node::Sub(a, b)
                | Node::Mul(a, b) | Node::UDiv(a, b) | Node::URem(a, b) | Node::SDiv(a, b)
                | Node::SRem(a, b) | Node::Shl(a, b) | Node::LShr(a, b) | Node::AShr(a, b)
                | Node::Ult(a, b) => {
                    let d = format!("{n:?}");
                    format!("{}({}, {})", d.split('(').next().unwrap(), f(a), f(b))
                }
                _ => String::new(),
            },
        }
    }
    pub fn new() -> Self {
        Default::default()
    }
    pub fn w(&self, t: T) -> u16 {
        self.infos[t as usize].w
    }
    pub fn node(&self, t: T) -> Node {
        self.infos[t as usize].node
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        match self.infos[t as usize].node {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    fn known(&self, t: T) -> (u128, u128) {
        let i = &self.infos[t as usize];
        (i.zeros, i.ones)
    }
    pub fn umin(&self, t: T) -> u128 {
        self.infos[t as usize].ones
    }
    pub fn umax(&self, t: T) -> u128 {
        let i = &self.infos[t as usize];
        mask(i.w) & !i.zeros
    }

    fn intern(&mut self, node: Node, w: u16) -> T {
        if let Some(&t) = self.map.get(&(node, w)) {
            return t;
        }
        let (zeros, ones) = self.compute_known(node, w);
        if !matches!(node, Node::Const(_)) && (zeros | ones) == mask(w) {
            let c = self.c(w, ones);
            self.map.insert((node, w), c);
            return c;
        }
        let t = self.infos.len() as T;
        self.infos.push(Info { node, w, zeros, ones });
        self.ev_val.push(0);
        self.ev_epoch.push(0);
        self.map.insert((node, w), t);
        t
    }

    fn compute_known(&self, node: Node, w: u16) -> (u128, u128) {
        let m = mask(w);
        match node {
            Node::Const(v) => (m & !v, v),
            Node::Var(_) => (0, 0),
            Node::Not(a) => {
                let (z, o) = self.known(a);
                (o, z)
            }
            Node::And(a, b) => {
                let (za, oa) = self.known(a);
                let (zb, ob) = self.known(b);
                (za | zb, oa & ob)
            }
            Node::Or(a, b) => {
                let (za, oa) = self.known(a);
                let (zb, ob) = self.known(b);
                (za & zb, oa | ob)
            }
            Node::Xor(a, b) => {
                let (za, oa) = self.known(a);
                let (zb, ob) = self.known(b);
                ((za & zb) | (oa & ob), (za & ob) | (oa & zb))
            }
            Node::Add(a, b) => {
                // leading zeros and trailing zeros only
                let (ma, mb) = (self.umax(a), self.umax(b));
                let mut z = 0;
                if let Some(s) = ma.checked_add(mb) {
                    if s <= m {
                        let bl = 128 - s.leading_zeros();
                        z |= m & !mask(bl as u16);
                        if bl == 0 {
                            z = m;
                        }
                    }
                }
                let tz = self.tz(a).min(self.tz(b));
                z |= mask(tz) & m;
                (z, 0)
            }
            Node::Mul(a, b) => {
                let (ma, mb) = (self.umax(a), self.umax(b));
                let mut z = 0;
                if let Some(s) = ma.checked_mul(mb) {
                    if s <= m {
                        let bl = 128 - s.leading_zeros();
                        z |= m & !mask(bl as u16);
                        if bl == 0 {
                            z = m;
                        }
                    }
                }
                let tz = (self.tz(a) + self.tz(b)).min(w);
                z |= mask(tz) & m;
                (z, 0)
            }
            Node::UDiv(a, _) => {
                let s = self.umax(a);
                // division by zero yields all ones; callers exclude it
                let _ = s;
                (0, 0)
            }
            Node::URem(a, b) => {
                // x urem c, c const > 0: < c
                if let Some(c) = self.as_const(b) {
                    if c > 0 {
                        let bl = 128 - (c - 1).leading_zeros();
                        return (m & !mask(bl as u16), 0);
                    }
                }
                let _ = a;
                (0, 0)
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                let (zh, oh) = self.known(h);
                let (zl, ol) = self.known(l);
                ((zh << lw) | zl, (oh << lw) | ol)
            }
            Node::Extract(a, lo) => {
                let (z, o) = self.known(a);
                ((z >> lo) & m, (o >> lo) & m)
            }
            Node::SExt(a) => {
                let aw = self.w(a);
                let (z, o) = self.known(a);
                let hi = m & !mask(aw);
                let s = 1u128 << (aw - 1);
                (
                    z | if z & s != 0 { hi } else { 0 },
                    o | if o & s != 0 { hi } else { 0 },
                )
            }
            Node::Ite(_, a, b) => {
                let (za, oa) = self.known(a);
                let (zb, ob) = self.known(b);
                (za & zb, oa & ob)
            }
            _ => (0, 0),
        }
    }
    fn tz(&self, t: T) -> u16 {
        let i = &self.infos[t as usize];
        ((!i.zeros).trailing_zeros() as u16).min(i.w)
    }

    pub fn c(&mut self, w: u16, v: u128) -> T {
        let v = v & mask(w);
        self.intern(Node::Const(v), w)
    }
    pub fn b(&mut self, v: bool) -> T {
        self.c(1, v as u128)
    }
    pub fn fresh(&mut self, w: u16) -> T {
        let i = self.vars.len() as u32;
        self.vars.push(w);
        self.intern(Node::Var(i), w)
    }

    fn not_i(&mut self, a: T) -> T {
        let w = self.w(a);
        match self.node(a) {
            Node::Const(v) => self.c(w, !v),
            Node::Not(x) => x,
            Node::Concat(h, l) => {
                let nh = self.not(h);
                let nl = self.not(l);
                self.concat(nh, nl)
            }
            _ => self.intern(Node::Not(a), w),
        }
    }

    fn extract_i(&mut self, t: T, lo: u16, w: u16) -> T {
        let tw = self.w(t);
        debug_assert!(lo + w <= tw);
        if lo == 0 && w == tw {
            return t;
        }
        let (z, o) = self.known(t);
        let m = mask(w);
        if ((z | o) >> lo) & m == m {
            return self.c(w, (o >> lo) & m);
        }
        match self.node(t) {
            Node::Const(v) => self.c(w, v >> lo),
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    self.extract(l, lo, w)
                } else if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else {
                    let a = self.extract(h, 0, lo + w - lw);
                    let b = self.extract(l, lo, lw - lo);
                    self.concat(a, b)
                }
            }
            Node::Extract(x, lo2) => self.extract(x, lo + lo2, w),
            Node::Not(x) => {
                let e = self.extract(x, lo, w);
                self.not(e)
            }
            Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) => {
                let ea = self.extract(a, lo, w);
                let eb = self.extract(b, lo, w);
                if self.as_const(ea).is_some() || self.as_const(eb).is_some() || w == 1 {
                    match self.node(t) {
                        Node::And(..) => self.and(ea, eb),
                        Node::Or(..) => self.or(ea, eb),
                        _ => self.xor(ea, eb),
                    }
                } else {
                    self.intern(Node::Extract(t, lo), w)
                }
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo == 0 {
                    self.sext(x, w)
                } else {
                    self.intern(Node::Extract(t, lo), w)
                }
            }
            Node::Ite(c, a, b) => {
                let ea = self.extract(a, lo, w);
                let eb = self.extract(b, lo, w);
                if ea == eb {
                    return ea;
                }
                if self.as_const(a).is_some() || self.as_const(b).is_some() {
                    self.ite(c, ea, eb)
                } else {
                    self.intern(Node::Extract(t, lo), w)
                }
            }
            Node::Add(a, b) if lo == 0 => {
                let ea = self.extract(a, 0, w);
                let eb = self.extract(b, 0, w);
                self.add(ea, eb)
            }
            Node::Sub(a, b) if lo == 0 => {
                let ea = self.extract(a, 0, w);
                let eb = self.extract(b, 0, w);
                self.sub(ea, eb)
            }
            Node::Mul(a, b) if lo == 0 => {
                let ea = self.extract(a, 0, w);
                let eb = self.extract(b, 0, w);
                self.mul(ea, eb)
            }
            _ => self.intern(Node::Extract(t, lo), w),
        }
    }

    /// try to merge two adjacent pieces into one non-Concat term
    fn merge(&mut self, h: T, l: T) -> Option<T> {
        let (hw, lw) = (self.w(h), self.w(l));
        match (self.node(h), self.node(l)) {
            (Node::Const(a), Node::Const(b)) => Some(self.c(hw + lw, (a << lw) | b)),
            (Node::Extract(x, lo1), Node::Extract(y, lo2)) if x == y && lo1 == lo2 + lw => {
                Some(self.extract(x, lo2, hw + lw))
            }
            (Node::Extract(x, lo1), _) if x == l && lo1 == lw => {
                // extract of x above x itself cannot happen (lo1 + hw <= w(x) = lw)
                None
            }
            (Node::Ite(c, a, b), Node::Ite(c2, d, e)) if c == c2 => {
                let x = self.concat(a, d);
                let y = self.concat(b, e);
                Some(self.ite(c, x, y))
            }
            (Node::Not(a), Node::Not(b)) => {
                let m = self.merge(a, b)?;
                Some(self.not(m))
            }
            _ => None,
        }
    }

    fn concat_i(&mut self, h: T, l: T) -> T {
        if let Node::Concat(a, b) = self.node(h) {
            let x = self.concat(b, l);
            return self.concat(a, x);
        }
        if let Some(m) = self.merge(h, l) {
            return m;
        }
        if let Node::Concat(l1, l2) = self.node(l) {
            if let Some(m) = self.merge(h, l1) {
                return self.concat(m, l2);
            }
        }
        let w = self.w(h) + self.w(l);
        assert!(w <= 128, "term wider than 128 bits");
        self.intern(Node::Concat(h, l), w)
    }

    pub fn zext(&mut self, t: T, w: u16) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let z = self.c(w - tw, 0);
        self.concat(z, t)
    }
    fn sext_i(&mut self, t: T, w: u16) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let (z, o) = self.known(t);
        let s = 1u128 << (tw - 1);
        if z & s != 0 {
            return self.zext(t, w);
        }
        if o & s != 0 {
            let h = self.c(w - tw, !0);
            return self.concat(h, t);
        }
        match self.node(t) {
            Node::SExt(x) => self.sext(x, w),
            Node::Ite(c, a, b) if self.as_const(a).is_some() && self.as_const(b).is_some() => {
                let x = self.sext(a, w);
                let y = self.sext(b, w);
                self.ite(c, x, y)
            }
            _ => self.intern(Node::SExt(t), w),
        }
    }
    pub fn trunc(&mut self, t: T, w: u16) -> T {
        self.extract(t, 0, w)
    }

    fn cuts(&self, t: T, base: u16, out: &mut Vec<u16>) {
        match self.node(t) {
            Node::Concat(h, l) => {
                let lw = self.w(l);
                self.cuts(l, base, out);
                out.push(base + lw);
                self.cuts(h, base + lw, out);
            }
            Node::Const(v) => {
                let w = self.w(t);
                let mut n = 0;
                let mut tmp = vec![];
                for i in 1..w {
                    if ((v >> i) ^ (v >> (i - 1))) & 1 == 1 {
                        n += 1;
                        tmp.push(base + i);
                    }
                }
                if n <= 8 {
                    out.extend(tmp);
                }
            }
            _ => {}
        }
    }

    fn bitwise(&mut self, op: u8, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.c(
                w,
                match op {
                    0 => x & y,
                    1 => x | y,
                    _ => x ^ y,
                },
            );
        }
        let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if let Some(y) = self.as_const(b) {
            match op {
                0 if y == 0 => return b,
                0 if y == m => return a,
                1 if y == 0 => return a,
                1 if y == m => return b,
                2 if y == 0 => return a,
                2 if y == m => return self.not(a),
                _ => {}
            }
            // mask covers everything that may be non-zero / already set
            let (z, o) = self.known(a);
            if op == 0 && (m & !z) & !y == 0 {
                return a;
            }
            if op == 1 && y & !o == 0 {
                return a;
            }
        }
        if a == b {
            return if op == 2 { self.c(w, 0) } else { a };
        }
        if w == 1 {
            if let Node::Not(x) = self.node(a) {
                if x == b {
                    return self.b(op != 0);
                }
            }
            if let Node::Not(x) = self.node(b) {
                if x == a {
                    return self.b(op != 0);
                }
            }
            // absorb: and(a, and(a, x)) = and(a, x)
            match (op, self.node(b)) {
                (0, Node::And(x, y)) | (1, Node::Or(x, y)) if x == a || y == a => return b,
                _ => {}
            }
            match (op, self.node(a)) {
                (0, Node::And(x, y)) | (1, Node::Or(x, y)) if x == b || y == b => return a,
                _ => {}
            }
        } else {
            // segment-wise if that exposes constants
            let mut cuts = vec![];
            self.cuts(a, 0, &mut cuts);
            self.cuts(b, 0, &mut cuts);
            if !cuts.is_empty() {
                cuts.sort();
                cuts.dedup();
                let mut lo = 0;
                let mut parts: Vec<(T, T)> = vec![];
                let mut useful = false;
                cuts.push(w);
                for &hi in &cuts {
                    let ea = self.extract(a, lo, hi - lo);
                    let eb = self.extract(b, lo, hi - lo);
                    if self.as_const(ea).is_some() || self.as_const(eb).is_some() {
                        useful = true;
                    }
                    parts.push((ea, eb));
                    lo = hi;
                }
                if useful && parts.len() > 1 {
                    let mut acc: Option<T> = None;
                    for (ea, eb) in parts {
                        let r = self.bitwise(op, ea, eb);
                        acc = Some(match acc {
                            None => r,
                            Some(l) => self.concat(r, l),
                        });
                    }
                    return acc.unwrap();
                }
            }
        }
        let n = match op {
            0 => Node::And(a, b),
            1 => Node::Or(a, b),
            _ => Node::Xor(a, b),
        };
        self.intern(n, w)
    }

    fn add_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_add(y)),
            (None, Some(0)) => return a,
            (None, Some(y)) => match self.node(a) {
                Node::Add(p, q) => {
                    if let Some(z) = self.as_const(q) {
                        let k = self.c(w, y.wrapping_add(z));
                        return self.add(p, k);
                    }
                }
                Node::Ite(c, p, q)
                    if self.as_const(p).is_some() && self.as_const(q).is_some() =>
                {
                    let x = self.add(p, b);
                    let y = self.add(q, b);
                    return self.ite(c, x, y);
                }
                _ => {}
            },
            _ => {}
        }
        // the sum stays within known bits
        if let Some(y) = self.as_const(b) {
            let i = self.infos[a as usize];
            let known = i.zeros | i.ones;
            let m = y.wrapping_neg() & mask(w);
            for (d, minus) in [(y, false), (m, true)] {
                let k = d.trailing_zeros() as u16;
                let run = (!(known >> k)).trailing_zeros().min((w - k) as u32) as u16;
                if run == 0 || (d >> k) > mask(run) {
                    continue;
                }
                let v = (i.ones >> k) & mask(run);
                let r = if minus { v.checked_sub(d >> k) } else { v.checked_add(d >> k) };
                let r = match r {
                    Some(r) if r <= mask(run) => r,
                    _ => continue,
                };
                let mut t = self.c(run, r);
                if k > 0 {
                    let lo = self.extract(a, 0, k);
                    t = self.concat(t, lo);
                }
                if k + run < w {
                    let hi = self.extract(a, k + run, w - k - run);
                    t = self.concat(hi, t);
                }
                return t;
            }
        }
        // disjoint bits: add = or
        if self.umax(a) & self.umax(b) == 0 {
            return self.or(a, b);
        }
        if let (Node::Add(p, q), None) = (self.node(a), self.as_const(b)) {
            if self.as_const(q).is_some() {
                let s = self.add(p, b);
                return self.add(s, q);
            }
        }
        if let Node::Add(p, q) = self.node(b) {
            if self.as_const(q).is_some() {
                let s = self.add(a, p);
                return self.add(s, q);
            }
        }
        self.intern(Node::Add(a, b), w)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let z = self.c(w, 0);
        self.sub(z, a)
    }
    fn sub_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        if let Some(y) = self.as_const(b) {
            let k = self.c(w, y.wrapping_neg());
            return self.add(a, k);
        }
        if let Node::Add(p, q) = self.node(a) {
            if p == b {
                return q;
            }
            if q == b {
                return p;
            }
        }
        self.intern(Node::Sub(a, b), w)
    }
    fn mul_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_mul(y)),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) if y.is_power_of_two() => {
                let k = self.c(w, y.trailing_zeros() as u128);
                return self.shl(a, k);
            }
            _ => {}
        }
        self.intern(Node::Mul(a, b), w)
    }
    fn udiv_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y == 1 {
                return a;
            }
            if y != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.c(w, x / y);
                }
                if y.is_power_of_two() {
                    let k = self.c(w, y.trailing_zeros() as u128);
                    return self.lshr(a, k);
                }
            }
        }
        self.intern(Node::UDiv(a, b), w)
    }
    fn urem_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if y != 0 {
                if let Some(x) = self.as_const(a) {
                    return self.c(w, x % y);
                }
                if y.is_power_of_two() {
                    let k = self.c(w, y - 1);
                    return self.and(a, k);
                }
                if self.umax(a) < y {
                    return a;
                }
            }
        }
        self.intern(Node::URem(a, b), w)
    }
    fn sdiv_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                return self.c(w, sext_val(x, w).wrapping_div(sext_val(y, w)) as u128);
            }
        }
        self.intern(Node::SDiv(a, b), w)
    }
    fn srem_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                return self.c(w, sext_val(x, w).wrapping_rem(sext_val(y, w)) as u128);
            }
        }
        self.intern(Node::SRem(a, b), w)
    }
    fn shl_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u16;
            if k == 0 {
                return a;
            }
            let h = self.extract(a, 0, w - k);
            let z = self.c(k, 0);
            return self.concat(h, z);
        }
        if let Some(0) = self.as_const(a) {
            return a;
        }
        self.intern(Node::Shl(a, b), w)
    }
    fn lshr_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u16;
            if k == 0 {
                return a;
            }
            let l = self.extract(a, k, w - k);
            return self.zext(l, w);
        }
        if let Some(0) = self.as_const(a) {
            return a;
        }
        self.intern(Node::LShr(a, b), w)
    }
    fn ashr_i(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            let k = (k.min(w as u128 - 1)) as u16;
            if k == 0 {
                return a;
            }
            let l = self.extract(a, k, w - k);
            return self.sext(l, w);
        }
        self.intern(Node::AShr(a, b), w)
    }

    fn flat(&self, t: T, out: &mut Vec<T>) {
        // high to low
        if let Node::Concat(h, l) = self.node(t) {
            self.flat(h, out);
            self.flat(l, out);
        } else {
            out.push(t)
        }
    }

    fn eq_i(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(true);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (za, oa) = self.known(a);
        let (zb, ob) = self.known(b);
        if (za & ob) | (oa & zb) != 0 {
            return self.b(false);
        }
        let (a, b) = if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if w == 1 {
            match self.as_const(b) {
                Some(1) => return a,
                Some(_) => return self.not(a),
                None => {}
            }
            if let Node::Not(x) = self.node(a) {
                if x == b {
                    return self.b(false);
                }
            }
            if let Node::Not(x) = self.node(b) {
                if x == a {
                    return self.b(false);
                }
            }
        }
        let bc = self.as_const(b);
        match self.node(a) {
            Node::Concat(..) => {
                let mut fa = vec![];
                self.flat(a, &mut fa);
                let mut cuts = vec![];
                let mut hi = w;
                for &p in &fa {
                    hi -= self.w(p);
                    cuts.push(hi);
                }
                if bc.is_none() {
                    // only split when it exposes a constant on some side
                    let mut fb = vec![];
                    self.flat(b, &mut fb);
                    if fb.len() > 1 {
                        let mut hi = w;
                        for &p in &fb {
                            hi -= self.w(p);
                            cuts.push(hi);
                        }
                    } else if !fa.iter().any(|&p| self.as_const(p).is_some()) {
                        return self.intern(Node::Eq(a, b), 1);
                    }
                    cuts.sort_by(|x, y| y.cmp(x));
                    cuts.dedup();
                }
                let mut acc = self.b(true);
                let mut hi = w;
                for lo in cuts {
                    let pa = self.extract(a, lo, hi - lo);
                    let pb = self.extract(b, lo, hi - lo);
                    let e = if pa == a && pb == b {
                        self.intern(Node::Eq(a, b), 1)
                    } else {
                        self.eq(pa, pb)
                    };
                    acc = self.and(acc, e);
                    if self.as_const(acc) == Some(0) {
                        return acc;
                    }
                    hi = lo;
                }
                return acc;
            }
            Node::Not(x) if bc.is_some() => {
                let nb = self.not(b);
                return self.eq(x, nb);
            }
            Node::Add(x, k) if bc.is_some() => {
                if let Some(kv) = self.as_const(k) {
                    let nb = self.c(w, bc.unwrap().wrapping_sub(kv));
                    return self.eq(x, nb);
                }
            }
            Node::Xor(x, k) if bc.is_some() => {
                if let Some(kv) = self.as_const(k) {
                    let nb = self.c(w, bc.unwrap() ^ kv);
                    return self.eq(x, nb);
                }
            }
            Node::Ite(c, x, y) if bc.is_some() => {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let ex = self.eq(x, b);
                    let ey = self.eq(y, b);
                    return self.ite(c, ex, ey);
                }
            }
            Node::SExt(x) if bc.is_some() => {
                let xw = self.w(x);
                let v = bc.unwrap();
                let lowv = v & mask(xw);
                if (sext_val(lowv, xw) as u128) & mask(w) == v {
                    let k = self.c(xw, lowv);
                    return self.eq(x, k);
                }
                return self.b(false);
            }
            _ => {}
        }
        if let (Node::Concat(..), None) = (self.node(b), bc) {
            // a is not a concat here
            let mut fb = vec![];
            self.flat(b, &mut fb);
            if fb.iter().any(|&p| self.as_const(p).is_some()) {
                let mut acc = self.b(true);
                let mut hi = w;
                for p in fb {
                    let lo = hi - self.w(p);
                    let pa = self.extract(a, lo, hi - lo);
                    let e = self.eq(pa, p);
                    acc = self.and(acc, e);
                    hi = lo;
                }
                return acc;
            }
        }
        self.intern(Node::Eq(a, b), 1)
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    fn ult_i(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(false);
        }
        if self.umax(a) < self.umin(b) {
            return self.b(true);
        }
        if self.umin(a) >= self.umax(b) {
            return self.b(false);
        }
        let w = self.w(a);
        // common leading known-zero bits
        let hb = 128 - (self.umax(a) | self.umax(b)).leading_zeros() as u16;
        if hb < w && hb > 0 {
            let x = self.extract(a, 0, hb);
            let y = self.extract(b, 0, hb);
            return self.ult(x, y);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some(v) = self.as_const(b) {
            if v.is_power_of_two() {
                let k = v.trailing_zeros() as u16;
                let h = self.extract(a, k, w - k);
                let z = self.c(w - k, 0);
                return self.eq(h, z);
            }
            // a < all-ones prefix... : x < 2^w - 2^k  <=> not all high bits set
            let inv = (mask(w) & !v).wrapping_add(1) & mask(w);
            if inv.is_power_of_two() {
                let k = inv.trailing_zeros() as u16;
                let h = self.extract(a, k, w - k);
                let o = self.c(w - k, !0);
                return self.ne(h, o);
            }
            if let Node::Ite(c, x, y) = self.node(a) {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let ex = self.ult(x, b);
                    let ey = self.ult(y, b);
                    return self.ite(c, ex, ey);
                }
            }
        }
        if let Some(v) = self.as_const(a) {
            // v < b  <=> not (b < v+1)
            if v == mask(w) {
                return self.b(false);
            }
            let k = self.c(w, v + 1);
            let u = self.ult(b, k);
            return self.not(u);
        }
        self.intern(Node::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let s = self.c(w, 1u128 << (w - 1));
        let x = self.xor(a, s);
        let y = self.xor(b, s);
        self.ult(x, y)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }
    fn ite_i(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.as_const(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        if let Node::Not(x) = self.node(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.intern(Node::Ite(c, a, b), w)
    }


    // ---- the operations, with a record of every simplification ------------
    // Each outermost application is remembered together with the term it was
    // replaced by; `obligations` lists those which are not the plain node, and
    // the solver is asked to confirm each of them (see `Exec::certify`).
    fn recorded(&mut self, key: Node, w: u16, f: impl FnOnce(&mut Self) -> T) -> T {
        if self.depth > 0 {
            return f(self);
        }
        if let Some(&t) = self.rec.get(&(key, w)) {
            return t;
        }
        self.depth = 1;
        let r = f(self);
        self.depth = 0;
        self.rec.insert((key, w), r);
        r
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::Add(a, b), w, |s| s.add_i(a, b))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::Sub(a, b), w, |s| s.sub_i(a, b))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::Mul(a, b), w, |s| s.mul_i(a, b))
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::UDiv(a, b), w, |s| s.udiv_i(a, b))
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::URem(a, b), w, |s| s.urem_i(a, b))
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::SDiv(a, b), w, |s| s.sdiv_i(a, b))
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::SRem(a, b), w, |s| s.srem_i(a, b))
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::Shl(a, b), w, |s| s.shl_i(a, b))
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::LShr(a, b), w, |s| s.lshr_i(a, b))
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::AShr(a, b), w, |s| s.ashr_i(a, b))
    }
    pub fn concat(&mut self, a: T, b: T) -> T {
        let w = self.w(a) + self.w(b);
        self.recorded(Node::Concat(a, b), w, |s| s.concat_i(a, b))
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        let w = 1;
        self.recorded(Node::Eq(a, b), w, |s| s.eq_i(a, b))
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = 1;
        self.recorded(Node::Ult(a, b), w, |s| s.ult_i(a, b))
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::And(a, b), w, |s| s.bitwise(0, a, b))
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::Or(a, b), w, |s| s.bitwise(1, a, b))
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::Xor(a, b), w, |s| s.bitwise(2, a, b))
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        self.recorded(Node::Not(a), w, |s| s.not_i(a))
    }
    pub fn extract(&mut self, t: T, lo: u16, w: u16) -> T {
        self.recorded(Node::Extract(t, lo), w, |s| s.extract_i(t, lo, w))
    }
    pub fn sext(&mut self, t: T, w: u16) -> T {
        if self.w(t) == w {
            return t;
        }
        self.recorded(Node::SExt(t), w, |s| s.sext_i(t, w))
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        let w = self.w(a);
        self.recorded(Node::Ite(c, a, b), w, |s| s.ite_i(c, a, b))
    }
    /// Every application of an operation to at least one non-constant term
    /// that the simplifier did not leave as it was.
    pub fn obligations(&self) -> Vec<(Node, u16, T)> {
        let mut v: Vec<_> = self
            .rec
            .iter()
            .filter(|((n, w), t)| {
                let i = &self.infos[**t as usize];
                if i.node == *n && i.w == *w {
                    return false;
                }
                let mut k = [0; 3];
                let c = kids_of(*n, &mut k);
                k[..c].iter().any(|x| self.as_const(*x).is_none())
            })
            .map(|((n, w), t)| (*n, *w, *t))
            .collect();
        v.sort_by_key(|x| x.2);
        v
    }

    // ---- concrete evaluation under a model -------------------------------
    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }
    pub fn eval(&mut self, t: T, model: &[u128]) -> u128 {
        if self.ev_epoch[t as usize] == self.epoch && self.epoch != 0 {
            return self.ev_val[t as usize];
        }
        // iterative to survive deep terms
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.ev_epoch[x as usize] == self.epoch && self.epoch != 0 {
                stack.pop();
                continue;
            }
            let info = self.infos[x as usize];
            let mut kids = [0u32; 3];
            let n = kids_of(info.node, &mut kids);
            let mut ready = true;
            for &k in &kids[..n] {
                if self.ev_epoch[k as usize] != self.epoch {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |i: usize| self.ev_val[kids[i] as usize];
            let w = info.w;
            let m = mask(w);
            let v = match info.node {
                Node::Const(v) => v,
                Node::Var(i) => model.get(i as usize).copied().unwrap_or(0) & m,
                Node::Not(_) => !g(0) & m,
                Node::And(..) => g(0) & g(1),
                Node::Or(..) => g(0) | g(1),
                Node::Xor(..) => g(0) ^ g(1),
                Node::Add(..) => g(0).wrapping_add(g(1)) & m,
                Node::Sub(..) => g(0).wrapping_sub(g(1)) & m,
                Node::Mul(..) => g(0).wrapping_mul(g(1)) & m,
                Node::UDiv(..) => {
                    if g(1) == 0 {
                        m
                    } else {
                        g(0) / g(1)
                    }
                }
                Node::URem(..) => {
                    if g(1) == 0 {
                        g(0)
                    } else {
                        g(0) % g(1)
                    }
                }
                Node::SDiv(..) => {
                    let (x, y) = (sext_val(g(0), w), sext_val(g(1), w));
                    if y == 0 {
                        if x < 0 {
                            1
                        } else {
                            m
                        }
                    } else {
                        x.wrapping_div(y) as u128 & m
                    }
                }
                Node::SRem(..) => {
                    let (x, y) = (sext_val(g(0), w), sext_val(g(1), w));
                    if y == 0 {
                        g(0)
                    } else {
                        x.wrapping_rem(y) as u128 & m
                    }
                }
                Node::Shl(..) => {
                    if g(1) >= w as u128 {
                        0
                    } else {
                        (g(0) << g(1)) & m
                    }
                }
                Node::LShr(..) => {
                    if g(1) >= w as u128 {
                        0
                    } else {
                        g(0) >> g(1)
                    }
                }
                Node::AShr(..) => {
                    let s = g(1).min(w as u128 - 1) as u32;
                    (sext_val(g(0), w) >> s) as u128 & m
                }
                Node::Concat(_, l) => (g(0) << self.infos[l as usize].w) | g(1),
                Node::Extract(_, lo) => (g(0) >> lo) & m,
                Node::SExt(a) => sext_val(g(0), self.infos[a as usize].w) as u128 & m,
                Node::Eq(..) => (g(0) == g(1)) as u128,
                Node::Ult(..) => (g(0) < g(1)) as u128,
                Node::Ite(..) => {
                    if g(0) == 1 {
                        g(1)
                    } else {
                        g(2)
                    }
                }
            };
            self.ev_val[x as usize] = v;
            self.ev_epoch[x as usize] = self.epoch;
            stack.pop();
        }
        self.ev_val[t as usize]
    }
}

pub fn kids_of(n: Node, out: &mut [T; 3]) -> usize {
    match n {
        Node::Const(_) | Node::Var(_) => 0,
        Node::Not(a) | Node::Extract(a, _) | Node::SExt(a) => {
            out[0] = a;
            1
        }
        Node::And(a, b)
        | Node::Or(a, b)
        | Node::Xor(a, b)
        | Node::Add(a, b)
        | Node::Sub(a, b)
        | Node::Mul(a, b)
        | Node::UDiv(a, b)
        | Node::URem(a, b)
        | Node::SDiv(a, b)
        | Node::SRem(a, b)
        | Node::Shl(a, b)
        | Node::LShr(a, b)
        | Node::AShr(a, b)
        | Node::Concat(a, b)
        | Node::Eq(a, b)
        | Node::Ult(a, b) => {
            out[0] = a;
            out[1] = b;
            2
        }
        Node::Ite(a, b, c) => {
            out[0] = a;
            out[1] = b;
            out[2] = c;
            3
        }
    }
}
