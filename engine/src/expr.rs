//! Hash-consed bit-vector terms with strong normalisation.
//!
//! Byte/bit order: bit 0 is the least significant bit; memory bytes are laid out little-endian, so byte `i` of a
//! memory area viewed as a term are its bits `8i..8i+8`.  `Concat` lists its parts least significant first.

use crate::sha256;
use std::collections::{BTreeMap, HashMap};

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop {
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Box<[u64]>),
    Var(u32),
    Bin(Bop, Eid, Eid),
    Concat(Box<[Eid]>),
    Extract(Eid, u32),
    SExt(Eid),
    Ite(Eid, Eid, Eid),
    Not(Eid), // width 1
    Eq(Eid, Eid),
    Ult(Eid, Eid),
    Slt(Eid, Eid),
    /// ideal hash of the argument's bytes; algorithm 0 = SHA-256, 1 = RIPEMD-160
    Hash(u8, Eid),
}

pub fn hash_width(alg: u8) -> u32 {
    match alg {
        0 => 256,
        1 => 160,
        _ => panic!("unknown hash algorithm"),
    }
}

pub fn real_hash(alg: u8, data: &[u8]) -> Vec<u8> {
    match alg {
        0 => sha256::sha256(data).to_vec(),
        1 => sha256::ripemd160(data).to_vec(),
        _ => panic!("unknown hash algorithm"),
    }
}

/// Minimal number of equal bits of two hash values (at equal offset) from which the ideal-hash assumption derives
/// equality of the hashed data.
pub const IDEAL_BITS: u32 = 64;

pub struct Pool {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    pub vars: Vec<u128>,
    pub hashy: Vec<bool>,
    map: HashMap<(Node, u32), Eid, FxBuild>,
    /// concrete hash values computed by the program → (algorithm, preimage)
    pub known_hash: HashMap<Eid, (u8, Eid)>,
}

#[derive(Clone, Default)]
pub struct FxBuild;
pub struct Fx(u64);
impl std::hash::BuildHasher for FxBuild {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}

pub type Limbs = Box<[u64]>;

pub fn nl(w: u32) -> usize {
    ((w + 63) / 64) as usize
}
pub fn norm(v: &mut [u64], w: u32) {
    let r = w % 64;
    if r != 0 {
        let n = v.len();
        v[n - 1] &= (1u64 << r) - 1;
    }
}
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub mod big {
    use super::*;
    pub fn extract(a: &[u64], lo: u32, w: u32) -> Limbs {
        let mut r = vec![0u64; nl(w)];
        let ls = (lo / 64) as usize;
        let sh = lo % 64;
        for i in 0..r.len() {
            let x = a.get(ls + i).copied().unwrap_or(0);
            let y = a.get(ls + i + 1).copied().unwrap_or(0);
            r[i] = if sh == 0 { x } else { (x >> sh) | (y << (64 - sh)) };
        }
        norm(&mut r, w);
        r.into()
    }
    /// r |= a << lo
    pub fn deposit(r: &mut [u64], a: &[u64], lo: u32) {
        let ls = (lo / 64) as usize;
        let sh = lo % 64;
        for i in 0..a.len() {
            if ls + i < r.len() {
                r[ls + i] |= a[i] << sh;
            }
            if sh != 0 && ls + i + 1 < r.len() {
                r[ls + i + 1] |= a[i] >> (64 - sh);
            }
        }
    }
    pub fn add(a: &[u64], b: &[u64], w: u32) -> Limbs {
        let mut r = vec![0u64; a.len()];
        let mut c = 0u128;
        for i in 0..a.len() {
            let s = a[i] as u128 + b[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        norm(&mut r, w);
        r.into()
    }
    pub fn neg(a: &[u64], w: u32) -> Limbs {
        let n: Vec<u64> = a.iter().map(|x| !x).collect();
        let mut one = vec![0u64; a.len()];
        one[0] = 1;
        add(&n, &one, w)
    }
    pub fn mul(a: &[u64], b: &[u64], w: u32) -> Limbs {
        let n = a.len();
        let mut r = vec![0u64; n];
        for i in 0..n {
            let mut c = 0u128;
            for j in 0..n - i {
                let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
        }
        norm(&mut r, w);
        r.into()
    }
    pub fn cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
        for i in (0..a.len()).rev() {
            if a[i] != b[i] {
                return a[i].cmp(&b[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
    pub fn is_zero(a: &[u64]) -> bool {
        a.iter().all(|x| *x == 0)
    }
    pub fn bit(a: &[u64], i: u32) -> bool {
        a[(i / 64) as usize] >> (i % 64) & 1 == 1
    }
    pub fn divrem(a: &[u64], b: &[u64], w: u32) -> (Limbs, Limbs) {
        let n = a.len();
        if is_zero(b) {
            // SMT-LIB semantics
            let mut o = vec![!0u64; n];
            norm(&mut o, w);
            return (o.into(), a.into());
        }
        if n == 1 {
            return (vec![a[0] / b[0]].into(), vec![a[0] % b[0]].into());
        }
        let mut q = vec![0u64; n];
        let mut r = vec![0u64; n + 1];
        let mut bb = b.to_vec();
        bb.push(0);
        for i in (0..w).rev() {
            for k in (1..=n).rev() {
                r[k] = (r[k] << 1) | (r[k - 1] >> 63);
            }
            r[0] = (r[0] << 1) | bit(a, i) as u64;
            if cmp(&r, &bb) != std::cmp::Ordering::Less {
                let mut bw = 0u64;
                for k in 0..=n {
                    let (x, o1) = r[k].overflowing_sub(bb[k]);
                    let (x, o2) = x.overflowing_sub(bw);
                    r[k] = x;
                    bw = (o1 | o2) as u64;
                }
                q[(i / 64) as usize] |= 1 << (i % 64);
            }
        }
        r.pop();
        (q.into(), r.into())
    }
    pub fn to_bytes(a: &[u64], w: u32) -> Vec<u8> {
        let n = (w as usize + 7) / 8;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push((a[i / 8] >> (8 * (i % 8))) as u8);
        }
        v
    }
    pub fn from_bytes(b: &[u8]) -> Limbs {
        let mut r = vec![0u64; nl(b.len() as u32 * 8)];
        for (i, x) in b.iter().enumerate() {
            r[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        r.into()
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            width: vec![],
            vars: vec![],
            hashy: vec![],
            map: HashMap::with_hasher(FxBuild),
            known_hash: HashMap::new(),
        };
        p.cst(0, 1); // id 0 = false
        p.cst(1, 1); // id 1 = true
        p
    }
    pub fn w(&self, e: Eid) -> u32 {
        self.width[e as usize]
    }
    pub fn n(&self, e: Eid) -> &Node {
        &self.nodes[e as usize]
    }
    fn mk(&mut self, n: Node, w: u32) -> Eid {
        let key = (n, w);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let (mut vm, mut hy) = (0u128, false);
        {
            let mut add = |e: Eid| {
                vm |= self.vars[e as usize];
                hy |= self.hashy[e as usize];
            };
            match &key.0 {
                Node::Const(_) => {}
                Node::Var(_) => {}
                Node::Bin(_, a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Slt(a, b) => {
                    add(*a);
                    add(*b)
                }
                Node::Concat(v) => v.iter().for_each(|e| add(*e)),
                Node::Extract(a, _) | Node::SExt(a) | Node::Not(a) => add(*a),
                Node::Hash(_, a) => add(*a),
                Node::Ite(a, b, c) => {
                    add(*a);
                    add(*b);
                    add(*c)
                }
            }
        }
        if let Node::Var(i) = &key.0 {
            vm |= 1u128 << (i % 128);
        }
        if let Node::Hash(..) = &key.0 {
            hy = true;
        }
        let id = self.nodes.len() as Eid;
        self.nodes.push(key.0.clone());
        self.width.push(w);
        self.vars.push(vm);
        self.hashy.push(hy);
        self.map.insert(key, id);
        id
    }
    pub fn cst(&mut self, v: u64, w: u32) -> Eid {
        let mut l = vec![0u64; nl(w)];
        l[0] = v;
        norm(&mut l, w);
        self.mk(Node::Const(l.into()), w)
    }
    pub fn cstl(&mut self, l: Limbs, w: u32) -> Eid {
        debug_assert_eq!(l.len(), nl(w));
        self.mk(Node::Const(l), w)
    }
    pub fn ones(&mut self, w: u32) -> Eid {
        let mut l = vec![!0u64; nl(w)];
        norm(&mut l, w);
        self.cstl(l.into(), w)
    }
    pub fn var(&mut self, idx: u32, w: u32) -> Eid {
        self.mk(Node::Var(idx), w)
    }
    pub fn t(&self) -> Eid {
        1
    }
    pub fn f(&self) -> Eid {
        0
    }
    pub fn b(&self, x: bool) -> Eid {
        x as Eid
    }
    pub fn is_const(&self, e: Eid) -> Option<&[u64]> {
        match self.n(e) {
            Node::Const(l) => Some(l),
            _ => None,
        }
    }
    pub fn as_u64(&self, e: Eid) -> Option<u64> {
        match self.n(e) {
            Node::Const(l) if l.len() == 1 => Some(l[0]),
            Node::Const(l) if l[1..].iter().all(|x| *x == 0) => Some(l[0]),
            _ => None,
        }
    }
    fn is_zero(&self, e: Eid) -> bool {
        matches!(self.n(e), Node::Const(l) if big::is_zero(l))
    }
    fn is_ones(&self, e: Eid) -> bool {
        let w = self.w(e);
        match self.n(e) {
            Node::Const(l) => (0..l.len()).all(|i| l[i] == if i + 1 == l.len() && w % 64 != 0 { mask64(w % 64) } else { !0 }),
            _ => false,
        }
    }
    /// number of most significant bits known to be zero
    pub fn lead0(&self, e: Eid) -> u32 {
        let w = self.w(e);
        match self.n(e) {
            Node::Const(l) => {
                let mut i = w;
                while i > 0 && !big::bit(l, i - 1) {
                    i -= 1
                }
                w - i
            }
            Node::Concat(v) => {
                let mut t = 0;
                for x in v.iter().rev() {
                    let z = self.lead0(*x);
                    t += z;
                    if z < self.w(*x) {
                        break;
                    }
                }
                t
            }
            Node::Bin(Bop::And, a, b) => self.lead0(*a).max(self.lead0(*b)),
            Node::Bin(Bop::Or, a, b) | Node::Bin(Bop::Xor, a, b) => self.lead0(*a).min(self.lead0(*b)),
            Node::Bin(Bop::Add, a, b) => self.lead0(*a).min(self.lead0(*b)).saturating_sub(1),
            Node::Bin(Bop::Mul, a, b) => {
                let (x, y) = (w - self.lead0(*a), w - self.lead0(*b));
                w.saturating_sub(x + y)
            }
            Node::Bin(Bop::UDiv, a, b) => match self.is_const(*b) {
                Some(l) if !big::is_zero(l) => self.lead0(*a),
                _ => 0,
            },
            Node::Bin(Bop::URem, a, b) => match self.is_const(*b) {
                Some(l) if !big::is_zero(l) => self.lead0(*b).max(self.lead0(*a)),
                _ => self.lead0(*a),
            },
            Node::Bin(Bop::LShr, a, _) => self.lead0(*a),
            Node::Ite(_, a, b) => self.lead0(*a).min(self.lead0(*b)),
            _ => 0,
        }
    }

    /// an upper bound of the value (`u64::MAX`: not known)
    pub fn ubound(&self, e: Eid, depth: u32) -> u64 {
        let w = self.w(e);
        let by_bits = match w - self.lead0(e) {
            n if n < 64 => (1u64 << n) - 1,
            _ => u64::MAX,
        };
        if depth == 0 {
            return by_bits;
        }
        let b = match self.n(e) {
            Node::Const(l) if l[1..].iter().all(|x| *x == 0) => l[0],
            Node::Bin(Bop::URem, a, d) => {
                let x = self.ubound(*a, depth - 1);
                match self.as_u64(*d) {
                    Some(m) if m > 0 => x.min(m - 1),
                    _ => x,
                }
            }
            Node::Bin(Bop::UDiv, a, d) => match self.as_u64(*d) {
                Some(m) if m > 0 => match self.ubound(*a, depth - 1) {
                    u64::MAX => u64::MAX,
                    x => x / m,
                },
                _ => u64::MAX,
            },
            Node::Extract(a, 0) => match self.ubound(*a, depth - 1) {
                // nothing is cut off
                x if w >= 64 || x < 1 << w => x,
                _ => u64::MAX,
            },
            Node::Concat(v) if v[1..].iter().all(|x| self.is_zero(*x)) => self.ubound(v[0], depth - 1),
            Node::Ite(_, a, b) => self.ubound(*a, depth - 1).max(self.ubound(*b, depth - 1)),
            _ => u64::MAX,
        };
        b.min(by_bits)
    }

    // ---------- structural ----------
    /// parts least significant first
    pub fn concat(&mut self, parts: &[Eid]) -> Eid {
        let mut out: Vec<Eid> = Vec::with_capacity(parts.len());
        fn push(p: &mut Pool, out: &mut Vec<Eid>, e: Eid) {
            if let Node::Concat(v) = p.n(e) {
                let v = v.clone();
                for x in v.iter() {
                    push(p, out, *x)
                }
                return;
            }
            if let Some(&last) = out.last() {
                let (lw, ew) = (p.w(last), p.w(e));
                if let (Node::Const(a), Node::Const(b)) = (p.n(last), p.n(e)) {
                    let w = lw + ew;
                    let mut r = vec![0u64; nl(w)];
                    big::deposit(&mut r, a, 0);
                    big::deposit(&mut r, b, lw);
                    let c = p.cstl(r.into(), w);
                    *out.last_mut().unwrap() = c;
                    return;
                }
                let bx = |p: &Pool, x: Eid| match p.n(x) {
                    Node::Extract(y, lo) => (*y, *lo),
                    _ => (x, 0),
                };
                let (b1, l1) = bx(p, last);
                let (b2, l2) = bx(p, e);
                if b1 == b2 && l1 + lw == l2 {
                    let m = p.extract(b1, l1, lw + ew);
                    *out.last_mut().unwrap() = m;
                    return;
                }
                // Ite over constants with equal condition
                if let (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) = (p.n(last).clone(), p.n(e).clone()) {
                    if c1 == c2 {
                        let x = p.concat(&[a1, a2]);
                        let y = p.concat(&[b1, b2]);
                        let m = p.ite(c1, x, y);
                        *out.last_mut().unwrap() = m;
                        return;
                    }
                }
            }
            out.push(e);
        }
        for e in parts {
            push(self, &mut out, *e);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w = out.iter().map(|e| self.w(*e)).sum();
        self.mk(Node::Concat(out.into()), w)
    }
    pub fn zext(&mut self, e: Eid, w: u32) -> Eid {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        let z = self.cst(0, w - ew);
        self.concat(&[e, z])
    }
    pub fn sext(&mut self, e: Eid, w: u32) -> Eid {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if self.lead0(e) > 0 {
            return self.zext(e, w);
        }
        match self.n(e).clone() {
            Node::Const(l) => {
                let mut r = vec![0u64; nl(w)];
                big::deposit(&mut r, &l, 0);
                if big::bit(&l, ew - 1) {
                    for i in ew..w {
                        r[(i / 64) as usize] |= 1 << (i % 64);
                    }
                }
                self.cstl(r.into(), w)
            }
            Node::Ite(c, a, b) if self.is_const(a).is_some() || self.is_const(b).is_some() => {
                let x = self.sext(a, w);
                let y = self.sext(b, w);
                self.ite(c, x, y)
            }
            Node::SExt(x) => self.sext(x, w),
            _ if ew == 1 => {
                let o = self.ones(w);
                let z = self.cst(0, w);
                self.ite(e, o, z)
            }
            _ => self.mk(Node::SExt(e), w),
        }
    }
    pub fn extract(&mut self, e: Eid, lo: u32, w: u32) -> Eid {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew && w > 0, "extract {lo}+{w} of {ew}");
        if lo == 0 && w == ew {
            return e;
        }
        match self.n(e).clone() {
            Node::Const(l) => {
                let r = big::extract(&l, lo, w);
                self.cstl(r, w)
            }
            Node::Extract(x, l) => self.extract(x, l + lo, w),
            Node::Concat(v) => {
                let mut out = vec![];
                let mut pos = 0;
                for x in v.iter() {
                    let xw = self.w(*x);
                    let s = lo.max(pos);
                    let t = (lo + w).min(pos + xw);
                    if s < t {
                        let y = self.extract(*x, s - pos, t - s);
                        out.push(y);
                    }
                    pos += xw;
                }
                self.concat(&out)
            }
            Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), a, b) => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.bin(op, x, y)
            }
            Node::Bin(op @ (Bop::Add | Bop::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                self.bin(op, x, y)
            }
            Node::Ite(c, a, b) if self.is_const(a).is_some() || self.is_const(b).is_some() => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.ite(c, x, y)
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo < xw {
                    let y = self.extract(x, lo, xw - lo);
                    self.sext(y, w)
                } else {
                    let y = self.extract(x, xw - 1, 1);
                    self.sext(y, w)
                }
            }
            _ => {
                // high bits known zero
                if lo >= ew - self.lead0(e) {
                    return self.cst(0, w);
                }
                self.mk(Node::Extract(e, lo), w)
            }
        }
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if c == 1 {
            return a;
        }
        if c == 0 {
            return b;
        }
        if a == b {
            return a;
        }
        if let Node::Not(x) = *self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if a == 1 && b == 0 {
                return c;
            }
            if a == 0 && b == 1 {
                return self.not(c);
            }
            if a == 1 {
                return self.or(c, b);
            }
            if a == 0 {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == 0 {
                return self.and(c, a);
            }
            if b == 1 {
                let n = self.not(c);
                return self.or(n, a);
            }
        }
        let (mut a, mut b) = (a, b);
        if let Node::Ite(c2, x, _) = *self.n(a) {
            if c2 == c {
                a = x;
            }
        }
        if let Node::Ite(c2, _, y) = *self.n(b) {
            if c2 == c {
                b = y;
            }
        }
        if a == b {
            return a;
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    // ---------- booleans ----------
    pub fn not(&mut self, a: Eid) -> Eid {
        debug_assert_eq!(self.w(a), 1);
        match *self.n(a) {
            Node::Const(_) => 1 - a,
            Node::Not(x) => x,
            _ => self.mk(Node::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(Bop::And, a, b)
    }
    pub fn or(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(Bop::Or, a, b)
    }
    // ---------- comparison ----------
    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        debug_assert_eq!(self.w(a), self.w(b));
        if a == b {
            return 1;
        }
        let (mut a, mut b) = if a < b { (a, b) } else { (b, a) };
        if self.is_const(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        // b is the constant if there is one
        let w = self.w(a);
        if self.is_const(a).is_some() {
            return 0; // two different constants
        }
        if w == 1 {
            if b == 1 {
                return a;
            }
            if b == 0 {
                return self.not(a);
            }
            if let Node::Not(x) = *self.n(a) {
                if x == b {
                    return 0;
                }
            }
            if let Node::Not(x) = *self.n(b) {
                if x == a {
                    return 0;
                }
            }
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        // hashes
        match (&na, &nb) {
            (Node::Hash(g1, x), Node::Hash(g2, y)) => {
                if g1 != g2 || self.w(*x) != self.w(*y) {
                    return 0;
                }
                return self.eq(*x, *y);
            }
            (Node::Extract(h1, l1), Node::Extract(h2, l2)) if l1 == l2 && w >= IDEAL_BITS => {
                if let (Node::Hash(g1, x), Node::Hash(g2, y)) = (self.n(*h1).clone(), self.n(*h2).clone()) {
                    if g1 != g2 || self.w(x) != self.w(y) {
                        return 0;
                    }
                    return self.eq(x, y);
                }
            }
            (Node::Hash(g, x), Node::Const(_)) => {
                if let Some((g2, y)) = self.known_hash.get(&b).copied() {
                    if *g != g2 || self.w(*x) != self.w(y) {
                        return 0;
                    }
                    return self.eq(*x, y);
                }
            }
            _ => {}
        }
        // concatenations: split at the common cuts
        let ca = matches!(na, Node::Concat(_));
        let cb = matches!(nb, Node::Concat(_));
        if ca || cb {
            let va: Vec<Eid> = if let Node::Concat(v) = &na { v.to_vec() } else { vec![a] };
            let vb: Vec<Eid> = if let Node::Concat(v) = &nb { v.to_vec() } else { vec![b] };
            let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u32, 0u32);
            let mut conj = vec![];
            while i < va.len() {
                let (wi, wj) = (self.w(va[i]) - oi, self.w(vb[j]) - oj);
                let k = wi.min(wj);
                let x = self.extract(va[i], oi, k);
                let y = self.extract(vb[j], oj, k);
                let e = self.eq(x, y);
                if e == 0 {
                    return 0;
                }
                if e != 1 {
                    conj.push(e);
                }
                oi += k;
                oj += k;
                if oi == self.w(va[i]) {
                    i += 1;
                    oi = 0;
                }
                if oj == self.w(vb[j]) {
                    j += 1;
                    oj = 0;
                }
            }
            let mut r = 1;
            for e in conj {
                r = self.and(r, e);
            }
            return r;
        }
        // if-then-else against constants
        if let Node::Const(_) = nb {
            match na {
                Node::Ite(c, x, y) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                    let e1 = self.eq(x, b);
                    let e2 = self.eq(y, b);
                    return self.ite(c, e1, e2);
                }
                Node::Bin(Bop::Add, x, k) if self.is_const(k).is_some() => {
                    let nk = self.neg(k);
                    let c = self.bin(Bop::Add, b, nk);
                    return self.eq(x, c);
                }
                Node::Bin(Bop::Xor, x, k) if self.is_const(k).is_some() => {
                    let c = self.bin(Bop::Xor, b, k);
                    return self.eq(x, c);
                }
                Node::Bin(Bop::URem, _, d) => {
                    if let (Some(dl), Some(bl)) = (self.is_const(d), self.is_const(b)) {
                        if !big::is_zero(dl) && big::cmp(bl, dl) != std::cmp::Ordering::Less {
                            return 0;
                        }
                    }
                }
                _ => {}
            }
            // high zero bits
            let z = self.lead0(a);
            if z > 0 && self.lead0(b) < z {
                return 0;
            }
        }
        if let (Node::Bin(Bop::Add, x, k), Node::Bin(Bop::Add, y, l)) = (&na, &nb) {
            if x == y && self.is_const(*k).is_some() && self.is_const(*l).is_some() {
                return 0; // different constants
            }
            if k == l {
                return self.eq(*x, *y);
            }
        }
        if let Node::Bin(Bop::Add, x, k) = &na {
            if *x == b && self.is_const(*k).is_some() {
                return 0;
            }
        }
        if let Node::Bin(Bop::Add, x, k) = &nb {
            if *x == a && self.is_const(*k).is_some() {
                return 0;
            }
        }
        self.mk(Node::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        debug_assert_eq!(self.w(a), self.w(b));
        if a == b {
            return 0;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.b(big::cmp(x, y) == std::cmp::Ordering::Less);
        }
        if self.is_zero(b) || self.is_ones(a) {
            return 0;
        }
        if self.as_u64(b) == Some(1) {
            let z = self.cst(0, w);
            return self.eq(a, z);
        }
        if self.is_zero(a) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if self.is_ones(b) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        // common leading zeros
        let (la, lb) = (self.lead0(a), self.lead0(b));
        if self.is_const(b).is_some() && la > lb {
            return 1;
        }
        if self.is_const(a).is_some() && lb > la {
            return 0;
        }
        let z = la.min(lb);
        if z > 0 {
            let x = self.extract(a, 0, w - z);
            let y = self.extract(b, 0, w - z);
            return self.ult(x, y);
        }
        if let Some(y) = self.as_u64(b) {
            if self.ubound(a, 8) < y {
                return 1;
            }
        }
        if let Some(x) = self.as_u64(a) {
            if self.ubound(b, 8) <= x {
                return 0;
            }
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::Ite(c, x, y), Node::Const(_)) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let e1 = self.ult(x, b);
                let e2 = self.ult(y, b);
                return self.ite(c, e1, e2);
            }
            (Node::Const(_), Node::Ite(c, x, y)) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let e1 = self.ult(a, x);
                let e2 = self.ult(a, y);
                return self.ite(c, e1, e2);
            }
            (Node::Bin(Bop::URem, _, d), Node::Const(bl)) => {
                if let Some(dl) = self.is_const(d) {
                    if !big::is_zero(dl) && big::cmp(dl, &bl) != std::cmp::Ordering::Greater {
                        return 1;
                    }
                }
            }
            // x urem d < d for every d != 0
            (Node::Bin(Bop::URem, _, d), _) if d == b => {
                let z = self.cst(0, w);
                let e = self.eq(d, z);
                if e == 0 {
                    return 1;
                }
            }
            _ => {}
        }
        // equal top part
        if let (Node::Concat(x), Node::Concat(y)) = (self.n(a).clone(), self.n(b).clone()) {
            let (tx, ty) = (*x.last().unwrap(), *y.last().unwrap());
            if tx == ty {
                let k = w - self.w(tx);
                let x = self.extract(a, 0, k);
                let y = self.extract(b, 0, k);
                return self.ult(x, y);
            }
        }
        self.mk(Node::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return 0;
        }
        let w = self.w(a);
        let sa = self.extract(a, w - 1, 1);
        let sb = self.extract(b, w - 1, 1);
        if self.is_const(sa).is_some() && self.is_const(sb).is_some() {
            if sa == sb {
                return self.ult(a, b);
            }
            return sa; // a negative, b not
        }
        if self.is_zero(b) {
            return sa;
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (Node::Ite(c, x, y), Node::Const(_)) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let e1 = self.slt(x, b);
                let e2 = self.slt(y, b);
                return self.ite(c, e1, e2);
            }
            (Node::Const(_), Node::Ite(c, x, y)) if self.is_const(x).is_some() || self.is_const(y).is_some() => {
                let e1 = self.slt(a, x);
                let e2 = self.slt(a, y);
                return self.ite(c, e1, e2);
            }
            _ => {}
        }
        if self.is_ones(b) {
            // a < -1  <=>  a negative and a != -1
            let e = self.eq(a, b);
            let ne = self.not(e);
            return self.and(sa, ne);
        }
        if self.is_ones(a) {
            // -1 < b  <=>  b not negative
            return self.not(sb);
        }
        self.mk(Node::Slt(a, b), 1)
    }
    // ---------- arithmetic ----------
    pub fn neg(&mut self, a: Eid) -> Eid {
        let w = self.w(a);
        if let Some(l) = self.is_const(a) {
            let r = big::neg(l, w);
            return self.cstl(r, w);
        }
        let o = self.ones(w);
        let n = self.bin(Bop::Xor, a, o);
        let one = self.cst(1, w);
        self.bin(Bop::Add, n, one)
    }
    pub fn sub(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            let w = self.w(a);
            return self.cst(0, w);
        }
        if let Node::Bin(Bop::Add, x, y) = *self.n(a) {
            if x == b {
                return y;
            }
            if y == b {
                return x;
            }
        }
        let n = self.neg(b);
        self.bin(Bop::Add, a, n)
    }
    fn fold(&mut self, op: Bop, a: Eid, b: Eid) -> Option<Eid> {
        let w = self.w(a);
        let (x, y) = match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => (x.to_vec(), y.to_vec()),
            _ => return None,
        };
        let r = fold_limbs(op, &x, &y, w);
        Some(self.cstl(r, w))
    }
    pub fn bin(&mut self, op: Bop, a: Eid, b: Eid) -> Eid {
        debug_assert_eq!(self.w(a), self.w(b), "{:?}", op);
        if let Some(r) = self.fold(op, a, b) {
            return r;
        }
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        let comm = matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor);
        if comm {
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            if self.is_const(a).is_some() {
                std::mem::swap(&mut a, &mut b);
            }
        }
        // b constant if any (for commutative)
        match op {
            Bop::Add => {
                if self.is_zero(b) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Bop::Xor, a, b);
                }
                if self.is_const(b).is_some() {
                    if let Node::Bin(Bop::Add, x, k) = *self.n(a) {
                        if self.is_const(k).is_some() {
                            let c = self.bin(Bop::Add, k, b);
                            return self.bin(Bop::Add, x, c);
                        }
                    }
                    // low zero bits of the constant leave the low bits of a alone
                    let l = self.is_const(b).unwrap();
                    let tz = (0..w).find(|i| big::bit(l, *i)).unwrap_or(w);
                    if tz > 0 && tz < w {
                        if let Node::Concat(_) = self.n(a) {
                            let lo = self.extract(a, 0, tz);
                            let ah = self.extract(a, tz, w - tz);
                            let bh = self.extract(b, tz, w - tz);
                            let hi = self.bin(Bop::Add, ah, bh);
                            return self.concat(&[lo, hi]);
                        }
                    }
                } else {
                    // (x + c) + y -> (x + y) + c
                    if let Node::Bin(Bop::Add, x, k) = *self.n(a) {
                        if self.is_const(k).is_some() {
                            let s = self.bin(Bop::Add, x, b);
                            return self.bin(Bop::Add, s, k);
                        }
                    }
                    if let Node::Bin(Bop::Add, x, k) = *self.n(b) {
                        if self.is_const(k).is_some() {
                            let s = self.bin(Bop::Add, a, x);
                            return self.bin(Bop::Add, s, k);
                        }
                    }
                    // a + ~a = -1
                    let o = self.ones(w);
                    let nb = self.bin(Bop::Xor, b, o);
                    if nb == a {
                        return o;
                    }
                }
            }
            Bop::Mul => {
                if w == 1 {
                    return self.and(a, b);
                }
                if let Some(l) = self.is_const(b) {
                    let l = l.to_vec();
                    if big::is_zero(&l) {
                        return b;
                    }
                    if l.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                        let k = (0..w).find(|i| big::bit(&l, *i)).unwrap();
                        return self.shlc(a, k);
                    }
                }
            }
            Bop::And => {
                if a == b || self.is_ones(b) {
                    return a;
                }
                if self.is_zero(b) {
                    return b;
                }
                if w == 1 {
                    if self.not(a) == b {
                        return 0;
                    }
                    // absorption
                    if let Node::Bin(Bop::And, x, y) = *self.n(b) {
                        if x == a || y == a {
                            return b;
                        }
                    }
                    if let Node::Bin(Bop::And, x, y) = *self.n(a) {
                        if x == b || y == b {
                            return a;
                        }
                    }
                }
                if let Some(l) = self.is_const(b) {
                    let l = l.to_vec();
                    return self.masked(a, &l, w);
                }
                if let Some(r) = self.bitwise_segments(op, a, b) {
                    return r;
                }
            }
            Bop::Or => {
                if a == b || self.is_zero(b) {
                    return a;
                }
                if self.is_ones(b) {
                    return b;
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return 1;
                    }
                }
                if w > 1 {
                    if let Some(r) = self.bitwise_segments(op, a, b) {
                        return r;
                    }
                }
            }
            Bop::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if self.is_zero(b) {
                    return a;
                }
                if w == 1 {
                    if b == 1 {
                        return self.not(a);
                    }
                    let e = self.eq(a, b);
                    return self.not(e);
                }
                if self.is_const(b).is_some() {
                    if let Node::Bin(Bop::Xor, x, k) = *self.n(a) {
                        if self.is_const(k).is_some() {
                            let c = self.bin(Bop::Xor, k, b);
                            return self.bin(Bop::Xor, x, c);
                        }
                    }
                }
                if let Some(r) = self.bitwise_segments(op, a, b) {
                    return r;
                }
            }
            Bop::Shl | Bop::LShr | Bop::AShr => {
                if let Some(k) = self.as_u64(b) {
                    if k >= w as u64 {
                        if op == Bop::AShr {
                            let s = self.extract(a, w - 1, 1);
                            return self.sext(s, w);
                        }
                        return self.cst(0, w); // poison in LLVM; SMT semantics
                    }
                    let k = k as u32;
                    if k == 0 {
                        return a;
                    }
                    return match op {
                        Bop::Shl => self.shlc(a, k),
                        Bop::LShr => {
                            let h = self.extract(a, k, w - k);
                            self.zext(h, w)
                        }
                        _ => {
                            let h = self.extract(a, k, w - k);
                            self.sext(h, w)
                        }
                    };
                }
                if self.is_zero(a) {
                    return a;
                }
            }
            Bop::UDiv | Bop::URem => {
                if let Some(l) = self.is_const(b) {
                    let l = l.to_vec();
                    if l.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                        let k = (0..w).find(|i| big::bit(&l, *i)).unwrap();
                        return if op == Bop::UDiv {
                            if k == 0 {
                                a
                            } else {
                                let h = self.extract(a, k, w - k);
                                self.zext(h, w)
                            }
                        } else if k == 0 {
                            self.cst(0, w)
                        } else {
                            let h = self.extract(a, 0, k);
                            self.zext(h, w)
                        };
                    }
                }
                if self.is_zero(a) {
                    let z = self.cst(0, w);
                    let e = self.eq(b, z);
                    if e == 0 {
                        return a;
                    }
                }
                if op == Bop::URem {
                    if let Some(r) = self.urem_small(a, b) {
                        return r;
                    }
                }
                // narrow when both have leading zeros (and the divisor isn't zero: same semantics of x/0 is lost)
                let z = self.lead0(a).min(self.lead0(b));
                if z > 0 && z < w && self.is_const(b).map(|l| !big::is_zero(l)).unwrap_or(false) {
                    let x = self.extract(a, 0, w - z);
                    let y = self.extract(b, 0, w - z);
                    let r = self.bin(op, x, y);
                    return self.zext(r, w);
                }
            }
            Bop::SDiv | Bop::SRem => {}
        }
        // push constants into if-then-else over constants
        if w > 1 {
            if let Node::Ite(c, x, y) = *self.n(a) {
                if self.is_const(b).is_some() && self.is_const(x).is_some() && self.is_const(y).is_some() {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return self.ite(c, p, q);
                }
            }
            if let Node::Ite(c, x, y) = *self.n(b) {
                if self.is_const(a).is_some() && self.is_const(x).is_some() && self.is_const(y).is_some() {
                    let p = self.bin(op, a, x);
                    let q = self.bin(op, a, y);
                    return self.ite(c, p, q);
                }
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }
    /// an upper bound of the value, if a useful one is known
    fn vbound(&self, e: Eid, depth: u32) -> Option<u128> {
        let w = self.w(e);
        let n = w - self.lead0(e);
        let by_bits = if n < 120 { Some((1u128 << n) - 1) } else { None };
        if depth == 0 {
            return by_bits;
        }
        let fits = |x: u128| if w >= 120 || x < 1 << w { Some(x) } else { None };
        let b = match self.n(e) {
            Node::Bin(Bop::URem, a, d) => match self.as_u64(*d) {
                Some(m) if m > 0 => match self.vbound(*a, depth - 1) {
                    Some(x) => Some(x.min(m as u128 - 1)),
                    None => Some(m as u128 - 1),
                },
                _ => None,
            },
            Node::Bin(Bop::Add, a, b) => match (self.vbound(*a, depth - 1), self.vbound(*b, depth - 1)) {
                (Some(x), Some(y)) => x.checked_add(y).and_then(fits),
                _ => None,
            },
            Node::Bin(Bop::Mul, a, b) => match (self.vbound(*a, depth - 1), self.vbound(*b, depth - 1)) {
                (Some(x), Some(y)) => x.checked_mul(y).and_then(fits),
                _ => None,
            },
            Node::Extract(a, 0) => self.vbound(*a, depth - 1).and_then(fits),
            Node::Concat(v) => {
                let mut sum = Some(0u128);
                let mut off = 0;
                for x in v.iter() {
                    if !self.is_zero(*x) {
                        sum = match (sum, self.vbound(*x, depth - 1)) {
                            (Some(s), Some(y)) if off < 120 && y <= (u128::MAX >> 8) >> off => Some(s + (y << off)),
                            _ => None,
                        };
                    }
                    off += self.w(*x);
                }
                sum
            }
            Node::Ite(_, a, b) => match (self.vbound(*a, depth - 1), self.vbound(*b, depth - 1)) {
                (Some(x), Some(y)) => Some(x.max(y)),
                _ => None,
            },
            _ => None,
        };
        match (b, by_bits) {
            (Some(x), Some(y)) => Some(x.min(y)),
            (x, y) => x.or(y),
        }
    }
    /// Adds f * e (mod m) to a sum of terms: (base, first bit, width) -> factor
    fn linear(&self, e: Eid, f: u64, m: u64, sum: &mut BTreeMap<(Eid, u32, u32), u64>, cst: &mut u64, compound: &mut bool) {
        const DEPTH: u32 = 12;
        let w = self.w(e);
        let md = |x: u128| (x % m as u128) as u64;
        match self.n(e) {
            Node::Const(l) => {
                let mut r = 0u64;
                for x in l.iter().rev() {
                    r = md(((r as u128) << 64) | *x as u128);
                }
                *cst = md(*cst as u128 + r as u128 * f as u128);
                return;
            }
            Node::Concat(v) => {
                let mut g = f;
                for x in v.iter() {
                    self.linear(*x, g, m, sum, cst, compound);
                    for _ in 0..self.w(*x) {
                        g = md(g as u128 * 2);
                    }
                }
                return;
            }
            Node::Bin(Bop::Add, a, b) => {
                if let (Some(x), Some(y)) = (self.vbound(*a, DEPTH), self.vbound(*b, DEPTH)) {
                    if w >= 122 || x + y < 1 << w {
                        *compound = true;
                        self.linear(*a, f, m, sum, cst, compound);
                        self.linear(*b, f, m, sum, cst, compound);
                        return;
                    }
                }
            }
            Node::Bin(Bop::Mul, a, b) => {
                let (x, k) = if self.as_u64(*a).is_some() { (*b, *a) } else { (*a, *b) };
                if let (Some(b), Some(c)) = (self.vbound(x, DEPTH), self.as_u64(k)) {
                    if let Some(p) = b.checked_mul(c as u128) {
                        if w >= 128 || p < 1 << w {
                            *compound = true;
                            return self.linear(x, md(f as u128 * c as u128), m, sum, cst, compound);
                        }
                    }
                }
            }
            Node::Bin(Bop::URem, a, d) => {
                if self.as_u64(*d).map(|d| d % m == 0 && d > 0).unwrap_or(false) {
                    *compound = true;
                    return self.linear(*a, f, m, sum, cst, compound);
                }
            }
            Node::Extract(u, lo) => {
                if *lo == 0 && !matches!(self.n(*u), Node::Var(_)) && self.vbound(*u, DEPTH).map(|b| w >= 128 || b < 1 << w).unwrap_or(false) {
                    return self.linear(*u, f, m, sum, cst, compound);
                }
                let s = sum.entry((*u, *lo, w)).or_insert(0);
                *s = md(*s as u128 + f as u128);
                return;
            }
            _ => {}
        }
        let s = sum.entry((e, 0, w)).or_insert(0);
        *s = md(*s as u128 + f as u128);
    }
    /// Remainder by a small constant m which is not a power of two: the dividend is brought to the normal form of a sum
    /// of narrow terms with factors below m, such that computations of one remainder in different ways coincide, and
    /// wide dividends become narrow.
    fn urem_small(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let w = self.w(a);
        let m = match self.as_u64(b) {
            Some(m) if m > 1 && m < 1 << 32 && !m.is_power_of_two() && self.is_const(a).is_none() => m,
            _ => return None,
        };
        if self.ubound(a, 8) < m {
            return Some(a);
        }
        const W: u32 = 72;
        if w > 4096 {
            return None;
        }
        let (mut sum, mut cst, mut compound) = (BTreeMap::new(), 0u64, false);
        self.linear(a, 1, m, &mut sum, &mut cst, &mut compound);
        if !compound && w <= W {
            return None;
        }
        let md = |x: u128| (x % m as u128) as u64;
        // adjacent pieces of one base are joined
        let mut pieces: Vec<(Eid, u32, u32, u64)> = vec![];
        for ((e, lo, n), f) in sum {
            if f == 0 {
                continue;
            }
            if let Some(p) = pieces.last_mut() {
                if p.0 == e && p.1 + p.2 == lo {
                    let mut g = p.3;
                    for _ in 0..p.2 {
                        g = md(g as u128 * 2);
                    }
                    if g == f {
                        p.2 += n;
                        continue;
                    }
                }
            }
            pieces.push((e, lo, n, f));
        }
        if pieces.len() > 64 {
            return None;
        }
        let mut r = self.cst(cst, W);
        for (e, lo, n, f) in pieces {
            let mut g = f;
            let mut i = lo;
            while i < lo + n {
                let k = (32 - i % 32).min(lo + n - i);
                let d = self.extract(e, i, k);
                let d = self.zext(d, W);
                let c = self.cst(g, W);
                let t = self.bin(Bop::Mul, d, c);
                r = self.bin(Bop::Add, r, t);
                for _ in 0..k {
                    g = md(g as u128 * 2);
                }
                i += k;
            }
        }
        if self.is_const(r).is_some() {
            let c = self.cst(m, W);
            let q = self.bin(Bop::URem, r, c);
            return Some(self.resize(q, w));
        }
        if self.vbound(r, 12).map(|x| x < m as u128).unwrap_or(false) {
            return Some(self.resize(r, w));
        }
        let z = self.lead0(r);
        let n = (W - z).max(64 - m.leading_zeros());
        let x = self.extract(r, 0, n);
        let c = self.cst(m, n);
        let q = self.mk(Node::Bin(Bop::URem, x, c), n);
        // the remainder is below m
        let k = 64 - (m - 1).leading_zeros();
        let q = if k < n { self.extract(q, 0, k) } else { q };
        Some(self.resize(q, w))
    }
    fn resize(&mut self, e: Eid, w: u32) -> Eid {
        match self.w(e) {
            n if n > w => self.extract(e, 0, w),
            n if n < w => self.zext(e, w),
            _ => e,
        }
    }
    fn shlc(&mut self, a: Eid, k: u32) -> Eid {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        let z = self.cst(0, k);
        let l = self.extract(a, 0, w - k);
        self.concat(&[z, l])
    }
    fn masked(&mut self, a: Eid, m: &[u64], w: u32) -> Eid {
        let mut parts = vec![];
        let mut i = 0;
        while i < w {
            let bit = big::bit(m, i);
            let mut j = i;
            while j < w && big::bit(m, j) == bit {
                j += 1
            }
            let p = if bit { self.extract(a, i, j - i) } else { self.cst(0, j - i) };
            parts.push(p);
            i = j;
        }
        self.concat(&parts)
    }
    /// Bitwise operation on operands of which at least one has constant segments: resolve it segment by segment.
    fn bitwise_segments(&mut self, op: Bop, a: Eid, b: Eid) -> Option<Eid> {
        let hasc = |p: &Pool, e: Eid| match p.n(e) {
            Node::Concat(v) => v.iter().any(|x| p.is_const(*x).is_some()),
            Node::Const(_) => true,
            _ => false,
        };
        let conc = matches!(self.n(a), Node::Concat(_)) || matches!(self.n(b), Node::Concat(_));
        if !conc || !(hasc(self, a) || hasc(self, b)) {
            // constant with non-concat: split by runs for Or
            if op == Bop::Or {
                if let Some(l) = self.is_const(b) {
                    let l = l.to_vec();
                    let w = self.w(a);
                    let mut parts = vec![];
                    let mut i = 0;
                    while i < w {
                        let bit = big::bit(&l, i);
                        let mut j = i;
                        while j < w && big::bit(&l, j) == bit {
                            j += 1
                        }
                        let p = if bit { self.ones(j - i) } else { self.extract(a, i, j - i) };
                        parts.push(p);
                        i = j;
                    }
                    return Some(self.concat(&parts));
                }
            }
            return None;
        }
        let va: Vec<Eid> = if let Node::Concat(v) = self.n(a) { v.to_vec() } else { vec![a] };
        let vb: Vec<Eid> = if let Node::Concat(v) = self.n(b) { v.to_vec() } else { vec![b] };
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u32, 0u32);
        let mut out = vec![];
        while i < va.len() {
            let (wi, wj) = (self.w(va[i]) - oi, self.w(vb[j]) - oj);
            let k = wi.min(wj);
            let x = self.extract(va[i], oi, k);
            let y = self.extract(vb[j], oj, k);
            // avoid infinite recursion: pieces are never concats with mixed segments here
            let r = self.bin(op, x, y);
            out.push(r);
            oi += k;
            oj += k;
            if oi == self.w(va[i]) {
                i += 1;
                oi = 0;
            }
            if oj == self.w(vb[j]) {
                j += 1;
                oj = 0;
            }
        }
        Some(self.concat(&out))
    }
    pub fn hash(&mut self, alg: u8, arg: Eid) -> Eid {
        let hw = hash_width(alg);
        if let Some(l) = self.is_const(arg) {
            let bytes = big::to_bytes(l, self.w(arg));
            let h = real_hash(alg, &bytes);
            let c = self.cstl(big::from_bytes(&h), hw);
            self.known_hash.insert(c, (alg, arg));
            return c;
        }
        self.mk(Node::Hash(alg, arg), hw)
    }
    pub fn children(&self, e: Eid, out: &mut Vec<Eid>) {
        match self.n(e) {
            Node::Const(_) | Node::Var(_) => {}
            Node::Bin(_, a, b) | Node::Eq(a, b) | Node::Ult(a, b) | Node::Slt(a, b) => out.extend([*a, *b]),
            Node::Concat(v) => out.extend(v.iter()),
            Node::Extract(a, _) | Node::SExt(a) | Node::Not(a) | Node::Hash(_, a) => out.push(*a),
            Node::Ite(a, b, c) => out.extend([*a, *b, *c]),
        }
    }
    /// rebuild `e` with `f` mapping some subterms to replacements (memoised in `memo`)
    pub fn subst(&mut self, e: Eid, map: &HashMap<Eid, Eid>, mask: u128, memo: &mut HashMap<Eid, Eid>) -> Eid {
        if self.vars[e as usize] & mask == 0 {
            return e;
        }
        if let Some(r) = map.get(&e) {
            return *r;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let w = self.w(e);
        let r = match self.n(e).clone() {
            Node::Const(_) | Node::Var(_) => e,
            Node::Bin(op, a, b) => {
                let (x, y) = (self.subst(a, map, mask, memo), self.subst(b, map, mask, memo));
                if x == a && y == b { e } else { self.bin(op, x, y) }
            }
            Node::Concat(v) => {
                let r: Vec<Eid> = v.iter().map(|x| self.subst(*x, map, mask, memo)).collect();
                if r[..] == v[..] { e } else { self.concat(&r) }
            }
            Node::Extract(a, lo) => {
                let x = self.subst(a, map, mask, memo);
                if x == a { e } else { self.extract(x, lo, w) }
            }
            Node::SExt(a) => {
                let x = self.subst(a, map, mask, memo);
                if x == a { e } else { self.sext(x, w) }
            }
            Node::Not(a) => {
                let x = self.subst(a, map, mask, memo);
                self.not(x)
            }
            Node::Ite(c, a, b) => {
                let x = self.subst(c, map, mask, memo);
                if x == 1 {
                    self.subst(a, map, mask, memo)
                } else if x == 0 {
                    self.subst(b, map, mask, memo)
                } else {
                    let (y, z) = (self.subst(a, map, mask, memo), self.subst(b, map, mask, memo));
                    self.ite(x, y, z)
                }
            }
            Node::Eq(a, b) => {
                let (x, y) = (self.subst(a, map, mask, memo), self.subst(b, map, mask, memo));
                if x == a && y == b { e } else { self.eq(x, y) }
            }
            Node::Ult(a, b) => {
                let (x, y) = (self.subst(a, map, mask, memo), self.subst(b, map, mask, memo));
                if x == a && y == b { e } else { self.ult(x, y) }
            }
            Node::Slt(a, b) => {
                let (x, y) = (self.subst(a, map, mask, memo), self.subst(b, map, mask, memo));
                if x == a && y == b { e } else { self.slt(x, y) }
            }
            Node::Hash(g, a) => {
                let x = self.subst(a, map, mask, memo);
                if x == a { e } else { self.hash(g, x) }
            }
        };
        memo.insert(e, r);
        r
    }
    /// evaluate under a full assignment of variables
    pub fn eval(&self, e: Eid, m: &Model, cache: &mut HashMap<Eid, Limbs, FxBuild>) -> Limbs {
        if let Node::Const(l) = self.n(e) {
            return l.clone();
        }
        if let Some(r) = cache.get(&e) {
            return r.clone();
        }
        let w = self.w(e);
        let bl = |b: bool| -> Limbs { vec![b as u64].into() };
        let r: Limbs = match self.n(e) {
            Node::Const(_) => unreachable!(),
            Node::Var(i) => {
                let mut v = vec![0u64; nl(w)];
                if let Some(Some(x)) = m.get(*i as usize) {
                    for k in 0..v.len().min(x.len()) {
                        v[k] = x[k];
                    }
                    norm(&mut v, w);
                }
                v.into()
            }
            Node::Bin(op, a, b) => {
                let x = self.eval(*a, m, cache);
                let y = self.eval(*b, m, cache);
                fold_limbs(*op, &x, &y, w)
            }
            Node::Concat(v) => {
                let mut r = vec![0u64; nl(w)];
                let mut pos = 0;
                for x in v.iter() {
                    let l = self.eval(*x, m, cache);
                    big::deposit(&mut r, &l, pos);
                    pos += self.w(*x);
                }
                r.into()
            }
            Node::Extract(a, lo) => {
                let x = self.eval(*a, m, cache);
                big::extract(&x, *lo, w)
            }
            Node::SExt(a) => {
                let x = self.eval(*a, m, cache);
                let aw = self.w(*a);
                let mut r = vec![0u64; nl(w)];
                big::deposit(&mut r, &x, 0);
                if big::bit(&x, aw - 1) {
                    for i in aw..w {
                        r[(i / 64) as usize] |= 1 << (i % 64);
                    }
                }
                r.into()
            }
            Node::Not(a) => bl(self.eval(*a, m, cache)[0] == 0),
            Node::Ite(c, a, b) => {
                if self.eval(*c, m, cache)[0] == 1 {
                    self.eval(*a, m, cache)
                } else {
                    self.eval(*b, m, cache)
                }
            }
            Node::Eq(a, b) => bl(self.eval(*a, m, cache) == self.eval(*b, m, cache)),
            Node::Ult(a, b) => bl(big::cmp(&self.eval(*a, m, cache), &self.eval(*b, m, cache)) == std::cmp::Ordering::Less),
            Node::Slt(a, b) => {
                let aw = self.w(*a);
                bl(slt_limbs(&self.eval(*a, m, cache), &self.eval(*b, m, cache), aw))
            }
            Node::Hash(g, a) => {
                let x = self.eval(*a, m, cache);
                let bytes = big::to_bytes(&x, self.w(*a));
                big::from_bytes(&real_hash(*g, &bytes))
            }
        };
        cache.insert(e, r.clone());
        r
    }
    pub fn show(&self, e: Eid, depth: usize) -> String {
        let s = |x: &Eid| if depth == 0 { format!("#{}", x) } else { self.show(*x, depth - 1) };
        let w = self.w(e);
        match self.n(e) {
            Node::Const(l) => {
                let mut t = String::from("0x");
                let mut z = true;
                for x in l.iter().rev() {
                    if z {
                        if *x != 0 || std::ptr::eq(x, &l[0]) {
                            t += &format!("{:x}", x);
                            z = false;
                        }
                    } else {
                        t += &format!("{:016x}", x);
                    }
                }
                format!("{}:{}", t, w)
            }
            Node::Var(i) => format!("v{}:{}", i, w),
            Node::Bin(op, a, b) => format!("{:?}({}, {})", op, s(a), s(b)),
            Node::Concat(v) => format!("[{}]", v.iter().map(|x| s(x)).collect::<Vec<_>>().join(" ++ ")),
            Node::Extract(a, lo) => format!("{}[{}+{}]", s(a), lo, w),
            Node::SExt(a) => format!("sext{}({})", w, s(a)),
            Node::Not(a) => format!("!{}", s(a)),
            Node::Ite(c, a, b) => format!("ite({}, {}, {})", s(c), s(a), s(b)),
            Node::Eq(a, b) => format!("({} == {})", s(a), s(b)),
            Node::Ult(a, b) => format!("({} <u {})", s(a), s(b)),
            Node::Slt(a, b) => format!("({} <s {})", s(a), s(b)),
            Node::Hash(g, a) => format!("H{}({})", g, s(a)),
        }
    }
}

pub type Model = Vec<Option<Limbs>>;

pub fn slt_limbs(a: &[u64], b: &[u64], w: u32) -> bool {
    let (sa, sb) = (big::bit(a, w - 1), big::bit(b, w - 1));
    if sa != sb {
        sa
    } else {
        big::cmp(a, b) == std::cmp::Ordering::Less
    }
}

pub fn fold_limbs(op: Bop, x: &[u64], y: &[u64], w: u32) -> Limbs {
    let n = x.len();
    let shift = |y: &[u64]| -> u32 {
        if y[1..].iter().any(|z| *z != 0) || y[0] >= w as u64 {
            w
        } else {
            y[0] as u32
        }
    };
    match op {
        Bop::Add => big::add(x, y, w),
        Bop::Mul => big::mul(x, y, w),
        Bop::And => (0..n).map(|i| x[i] & y[i]).collect(),
        Bop::Or => (0..n).map(|i| x[i] | y[i]).collect(),
        Bop::Xor => (0..n).map(|i| x[i] ^ y[i]).collect(),
        Bop::UDiv => big::divrem(x, y, w).0,
        Bop::URem => big::divrem(x, y, w).1,
        Bop::SDiv | Bop::SRem => {
            let (nx, ny) = (big::bit(x, w - 1), big::bit(y, w - 1));
            let ax = if nx { big::neg(x, w) } else { x.into() };
            let ay = if ny { big::neg(y, w) } else { y.into() };
            let (q, r) = big::divrem(&ax, &ay, w);
            if op == Bop::SDiv {
                if nx != ny { big::neg(&q, w) } else { q }
            } else if nx {
                big::neg(&r, w)
            } else {
                r
            }
        }
        Bop::Shl => {
            let k = shift(y);
            let mut r = vec![0u64; n];
            if k < w {
                big::deposit(&mut r, x, k);
                norm(&mut r, w);
            }
            r.into()
        }
        Bop::LShr => {
            let k = shift(y);
            let mut r = vec![0u64; n];
            if k < w {
                let e = big::extract(x, k, w - k);
                r[..e.len()].copy_from_slice(&e);
            }
            r.into()
        }
        Bop::AShr => {
            let k = shift(y);
            let s = big::bit(x, w - 1);
            let mut r = vec![0u64; n];
            if k < w {
                let e = big::extract(x, k, w - k);
                r[..e.len()].copy_from_slice(&e);
            }
            if s {
                for i in (w - k)..w {
                    r[(i / 64) as usize] |= 1 << (i % 64);
                }
            }
            r.into()
        }
    }
}
