//! Hash-consed bit-vector and floating-point expressions over symbolic bytes.

use crate::ir::{mask, CastOp};
use crate::parse::sext128;
use std::collections::HashMap;

pub type Eid = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // k = lo
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    // floating point, on bit patterns (a's width is 32 or 64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FLt,
    FLe,
    FEq,
    FUno,
    SiToFp,
    UiToFp,
    FpToSiSat,
    FpToUiSat,
    FpConv,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Eid,
    pub b: Eid,
    pub c: Eid,
    pub k: u128,
}

pub type SymSet = [u64; 8];
pub const MAX_SYMS: usize = 512;

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Eid, BuildFx>,
    pub syms: Vec<SymSet>,
    /// Whether the expression contains a floating-point operation.
    pub fp: Vec<bool>,
    /// Conservative signed range for widths up to 64 (i128::MIN marks "unknown").
    pub rng: Vec<(i128, i128)>,
    /// How many times additions and exclusive disjunctions alternate below (times four), and which
    /// of the two was the last: hash functions are made of these.
    pub mix: Vec<u8>,
    eval_gen: u32,
    eval_cache: Vec<(u32, u128)>,
}

#[derive(Default, Clone)]
pub struct BuildFx;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

fn mag(r: (i128, i128)) -> i128 {
    if r.0 == i128::MIN {
        return 1 << 100;
    }
    r.0.abs().max(r.1.abs())
}

const UNK: (i128, i128) = (i128::MIN, i128::MAX);

fn f32b(x: u128) -> f32 {
    f32::from_bits(x as u32)
}
fn f64b(x: u128) -> f64 {
    f64::from_bits(x as u64)
}

/// Concrete semantics of a node, shared by constant folding and model evaluation.
pub fn apply(n: &Node, aw: u32, x: u128, y: u128, z: u128) -> u128 {
    let w = n.w as u32;
    let m = mask(w);
    let sx = |v: u128, w: u32| sext128(v, w);
    match n.op {
        Op::Const => n.k,
        Op::Sym => unreachable!(),
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                a.wrapping_div(b) as u128 & m
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128 & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            (sx(x, w) >> s) as u128 & m
        }
        Op::Concat => unreachable!(),
        Op::Extract => (x >> n.k) & m,
        Op::ZExt => x,
        Op::SExt => sx(x, aw) as u128 & m,
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, aw) < sx(y, aw)) as u128,
        Op::Sle => (sx(x, aw) <= sx(y, aw)) as u128,
        Op::Ite => {
            if x == 1 {
                y
            } else {
                z
            }
        }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 32 {
                let (a, b) = (f32b(x), f32b(y));
                (match n.op {
                    Op::FAdd => a + b,
                    Op::FSub => a - b,
                    Op::FMul => a * b,
                    _ => a / b,
                })
                .to_bits() as u128
            } else {
                let (a, b) = (f64b(x), f64b(y));
                (match n.op {
                    Op::FAdd => a + b,
                    Op::FSub => a - b,
                    Op::FMul => a * b,
                    _ => a / b,
                })
                .to_bits() as u128
            }
        }
        Op::FSqrt => {
            if w == 32 {
                f32b(x).sqrt().to_bits() as u128
            } else {
                f64b(x).sqrt().to_bits() as u128
            }
        }
        Op::FLt | Op::FLe | Op::FEq | Op::FUno => {
            let (a, b) = if aw == 32 { (f32b(x) as f64, f32b(y) as f64) } else { (f64b(x), f64b(y)) };
            (match n.op {
                Op::FLt => a < b,
                Op::FLe => a <= b,
                Op::FEq => a == b,
                _ => a.is_nan() || b.is_nan(),
            }) as u128
        }
        Op::SiToFp => {
            let v = sx(x, aw);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Op::UiToFp => {
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FpToSiSat => {
            let f = if aw == 32 { f32b(x) as f64 } else { f64b(x) };
            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
            let v = if f.is_nan() {
                0
            } else if f <= lo as f64 {
                lo
            } else if f >= hi as f64 + 1.0 {
                hi
            } else {
                (f as i128).clamp(lo, hi)
            };
            v as u128 & m
        }
        Op::FpToUiSat => {
            let f = if aw == 32 { f32b(x) as f64 } else { f64b(x) };
            (f as u128).min(m)
        }
        Op::FpConv => {
            if aw == 32 {
                (f32b(x) as f64).to_bits() as u128
            } else {
                (f64b(x) as f32).to_bits() as u128
            }
        }
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: HashMap::with_hasher(BuildFx),
            syms: vec![],
            fp: vec![],
            rng: vec![],
            mix: vec![],
            eval_gen: 0,
            eval_cache: vec![],
        };
        // id 0 is reserved
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.syms.push([0; 8]);
        a.fp.push(false);
        a.rng.push(UNK);
        a.mix.push(0);
        a
    }
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn n(&self, e: Eid) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn konst(&self, e: Eid) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn intern(&mut self, n: Node) -> Eid {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as Eid;
        let mut s: SymSet = [0; 8];
        let mut fp = matches!(
            n.op,
            Op::FAdd
                | Op::FSub
                | Op::FMul
                | Op::FDiv
                | Op::FSqrt
                | Op::FLt
                | Op::FLe
                | Op::FEq
                | Op::FUno
                | Op::SiToFp
                | Op::UiToFp
                | Op::FpToSiSat
                | Op::FpToUiSat
                | Op::FpConv
        );
        for k in [n.a, n.b, n.c] {
            if k != 0 {
                let t = self.syms[k as usize];
                for i in 0..8 {
                    s[i] |= t[i];
                }
                fp |= self.fp[k as usize];
            }
        }
        if n.op == Op::Sym {
            s[(n.k / 64) as usize] |= 1 << (n.k % 64);
        }
        let r = self.range(&n);
        let own = match n.op {
            Op::Add | Op::Sub => 1u8,
            Op::Xor => 2,
            _ => 0,
        };
        let mut mix = 0u8;
        for k in [n.a, n.b, n.c] {
            let m = self.mix[k as usize];
            let m = if own == 0 || m & 3 == own {
                m
            } else {
                (m & !3).saturating_add(if self.nodes[k as usize].op == Op::Const { 0 } else { 4 }).min(252) | own
            };
            mix = mix.max(m);
        }
        self.mix.push(mix);
        self.nodes.push(n);
        self.syms.push(s);
        self.fp.push(fp);
        self.rng.push(r);
        self.map.insert(n, id);
        id
    }
    fn range(&self, n: &Node) -> (i128, i128) {
        let w = n.w as u32;
        if w > 64 || w == 0 {
            return UNK;
        }
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let fit = |r: (i128, i128)| if r.0 >= full.0 && r.1 <= full.1 { r } else { full };
        let r = |e: Eid| self.rng[e as usize];
        match n.op {
            Op::Const => {
                let v = sext128(n.k, w);
                (v, v)
            }
            Op::ZExt => {
                let aw = self.w(n.a);
                let (l, h) = r(n.a);
                if l >= 0 && l != i128::MIN {
                    (l, h)
                } else {
                    (0, mask(aw) as i128)
                }
            }
            Op::SExt => r(n.a),
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                fit((a.0 + b.0, a.1 + b.1))
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                fit((a.0 - b.1, a.1 - b.0))
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                if w > 32 {
                    let big = 1i128 << 62;
                    if a.0 < -big || a.1 > big || b.0 < -big || b.1 > big {
                        return full;
                    }
                }
                let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                fit((*c.iter().min().unwrap(), *c.iter().max().unwrap()))
            }
            Op::Shl => {
                if let Some(k) = self.konst(n.b) {
                    if k < 63 {
                        let a = r(n.a);
                        let big = 1i128 << 63;
                        if a.0 >= -big && a.1 < big {
                            return fit((a.0 << k, a.1 << k));
                        }
                    }
                }
                full
            }
            Op::And => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 >= 0 {
                    (0, if a.0 >= 0 { a.1.min(b.1) } else { b.1 })
                } else if a.0 >= 0 {
                    (0, a.1)
                } else {
                    full
                }
            }
            Op::Or | Op::Xor => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= 0 && b.0 >= 0 {
                    let m = a.1.max(b.1);
                    let bits = 128 - m.leading_zeros();
                    (if n.op == Op::Or { a.0.max(b.0) } else { 0 }, ((1i128 << bits) - 1).min(full.1))
                } else {
                    full
                }
            }
            Op::LShr => {
                let a = r(n.a);
                if let Some(k) = self.konst(n.b) {
                    if k < w as u128 && k > 0 {
                        if a.0 >= 0 {
                            return (a.0 >> k, a.1 >> k);
                        }
                        return (0, (mask(w) >> k) as i128);
                    }
                }
                full
            }
            Op::AShr => {
                let a = r(n.a);
                if let Some(k) = self.konst(n.b) {
                    if k < w as u128 {
                        return (a.0 >> k, a.1 >> k);
                    }
                }
                full
            }
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::URem => {
                let b = r(n.b);
                if b.0 > 0 {
                    (0, b.1 - 1)
                } else {
                    full
                }
            }
            _ => full,
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: Eid, b: Eid, c: Eid, k: u128) -> Eid {
        let n = Node { op, w: w as u16, a, b, c, k };
        if !matches!(op, Op::Const | Op::Sym | Op::Concat) {
            let all = [a, b, c].iter().all(|e| *e == 0 || self.konst(*e).is_some());
            if all {
                let g = |e: Eid| if e == 0 { 0 } else { self.n(e).k };
                let aw = if a != 0 { self.w(a) } else { 0 };
                let v = apply(&n, aw, g(a), g(b), g(c));
                return self.cst(v, w);
            }
        }
        self.intern(n)
    }
    pub fn cst(&mut self, v: u128, w: u32) -> Eid {
        self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn sym(&mut self, i: usize) -> Eid {
        self.intern(Node { op: Op::Sym, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }

    pub fn add(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return a;
            }
            let n = *self.n(a);
            if n.op == Op::Add {
                if let Some(k2) = self.konst(n.b) {
                    let s = self.cst(k.wrapping_add(k2), w);
                    return self.add(n.a, s);
                }
            }
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        if let Some(k) = self.konst(b) {
            let c = self.cst((0u128).wrapping_sub(k), w);
            return self.add(a, c);
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.cst(k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn div(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k != 0 && k.is_power_of_two() {
                if op == Op::UDiv {
                    let s = self.cst(k.trailing_zeros() as u128, w);
                    return self.lshr(a, s);
                }
                if op == Op::URem {
                    let s = self.cst(k - 1, w);
                    return self.and(a, s);
                }
            }
        }
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return b;
            }
            if k == mask(w) {
                return a;
            }
            // low mask -> zext(extract)
            if (k + 1).is_power_of_two() {
                let bits = 128 - k.leading_zeros();
                let x = self.extract(a, 0, bits);
                return self.zext(x, w);
            }
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.cst(0, 1);
            }
        }
        let (a, b) = if self.konst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::And, w, a, b, 0, 0)
    }
    fn is_not_of(&self, a: Eid, b: Eid) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Xor && na.a == b && self.konst(na.b) == Some(1) && na.w == 1)
            || (nb.op == Op::Xor && nb.a == a && self.konst(nb.b) == Some(1) && nb.w == 1)
    }
    pub fn or(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
        }
        if w == 1 && self.is_not_of(a, b) {
            return self.cst(1, 1);
        }
        // disjoint byte composition: or(zext-ish, shl-ish) -> concat
        if w > 8 {
            if let Some(e) = self.or_concat(a, b) {
                return e;
            }
        }
        let (a, b) = if self.konst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    /// Split into bytes when each byte is a plain expression or zero.
    fn bytes_of(&mut self, e: Eid) -> Option<Vec<Option<Eid>>> {
        let w = self.w(e);
        if w % 8 != 0 {
            return None;
        }
        let n = *self.n(e);
        let nb = (w / 8) as usize;
        match n.op {
            Op::Const => {
                let mut v = vec![];
                for i in 0..nb {
                    let b = (n.k >> (8 * i)) & 0xff;
                    v.push(if b == 0 { None } else { Some(self.cst(b, 8)) });
                }
                Some(v)
            }
            Op::Sym => Some(vec![Some(e)]),
            Op::ZExt => {
                if self.w(n.a) % 8 != 0 {
                    return None;
                }
                let mut v = self.bytes_of(n.a)?;
                v.resize(nb, None);
                Some(v)
            }
            Op::Concat => {
                let mut lo = self.bytes_of(n.b)?;
                let hi = self.bytes_of(n.a)?;
                lo.extend(hi);
                Some(lo)
            }
            Op::Shl => {
                let k = self.konst(n.b)?;
                if k % 8 != 0 {
                    return None;
                }
                let k = (k / 8) as usize;
                let v = self.bytes_of(n.a)?;
                let mut o = vec![None; k.min(nb)];
                o.extend(v);
                o.truncate(nb);
                Some(o)
            }
            Op::Extract if w == 8 => Some(vec![Some(e)]),
            Op::Or => {
                let a = self.bytes_of(n.a)?;
                let b = self.bytes_of(n.b)?;
                let mut o = vec![];
                for (x, y) in a.into_iter().zip(b) {
                    o.push(match (x, y) {
                        (None, y) => y,
                        (x, None) => x,
                        _ => return None,
                    });
                }
                Some(o)
            }
            _ if w == 8 => Some(vec![Some(e)]),
            _ => None,
        }
    }
    fn or_concat(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let x = self.bytes_of(a)?;
        let y = self.bytes_of(b)?;
        let mut o = vec![];
        for (p, q) in x.into_iter().zip(y) {
            o.push(match (p, q) {
                (None, q) => q,
                (p, None) => p,
                _ => return None,
            });
        }
        Some(self.from_bytes(&o))
    }
    fn from_bytes(&mut self, o: &[Option<Eid>]) -> Eid {
        let mut r: Option<Eid> = None;
        // strip high zero bytes
        let mut top = o.len();
        while top > 0 && o[top - 1].is_none() {
            top -= 1;
        }
        if top == 0 {
            return self.cst(0, 8 * o.len() as u32);
        }
        for i in (0..top).rev() {
            let b = match o[i] {
                Some(e) => e,
                None => self.cst(0, 8),
            };
            r = Some(match r {
                None => b,
                Some(h) => self.concat(h, b),
            });
        }
        let r = r.unwrap();
        self.zext(r, 8 * o.len() as u32)
    }
    pub fn xor(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return a;
            }
            let n = *self.n(a);
            if n.op == Op::Xor {
                if let Some(k2) = self.konst(n.b) {
                    let c = self.cst(k ^ k2, w);
                    return self.xor(n.a, c);
                }
            }
            if w == 1 {
                // not
                match n.op {
                    Op::Ult => return self.ule(n.b, n.a),
                    Op::Ule => return self.ult(n.b, n.a),
                    Op::Slt => return self.sle(n.b, n.a),
                    Op::Sle => return self.slt(n.b, n.a),
                    _ => {}
                }
            }
        }
        let (a, b) = if self.konst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: Eid) -> Eid {
        let one = self.cst(1, 1);
        self.xor(a, one)
    }
    pub fn shl(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.cst(0, w);
            }
            let n = *self.n(a);
            if n.op == Op::Shl {
                if let Some(k2) = self.konst(n.b) {
                    let s = self.cst(k + k2, w);
                    return self.shl(n.a, s);
                }
            }
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.cst(0, w);
            }
            let x = self.extract(a, k as u32, w - k as u32);
            return self.zext(x, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return a;
            }
            if k < w as u128 {
                let x = self.extract(a, k as u32, w - k as u32);
                return self.sext(x, w);
            }
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(h), Some(l)) = (self.konst(hi), self.konst(lo)) {
            return self.cst((h << wl) | l, w);
        }
        if self.konst(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        // concat(extract(x, k..top), concat(extract(x, j..k), y))
        if nl.op == Op::Concat && nh.op == Op::Extract {
            let m = *self.n(nl.a);
            if m.op == Op::Extract && m.a == nh.a && nh.k == m.k + m.w as u128 {
                let h = self.extract(nh.a, m.k as u32, wh + m.w as u32);
                return self.concat(h, nl.b);
            }
        }
        // concat(concat(y, extract(x, k..)), extract(x, ..k))
        if nh.op == Op::Concat && nl.op == Op::Extract {
            let m = *self.n(nh.b);
            if m.op == Op::Extract && m.a == nl.a && m.k == nl.k + wl as u128 {
                let l = self.extract(nl.a, nl.k as u32, wl + m.w as u32);
                return self.concat(nh.a, l);
            }
        }
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        let n = *self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Shl => {
                if let Some(k) = self.konst(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.cst(0, w);
                    }
                    let x = self.extract(n.a, 0, lo + w - k);
                    let z = self.cst(0, k - lo);
                    return self.concat(x, z);
                }
            }
            Op::Ite => {
                if self.konst(n.b).is_some() || self.konst(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        if self.w(a) == w {
            return a;
        }
        if self.w(a) > w {
            return self.extract(a, 0, w);
        }
        let n = *self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.konst(n.b).is_some() && self.konst(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        if self.w(a) == w {
            return a;
        }
        let n = *self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return self.cst(1, 1);
        }
        let w = self.w(a);
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            let x = self.xor(a, b);
            return self.not1(x);
        }
        let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
        if w <= 64 && (ra.1 < rb.0 || rb.1 < ra.0) {
            return self.cst(0, 1);
        }
        if let Some(k) = self.konst(b) {
            let n = *self.n(a);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if k > mask(iw) {
                        return self.cst(0, 1);
                    }
                    let c = self.cst(k, iw);
                    return self.eq(n.a, c);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    let c = self.cst(k, iw);
                    let back = sext128(k & mask(iw), iw) as u128 & mask(w);
                    if back != k {
                        return self.cst(0, 1);
                    }
                    return self.eq(n.a, c);
                }
                Op::Concat => {
                    let wl = self.w(n.b);
                    let h = self.cst(k >> wl, self.w(n.a));
                    let l = self.cst(k & mask(wl), wl);
                    let x = self.eq(n.a, h);
                    if self.konst(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(n.b, l);
                    return self.and(x, y);
                }
                Op::Add => {
                    if let Some(k2) = self.konst(n.b) {
                        let c = self.cst(k.wrapping_sub(k2), w);
                        return self.eq(n.a, c);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.konst(n.b) {
                        let c = self.cst(k ^ k2, w);
                        return self.eq(n.a, c);
                    }
                }
                Op::Ite => {
                    if self.konst(n.b).is_some() || self.konst(n.c).is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            let (na, nb) = (*self.n(a), *self.n(b));
            if na.op == nb.op && matches!(na.op, Op::ZExt | Op::SExt) && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
        }
        let (a, b) = if self.konst(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    fn not1(&mut self, x: Eid) -> Eid {
        let one = self.cst(1, 1);
        self.xor(x, one)
    }
    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return self.cst(0, 1);
        }
        let w = self.w(a);
        if w <= 64 {
            let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
            if ra.0 >= 0 && rb.0 >= 0 {
                if ra.1 < rb.0 {
                    return self.cst(1, 1);
                }
                if ra.0 >= rb.1 {
                    return self.cst(0, 1);
                }
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        if let Some(k) = self.konst(b) {
            if k == 0 {
                return self.cst(0, 1);
            }
            if k == 1 {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                if k > mask(iw) {
                    return self.cst(1, 1);
                }
                let c = self.cst(k, iw);
                return self.ult(na.a, c);
            }
        }
        if let Some(k) = self.konst(a) {
            if k == mask(w) {
                return self.cst(0, 1);
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                if k >= mask(iw) {
                    return self.cst(0, 1);
                }
                let c = self.cst(k, iw);
                return self.ult(c, nb.a);
            }
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return self.cst(1, 1);
        }
        let w = self.w(a);
        if w <= 64 {
            let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
            if ra.0 >= 0 && rb.0 >= 0 {
                if ra.1 <= rb.0 {
                    return self.cst(1, 1);
                }
                if ra.0 > rb.1 {
                    return self.cst(0, 1);
                }
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ule(na.a, nb.a);
        }
        if let Some(k) = self.konst(b) {
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                if k >= mask(iw) {
                    return self.cst(1, 1);
                }
                let c = self.cst(k, iw);
                return self.ule(na.a, c);
            }
        }
        if let Some(k) = self.konst(a) {
            if k == 0 {
                return self.cst(1, 1);
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                if k > mask(iw) {
                    return self.cst(0, 1);
                }
                let c = self.cst(k, iw);
                return self.ule(c, nb.a);
            }
        }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return self.cst(0, 1);
        }
        let w = self.w(a);
        if w <= 64 {
            let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
            if ra.1 < rb.0 {
                return self.cst(1, 1);
            }
            if ra.0 >= rb.1 {
                return self.cst(0, 1);
            }
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b {
            return self.cst(1, 1);
        }
        let w = self.w(a);
        if w <= 64 {
            let (ra, rb) = (self.rng[a as usize], self.rng[b as usize]);
            if ra.1 <= rb.0 {
                return self.cst(1, 1);
            }
            if ra.0 > rb.1 {
                return self.cst(0, 1);
            }
        }
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(k) = self.konst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = *self.n(c);
        if nc.op == Op::Xor && nc.w == 1 && self.konst(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if nc.op == Op::Or && nc.w == 1 && w > 1 {
            // a single form of the two
            let (x, y) = (self.not(nc.a), self.not(nc.b));
            let c = self.and(x, y);
            return self.ite(c, b, a);
        }
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    // floating point

    /// Sign-extend to 64 bits, in a form that does not depend on the width in which the value, if it
    /// does not overflow, has been computed.
    fn widen(&mut self, e: Eid, depth: u32) -> Eid {
        let n = *self.n(e);
        let w = self.w(e);
        if w >= 64 {
            return e;
        }
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let fits = |r: (i128, i128)| r.0 >= full.0 && r.1 <= full.1;
        let (a, b) = (self.rng[n.a as usize], self.rng[n.b as usize]);
        let fine = depth > 0
            && match n.op {
                Op::Add => fits((a.0 + b.0, a.1 + b.1)),
                Op::Sub => fits((a.0 - b.1, a.1 - b.0)),
                Op::Mul => {
                    let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                    fits((*c.iter().min().unwrap(), *c.iter().max().unwrap()))
                }
                _ => false,
            };
        if !fine {
            return self.sext(e, 64);
        }
        let (x, y) = (self.widen(n.a, depth - 1), self.widen(n.b, depth - 1));
        match n.op {
            Op::Add => self.add(x, y),
            Op::Sub => self.sub(x, y),
            _ => self.mul(x, y),
        }
    }

    /// If the value is exactly an integer of small magnitude, the integer in 64 bits. Unless it is
    /// told to be `loose`, the value is not negative zero.
    fn exact_int(&mut self, e: Eid, loose: bool, depth: u32) -> Option<Eid> {
        let n = *self.n(e);
        if n.w != 32 && n.w != 64 || depth == 0 {
            return None;
        }
        let lim = if n.w == 32 { 1i128 << 24 } else { 1i128 << 53 };
        let sign = 1u128 << (n.w - 1);
        let x = match n.op {
            Op::SiToFp => {
                if self.w(n.a) < 64 {
                    self.sext(n.a, 64)
                } else {
                    n.a
                }
            }
            Op::Const => {
                let f = if n.w == 32 { f32b(n.k) as f64 } else { f64b(n.k) };
                if f.fract() == 0.0 && f.abs() <= lim as f64 && (loose || !(f == 0.0 && f.is_sign_negative())) {
                    self.cst(f as i128 as u128, 64)
                } else {
                    return None;
                }
            }
            Op::Ite => {
                let x = self.exact_int(n.b, loose, depth - 1)?;
                let y = self.exact_int(n.c, loose, depth - 1)?;
                self.ite(n.a, x, y)
            }
            Op::Xor if loose && self.konst(n.b) == Some(sign) => {
                let x = self.exact_int(n.a, true, depth - 1)?;
                let zero = self.cst(0, 64);
                self.sub(zero, x)
            }
            Op::FMul => {
                let x = self.exact_int(n.a, loose, depth - 1)?;
                let y = self.exact_int(n.b, loose, depth - 1)?;
                let (p, q) = (self.rng[x as usize], self.rng[y as usize]);
                if mag(p) > lim || mag(q) > lim || mag(p) * mag(q) > lim {
                    return None;
                }
                // without negative zeros, there is no new one if one is positive or both are not negative
                if !(loose || p.0 > 0 || q.0 > 0 || (p.0 >= 0 && q.0 >= 0)) {
                    return None;
                }
                self.mul(x, y)
            }
            Op::FAdd | Op::FSub if loose => {
                let x = self.exact_int(n.a, true, depth - 1)?;
                let y = self.exact_int(n.b, true, depth - 1)?;
                if mag(self.rng[x as usize]) + mag(self.rng[y as usize]) > lim {
                    return None;
                }
                if n.op == Op::FAdd {
                    self.add(x, y)
                } else {
                    self.sub(x, y)
                }
            }
            _ => return None,
        };
        let r = self.rng[x as usize];
        if self.w(x) == 64 && r.0 >= -lim && r.1 <= lim {
            Some(x)
        } else {
            None
        }
    }
    fn never_nan(&self, e: Eid) -> bool {
        let n = self.n(e);
        match n.op {
            Op::SiToFp | Op::UiToFp => true,
            Op::Const => !(if n.w == 32 { f32b(n.k) as f64 } else { f64b(n.k) }).is_nan(),
            Op::Ite => self.never_nan(n.b) && self.never_nan(n.c),
            Op::Xor => self.konst(n.b) == Some(1u128 << (n.w - 1)) && self.never_nan(n.a),
            // an integer scaled by a finite non-zero constant
            Op::FMul | Op::FDiv => {
                matches!(self.n(n.a).op, Op::SiToFp | Op::UiToFp)
                    && self.konst(n.b).map_or(false, |k| {
                        let f = if n.w == 32 { f32b(k) as f64 } else { f64b(k) };
                        f.is_finite() && f != 0.0
                    })
            }
            _ => false,
        }
    }
    pub fn fbin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        // addition and multiplication commute (NaN payloads are not observed)
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul) && self.konst(b).is_none() && (a > b || self.konst(a).is_some())
        {
            (b, a)
        } else {
            (a, b)
        };
        if matches!(op, Op::FAdd | Op::FSub) {
            if let (Some(x), Some(y)) = (self.exact_int(a, true, 6), self.exact_int(b, true, 6)) {
                let lim = if w == 32 { 1i128 << 24 } else { 1i128 << 53 };
                let (p, q) = (self.rng[x as usize], self.rng[y as usize]);
                // a sum is negative zero only if both are zeros
                let nonzero = |r: (i128, i128)| r.0 > 0 || r.1 < 0;
                let fine = nonzero(p)
                    || nonzero(q)
                    || (self.exact_int(a, false, 6).is_some() && self.exact_int(b, false, 6).is_some());
                if fine && mag(p) + mag(q) <= lim {
                    let z = if op == Op::FAdd { self.add(x, y) } else { self.sub(x, y) };
                    return self.fcast(CastOp::SiToFp, z, w);
                }
            }
        }
        if op == Op::FDiv {
            // the same as multiplying by the reciprocal if that is exact
            if let Some(k) = self.power(b, 60) {
                let r = self.powered(k.0, -k.1, w);
                return self.fbin(Op::FMul, a, r);
            }
        }
        if op == Op::FMul {
            if let (Some(k), Op::FMul) = (self.power(b, 60), self.n(a).op) {
                // scaling an integer twice
                let n = *self.n(a);
                if let (Op::SiToFp | Op::UiToFp, Some(l)) = (self.n(n.a).op, self.power(n.b, 60)) {
                    if (k.1 + l.1).abs() <= 60 {
                        let r = self.powered(k.0 ^ l.0, k.1 + l.1, w);
                        return self.fbin(Op::FMul, n.a, r);
                    }
                }
            }
            if let Some(k) = self.konst(b) {
                let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
                if k == one {
                    return a;
                }
            }
            let e = self.mk(op, w, a, b, 0, 0);
            if let Some(x) = self.exact_int(e, false, 6) {
                return self.fcast(CastOp::SiToFp, x, w);
            }
            return e;
        }
        self.mk(op, w, a, b, 0, 0)
    }
    /// The sign and the exponent of a constant that is a power of two, up to a limit.
    fn power(&self, e: Eid, limit: i32) -> Option<(bool, i32)> {
        let k = self.konst(e)?;
        let (m, x) = if self.w(e) == 32 {
            (k & 0x7f_ffff, ((k >> 23) & 0xff) as i32 - 127)
        } else {
            (k & 0xf_ffff_ffff_ffff, ((k >> 52) & 0x7ff) as i32 - 1023)
        };
        if m == 0 && x.abs() <= limit {
            Some((k >> (self.w(e) - 1) & 1 == 1, x))
        } else {
            None
        }
    }
    fn powered(&mut self, negative: bool, exponent: i32, w: u32) -> Eid {
        let f = 2f64.powi(exponent) * if negative { -1.0 } else { 1.0 };
        self.cst(if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }, w)
    }
    pub fn fsqrt(&mut self, a: Eid) -> Eid {
        let w = self.w(a);
        self.mk(Op::FSqrt, w, a, 0, 0, 0)
    }
    pub fn fcmp(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        if op == Op::FUno {
            if self.never_nan(a) && self.never_nan(b) {
                return self.cst(0, 1);
            }
            if self.never_nan(b) && a != b {
                return self.fcmp(Op::FUno, a, a);
            }
            if self.never_nan(a) && a != b {
                return self.fcmp(Op::FUno, b, b);
            }
        }
        if a == b && self.never_nan(a) {
            return self.cst((op != Op::FLt) as u128, 1);
        }
        if let (Some(x), Some(y)) = (self.exact_int(a, true, 6), self.exact_int(b, true, 6)) {
            return match op {
                Op::FLt => self.slt(x, y),
                Op::FLe => self.sle(x, y),
                Op::FEq => self.eq(x, y),
                _ => self.cst(0, 1),
            };
        }
        let (a, b) = if matches!(op, Op::FEq | Op::FUno) && a > b { (b, a) } else { (a, b) };
        self.mk(op, 1, a, b, 0, 0)
    }
    pub fn fcast(&mut self, op: CastOp, a: Eid, w: u32) -> Eid {
        match op {
            CastOp::SiToFp => {
                // normalise: the integer in 64 bits, so equal values built differently meet
                let x = self.widen(a, 8);
                self.mk(Op::SiToFp, w, x, 0, 0, 0)
            }
            CastOp::UiToFp => {
                let aw = self.w(a);
                if aw < 64 {
                    let x = if self.rng[a as usize].0 >= 0 { self.widen(a, 8) } else { self.zext(a, 64) };
                    return self.mk(Op::SiToFp, w, x, 0, 0, 0);
                }
                self.mk(Op::UiToFp, w, a, 0, 0, 0)
            }
            CastOp::FpToSi => {
                if let Some(x) = self.exact_int(a, true, 6) {
                    let r = self.rng[x as usize];
                    if w <= 64 && r.0 >= -(1i128 << (w - 1)) && r.1 < (1i128 << (w - 1)) {
                        return self.extract(x, 0, w);
                    }
                }
                self.mk(Op::FpToSiSat, w, a, 0, 0, 0)
            }
            CastOp::FpToUi => self.mk(Op::FpToUiSat, w, a, 0, 0, 0),
            CastOp::FpTrunc | CastOp::FpExt => {
                let n = *self.n(a);
                let small = |s: &Self, e: Eid, lim: u32| s.w(e) == 64 && mag(s.rng[e as usize]) <= 1i128 << lim;
                match n.op {
                    // integers that are exact in the wider of the two
                    Op::SiToFp if op == CastOp::FpTrunc && small(self, n.a, 53) => {
                        return self.fcast(CastOp::SiToFp, n.a, w);
                    }
                    Op::SiToFp if op == CastOp::FpExt && small(self, n.a, 24) => {
                        return self.fcast(CastOp::SiToFp, n.a, w);
                    }
                    // the same scaled, far from the limits
                    Op::FMul if op == CastOp::FpTrunc => {
                        let m = *self.n(n.a);
                        if let (Op::SiToFp, Some(k)) = (m.op, self.power(n.b, 60)) {
                            if small(self, m.a, 53) {
                                let x = self.fcast(CastOp::SiToFp, m.a, w);
                                let r = self.powered(k.0, k.1, w);
                                return self.fbin(Op::FMul, x, r);
                            }
                        }
                    }
                    Op::FpConv if op == CastOp::FpTrunc && self.w(n.a) == w => return n.a,
                    _ => {}
                }
                self.mk(Op::FpConv, w, a, 0, 0, 0)
            }
            _ => unreachable!(),
        }
    }

    // evaluation

    pub fn new_model(&mut self) {
        self.eval_gen += 1;
    }
    pub fn eval(&mut self, e: Eid, model: &[u8]) -> u128 {
        if self.eval_cache.len() < self.nodes.len() {
            self.eval_cache.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: Eid, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Sym => return *model.get(n.k as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        let c = self.eval_cache[e as usize];
        if c.0 == self.eval_gen {
            return c.1;
        }
        let v = if n.op == Op::Concat {
            let h = self.ev(n.a, model);
            let l = self.ev(n.b, model);
            let wl = self.w(n.b);
            (h << wl) | l
        } else if n.op == Op::Ite {
            if self.ev(n.a, model) == 1 {
                self.ev(n.b, model)
            } else {
                self.ev(n.c, model)
            }
        } else {
            let x = if n.a != 0 { self.ev(n.a, model) } else { 0 };
            let y = if n.b != 0 { self.ev(n.b, model) } else { 0 };
            let aw = if n.a != 0 { self.w(n.a) } else { 0 };
            apply(&n, aw, x, y, 0)
        };
        self.eval_cache[e as usize] = (self.eval_gen, v);
        v
    }
}
