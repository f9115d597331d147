//! In-memory form of the LLVM IR module the executor works on.

use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(Box<Ty>, u64),
    Vec(Box<Ty>, u64),
    Struct(Vec<Ty>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(t, _) => t.align(),
            Ty::Vec(t, n) => (t.size() * n).next_power_of_two().max(1),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Number of bytes a load or store touches.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Vec(t, n) => {
                if let Ty::Int(1) = **t {
                    (n + 7) / 8
                } else {
                    t.size() * n
                }
            }
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                let mut al = 1;
                for t in ts {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    off += t.size();
                }
                (off + al - 1) / al * al
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for (k, t) in ts.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    off = (off + a - 1) / a * a;
                    if k == i {
                        return off;
                    }
                    off += t.size();
                }
                off
            }
            Ty::Arr(t, _) | Ty::Vec(t, _) => t.size() * i as u64,
            _ => 0,
        }
    }
    /// Width in bits of a scalar type.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(t, n) => t.bits() * *n as u32,
            _ => 0,
        }
    }
}

/// A constant as written, before addresses are known.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Global(String),
    Agg(Vec<Const>),
    Bytes(Vec<u8>),
    Zero,
    Undef,
    /// base + offset, truncated to the given width
    Add(Box<Const>, i128, u32),
    Sub(Box<Const>, Box<Const>, u32),
    Splat(Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    A(Arc<[Val]>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(Val),
    /// Only between parsing and linking.
    Pending(Box<(Ty, Const)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Func(u32),
    Reg(Opnd),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, u32, Opnd, Opnd),
    FNeg(Ty, u32, Opnd),
    Icmp(Pred, Ty, u32, Opnd, Opnd),
    Fcmp(u8, Ty, u32, Opnd, Opnd),
    Cast(CastOp, Ty, Ty, u32, Opnd),
    Load(Ty, u32, Opnd),
    Store(Ty, Opnd, Opnd),
    /// dst, base, constant offset, (index, index width, scale)
    Gep(u32, Opnd, i64, Vec<(Opnd, u32, i64)>),
    Alloca(u32, u64, u64),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Opnd)>, Option<u32>),
    Select(Ty, u32, Opnd, Opnd, Opnd, Ty),
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, Ty, Opnd, Opnd, Vec<u32>),
    ExtractElem(u32, Opnd, Opnd),
    InsertElem(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, u64, Opnd, Opnd, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(Opnd, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Freeze(u32, Opnd),
    AtomicRmw(String, Ty, u32, Opnd, Opnd),
    CmpXchg(Ty, u32, Opnd, Opnd, Opnd),
    Nop,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub phi_preds: Vec<u32>,
    /// One row per predecessor: (dst, value)
    pub phi_rows: Vec<Vec<(u32, Opnd)>>,
    pub raw_phis: Vec<(u32, Ty, Vec<(Opnd, u32)>)>,
    pub ins: Vec<Ins>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub weak: bool,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
    pub weak: bool,
    pub align: u64,
    pub addr: u64,
}

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub aliases: HashMap<String, Const>,
    pub images: Vec<Arc<Vec<u8>>>,
}

pub const FBASE: u64 = 0x1000_0000;
pub const GBASE: u64 = 0x10_0000_0000;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

impl Module {
    pub fn const_val(&self, ty: &Ty, c: &Const) -> Val {
        match (ty, c) {
            (Ty::Arr(t, n), Const::Zero | Const::Undef) | (Ty::Vec(t, n), Const::Zero | Const::Undef) => {
                let z = self.const_val(t, c);
                Val::A((0..*n).map(|_| z.clone()).collect::<Vec<_>>().into())
            }
            (Ty::Vec(t, n), Const::Splat(x)) | (Ty::Arr(t, n), Const::Splat(x)) => {
                let z = self.const_val(t, x);
                Val::A((0..*n).map(|_| z.clone()).collect::<Vec<_>>().into())
            }
            (Ty::Struct(ts, _), Const::Zero | Const::Undef) => {
                Val::A(ts.iter().map(|t| self.const_val(t, c)).collect::<Vec<_>>().into())
            }
            (Ty::Arr(t, _) | Ty::Vec(t, _), Const::Agg(v)) => {
                Val::A(v.iter().map(|x| self.const_val(t, x)).collect::<Vec<_>>().into())
            }
            (Ty::Struct(ts, _), Const::Agg(v)) => Val::A(
                ts.iter().zip(v.iter()).map(|(t, x)| self.const_val(t, x)).collect::<Vec<_>>().into(),
            ),
            (_, Const::Bytes(b)) => Val::A(b.iter().map(|x| Val::C(*x as u128)).collect::<Vec<_>>().into()),
            _ => Val::C(self.const_int(c) & mask(ty.bits())),
        }
    }

    pub fn symbol_addr(&self, n: &str) -> u128 {
        if let Some(i) = self.fidx.get(n) {
            if self.funcs[*i as usize].weak {
                return 0;
            }
            return (FBASE + 16 * *i as u64) as u128;
        }
        if let Some(i) = self.gidx.get(n) {
            let g = &self.globals[*i];
            if g.weak && g.init.is_none() {
                return 0;
            }
            return g.addr as u128;
        }
        if let Some(c) = self.aliases.get(n) {
            return self.const_int(c);
        }
        panic!("unknown symbol @{n}");
    }

    pub fn const_int(&self, c: &Const) -> u128 {
        match c {
            Const::Int(v) => *v,
            Const::Zero | Const::Undef => 0,
            Const::Global(n) => self.symbol_addr(n),
            Const::Add(b, o, w) => (self.const_int(b) as i128).wrapping_add(*o) as u128 & mask(*w),
            Const::Sub(a, b, w) => self.const_int(a).wrapping_sub(self.const_int(b)) & mask(*w),
            _ => panic!("not an integer constant: {c:?}"),
        }
    }

    fn emit(&self, ty: &Ty, c: &Const, out: &mut [u8]) {
        match (ty, c) {
            (_, Const::Zero | Const::Undef) => {}
            (_, Const::Bytes(b)) => out[..b.len()].copy_from_slice(b),
            (Ty::Struct(ts, _), Const::Agg(v)) => {
                for (i, (t, x)) in ts.iter().zip(v.iter()).enumerate() {
                    let o = ty.field_offset(i) as usize;
                    self.emit(t, x, &mut out[o..o + t.size() as usize]);
                }
            }
            (Ty::Arr(t, _) | Ty::Vec(t, _), Const::Agg(v)) => {
                for (i, x) in v.iter().enumerate() {
                    let o = ty.field_offset(i) as usize;
                    self.emit(t, x, &mut out[o..o + t.size() as usize]);
                }
            }
            _ => {
                let v = self.const_int(c);
                let n = ty.store_size() as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }

    fn fix(&self, o: &mut Opnd) {
        if let Opnd::Pending(p) = o {
            let v = self.const_val(&p.0, &p.1);
            *o = Opnd::K(v);
        }
    }

    pub fn link(&mut self) {
        let mut addr = GBASE;
        for g in self.globals.iter_mut() {
            let a = g.align.max(16);
            addr = (addr + a - 1) / a * a;
            g.addr = addr;
            addr += g.ty.size().max(1) + 32;
        }
        let mut images = vec![];
        for g in self.globals.iter() {
            let mut b = vec![0u8; g.ty.size() as usize];
            if let Some(c) = &g.init {
                self.emit(&g.ty, c, &mut b);
            }
            images.push(Arc::new(b));
        }
        self.images = images;
        let mut funcs = std::mem::take(&mut self.funcs);
        // symbol_addr needs fidx -> weak flag only
        self.funcs = funcs
            .iter()
            .map(|f| Func {
                name: f.name.clone(),
                params: vec![],
                nregs: 0,
                blocks: vec![],
                defined: f.defined,
                weak: f.weak,
            })
            .collect();
        for f in funcs.iter_mut() {
            for b in f.blocks.iter_mut() {
                let raw = std::mem::take(&mut b.raw_phis);
                if let Some(p0) = raw.first() {
                    b.phi_preds = p0.2.iter().map(|x| x.1).collect();
                    for pred in b.phi_preds.clone() {
                        let mut row = vec![];
                        for (d, _, inc) in raw.iter() {
                            let mut o = inc.iter().find(|x| x.1 == pred).expect("phi edge").0.clone();
                            self.fix(&mut o);
                            row.push((*d, o));
                        }
                        b.phi_rows.push(row);
                    }
                }
                for i in b.ins.iter_mut() {
                    self.fix_ins(i);
                }
            }
        }
        self.funcs = funcs;
    }

    fn fix_ins(&self, i: &mut Ins) {
        match i {
            Ins::Bin(_, _, _, a, b) | Ins::Icmp(_, _, _, a, b) | Ins::Fcmp(_, _, _, a, b) => {
                self.fix(a);
                self.fix(b)
            }
            Ins::FNeg(_, _, a) | Ins::Cast(_, _, _, _, a) | Ins::Load(_, _, a) | Ins::Freeze(_, a) => self.fix(a),
            Ins::Store(_, a, b) => {
                self.fix(a);
                self.fix(b)
            }
            Ins::Gep(_, b, _, v) => {
                self.fix(b);
                for x in v.iter_mut() {
                    self.fix(&mut x.0);
                }
            }
            Ins::Call(_, _, c, args, _) => {
                if let Callee::Name(n) = c {
                    *c = match self.fidx.get(n.as_str()) {
                        Some(i) => Callee::Func(*i),
                        None => Callee::Reg(Opnd::K(Val::C(self.symbol_addr(n)))),
                    };
                }
                if let Callee::Reg(o) = c {
                    self.fix(o);
                }
                for a in args.iter_mut() {
                    self.fix(&mut a.1);
                }
            }
            Ins::Select(_, _, a, b, c, _) => {
                self.fix(a);
                self.fix(b);
                self.fix(c)
            }
            Ins::Extract(_, a, _) => self.fix(a),
            Ins::Insert(_, _, a, b, _) => {
                self.fix(a);
                self.fix(b)
            }
            Ins::ExtractElem(_, a, b) => {
                self.fix(a);
                self.fix(b)
            }
            Ins::InsertElem(_, _, a, b, c) => {
                self.fix(a);
                self.fix(b);
                self.fix(c)
            }
            Ins::Shuffle(_, _, a, b, c) => {
                self.fix(a);
                self.fix(b);
                self.fix(c)
            }
            Ins::CondBr(a, _, _) => self.fix(a),
            Ins::Switch(_, a, _, cs) => {
                self.fix(a);
                for c in cs.iter_mut() {
                    self.fix(&mut c.0);
                }
            }
            Ins::Ret(Some(a)) => self.fix(a),
            Ins::AtomicRmw(_, _, _, a, b) => {
                self.fix(a);
                self.fix(b)
            }
            Ins::CmpXchg(_, _, a, b, c) => {
                self.fix(a);
                self.fix(b);
                self.fix(c)
            }
            _ => {}
        }
    }
}
