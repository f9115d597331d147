//! Parser of textual LLVM IR, as printed by rustc.

use crate::ir::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Id(&'a str),
    Local(String),
    Glob(String),
    Num(&'a str),
    Str(Vec<u8>),
    P(char),
    Dots,
    Meta,
    Attr,
    Label(String),
    Eof,
}

struct Lexer<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
}

impl<'a> Lexer<'a> {
    fn string(&mut self) -> Vec<u8> {
        // at the opening quote
        self.i += 1;
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn word(&mut self) -> &'a str {
        let b = self.i;
        while self.i < self.s.len() && idc(self.s[self.i]) {
            self.i += 1;
        }
        &self.src[b..self.i]
    }
    fn next(&mut self) -> Tok<'a> {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'/' if self.s[self.i..].starts_with(b"/*") => {
                    while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") {
                        self.i += 1;
                    }
                    self.i += 2;
                }
                _ => break,
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.s[self.i] == b'"' {
                    String::from_utf8_lossy(&self.string()).into_owned()
                } else {
                    self.word().to_string()
                };
                if c == b'%' {
                    Tok::Local(n)
                } else {
                    Tok::Glob(n)
                }
            }
            b'!' => {
                self.i += 1;
                if self.s[self.i] == b'"' {
                    self.string();
                } else {
                    self.word();
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                if self.s[self.i..].starts_with(b"dbg_") {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                    return self.next();
                }
                self.word();
                Tok::Attr
            }
            b'"' => {
                let s = self.string();
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    return Tok::Label(String::from_utf8_lossy(&s).into_owned());
                }
                Tok::Str(s)
            }
            b'+' => {
                self.i += 1;
                let b = self.i - 1;
                self.word();
                Tok::Num(&self.src[b..self.i])
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                Tok::Dots
            }
            _ if idc(c) => {
                let b = self.i;
                self.word();
                if (c.is_ascii_digit() || c == b'-') && self.i < self.s.len() && self.s[self.i] == b'+' {
                    // 1.0e+10
                    self.i += 1;
                    self.word();
                }
                let w = &self.src[b..self.i];
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    return Tok::Label(w.to_string());
                }
                if c.is_ascii_digit() || c == b'-' {
                    Tok::Num(w)
                } else if (w.starts_with("f0x") || w.starts_with("0x")) && w.len() > 3 {
                    Tok::Num(w)
                } else {
                    Tok::Id(w)
                }
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
}

pub struct Parser<'a> {
    lx: Lexer<'a>,
    t: Tok<'a>,
    types: HashMap<String, Ty>,
    pub m: Module,
}

struct FnCtx {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    names: Vec<String>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(i) = self.labels.get(n) {
            return *i;
        }
        let k = self.names.len() as u32;
        self.labels.insert(n.to_string(), k);
        self.names.push(n.to_string());
        k
    }
}

fn float_bits(s: &str, w: u32) -> u128 {
    let conv = |f: f64| -> u128 {
        if w == 32 {
            (f as f32).to_bits() as u128
        } else {
            f.to_bits() as u128
        }
    };
    if let Some(h) = s.strip_prefix("f0x") {
        return u128::from_str_radix(h, 16).unwrap();
    }
    if let Some(h) = s.strip_prefix("0x") {
        let f = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
        return conv(f);
    }
    match s {
        "+inf" => return conv(f64::INFINITY),
        "-inf" => return conv(f64::NEG_INFINITY),
        "+qnan" => return if w == 32 { 0x7fc00000 } else { 0x7ff8000000000000 },
        "-qnan" => return if w == 32 { 0xffc00000 } else { 0xfff8000000000000 },
        _ => {}
    }
    if w == 32 {
        let f: f64 = s.parse().unwrap_or_else(|_| panic!("float {s}"));
        (f as f32).to_bits() as u128
    } else {
        s.parse::<f64>().unwrap_or_else(|_| panic!("float {s}")).to_bits() as u128
    }
}

impl<'a> Parser<'a> {
    pub fn new(src: &'a str) -> Self {
        let mut p = Parser {
            lx: Lexer { s: src.as_bytes(), src, i: 0 },
            t: Tok::Eof,
            types: HashMap::new(),
            m: Module::default(),
        };
        p.adv();
        p
    }
    fn adv(&mut self) -> Tok<'a> {
        let n = self.lx.next();
        std::mem::replace(&mut self.t, n)
    }
    fn fail(&self, what: &str) -> ! {
        let line = self.lx.src[..self.lx.i.min(self.lx.src.len())].matches('\n').count() + 1;
        panic!("LLVM IR line {line}: expected {what}, found {:?}", self.t);
    }
    fn is(&self, c: char) -> bool {
        self.t == Tok::P(c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat(c) {
            self.fail(&format!("'{c}'"));
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(&self.t, Tok::Id(x) if *x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.adv() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => self.fail("')'"),
                _ => {}
            }
        }
    }
    fn type_start(&self) -> bool {
        match &self.t {
            Tok::Id(s) => {
                matches!(*s, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "token" | "x86_fp80" | "label")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Local(_) => true,
            Tok::Dots => true,
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            if self.type_start() && !matches!(self.t, Tok::Local(_)) {
                return;
            }
            match &self.t {
                Tok::Id(s) => {
                    let s = *s;
                    self.adv();
                    if self.is('(') {
                        self.skip_parens();
                    } else if s == "align" || s == "alignstack" {
                        if let Tok::Num(_) = self.t {
                            self.adv();
                        }
                    }
                }
                Tok::Attr => {
                    self.adv();
                }
                Tok::Str(_) => {
                    self.adv();
                    if self.eat_eq() {
                        self.adv();
                    }
                }
                _ => return,
            }
        }
    }
    fn eat_eq(&mut self) -> bool {
        self.eat('=')
    }
    fn ty(&mut self) -> Ty {
        let mut t = match self.adv() {
            Tok::Id(s) => match s {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "metadata" | "token" | "label" | "half" | "x86_fp80" => Ty::Other,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| self.fail("type"))),
                _ => self.fail("type"),
            },
            Tok::P('[') => {
                let n = self.int() as u64;
                self.eat_id("x");
                let t = self.ty();
                self.exp(']');
                Ty::Arr(Box::new(t), n)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat('}') {
                    v.push(self.ty());
                    self.eat(',');
                }
                Ty::Struct(v, false)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    while !self.eat('}') {
                        v.push(self.ty());
                        self.eat(',');
                    }
                    self.exp('>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.int() as u64;
                    self.eat_id("x");
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(Box::new(t), n)
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            Tok::Dots => Ty::Other,
            _ => self.fail("type"),
        };
        if self.eat_id("addrspace") {
            self.skip_parens();
        }
        if self.is('*') {
            self.adv();
            t = Ty::Ptr;
        }
        t
    }
    fn int(&mut self) -> i128 {
        match self.adv() {
            Tok::Num(s) => s.parse().unwrap_or_else(|_| self.fail("integer")),
            _ => self.fail("integer"),
        }
    }
    fn agg(&mut self, close: char) -> Const {
        let mut v = vec![];
        while !self.eat(close) {
            let t = self.ty();
            v.push(self.constant(&t));
            self.eat(',');
        }
        Const::Agg(v)
    }
    fn constant(&mut self, ty: &Ty) -> Const {
        match self.adv() {
            Tok::Num(s) => match ty {
                Ty::F32 => Const::Int(float_bits(s, 32)),
                Ty::F64 => Const::Int(float_bits(s, 64)),
                _ => {
                    let w = ty.bits();
                    if let Ok(v) = s.parse::<i128>() {
                        Const::Int(v as u128 & mask(w))
                    } else if let Ok(v) = s.parse::<u128>() {
                        Const::Int(v & mask(w))
                    } else {
                        self.fail("integer constant")
                    }
                }
            },
            Tok::Glob(n) => Const::Global(n),
            Tok::Id("c") => match self.adv() {
                Tok::Str(b) => Const::Bytes(b),
                _ => self.fail("string"),
            },
            Tok::Id(s) => match s {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "zeroinitializer" | "none" => Const::Zero,
                "undef" | "poison" => Const::Undef,
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.exp(')');
                    Const::Splat(Box::new(c))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    self.exp('(');
                    let t = self.ty();
                    let c = self.constant(&t);
                    self.eat_id("to");
                    let to = self.ty();
                    self.exp(')');
                    Const::Add(Box::new(c), 0, to.bits())
                }
                "sub" | "add" | "xor" => {
                    while !self.is('(') {
                        self.adv();
                    }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.constant(&t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.constant(&t2);
                    self.exp(')');
                    match s {
                        "sub" => Const::Sub(Box::new(a), Box::new(b), t.bits()),
                        "add" => {
                            let nb = Const::Sub(Box::new(Const::Int(0)), Box::new(b), t.bits());
                            Const::Sub(Box::new(a), Box::new(nb), t.bits())
                        }
                        _ => self.fail("supported constant expression"),
                    }
                }
                "getelementptr" => {
                    while !self.is('(') {
                        if let Tok::Id("inrange") = self.t {
                            self.adv();
                            self.skip_parens();
                            continue;
                        }
                        self.adv();
                    }
                    self.exp('(');
                    let t = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let base = self.constant(&pt);
                    let mut off: i128 = 0;
                    let mut cur = t;
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty();
                        let c = self.constant(&it);
                        let k = match c {
                            Const::Int(v) => sext128(v, it.bits()),
                            Const::Zero => 0,
                            _ => self.fail("constant index"),
                        };
                        if first {
                            off += k * cur.size() as i128;
                            first = false;
                        } else {
                            off += cur.field_offset(k as usize) as i128;
                            cur = elem(&cur, k as usize);
                        }
                    }
                    self.exp(')');
                    Const::Add(Box::new(base), off, 64)
                }
                _ => self.fail("constant"),
            },
            Tok::P('[') => self.agg(']'),
            Tok::P('{') => self.agg('}'),
            Tok::P('<') => {
                if self.eat('{') {
                    let c = self.agg('}');
                    self.exp('>');
                    c
                } else {
                    self.agg('>')
                }
            }
            _ => self.fail("constant"),
        }
    }
    fn val(&mut self, f: &mut FnCtx, ty: &Ty) -> Opnd {
        if let Tok::Local(n) = &self.t {
            let r = f.reg(n);
            self.adv();
            return Opnd::Reg(r);
        }
        let c = self.constant(ty);
        Opnd::Pending(Box::new((ty.clone(), c)))
    }
    fn tyval(&mut self, f: &mut FnCtx) -> (Ty, Opnd) {
        let t = self.ty();
        let v = self.val(f, &t);
        (t, v)
    }
    fn lab(&mut self, f: &mut FnCtx) -> u32 {
        if !self.eat_id("label") {
            self.fail("label");
        }
        match self.adv() {
            Tok::Local(n) => f.label(&n),
            _ => self.fail("label name"),
        }
    }
    fn skip_meta(&mut self) {
        // trailing ", !dbg !1, !noundef !2" and ", align 8"
        loop {
            if self.is(',') {
                self.adv();
                match &self.t {
                    Tok::Meta => {
                        self.adv();
                        if let Tok::Meta = self.t {
                            self.adv();
                        }
                        if self.is('{') {
                            let mut d = 0;
                            loop {
                                match self.adv() {
                                    Tok::P('{') => d += 1,
                                    Tok::P('}') => {
                                        d -= 1;
                                        if d == 0 {
                                            break;
                                        }
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                    Tok::Id("align") => {
                        self.adv();
                        self.adv();
                    }
                    _ => self.fail("metadata or align"),
                }
            } else {
                return;
            }
        }
    }

    pub fn run(mut self) -> Module {
        loop {
            match self.t.clone() {
                Tok::Eof => break,
                Tok::Id("source_filename") => {
                    self.adv();
                    self.adv();
                    self.adv();
                }
                Tok::Id("target") => {
                    self.adv();
                    self.adv();
                    self.adv();
                    self.adv();
                }
                Tok::Id("module") => {
                    self.adv();
                    self.adv();
                    self.adv();
                }
                Tok::Id("attributes") => {
                    // attributes #0 = { ... }
                    while !self.is('{') {
                        self.adv();
                    }
                    while !self.eat('}') {
                        self.adv();
                    }
                }
                Tok::Local(n) => {
                    self.adv();
                    self.exp('=');
                    self.eat_id("type");
                    let t = if self.eat_id("opaque") { Ty::Other } else { self.ty() };
                    self.types.insert(n, t);
                }
                Tok::Glob(n) => self.global(n),
                Tok::Id("declare") => self.function(false),
                Tok::Id("define") => self.function(true),
                Tok::Meta => {
                    // metadata follows until the end of the file
                    break;
                }
                Tok::P('$') => {
                    self.adv();
                }
                _ => self.fail("top-level entity"),
            }
        }
        self.m
    }

    fn global(&mut self, n: String) {
        self.adv();
        self.exp('=');
        let mut weak = false;
        let mut alias = false;
        let mut external = false;
        let constant;
        loop {
            match self.adv() {
                Tok::Id("constant") => {
                    constant = true;
                    break;
                }
                Tok::Id("global") => {
                    constant = false;
                    break;
                }
                Tok::Id("alias") => {
                    alias = true;
                    constant = false;
                    break;
                }
                Tok::Id("extern_weak") => {
                    weak = true;
                    external = true;
                }
                Tok::Id("external") => external = true,
                Tok::Id(_) => {
                    if self.is('(') {
                        self.skip_parens();
                    }
                }
                _ => self.fail("global"),
            }
        }
        let ty = self.ty();
        if alias {
            self.exp(',');
            let t = self.ty();
            let c = self.constant(&t);
            self.m.aliases.insert(n, c);
            return;
        }
        let init = if external { None } else { Some(self.constant(&ty)) };
        let mut align = ty.align();
        while self.eat(',') {
            match self.adv() {
                Tok::Id("align") => align = self.int() as u64,
                Tok::Id("section") | Tok::Id("partition") | Tok::Id("code_model") => {
                    self.adv();
                }
                Tok::Id("comdat") => {
                    if self.is('(') {
                        self.skip_parens();
                    }
                }
                Tok::Meta => {
                    if let Tok::Meta = self.t {
                        self.adv();
                    }
                }
                Tok::Id(_) => {}
                _ => self.fail("global attribute"),
            }
        }
        while let Tok::Attr = self.t {
            self.adv();
        }
        self.m.gidx.insert(n.clone(), self.m.globals.len());
        self.m.globals.push(Global { name: n, ty, init, constant, weak, align, addr: 0 });
    }

    fn function(&mut self, def: bool) {
        self.adv();
        let mut weak = false;
        // linkage, calling convention, return attributes
        loop {
            if self.is_id("extern_weak") {
                weak = true;
                self.adv();
                continue;
            }
            if let Tok::Meta = self.t {
                self.adv();
                continue;
            }
            if self.type_start() {
                break;
            }
            let before = self.lx.i;
            if let Tok::Id(s) = &self.t {
                let s = *s;
                self.adv();
                if self.is('(') {
                    self.skip_parens();
                } else if s == "align" {
                    self.adv();
                }
            } else {
                self.adv();
            }
            if self.lx.i == before {
                self.fail("return type");
            }
        }
        let _ret = self.ty();
        let name = match self.adv() {
            Tok::Glob(n) => n,
            _ => self.fail("function name"),
        };
        let mut f = FnCtx { regs: HashMap::new(), labels: HashMap::new(), names: vec![] };
        let mut params = vec![];
        let mut anon = 0usize;
        self.exp('(');
        while !self.eat(')') {
            if let Tok::Dots = self.t {
                self.adv();
                continue;
            }
            let t = self.ty();
            let mut byval = false;
            loop {
                match &self.t {
                    Tok::Local(n) => {
                        let n = n.clone();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            anon += 1;
                        }
                        params.push(f.reg(&n));
                        self.adv();
                    }
                    Tok::P(',') => {
                        self.adv();
                        break;
                    }
                    Tok::P(')') => break,
                    Tok::P('(') => self.skip_parens(),
                    Tok::Id("byval") => {
                        byval = true;
                        self.adv();
                    }
                    Tok::Eof => self.fail("parameter"),
                    _ => {
                        self.adv();
                    }
                }
            }
            if byval && def {
                eprintln!("warning: byval parameter in {name}");
            }
            let _ = t;
        }
        let idx = self.m.funcs.len() as u32;
        self.m.fidx.insert(name.clone(), idx);
        if !def {
            // attributes until the next top-level entity
            loop {
                match &self.t {
                    Tok::Attr | Tok::Meta => {
                        self.adv();
                    }
                    Tok::Id(s) if !matches!(*s, "declare" | "define" | "attributes") => {
                        self.adv();
                        if self.is('(') {
                            self.skip_parens();
                        }
                    }
                    _ => break,
                }
            }
            self.m.funcs.push(Func { name, params, nregs: 0, blocks: vec![], defined: false, weak });
            return;
        }
        while !self.is('{') {
            self.adv();
        }
        self.adv();
        let mut blocks: Vec<Block> = vec![];
        let first = match &self.t {
            Tok::Label(l) => l.clone(),
            _ => anon.to_string(),
        };
        let e = f.label(&first);
        debug_assert!(e == 0);
        let mut cur: usize = 0;
        blocks.push(Block { name: first, ..Default::default() });
        if let Tok::Label(_) = self.t {
            self.adv();
        }
        loop {
            if self.eat('}') {
                break;
            }
            if let Tok::Label(l) = &self.t {
                let l = l.clone();
                self.adv();
                cur = f.label(&l) as usize;
                while blocks.len() <= cur {
                    blocks.push(Block::default());
                }
                blocks[cur].name = l;
                continue;
            }
            let dst = if let Tok::Local(n) = &self.t {
                let n = n.clone();
                self.adv();
                self.exp('=');
                Some(f.reg(&n))
            } else {
                None
            };
            let mut extra = None;
            let ins = self.instruction(&mut f, dst, &mut extra);
            while blocks.len() <= cur {
                blocks.push(Block::default());
            }
            if let Some(phi) = extra {
                blocks[cur].raw_phis.push(phi);
            } else if !matches!(ins, Ins::Nop) {
                blocks[cur].ins.push(ins);
            }
        }
        while blocks.len() < f.names.len() {
            blocks.push(Block::default());
        }
        for b in blocks.iter_mut() {
            if b.ins.is_empty() {
                b.ins.push(Ins::Unreachable);
            }
        }
        self.m.funcs.push(Func { name, params, nregs: f.regs.len() as u32, blocks, defined: true, weak: false });
    }

    fn flags(&mut self) {
        while let Tok::Id(s) = &self.t {
            if matches!(
                *s,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz"
                    | "arcp" | "contract" | "afn" | "reassoc" | "samesign"
            ) {
                self.adv();
            } else {
                return;
            }
        }
    }

    fn instruction(
        &mut self,
        f: &mut FnCtx,
        dst: Option<u32>,
        extra: &mut Option<(u32, Ty, Vec<(Opnd, u32)>)>,
    ) -> Ins {
        let op = match self.adv() {
            Tok::Id(s) => s,
            t => {
                self.t = t;
                self.fail("instruction")
            }
        };
        let d = dst.unwrap_or(u32::MAX);
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags();
            let t = self.ty();
            let x = self.val(f, &t);
            self.exp(',');
            let y = self.val(f, &t);
            self.skip_meta();
            return Ins::Bin(b, t, d, x, y);
        }
        let cast = match op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" | "addrspacecast" => Some(CastOp::Bitcast),
            "sitofp" => Some(CastOp::SiToFp),
            "uitofp" => Some(CastOp::UiToFp),
            "fptosi" => Some(CastOp::FpToSi),
            "fptoui" => Some(CastOp::FpToUi),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            _ => None,
        };
        if let Some(c) = cast {
            self.flags();
            let (t, x) = self.tyval(f);
            if !self.eat_id("to") {
                self.fail("to");
            }
            let to = self.ty();
            self.skip_meta();
            return Ins::Cast(c, t, to, d, x);
        }
        match op {
            "fneg" => {
                self.flags();
                let (t, x) = self.tyval(f);
                self.skip_meta();
                Ins::FNeg(t, d, x)
            }
            "icmp" => {
                self.flags();
                let p = match self.adv() {
                    Tok::Id(s) => match s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => self.fail("icmp predicate"),
                    },
                    _ => self.fail("icmp predicate"),
                };
                let t = self.ty();
                let x = self.val(f, &t);
                self.exp(',');
                let y = self.val(f, &t);
                self.skip_meta();
                Ins::Icmp(p, t, d, x, y)
            }
            "fcmp" => {
                self.flags();
                // bits: 1 equal, 2 greater, 4 less, 8 unordered
                let p = match self.adv() {
                    Tok::Id(s) => match s {
                        "false" => 0,
                        "oeq" => 1,
                        "ogt" => 2,
                        "oge" => 3,
                        "olt" => 4,
                        "ole" => 5,
                        "one" => 6,
                        "ord" => 7,
                        "uno" => 8,
                        "ueq" => 9,
                        "ugt" => 10,
                        "uge" => 11,
                        "ult" => 12,
                        "ule" => 13,
                        "une" => 14,
                        "true" => 15,
                        _ => self.fail("fcmp predicate"),
                    },
                    _ => self.fail("fcmp predicate"),
                };
                let t = self.ty();
                let x = self.val(f, &t);
                self.exp(',');
                let y = self.val(f, &t);
                self.skip_meta();
                Ins::Fcmp(p, t, d, x, y)
            }
            "load" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let t = self.ty();
                self.exp(',');
                let (_, p) = self.tyval(f);
                self.ordering();
                self.skip_meta();
                Ins::Load(t, d, p)
            }
            "store" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let (t, v) = self.tyval(f);
                self.exp(',');
                let (_, p) = self.tyval(f);
                self.ordering();
                self.skip_meta();
                Ins::Store(t, v, p)
            }
            "fence" => {
                self.ordering();
                self.skip_meta();
                Ins::Nop
            }
            "atomicrmw" => {
                self.eat_id("volatile");
                let o = match self.adv() {
                    Tok::Id(s) => s.to_string(),
                    _ => self.fail("atomicrmw op"),
                };
                let (_, p) = self.tyval(f);
                self.exp(',');
                let (t, v) = self.tyval(f);
                self.ordering();
                self.skip_meta();
                Ins::AtomicRmw(o, t, d, p, v)
            }
            "cmpxchg" => {
                self.eat_id("weak");
                self.eat_id("volatile");
                let (_, p) = self.tyval(f);
                self.exp(',');
                let (t, c) = self.tyval(f);
                self.exp(',');
                let (_, n) = self.tyval(f);
                self.ordering();
                self.skip_meta();
                Ins::CmpXchg(t, d, p, c, n)
            }
            "getelementptr" => {
                self.flags();
                if self.is_id("inrange") {
                    self.adv();
                    self.skip_parens();
                }
                let t = self.ty();
                self.exp(',');
                let (_, base) = self.tyval(f);
                let mut cst: i64 = 0;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while self.is(',') {
                    self.adv();
                    if let Tok::Meta = self.t {
                        self.adv();
                        if let Tok::Meta = self.t {
                            self.adv();
                        }
                        continue;
                    }
                    let (it, v) = self.tyval(f);
                    let scale = if first { cur.size() as i64 } else { 0 };
                    if first {
                        first = false;
                        match &v {
                            Opnd::Pending(b) if matches!(b.1, Const::Int(_) | Const::Zero) => {
                                let k = match b.1 {
                                    Const::Int(v) => sext128(v, it.bits()),
                                    _ => 0,
                                };
                                cst += (k as i64).wrapping_mul(scale);
                            }
                            _ => terms.push((v, it.bits(), scale)),
                        }
                    } else {
                        match &v {
                            Opnd::Pending(b) if matches!(b.1, Const::Int(_) | Const::Zero) => {
                                let k = match b.1 {
                                    Const::Int(v) => v as usize,
                                    _ => 0,
                                };
                                cst += cur.field_offset(k) as i64;
                                cur = elem(&cur, k);
                            }
                            _ => {
                                let e = elem(&cur, 0);
                                terms.push((v, it.bits(), e.size() as i64));
                                cur = e;
                            }
                        }
                    }
                }
                Ins::Gep(d, base, cst, terms)
            }
            "alloca" => {
                let t = self.ty();
                let mut n = 1u64;
                let mut al = t.align();
                while self.eat(',') {
                    if self.eat_id("align") {
                        al = self.int() as u64;
                    } else if let Tok::Meta = self.t {
                        self.adv();
                        self.adv();
                    } else {
                        let (_, v) = self.tyval(f);
                        match v {
                            Opnd::Pending(b) => match b.1 {
                                Const::Int(k) => n = k as u64,
                                _ => self.fail("alloca count"),
                            },
                            _ => self.fail("constant alloca count"),
                        }
                    }
                }
                Ins::Alloca(d, t.size() * n, al)
            }
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.exp('[');
                    let v = self.val(f, &t);
                    self.exp(',');
                    let l = match self.adv() {
                        Tok::Local(n) => f.label(&n),
                        _ => self.fail("phi label"),
                    };
                    self.exp(']');
                    inc.push((v, l));
                    if self.is(',') {
                        self.adv();
                        if let Tok::Meta = self.t {
                            self.adv();
                            if let Tok::Meta = self.t {
                                self.adv();
                            }
                            self.skip_meta();
                            break;
                        }
                    } else {
                        break;
                    }
                }
                *extra = Some((d, t, inc));
                Ins::Nop
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyval(f);
                self.exp(',');
                let (t, a) = self.tyval(f);
                self.exp(',');
                let (_, b) = self.tyval(f);
                self.skip_meta();
                Ins::Select(t, d, c, a, b, ct)
            }
            "freeze" => {
                let (_, v) = self.tyval(f);
                self.skip_meta();
                Ins::Freeze(d, v)
            }
            "extractvalue" => {
                let (_, v) = self.tyval(f);
                let mut ix = vec![];
                while self.is(',') {
                    self.adv();
                    if let Tok::Meta = self.t {
                        self.adv();
                        self.adv();
                        continue;
                    }
                    ix.push(self.int() as u32);
                }
                Ins::Extract(d, v, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyval(f);
                self.exp(',');
                let (_, v) = self.tyval(f);
                let mut ix = vec![];
                while self.is(',') {
                    self.adv();
                    if let Tok::Meta = self.t {
                        self.adv();
                        self.adv();
                        continue;
                    }
                    ix.push(self.int() as u32);
                }
                Ins::Insert(d, t, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyval(f);
                self.exp(',');
                let (_, i) = self.tyval(f);
                self.skip_meta();
                Ins::ExtractElem(d, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyval(f);
                self.exp(',');
                let (_, v) = self.tyval(f);
                self.exp(',');
                let (_, i) = self.tyval(f);
                self.skip_meta();
                Ins::InsertElem(d, t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval(f);
                self.exp(',');
                let (_, b) = self.tyval(f);
                self.exp(',');
                let (_, m) = self.tyval(f);
                self.skip_meta();
                let n = if let Ty::Vec(_, n) = t { n } else { 0 };
                Ins::Shuffle(d, n, a, b, m)
            }
            "br" => {
                if self.is_id("label") {
                    let l = self.lab(f);
                    self.skip_meta();
                    Ins::Br(l)
                } else {
                    let (_, c) = self.tyval(f);
                    self.exp(',');
                    let a = self.lab(f);
                    self.exp(',');
                    let b = self.lab(f);
                    self.skip_meta();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval(f);
                self.exp(',');
                let dl = self.lab(f);
                self.exp('[');
                let mut cases = vec![];
                while !self.eat(']') {
                    let (_, c) = self.tyval(f);
                    self.exp(',');
                    let l = self.lab(f);
                    cases.push((c, l));
                }
                self.skip_meta();
                Ins::Switch(t, v, dl, cases)
            }
            "ret" => {
                let t = self.ty();
                let r = if t == Ty::Void { None } else { Some(self.val(f, &t)) };
                self.skip_meta();
                Ins::Ret(r)
            }
            "unreachable" => {
                self.skip_meta();
                Ins::Unreachable
            }
            "landingpad" => {
                let _ = self.ty();
                loop {
                    if self.eat_id("cleanup") {
                        continue;
                    }
                    if self.is_id("catch") || self.is_id("filter") {
                        self.adv();
                        let t = self.ty();
                        let _ = self.constant(&t);
                        continue;
                    }
                    break;
                }
                self.skip_meta();
                Ins::Unreachable
            }
            "resume" => {
                let _ = self.tyval(f);
                self.skip_meta();
                Ins::Unreachable
            }
            "tail" | "musttail" | "notail" => self.instruction(f, dst, extra),
            "call" | "invoke" => {
                self.flags();
                self.skip_attrs();
                let rt = self.ty();
                if self.is('(') {
                    // explicit function type
                    self.skip_parens();
                }
                if self.is_id("asm") {
                    // inline assembly: only ever an optimisation barrier here
                    while !self.is('(') {
                        self.adv();
                    }
                    self.skip_parens();
                    self.skip_attrs();
                    self.skip_meta();
                    return Ins::Call(dst, rt, Callee::Name("llvm.sxe.asm".into()), vec![], None);
                }
                let callee = match self.t.clone() {
                    Tok::Glob(n) => {
                        self.adv();
                        Callee::Name(n)
                    }
                    Tok::Local(n) => {
                        self.adv();
                        Callee::Reg(Opnd::Reg(f.reg(&n)))
                    }
                    _ => {
                        let c = self.constant(&Ty::Ptr);
                        Callee::Reg(Opnd::Pending(Box::new((Ty::Ptr, c))))
                    }
                };
                self.exp('(');
                let mut args = vec![];
                while !self.eat(')') {
                    if self.eat(',') {
                        continue;
                    }
                    let t = self.ty();
                    if t == Ty::Other {
                        // metadata argument
                        loop {
                            match &self.t {
                                Tok::P(',') | Tok::P(')') => break,
                                Tok::P('(') => self.skip_parens(),
                                _ => {
                                    self.adv();
                                }
                            }
                        }
                        continue;
                    }
                    // parameter attributes
                    loop {
                        match &self.t {
                            Tok::Id(s)
                                if !matches!(
                                    *s,
                                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                                        | "ptrtoint" | "inttoptr" | "splat" | "c" | "trunc" | "sub" | "add" | "bitcast"
                                        | "ptrtoaddr"
                                ) =>
                            {
                                let s = *s;
                                self.adv();
                                if self.is('(') {
                                    self.skip_parens();
                                } else if s == "align" {
                                    self.adv();
                                }
                            }
                            _ => break,
                        }
                    }
                    let v = self.val(f, &t);
                    args.push((t, v));
                }
                // function attributes and operand bundles
                loop {
                    match &self.t {
                        Tok::Attr => {
                            self.adv();
                        }
                        Tok::P('[') => {
                            while !self.eat(']') {
                                self.adv();
                            }
                        }
                        Tok::Id(s) if op == "call" || *s != "to" => {
                            // stop at the next instruction
                            if matches!(
                                *s,
                                "nounwind" | "noreturn" | "cold" | "memory" | "noinline" | "readnone" | "willreturn"
                            ) {
                                self.adv();
                                if self.is('(') {
                                    self.skip_parens();
                                }
                            } else {
                                break;
                            }
                        }
                        _ => break,
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    if !self.eat_id("to") {
                        self.fail("to");
                    }
                    normal = Some(self.lab(f));
                    if !self.eat_id("unwind") {
                        self.fail("unwind");
                    }
                    let _ = self.lab(f);
                }
                self.skip_meta();
                Ins::Call(dst, rt, callee, args, normal)
            }
            _ => {
                let line = self.lx.src[..self.lx.i].matches('\n').count() + 1;
                panic!("LLVM IR line {line}: unsupported instruction '{op}'")
            }
        }
    }

    fn ordering(&mut self) {
        loop {
            match &self.t {
                Tok::Id("monotonic") | Tok::Id("acquire") | Tok::Id("release") | Tok::Id("acq_rel")
                | Tok::Id("seq_cst") | Tok::Id("unordered") => {
                    self.adv();
                }
                Tok::Id("syncscope") => {
                    self.adv();
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    ((v << (128 - w)) as i128) >> (128 - w)
}

fn elem(t: &Ty, k: usize) -> Ty {
    match t {
        Ty::Arr(t, _) | Ty::Vec(t, _) => (**t).clone(),
        Ty::Struct(ts, _) => ts[k].clone(),
        _ => Ty::Other,
    }
}
