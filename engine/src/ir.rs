//! Parser for the textual LLVM IR that rustc emits.  Functions are parsed lazily.

use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Struct(bool, Vec<Ty>),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Opaque,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 1,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, f) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.store_size().next_power_of_two(),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (n * w as u64).div_ceil(8),
                _ => n * t.size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Opaque => 0,
            Ty::Int(_) | Ty::Vector(..) => {
                let s = self.store_size();
                let a = self.align();
                s.div_ceil(a) * a
            }
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(p, f) => {
                let mut o = 0u64;
                for t in f {
                    if !p {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    o += t.size();
                }
                let a = self.align();
                o.div_ceil(a) * a
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(p, f) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !p {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index out of range")
            }
            Ty::Array(_, t) => i as u64 * t.size(),
            Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field_offset of scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(_, f) => &f[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn width(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("width of {self:?}"),
        }
    }
}

/// a constant value
#[derive(Clone, Debug)]
pub enum Cv {
    Int(u16, u128),
    Agg(Vec<Cv>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    Const(Cv),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    Same,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Ptr(Op),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, Ty, Op, Op),
    ICmp(Pred, Ty, Op, Op),
    Cast(Cast, Ty, Op, Ty),
    Gep(Op, u64, Vec<(u64, Op)>),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Alloca(u64, u64),
    Select(Op, Op, Op),
    Freeze(Op),
    ExtractValue(Op, Vec<usize>),
    InsertValue(Op, Op, Vec<usize>),
    ExtractElement(Op, Op),
    InsertElement(Op, Op, Op),
    Shuffle(Op, Op, Vec<i64>),
    Call(Callee, Vec<Op>, Ty),
    AtomicRmw(String, Ty, Op, Op),
    CmpXchg(Ty, Op, Op, Op),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<(Option<u32>, Ins)>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub text: String, // "type initializer..." (empty if external)
}

pub struct Module {
    pub types: HashMap<String, String>,
    pub globals: Vec<GlobalDef>,
    pub addr_of: HashMap<String, u64>,
    pub func_at: HashMap<u64, String>,
    func_text: HashMap<String, (usize, usize)>, // byte range in text
    text: String,
    cache: Mutex<HashMap<String, Arc<Func>>>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Meta(String),
    Str(Vec<u8>),
    P(char),
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let is_id = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    let n = s[st..i].to_string();
                    i += 1;
                    n
                } else {
                    let st = i;
                    while i < b.len() && is_id(b[i]) {
                        i += 1;
                    }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let st = i;
                i += 1;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Word(s[st..i].to_string()));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 2;
                let mut v = vec![];
                while b[i] != b'"' {
                    if b[i] == b'\\' && b[i + 1] == b'\\' {
                        v.push(b'\\');
                        i += 2;
                    } else if b[i] == b'\\' {
                        let h = &s[i + 1..i + 3];
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        i += 3;
                    } else {
                        v.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                out.push(Tok::Str(v));
            }
            _ if is_id(c) || c == b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && is_id(b[i]) {
                    i += 1;
                }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Ps<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a Module,
    regs: Option<&'a mut HashMap<String, u32>>,
}

type R<T> = Result<T, String>;

impl Ps<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?}, got {:?}", self.peek()))
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if let Some(Tok::Word(x)) = self.peek() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn skip_parens(&mut self) -> R<()> {
        self.expect('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn is_ty_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                w == "ptr"
                    || w == "void"
                    || w == "opaque"
                    || w == "float"
                    || w == "double"
                    || w == "half"
                    || w == "fp128"
                    || w == "metadata"
                    || (w.len() > 1
                        && w.starts_with('i')
                        && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P(c)) => matches!(c, '{' | '<' | '['),
            Some(Tok::Local(_)) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Word(w) => match w.as_str() {
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "opaque" | "metadata" | "float" | "double" | "half" | "fp128" => Ty::Opaque,
                _ if w.starts_with('i') => {
                    Ty::Int(w[1..].parse().map_err(|_| format!("bad type {w}"))?)
                }
                _ => return Err(format!("bad type {w}")),
            },
            Tok::Local(n) => {
                let txt = self.m.types.get(&n).ok_or(format!("unknown type %{n}"))?;
                let mut p = Ps { t: lex(txt), i: 0, m: self.m, regs: None };
                p.ty()?
            }
            Tok::P('{') => {
                let f = self.ty_list('}')?;
                Ty::Struct(false, f)
            }
            Tok::P('[') => {
                let n = self.num()? as u64;
                if !self.eat_w("x") {
                    return Err("array type".into());
                }
                let e = self.ty()?;
                self.expect(']')?;
                Ty::Array(n, Box::new(e))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let f = self.ty_list('}')?;
                    self.expect('>')?;
                    Ty::Struct(true, f)
                } else {
                    let n = self.num()? as u64;
                    if !self.eat_w("x") {
                        return Err("vector type".into());
                    }
                    let e = self.ty()?;
                    self.expect('>')?;
                    Ty::Vector(n, Box::new(e))
                }
            }
            t => return Err(format!("bad type token {t:?}")),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat_p(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(f);
            }
            self.expect(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Word(w) => w.parse().map_err(|_| format!("bad number {w}")),
            t => Err(format!("bad number {t:?}")),
        }
    }
    fn skip_attrs(&mut self) -> R<()> {
        // parameter / return attributes
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    let w = w.clone();
                    if is_value_word(&w) {
                        return Ok(());
                    }
                    if self.is_ty_start() {
                        return Ok(());
                    }
                    self.i += 1;
                    if w == "align" && !self.is_p('(') {
                        self.i += 1;
                    } else if self.is_p('(') {
                        self.skip_parens()?;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let m = self.regs.as_mut().expect("register outside function");
        let k = m.len() as u32;
        *m.entry(n.to_string()).or_insert(k)
    }
    fn zero(&self, ty: &Ty) -> Cv {
        match ty {
            Ty::Int(w) => Cv::Int(*w, 0),
            Ty::Ptr => Cv::Int(64, 0),
            Ty::Struct(_, f) => Cv::Agg(f.iter().map(|t| self.zero(t)).collect()),
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                Cv::Agg((0..*n).map(|_| self.zero(t)).collect())
            }
            Ty::Void | Ty::Opaque => Cv::Agg(vec![]),
        }
    }
    fn konst(&mut self, ty: &Ty) -> R<Cv> {
        match self.val(ty)? {
            Op::Const(c) => Ok(c),
            Op::Reg(_) => Err("register in constant".into()),
        }
    }
    fn typed(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn typed_const(&mut self) -> R<(Ty, Cv)> {
        let t = self.ty()?;
        let v = self.konst(&t)?;
        Ok((t, v))
    }
    fn val(&mut self, ty: &Ty) -> R<Op> {
        let k = |c| Ok(Op::Const(c));
        match self.next()? {
            Tok::Local(n) => Ok(Op::Reg(self.reg(&n))),
            Tok::Global(n) => {
                let a = *self.m.addr_of.get(&n).ok_or(format!("unknown global @{n}"))?;
                k(Cv::Int(64, a as u128))
            }
            Tok::Str(v) => k(Cv::Agg(v.into_iter().map(|b| Cv::Int(8, b as u128)).collect())),
            Tok::Word(w) => match w.as_str() {
                "true" => k(Cv::Int(1, 1)),
                "false" => k(Cv::Int(1, 0)),
                "null" => k(Cv::Int(64, 0)),
                "undef" | "poison" | "zeroinitializer" => {
                    let z = self.zero(ty);
                    k(z)
                }
                "splat" => {
                    self.expect('(')?;
                    let (_, v) = self.typed_const()?;
                    self.expect(')')?;
                    match ty {
                        Ty::Vector(n, _) => k(Cv::Agg(vec![v; *n as usize])),
                        _ => k(v),
                    }
                }
                "getelementptr" => {
                    while let Some(Tok::Word(_)) = self.peek() {
                        self.i += 1;
                        if self.is_p('(') {
                            // inrange(...) or the operand list
                            if let Some(Tok::Word(w)) = self.t.get(self.i - 1) {
                                if w == "inrange" {
                                    self.skip_parens()?;
                                }
                            }
                        }
                    }
                    self.expect('(')?;
                    let t = self.ty()?;
                    self.expect(',')?;
                    let (_, base) = self.typed_const()?;
                    let Cv::Int(_, b) = base else { return Err("gep base".into()) };
                    let mut addr = b as u64;
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let (it, v) = self.typed_const()?;
                        let Cv::Int(_, v) = v else { return Err("gep index".into()) };
                        idx.push(crate::term::sext_val(v, it.width()) as i64);
                    }
                    self.expect(')')?;
                    let mut cur = t;
                    for (n, i) in idx.into_iter().enumerate() {
                        if n == 0 {
                            addr = addr.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64);
                        } else {
                            addr = addr.wrapping_add(cur.field_offset(i as usize));
                            cur = cur.elem(i as usize).clone();
                        }
                    }
                    k(Cv::Int(64, addr as u128))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "zext" | "bitcast" | "addrspacecast"
                | "ptrtoaddr" => {
                    self.expect('(')?;
                    let (_, v) = self.typed_const()?;
                    if !self.eat_w("to") {
                        return Err("cast".into());
                    }
                    let t = self.ty()?;
                    self.expect(')')?;
                    let Cv::Int(_, v) = v else { return Err("cast of aggregate".into()) };
                    let w = t.width();
                    k(Cv::Int(w, v & crate::term::mask(w)))
                }
                "add" | "sub" | "mul" | "xor" => {
                    while let Some(Tok::Word(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let (t, a) = self.typed_const()?;
                    self.expect(',')?;
                    let (_, b) = self.typed_const()?;
                    self.expect(')')?;
                    let (Cv::Int(_, a), Cv::Int(_, b)) = (a, b) else {
                        return Err("constexpr".into());
                    };
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    let w = t.width();
                    k(Cv::Int(w, r & crate::term::mask(w)))
                }
                _ => match ty {
                    Ty::Int(wd) => {
                        let v: i128 = match w.parse::<i128>() {
                            Ok(v) => v,
                            Err(_) => w
                                .parse::<u128>()
                                .map_err(|_| format!("bad constant {w}"))?
                                as i128,
                        };
                        k(Cv::Int(*wd, v as u128 & crate::term::mask(*wd)))
                    }
                    Ty::Opaque => k(Cv::Agg(vec![])),
                    _ => Err(format!("bad constant {w} of {ty:?}")),
                },
            },
            Tok::Meta(_) => {
                // metadata operand
                if self.is_p('{') {
                    while !self.eat_p('}') {
                        self.i += 1;
                    }
                }
                k(Cv::Agg(vec![]))
            }
            Tok::P('{') => {
                let v = self.const_list('}')?;
                k(Cv::Agg(v))
            }
            Tok::P('[') => {
                let v = self.const_list(']')?;
                k(Cv::Agg(v))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.const_list('}')?;
                    self.expect('>')?;
                    k(Cv::Agg(v))
                } else {
                    let v = self.const_list('>')?;
                    k(Cv::Agg(v))
                }
            }
            t => Err(format!("bad value token {t:?}")),
        }
    }
    fn const_list(&mut self, end: char) -> R<Vec<Cv>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            v.push(self.typed_const()?.1);
            if self.eat_p(end) {
                return Ok(v);
            }
            self.expect(',')?;
        }
    }
    fn label(&mut self, labels: &HashMap<String, u32>) -> R<u32> {
        if !self.eat_w("label") {
            return Err(format!("expected label, got {:?}", self.peek()));
        }
        match self.next()? {
            Tok::Local(n) => labels.get(&n).copied().ok_or(format!("unknown label {n}")),
            t => Err(format!("bad label {t:?}")),
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "splat"
            | "getelementptr"
            | "ptrtoint"
            | "ptrtoaddr"
            | "inttoptr"
            | "trunc"
            | "add"
            | "sub"
            | "mul"
            | "xor"
            | "bitcast"
    ) || w.as_bytes()[0].is_ascii_digit()
        || (w.as_bytes()[0] == b'-' && w.len() > 1)
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            types: HashMap::new(),
            globals: vec![],
            addr_of: HashMap::new(),
            func_at: HashMap::new(),
            func_text: HashMap::new(),
            text: String::new(),
            cache: Mutex::new(HashMap::new()),
        };
        let mut pos = 0;
        let mut in_fn: Option<(String, usize)> = None;
        let mut faddr: u64 = 0x10_0000;
        let mut raw_globals: Vec<(String, bool, String)> = vec![];
        for line in text.split_inclusive('\n') {
            let start = pos;
            pos += line.len();
            let c = line.as_bytes().first().copied().unwrap_or(b'\n');
            if let Some((name, st)) = &in_fn {
                if c == b'}' {
                    m.func_text.insert(name.clone(), (*st, pos));
                    in_fn = None;
                }
                continue;
            }
            match c {
                b'd' if line.starts_with("define") || line.starts_with("declare") => {
                    let at = line.find('@').ok_or("define without name")?;
                    let rest = &line[at + 1..];
                    let name = if let Some(r) = rest.strip_prefix('"') {
                        r[..r.find('"').unwrap()].to_string()
                    } else {
                        rest[..rest.find('(').ok_or("define")?].to_string()
                    };
                    if !m.addr_of.contains_key(&name) {
                        m.addr_of.insert(name.clone(), faddr);
                        m.func_at.insert(faddr, name.clone());
                        faddr += 16;
                    }
                    if line.starts_with("define") {
                        in_fn = Some((name, start));
                    }
                }
                b'@' => {
                    let eq = line.find(" = ").ok_or("global")?;
                    let name = line[1..eq].trim_matches('"').to_string();
                    let rest = &line[eq + 3..];
                    // find "global" / "constant" / "alias"
                    let mut kind = None;
                    for (k, key) in [(0, " global "), (1, " constant "), (2, " alias ")] {
                        let hay = format!(" {rest}");
                        if let Some(p) = hay.find(key) {
                            if kind.is_none_or(|(_, q)| p < q) {
                                kind = Some((k, p));
                                let body = hay[p + key.len()..].trim_end().to_string();
                                raw_globals.retain(|g| g.0 != name);
                                raw_globals.push((name.clone(), k == 1, body));
                            }
                        }
                    }
                    let _ = kind;
                }
                b'%' => {
                    if let Some(p) = line.find(" = type ") {
                        let name = line[1..p].trim_matches('"').to_string();
                        m.types.insert(name, line[p + 8..].trim_end().to_string());
                    }
                }
                _ => {}
            }
        }
        // lay the globals out
        let mut addr: u64 = 0x1000_0000;
        let mut defs = vec![];
        for (name, constant, body) in raw_globals {
            let (size, align) = {
                let mut p = Ps { t: lex(&body), i: 0, m: &m, regs: None };
                match p.ty() {
                    Ok(t) => (t.size(), t.align().max(16)),
                    Err(_) => (8, 16),
                }
            };
            addr = addr.div_ceil(align) * align;
            m.addr_of.insert(name.clone(), addr);
            defs.push(GlobalDef { name, addr, size, constant, text: body });
            addr += size.max(1) + 32;
        }
        m.globals = defs;
        m.text = text;
        Ok(m)
    }

    pub fn has_func(&self, name: &str) -> bool {
        self.func_text.contains_key(name)
    }
    pub fn func_names(&self) -> impl Iterator<Item = &String> {
        self.func_text.keys()
    }

    /// the initial bytes of a global
    pub fn global_init(&self, g: &GlobalDef) -> R<Vec<u8>> {
        let mut p = Ps { t: lex(&g.text), i: 0, m: self, regs: None };
        let ty = p.ty()?;
        let mut out = vec![0u8; ty.size() as usize];
        match p.peek() {
            None | Some(Tok::P(',')) => return Ok(out), // external
            _ => {}
        }
        let v = p.konst(&ty)?;
        fill(&ty, &v, &mut out, 0);
        Ok(out)
    }

    pub fn func(&self, name: &str) -> R<Arc<Func>> {
        if let Some(f) = self.cache.lock().unwrap().get(name) {
            return Ok(f.clone());
        }
        let (a, b) = *self.func_text.get(name).ok_or(format!("no body for @{name}"))?;
        let f = Arc::new(self.parse_func(name, &self.text[a..b]).map_err(|e| format!("@{name}: {e}"))?);
        self.cache.lock().unwrap().insert(name.to_string(), f.clone());
        Ok(f)
    }

    fn parse_func(&self, name: &str, text: &str) -> R<Func> {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut lines = text.lines();
        let header = lines.next().unwrap();
        let mut params = vec![];
        // unnamed values are numbered in order: parameters, then the entry block
        let mut anon = 0;
        {
            let t = lex(header);
            let mut p = Ps { t, i: 0, m: self, regs: Some(&mut regs) };
            while !matches!(p.peek(), Some(Tok::Global(_))) {
                p.i += 1;
            }
            p.i += 1;
            p.expect('(')?;
            if !p.eat_p(')') {
                loop {
                    if p.is_p('.') || p.eat_w("...") {
                        return Err("variadic".into());
                    }
                    p.ty()?;
                    p.skip_attrs()?;
                    match p.peek().cloned() {
                        Some(Tok::Local(n)) => {
                            p.i += 1;
                            let r = p.reg(&n);
                            if n.parse::<u32>().is_ok() {
                                anon += 1;
                            }
                            params.push(r);
                        }
                        _ => {
                            let r = p.reg(&anon.to_string());
                            anon += 1;
                            params.push(r);
                        }
                    }
                    if p.eat_p(')') {
                        break;
                    }
                    p.expect(',')?;
                }
            }
        }
        // gather logical lines per block
        let mut blocks_txt: Vec<(String, Vec<String>)> = vec![];
        let mut pending: Option<String> = None;
        for l in lines {
            if l.starts_with('}') {
                break;
            }
            let tr = l.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with('#') {
                continue;
            }
            if let Some(p) = &mut pending {
                p.push(' ');
                p.push_str(tr);
                if tr.starts_with(']') {
                    let p = pending.take().unwrap();
                    blocks_txt.last_mut().unwrap().1.push(p);
                }
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if let Some(r) = l.strip_prefix('"') {
                    r[..r.find('"').unwrap()].to_string()
                } else {
                    l[..l.find(':').ok_or(format!("bad line {l}"))?].to_string()
                };
                blocks_txt.push((lab, vec![]));
                continue;
            }
            if blocks_txt.is_empty() {
                blocks_txt.push((anon.to_string(), vec![]));
            }
            if tr.starts_with("switch") && !tr.contains(']') {
                pending = Some(tr.to_string());
                continue;
            }
            // continuation lines (invoke targets, landingpad clauses)
            if tr.starts_with("to label")
                || tr.starts_with("catch ")
                || tr.starts_with("filter ")
                || tr == "cleanup"
            {
                let last = blocks_txt.last_mut().unwrap().1.last_mut().unwrap();
                last.push(' ');
                last.push_str(tr);
                continue;
            }
            blocks_txt.last_mut().unwrap().1.push(tr.to_string());
        }
        let labels: HashMap<String, u32> =
            blocks_txt.iter().enumerate().map(|(i, (l, _))| (l.clone(), i as u32)).collect();
        let mut blocks = vec![];
        for (_, ls) in &blocks_txt {
            let mut blk = Block { phis: vec![], ins: vec![] };
            for l in ls {
                let mut p = Ps { t: lex(l), i: 0, m: self, regs: Some(&mut regs) };
                let mut dst = None;
                if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.first().cloned(), p.t.get(1)) {
                    p.i = 2;
                    dst = Some(p.reg(&n));
                }
                if p.eat_w("phi") {
                    let ty = p.ty()?;
                    let mut inc = vec![];
                    loop {
                        p.expect('[')?;
                        let v = p.val(&ty)?;
                        p.expect(',')?;
                        let Tok::Local(b) = p.next()? else { return Err("phi".into()) };
                        p.expect(']')?;
                        inc.push((*labels.get(&b).ok_or("phi label")?, v));
                        if !p.eat_p(',') || !p.is_p('[') {
                            break;
                        }
                    }
                    blk.phis.push((dst.unwrap(), inc));
                    continue;
                }
                let extra = match p.ins(&labels) {
                    Ok(v) => v,
                    Err(e) => vec![Ins::Unsupported(format!("{e}: {l}"))],
                };
                let n = extra.len();
                for (k, i) in extra.into_iter().enumerate() {
                    // for invoke: (call, br)
                    blk.ins.push((if k == 0 || n == 1 { dst } else { None }, i));
                }
            }
            blocks.push(blk);
        }
        Ok(Func { name: name.to_string(), params, nregs: regs.len(), blocks })
    }
}

pub fn fill(ty: &Ty, v: &Cv, out: &mut [u8], at: usize) {
    match (ty, v) {
        (Ty::Int(_) | Ty::Ptr, Cv::Int(_, x)) => {
            let n = ty.store_size() as usize;
            out[at..at + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, Cv::Agg(e)) => {
            for (i, x) in e.iter().enumerate() {
                fill(ty.elem(i), x, out, at + ty.field_offset(i) as usize);
            }
        }
        _ => panic!("fill {ty:?} {v:?}"),
    }
}

impl Ps<'_> {
    fn ins(&mut self, labels: &HashMap<String, u32>) -> R<Vec<Ins>> {
        let Tok::Word(mut op) = self.next()? else { return Err("no opcode".into()) };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            let Tok::Word(o) = self.next()? else { return Err("tail".into()) };
            op = o;
        }
        let one = |i| Ok(vec![i]);
        let bin = match op.as_str() {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "urem" => Some(Bin::URem),
            "sdiv" => Some(Bin::SDiv),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            _ => None,
        };
        if let Some(b) = bin {
            for f in ["nuw", "nsw", "exact", "disjoint"] {
                let _ = f;
            }
            while matches!(self.peek(), Some(Tok::Word(w)) if matches!(w.as_str(), "nuw"|"nsw"|"exact"|"disjoint"))
            {
                self.i += 1;
            }
            let t = self.ty()?;
            let x = self.val(&t)?;
            self.expect(',')?;
            let y = self.val(&t)?;
            return one(Ins::Bin(b, t, x, y));
        }
        match op.as_str() {
            "icmp" => {
                self.eat_w("samesign");
                let Tok::Word(p) = self.next()? else { return Err("icmp".into()) };
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err("icmp predicate".into()),
                };
                let t = self.ty()?;
                let x = self.val(&t)?;
                self.expect(',')?;
                let y = self.val(&t)?;
                one(Ins::ICmp(p, t, x, y))
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while matches!(self.peek(), Some(Tok::Word(w)) if matches!(w.as_str(), "nuw"|"nsw"|"nneg"))
                {
                    self.i += 1;
                }
                let (ft, v) = self.typed()?;
                if !self.eat_w("to") {
                    return Err("cast".into());
                }
                let t = self.ty()?;
                let c = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bitcast,
                    _ => {
                        let (a, b) = (ft.width(), t.width());
                        if a > b {
                            Cast::Trunc
                        } else if a < b {
                            Cast::ZExt
                        } else {
                            Cast::Same
                        }
                    }
                };
                one(Ins::Cast(c, ft, v, t))
            }
            "getelementptr" => {
                while matches!(self.peek(), Some(Tok::Word(w)) if matches!(w.as_str(), "inbounds"|"nuw"|"nusw"))
                {
                    self.i += 1;
                }
                let mut cur = self.ty()?;
                self.expect(',')?;
                let (_, base) = self.typed()?;
                let mut off: u64 = 0;
                let mut dynv = vec![];
                let mut n = 0;
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let (it, v) = self.typed()?;
                    let stride = if n == 0 {
                        cur.size()
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let Op::Const(Cv::Int(_, k)) = v else {
                                    return Err("struct gep".into());
                                };
                                off = off.wrapping_add(cur.field_offset(k as usize));
                                cur = cur.elem(k as usize).clone();
                                n += 1;
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                let e = (**e).clone();
                                let s = e.size();
                                cur = e;
                                s
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    };
                    n += 1;
                    match v {
                        Op::Const(Cv::Int(_, k)) => {
                            let k = crate::term::sext_val(k, it.width()) as i64;
                            off = off.wrapping_add((stride as i64).wrapping_mul(k) as u64);
                        }
                        v => dynv.push((stride, v)),
                    }
                }
                one(Ins::Gep(base, off, dynv))
            }
            "load" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let t = self.ty()?;
                self.expect(',')?;
                let (_, p) = self.typed()?;
                one(Ins::Load(t, p))
            }
            "store" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let (t, v) = self.typed()?;
                self.expect(',')?;
                let (_, p) = self.typed()?;
                one(Ins::Store(t, v, p))
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = 1;
                let mut al = t.align();
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        al = self.num()? as u64;
                    } else if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    } else {
                        let (_, v) = self.typed_const()?;
                        let Cv::Int(_, v) = v else { return Err("alloca".into()) };
                        n = v as u64;
                    }
                }
                one(Ins::Alloca(t.size() * n, al))
            }
            "select" => {
                let (_, c) = self.typed()?;
                self.expect(',')?;
                let (_, a) = self.typed()?;
                self.expect(',')?;
                let (_, b) = self.typed()?;
                one(Ins::Select(c, a, b))
            }
            "freeze" => {
                let (_, a) = self.typed()?;
                one(Ins::Freeze(a))
            }
            "extractvalue" => {
                let (_, a) = self.typed()?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    ix.push(self.num()? as usize);
                }
                one(Ins::ExtractValue(a, ix))
            }
            "insertvalue" => {
                let (_, a) = self.typed()?;
                self.expect(',')?;
                let (_, v) = self.typed()?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    ix.push(self.num()? as usize);
                }
                one(Ins::InsertValue(a, v, ix))
            }
            "extractelement" => {
                let (_, a) = self.typed()?;
                self.expect(',')?;
                let (_, i) = self.typed()?;
                one(Ins::ExtractElement(a, i))
            }
            "insertelement" => {
                let (_, a) = self.typed()?;
                self.expect(',')?;
                let (_, v) = self.typed()?;
                self.expect(',')?;
                let (_, i) = self.typed()?;
                one(Ins::InsertElement(a, v, i))
            }
            "shufflevector" => {
                let (_, a) = self.typed()?;
                self.expect(',')?;
                let (_, b) = self.typed()?;
                self.expect(',')?;
                let (_, m) = self.typed_const()?;
                let Cv::Agg(m) = m else { return Err("shuffle".into()) };
                let m = m
                    .into_iter()
                    .map(|c| match c {
                        Cv::Int(_, v) => v as i64,
                        _ => 0,
                    })
                    .collect();
                one(Ins::Shuffle(a, b, m))
            }
            "fence" => one(Ins::Nop),
            "atomicrmw" => {
                self.eat_w("volatile");
                let Tok::Word(o) = self.next()? else { return Err("rmw".into()) };
                let (_, p) = self.typed()?;
                self.expect(',')?;
                let (t, v) = self.typed()?;
                one(Ins::AtomicRmw(o, t, p, v))
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.eat_w("volatile");
                let (_, p) = self.typed()?;
                self.expect(',')?;
                let (t, a) = self.typed()?;
                self.expect(',')?;
                let (_, b) = self.typed()?;
                one(Ins::CmpXchg(t, p, a, b))
            }
            "call" | "invoke" => {
                // calling convention, return attributes, fast-math flags
                while !self.is_ty_start() {
                    match self.next()? {
                        Tok::Word(w) => {
                            if w == "align" && !self.is_p('(') {
                                self.i += 1;
                            } else if self.is_p('(') {
                                self.skip_parens()?;
                            }
                        }
                        t => return Err(format!("call {t:?}")),
                    }
                }
                let rt = self.ty()?;
                if self.is_p('(') {
                    self.skip_parens()?;
                }
                let callee = match self.next()? {
                    Tok::Global(n) => Callee::Name(n),
                    Tok::Local(n) => Callee::Ptr(Op::Reg(self.reg(&n))),
                    Tok::Word(w) if w == "asm" => return Err("inline asm".into()),
                    t => return Err(format!("callee {t:?}")),
                };
                self.expect('(')?;
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        let (_, v) = self.typed()?;
                        args.push(v);
                        if self.eat_p(')') {
                            break;
                        }
                        self.expect(',')?;
                    }
                }
                let call = Ins::Call(callee, args, rt);
                if op == "call" {
                    return one(call);
                }
                while !self.eat_w("to") {
                    self.next()?;
                }
                let normal = self.label(labels)?;
                Ok(vec![call, Ins::Br(normal)])
            }
            "br" => {
                if matches!(self.peek(), Some(Tok::Word(w)) if w == "label") {
                    let l = self.label(labels)?;
                    return one(Ins::Br(l));
                }
                let (_, c) = self.typed()?;
                self.expect(',')?;
                let a = self.label(labels)?;
                self.expect(',')?;
                let b = self.label(labels)?;
                one(Ins::CondBr(c, a, b))
            }
            "switch" => {
                let (t, v) = self.typed()?;
                self.expect(',')?;
                let d = self.label(labels)?;
                self.expect('[')?;
                let mut cases = vec![];
                while !self.eat_p(']') {
                    let ty = self.ty()?;
                    let c = self.konst(&ty)?;
                    let Cv::Int(_, c) = c else { return Err("switch".into()) };
                    self.expect(',')?;
                    let l = self.label(labels)?;
                    cases.push((c, l));
                }
                let _ = t;
                one(Ins::Switch(v, d, cases))
            }
            "ret" => {
                if self.eat_w("void") {
                    return one(Ins::Ret(None));
                }
                let (_, v) = self.typed()?;
                one(Ins::Ret(Some(v)))
            }
            "unreachable" => one(Ins::Unreachable),
            o => Err(format!("unsupported instruction {o}")),
        }
    }
}
