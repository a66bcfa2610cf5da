//! Parser for the subset of textual LLVM IR that rustc emits.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Box<Ty>),
    Label,
    Meta,
    Named(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => t.size() * i as u64,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            Ty::Struct(f, _) => f[i].clone(),
            _ => Ty::Void,
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..))
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    Int(u32, u128),
    Float(Ty, u64),
    Sym(String),
    /// constant expression tree
    Gep(Ty, Box<Opnd>, Vec<Opnd>),
    Cast(String, Box<Opnd>, Ty, Ty),
    Bin(String, Box<Opnd>, Box<Opnd>, Ty),
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<(Ty, Opnd)>),
    Bytes(Vec<u8>),
    Meta,
    Splat(Ty, Box<Opnd>),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64, align: u64 },
    Load { dst: u32, ty: Ty, ptr: Opnd },
    Store { ty: Ty, val: Opnd, ptr: Opnd },
    Gep { dst: u32, base: Opnd, coff: u64, idx: Vec<(u64, Opnd)> },
    Bin { dst: u32, op: BinOp, ty: Ty, a: Opnd, b: Opnd },
    FBin { dst: u32, op: FOp, ty: Ty, a: Opnd, b: Opnd },
    FNeg { dst: u32, ty: Ty, a: Opnd },
    ICmp { dst: u32, pred: IPred, ty: Ty, a: Opnd, b: Opnd },
    FCmp { dst: u32, pred: String, ty: Ty, a: Opnd, b: Opnd },
    Cast { dst: u32, op: String, from: Ty, to: Ty, a: Opnd },
    Select { dst: u32, ty: Ty, c: Opnd, a: Opnd, b: Opnd },
    Phi { dst: u32, inc: Vec<(Opnd, u32)> },
    Call { dst: Option<u32>, ret: Ty, callee: Opnd, args: Vec<(Ty, Opnd)> },
    Extract { dst: u32, ty: Ty, a: Opnd, idx: Vec<usize> },
    Insert { dst: u32, ty: Ty, a: Opnd, vty: Ty, v: Opnd, idx: Vec<usize> },
    ExtractElem { dst: u32, ty: Ty, a: Opnd, i: Opnd },
    InsertElem { dst: u32, ty: Ty, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, ty: Ty, a: Opnd, b: Opnd, mask: Vec<i64> },
    Freeze { dst: u32, ty: Ty, a: Opnd },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { ty: Ty, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Bad(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Debug)]
pub struct Block {
    pub ins: Vec<(Ins, u32)>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub module: usize,
}

#[derive(Debug, Clone)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Opnd>,
    pub align: u64,
    pub constant: bool,
}

#[derive(Default)]
pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    /// declared function -> (noreturn)
    pub decls: HashMap<String, bool>,
    /// dbg location id -> (line, scope id, inlinedAt)
    pub dloc: HashMap<u32, (u32, u32)>,
    /// scope id -> parent scope or subprogram
    pub dscope: HashMap<u32, u32>,
    /// subprogram id -> (name, file id)
    pub dsub: HashMap<u32, (String, u32)>,
    pub dfile: HashMap<u32, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Reg(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    Meta(String),
    Attr(String),
    P(char),
    Ellipsis,
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::Reg(name) } else { Tok::Glob(name) });
            }
            b'!' => {
                let st = i + 1;
                i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'\\') {
                    i += 1;
                }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'#' => {
                let st = i + 1;
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr(s[st..i].to_string()));
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Str(unesc(&s[st..i])));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Str(unesc(&s[st..i])));
                i += 1;
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (b[i].is_ascii_alphanumeric()
                        || b[i] == b'.'
                        || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E') && !s[st..i].contains("0x")))
                {
                    i += 1;
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            b'.' if s[i..].starts_with("...") => {
                i += 3;
                out.push(Tok::Ellipsis);
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                out.push(Tok::Id(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    regs: &'a mut HashMap<String, u32>,
    types: &'a HashMap<String, Ty>,
    modix: usize,
    locals: &'a HashMap<String, ()>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or_else(|| "eol".to_string())?;
        self.i += 1;
        Ok(t)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> R<()> {
        let t = self.next()?;
        if t == Tok::P(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c, t))
        }
    }
    fn tryeat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn tryid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            *r
        } else {
            let k = self.regs.len() as u32;
            self.regs.insert(n.to_string(), k);
            k
        }
    }
    fn sym(&self, n: &str) -> String {
        if self.locals.contains_key(n) {
            format!("{}@{}", n, self.modix)
        } else {
            n.to_string()
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(x)) => is_simple_ty(x),
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Reg(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.eat('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    /// skip attribute words until a type starts
    fn skip_to_type(&mut self) -> R<()> {
        loop {
            if self.is_type_start() {
                return Ok(());
            }
            match self.next()? {
                Tok::Id(x) => {
                    if x == "align" {
                        if !self.isp('(') {
                            self.next()?;
                        }
                    }
                    if self.isp('(') {
                        self.skip_parens()?;
                    }
                }
                Tok::Str(_) | Tok::Attr(_) => {}
                t => return Err(format!("skip_to_type: {:?}", t)),
            }
        }
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(x)) => {
                    let x = x.clone();
                    if is_const_kw(&x) {
                        return Ok(());
                    }
                    self.i += 1;
                    if x == "align" {
                        if !self.isp('(') {
                            self.next()?;
                        }
                    }
                    if self.isp('(') {
                        self.skip_parens()?;
                    }
                }
                Some(Tok::Str(_)) if false => {}
                _ => return Ok(()),
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        Ok(match t {
            Tok::Id(x) => match x.as_str() {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if self.isid("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                _ => {
                    if x.starts_with('i') {
                        if let Ok(w) = x[1..].parse::<u32>() {
                            return Ok(Ty::Int(w));
                        }
                    }
                    return Err(format!("type {}", x));
                }
            },
            Tok::P('[') => {
                let n = self.int()? as u64;
                if !self.tryid("x") {
                    return Err("array x".into());
                }
                let e = self.ty()?;
                self.eat(']')?;
                Ty::Array(n, Box::new(e))
            }
            Tok::P('{') => Ty::Struct(self.tylist('}')?, false),
            Tok::P('<') => {
                if self.tryeat('{') {
                    let l = self.tylist('}')?;
                    self.eat('>')?;
                    Ty::Struct(l, true)
                } else {
                    let n = self.int()? as u64;
                    if !self.tryid("x") {
                        return Err("vector x".into());
                    }
                    let e = self.ty()?;
                    self.eat('>')?;
                    Ty::Vector(n, Box::new(e))
                }
            }
            Tok::Reg(n) => self.types.get(&n).cloned().ok_or(format!("named type {}", n))?,
            t => return Err(format!("type tok {:?}", t)),
        })
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        if self.tryeat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.tryeat(end) {
                return Ok(v);
            }
            self.eat(',')?;
        }
    }
    fn int(&mut self) -> R<i128> {
        match self.next()? {
            Tok::Num(s) => s.parse::<i128>().map_err(|e| format!("int {} {}", s, e)),
            t => Err(format!("int tok {:?}", t)),
        }
    }
    fn tyval(&mut self) -> R<(Ty, Opnd)> {
        let ty = self.ty()?;
        self.skip_attrs()?;
        let v = self.val(&ty)?;
        Ok((ty, v))
    }
    fn val(&mut self, ty: &Ty) -> R<Opnd> {
        if *ty == Ty::Meta {
            // metadata operand: skip until , or )
            let mut d = 0;
            loop {
                match self.peek() {
                    None => return Ok(Opnd::Meta),
                    Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                    Some(Tok::P(')')) | Some(Tok::P('}')) => {
                        if d == 0 {
                            return Ok(Opnd::Meta);
                        }
                        d -= 1
                    }
                    Some(Tok::P(',')) if d == 0 => return Ok(Opnd::Meta),
                    _ => {}
                }
                self.i += 1;
            }
        }
        let t = self.next()?;
        Ok(match t {
            Tok::Reg(n) => {
                let r = self.reg(&n);
                Opnd::Reg(r)
            }
            Tok::Glob(n) => Opnd::Sym(self.sym(&n)),
            Tok::Num(s) => match ty {
                Ty::Int(w) => Opnd::Int(*w, parse_int(&s, *w)?),
                Ty::F32 | Ty::F64 => Opnd::Float(ty.clone(), parse_float(&s, ty)?),
                _ => return Err(format!("num {} for {:?}", s, ty)),
            },
            Tok::Str(b) => Opnd::Bytes(b),
            Tok::Id(k) => match k.as_str() {
                "true" => Opnd::Int(1, 1),
                "false" => Opnd::Int(1, 0),
                "null" => Opnd::Int(64, 0),
                "undef" | "poison" => Opnd::Undef(ty.clone()),
                "zeroinitializer" => Opnd::Zero(ty.clone()),
                "none" => Opnd::Meta,
                "splat" => {
                    self.eat('(')?;
                    let (_, v) = self.tyval()?;
                    self.eat(')')?;
                    Opnd::Splat(ty.clone(), Box::new(v))
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.next()?;
                    }
                    self.eat('(')?;
                    // optional inrange etc
                    self.skip_to_type()?;
                    let bt = self.ty()?;
                    self.eat(',')?;
                    let (_, base) = self.tyval()?;
                    let mut idx = Vec::new();
                    while self.tryeat(',') {
                        idx.push(self.tyval()?.1);
                    }
                    self.eat(')')?;
                    Opnd::Gep(bt, Box::new(base), idx)
                }
                "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    while !self.isp('(') {
                        self.next()?;
                    }
                    self.eat('(')?;
                    let (ft, v) = self.tyval()?;
                    if !self.tryid("to") {
                        return Err("const cast to".into());
                    }
                    let tt = self.ty()?;
                    self.eat(')')?;
                    Opnd::Cast(k, Box::new(v), ft, tt)
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    while !self.isp('(') {
                        self.next()?;
                    }
                    self.eat('(')?;
                    let (t1, a) = self.tyval()?;
                    self.eat(',')?;
                    let (_, b) = self.tyval()?;
                    self.eat(')')?;
                    Opnd::Bin(k, Box::new(a), Box::new(b), t1)
                }
                _ => {
                    // LLVM >= 20 may print floats as f0x...
                    if let Ty::F32 | Ty::F64 = ty {
                        if let Ok(v) = parse_float(&k, ty) {
                            return Ok(Opnd::Float(ty.clone(), v));
                        }
                    }
                    return Err(format!("const kw {}", k));
                }
            },
            Tok::P('{') => Opnd::Agg(self.aggl('}')?),
            Tok::P('[') => Opnd::Agg(self.aggl(']')?),
            Tok::P('<') => {
                if self.tryeat('{') {
                    let l = self.aggl('}')?;
                    self.eat('>')?;
                    Opnd::Agg(l)
                } else {
                    Opnd::Agg(self.aggl('>')?)
                }
            }
            t => return Err(format!("value tok {:?}", t)),
        })
    }
    fn aggl(&mut self, end: char) -> R<Vec<(Ty, Opnd)>> {
        let mut v = Vec::new();
        if self.tryeat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.tyval()?);
            if self.tryeat(end) {
                return Ok(v);
            }
            self.eat(',')?;
        }
    }
    fn skip_flags(&mut self) {
        while let Some(Tok::Id(x)) = self.peek() {
            match x.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "volatile" | "nneg" | "samesign" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "atomic" | "tail" | "musttail" | "notail" => self.i += 1,
                "inrange" => {
                    self.i += 1;
                    let _ = self.skip_parens();
                }
                _ => break,
            }
        }
    }
    fn label(&mut self, bbs: &HashMap<String, u32>) -> R<u32> {
        if !self.tryid("label") {
            return Err("label".into());
        }
        match self.next()? {
            Tok::Reg(n) => bbs.get(&n).cloned().ok_or(format!("label {}", n)),
            t => Err(format!("label tok {:?}", t)),
        }
    }
}

fn is_simple_ty(x: &str) -> bool {
    match x {
        "void" | "float" | "double" | "ptr" | "label" | "metadata" | "token" => true,
        _ => x.starts_with('i') && x.len() > 1 && x[1..].bytes().all(|c| c.is_ascii_digit()),
    }
}
fn is_const_kw(x: &str) -> bool {
    matches!(
        x,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint"
            | "trunc" | "bitcast" | "zext" | "sext" | "addrspacecast" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "ptrtoaddr"
    ) || x.starts_with("f0x")
}
fn parse_int(s: &str, w: u32) -> R<u128> {
    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    if let Some(r) = s.strip_prefix('-') {
        let v = r.parse::<u128>().map_err(|e| e.to_string())?;
        Ok(v.wrapping_neg() & m)
    } else {
        Ok(s.parse::<u128>().map_err(|e| format!("{} {}", s, e))? & m)
    }
}
fn parse_float(s: &str, ty: &Ty) -> R<u64> {
    if let Some(h) = s.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).map_err(|e| e.to_string());
    }
    if s.contains("nan") {
        // +qnan, -qnan, +nan(0x..), +snan(0x..)
        let pay = match s.find("(0x") {
            Some(p) => u64::from_str_radix(s[p + 3..].trim_end_matches(')'), 16).map_err(|e| e.to_string())?,
            None => 0,
        };
        let neg = s.starts_with('-') as u64;
        let quiet = !s.contains("snan") as u64;
        return Ok(match ty {
            Ty::F32 => neg << 31 | 0x7f80_0000 | quiet << 22 | pay,
            _ => neg << 63 | 0x7ff0_0000_0000_0000 | quiet << 51 | pay,
        });
    }
    let d: f64 = if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| format!("{} {}", s, e))?)
    } else {
        s.parse::<f64>().map_err(|e| format!("{} {}", s, e))?
    };
    Ok(match ty {
        Ty::F32 => (d as f32).to_bits() as u64,
        _ => d.to_bits(),
    })
}

fn dbg_of(line: &str) -> u32 {
    if let Some(p) = line.rfind("!dbg !") {
        let s = &line[p + 6..];
        let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
        s[..e].parse().unwrap_or(0)
    } else {
        0
    }
}

fn field_num(l: &str, key: &str) -> Option<u32> {
    let p = l.find(key)?;
    let s = &l[p + key.len()..];
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..e].parse().ok()
}
fn field_str(l: &str, key: &str) -> Option<String> {
    let p = l.find(key)?;
    let s = &l[p + key.len()..];
    let e = s.find('"')?;
    Some(s[..e].to_string())
}

pub fn parse_module(text: &str, modix: usize) -> R<Module> {
    let lines: Vec<&str> = text.lines().collect();
    let mut m = Module::default();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let mut noreturn_groups: HashMap<String, bool> = HashMap::new();
    let mut locals: HashMap<String, ()> = HashMap::new();
    // pass 1: attribute groups, local symbols, metadata
    for l in &lines {
        if l.starts_with("attributes #") {
            let id = l["attributes #".len()..].split(' ').next().unwrap().to_string();
            noreturn_groups.insert(id, l.contains(" noreturn "));
        } else if l.starts_with('@') {
            let lx = lex(&l[..l.len().min(600)].to_string().replace('"', "\""));
            if let (Some(Tok::Glob(n)), rest) = (lx.get(0), &lx) {
                let loc = rest.iter().take(8).any(|t| matches!(t, Tok::Id(x) if x=="private"||x=="internal"));
                if loc {
                    locals.insert(n.clone(), ());
                }
            }
        } else if l.starts_with("define ") {
            let head = &l[..l.find('@').unwrap_or(0)];
            if head.contains(" internal ") || head.contains(" private ") {
                let lx = lex(&l[l.find('@').unwrap()..]);
                if let Some(Tok::Glob(n)) = lx.get(0) {
                    locals.insert(n.clone(), ());
                }
            }
        } else if l.starts_with('!') {
            if let Some(p) = l.find(" = ") {
                if let Ok(id) = l[1..p].parse::<u32>() {
                    let body = &l[p + 3..];
                    if body.contains("!DILocation(") {
                        m.dloc.insert(id, (field_num(body, "line: ").unwrap_or(0), field_num(body, "scope: !").unwrap_or(0)));
                    } else if body.contains("!DISubprogram(") {
                        m.dsub.insert(
                            id,
                            (field_str(body, "name: \"").unwrap_or_default(), field_num(body, "file: !").unwrap_or(0)),
                        );
                        m.dscope.insert(id, field_num(body, "scope: !").unwrap_or(0));
                    } else if body.contains("!DILexicalBlock") {
                        m.dscope.insert(id, field_num(body, "scope: !").unwrap_or(0));
                    } else if body.contains("!DIFile(") {
                        m.dfile.insert(id, field_str(body, "filename: \"").unwrap_or_default());
                    } else if body.contains("!DINamespace(") {
                        m.dsub.insert(id, (field_str(body, "name: \"").unwrap_or_default(), u32::MAX));
                        m.dscope.insert(id, field_num(body, "scope: !").unwrap_or(0));
                    }
                }
            }
        }
    }
    let mut i = 0;
    let mut last_comment = String::new();
    let mut dummy: HashMap<String, u32> = HashMap::new();
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("; Function Attrs") {
        } else if l.starts_with("; ") {
            last_comment = l[2..].to_string();
        } else if l.starts_with('%') && l.contains(" = type ") {
            let lx = lex(l);
            let mut p = P { t: lx, i: 3, regs: &mut dummy, types: &types, modix, locals: &locals };
            let name = match &p.t[0] {
                Tok::Reg(n) => n.clone(),
                _ => return Err("type".into()),
            };
            if let Ok(t) = p.ty() {
                types.insert(name, t);
            }
        } else if l.starts_with('@') {
            let lx = lex(l);
            let mut p = P { t: lx, i: 0, regs: &mut dummy, types: &types, modix, locals: &locals };
            let r: R<Global> = (|| {
                let name = match p.next()? {
                    Tok::Glob(n) => n,
                    t => return Err(format!("{:?}", t)),
                };
                p.eat('=')?;
                let mut external = false;
                let constant;
                loop {
                    match p.next()? {
                        Tok::Id(x) => {
                            if x == "constant" || x == "global" {
                                constant = x == "constant";
                                break;
                            }
                            if x == "external" || x == "extern_weak" {
                                external = true;
                            }
                            if x == "alias" {
                                return Err("alias".into());
                            }
                            if p.isp('(') {
                                p.skip_parens()?;
                            }
                        }
                        t => return Err(format!("global tok {:?}", t)),
                    }
                }
                let ty = p.ty()?;
                let init = if external { None } else { Some(p.val(&ty)?) };
                let mut align = ty.align();
                while let Ok(t) = p.next() {
                    if t == Tok::Id("align".into()) {
                        if let Ok(a) = p.int() {
                            align = a as u64;
                        }
                    }
                }
                let name = p.sym(&name);
                Ok(Global { name, ty, init, align, constant })
            })();
            match r {
                Ok(g) => m.globals.push(g),
                Err(e) => return Err(format!("global: {} in {}", e, &l[..l.len().min(200)])),
            }
        } else if l.starts_with("declare ") {
            let at = l.find('@').unwrap();
            let lx = lex(&l[at..]);
            if let Some(Tok::Glob(n)) = lx.get(0) {
                let mut nr = false;
                for t in &lx {
                    if let Tok::Attr(a) = t {
                        nr |= noreturn_groups.get(a).cloned().unwrap_or(false);
                    }
                    if *t == Tok::Id("noreturn".into()) {
                        nr = true;
                    }
                }
                m.decls.insert(n.clone(), nr);
            }
        } else if l.starts_with("define ") {
            // function
            let mut end = i + 1;
            while lines[end] != "}" {
                end += 1;
            }
            let f = parse_func(&lines[i..=end], modix, &types, &locals, &last_comment).map_err(|e| format!("{} in function {}", e, l))?;
            m.funcs.push(f);
            i = end;
        }
        i += 1;
    }
    Ok(m)
}

fn parse_func(
    lines: &[&str],
    modix: usize,
    types: &HashMap<String, Ty>,
    locals: &HashMap<String, ()>,
    pretty: &str,
) -> R<Func> {
    let mut regs: HashMap<String, u32> = HashMap::new();
    // block labels
    let mut bbs: HashMap<String, u32> = HashMap::new();
    let mut nb = 0;
    let mut first = true;
    let mut implicit_entry = false;
    for l in &lines[1..] {
        let t = l.trim_end();
        if t.is_empty() || t == "}" {
            continue;
        }
        if !t.starts_with(' ') && !t.starts_with(';') {
            if let Some(p) = label_end(t) {
                let n = t[..p].trim_matches('"').to_string();
                bbs.insert(n, nb);
                nb += 1;
                first = false;
                continue;
            }
        }
        if first && t.starts_with(' ') {
            implicit_entry = true;
            nb += 1;
            first = false;
        }
    }
    let lx = lex(lines[0]);
    let mut p = P { t: lx, i: 1, regs: &mut regs, types, modix, locals };
    p.skip_to_type()?;
    let ret = p.ty()?;
    let name = loop {
        match p.next()? {
            Tok::Glob(n) => break n,
            _ => {}
        }
    };
    let sname = p.sym(&name);
    p.eat('(')?;
    let mut params = Vec::new();
    if !p.tryeat(')') {
        loop {
            let t = p.ty()?;
            p.skip_attrs()?;
            match p.peek() {
                Some(Tok::Reg(n)) => {
                    let n = n.clone();
                    p.i += 1;
                    let r = p.reg(&n);
                    params.push((t, r));
                }
                _ => {
                    let n = format!("{}", params.len());
                    let r = p.reg(&n);
                    params.push((t, r));
                }
            }
            if p.tryeat(')') {
                break;
            }
            p.eat(',')?;
        }
    }
    let mut blocks: Vec<Block> = (0..nb).map(|_| Block { ins: vec![] }).collect();
    let mut cur = if implicit_entry { 0usize } else { usize::MAX };
    if implicit_entry {
        bbs.insert(format!("{}", params.len()), 0);
    }
    let mut k = 1;
    while k < lines.len() {
        let l = lines[k];
        let t = l.trim_end();
        k += 1;
        if t.is_empty() || t == "}" || t.trim_start().starts_with(';') {
            continue;
        }
        if !t.starts_with(' ') {
            if let Some(pp) = label_end(t) {
                let n = t[..pp].trim_matches('"').to_string();
                cur = bbs[&n] as usize;
                continue;
            }
        }
        let tt = t.trim_start();
        if tt.starts_with("#dbg_") {
            continue;
        }
        let mut full = tt.to_string();
        if tt.starts_with("switch ") && !tt.contains(']') {
            while k < lines.len() {
                full.push(' ');
                full.push_str(lines[k].trim());
                let done = lines[k].contains(']');
                k += 1;
                if done {
                    break;
                }
            }
        }
        let dbg = dbg_of(&full);
        let lx = lex(&full);
        let mut p = P { t: lx, i: 0, regs: &mut regs, types, modix, locals };
        let ins = match parse_ins(&mut p, &bbs) {
            Ok(i) => i,
            Err(e) => Ins::Bad(format!("{} :: {}", e, full)),
        };
        blocks[cur].ins.push((ins, dbg));
    }
    Ok(Func { name: sname, pretty: pretty.to_string(), params, ret, blocks, nregs: regs.len() as u32, module: modix })
}

fn label_end(t: &str) -> Option<usize> {
    if t.starts_with('"') {
        let e = t[1..].find('"')? + 2;
        if t[e..].starts_with(':') {
            return Some(e);
        }
        return None;
    }
    let e = t.find(':')?;
    if t[..e].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$') {
        Some(e)
    } else {
        None
    }
}

fn parse_ins(p: &mut P, bbs: &HashMap<String, u32>) -> R<Ins> {
    let mut dst = None;
    if let (Some(Tok::Reg(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) {
        dst = Some(p.reg(&n));
        p.i = 2;
    }
    let op = match p.next()? {
        Tok::Id(x) => x,
        t => return Err(format!("opcode {:?}", t)),
    };
    let d = dst.unwrap_or(0);
    let bin = |s: &str| -> Option<BinOp> {
        Some(match s {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            _ => return None,
        })
    };
    let fbin = |s: &str| -> Option<FOp> {
        Some(match s {
            "fadd" => FOp::Add,
            "fsub" => FOp::Sub,
            "fmul" => FOp::Mul,
            "fdiv" => FOp::Div,
            "frem" => FOp::Rem,
            _ => return None,
        })
    };
    if let Some(b) = bin(&op) {
        p.skip_flags();
        let (ty, a) = p.tyval()?;
        p.eat(',')?;
        let bb = p.val(&ty)?;
        return Ok(Ins::Bin { dst: d, op: b, ty, a, b: bb });
    }
    if let Some(b) = fbin(&op) {
        p.skip_flags();
        let (ty, a) = p.tyval()?;
        p.eat(',')?;
        let bb = p.val(&ty)?;
        return Ok(Ins::FBin { dst: d, op: b, ty, a, b: bb });
    }
    match op.as_str() {
        "fneg" => {
            p.skip_flags();
            let (ty, a) = p.tyval()?;
            Ok(Ins::FNeg { dst: d, ty, a })
        }
        "alloca" => {
            p.skip_flags();
            let ty = p.ty()?;
            let mut n = 1;
            let mut align = ty.align();
            while p.tryeat(',') {
                if p.tryid("align") {
                    align = p.int()? as u64;
                } else if p.is_type_start() {
                    let (_, v) = p.tyval()?;
                    if let Opnd::Int(_, c) = v {
                        n = c as u64;
                    } else {
                        return Err("dynamic alloca".into());
                    }
                } else {
                    break;
                }
            }
            Ok(Ins::Alloca { dst: d, size: ty.size() * n, align })
        }
        "load" => {
            p.skip_flags();
            let ty = p.ty()?;
            p.eat(',')?;
            let (_, ptr) = p.tyval()?;
            Ok(Ins::Load { dst: d, ty, ptr })
        }
        "store" => {
            p.skip_flags();
            let (ty, val) = p.tyval()?;
            p.eat(',')?;
            let (_, ptr) = p.tyval()?;
            Ok(Ins::Store { ty, val, ptr })
        }
        "getelementptr" => {
            p.skip_flags();
            let ty = p.ty()?;
            p.eat(',')?;
            let (_, base) = p.tyval()?;
            let mut coff: u64 = 0;
            let mut idx = Vec::new();
            let mut cur = ty.clone();
            let mut firsti = true;
            while p.tryeat(',') {
                if !p.is_type_start() {
                    break;
                }
                let (it, v) = p.tyval()?;
                if firsti {
                    match v {
                        Opnd::Int(w, c) => coff = coff.wrapping_add((sext(c, w) as u64).wrapping_mul(ty.size())),
                        o => {
                            if it != Ty::Int(64) {
                                return Err("gep index width".into());
                            }
                            idx.push((ty.size(), o))
                        }
                    }
                    firsti = false;
                } else {
                    match (&cur, v) {
                        (Ty::Struct(..), Opnd::Int(_, c)) => {
                            coff = coff.wrapping_add(cur.field_off(c as usize));
                            cur = cur.field(c as usize);
                        }
                        (Ty::Array(_, e), Opnd::Int(w, c)) => {
                            coff = coff.wrapping_add((sext(c, w) as u64).wrapping_mul(e.size()));
                            cur = (**e).clone();
                        }
                        (Ty::Array(_, e), o) => {
                            idx.push((e.size(), o));
                            cur = (**e).clone();
                        }
                        _ => return Err("gep form".into()),
                    }
                }
            }
            Ok(Ins::Gep { dst: d, base, coff, idx })
        }
        "icmp" => {
            p.skip_flags();
            let pr = match p.next()? {
                Tok::Id(x) => x,
                _ => return Err("icmp".into()),
            };
            let pred = match pr.as_str() {
                "eq" => IPred::Eq,
                "ne" => IPred::Ne,
                "ugt" => IPred::Ugt,
                "uge" => IPred::Uge,
                "ult" => IPred::Ult,
                "ule" => IPred::Ule,
                "sgt" => IPred::Sgt,
                "sge" => IPred::Sge,
                "slt" => IPred::Slt,
                "sle" => IPred::Sle,
                _ => return Err("icmp pred".into()),
            };
            let (ty, a) = p.tyval()?;
            p.eat(',')?;
            let b = p.val(&ty)?;
            Ok(Ins::ICmp { dst: d, pred, ty, a, b })
        }
        "fcmp" => {
            p.skip_flags();
            let pred = match p.next()? {
                Tok::Id(x) => x,
                _ => return Err("fcmp".into()),
            };
            let (ty, a) = p.tyval()?;
            p.eat(',')?;
            let b = p.val(&ty)?;
            Ok(Ins::FCmp { dst: d, pred, ty, a, b })
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr"
        | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
            p.skip_flags();
            let (from, a) = p.tyval()?;
            if !p.tryid("to") {
                return Err("cast to".into());
            }
            let to = p.ty()?;
            Ok(Ins::Cast { dst: d, op, from, to, a })
        }
        "select" => {
            p.skip_flags();
            let (_, c) = p.tyval()?;
            p.eat(',')?;
            let (ty, a) = p.tyval()?;
            p.eat(',')?;
            let (_, b) = p.tyval()?;
            Ok(Ins::Select { dst: d, ty, c, a, b })
        }
        "phi" => {
            p.skip_flags();
            let ty = p.ty()?;
            let mut inc = Vec::new();
            loop {
                p.eat('[')?;
                let v = p.val(&ty)?;
                p.eat(',')?;
                let bb = match p.next()? {
                    Tok::Reg(n) => *bbs.get(&n).ok_or("phi bb")?,
                    _ => return Err("phi".into()),
                };
                p.eat(']')?;
                inc.push((v, bb));
                if !p.tryeat(',') {
                    break;
                }
                if !p.isp('[') {
                    break;
                }
            }
            Ok(Ins::Phi { dst: d, inc })
        }
        "tail" | "musttail" | "notail" | "call" => {
            if op != "call" {
                p.next()?;
            }
            p.skip_to_type()?;
            let ret = p.ty()?;
            // function type for varargs not supported
            let callee = match p.next()? {
                Tok::Glob(n) => Opnd::Sym(p.sym(&n)),
                Tok::Reg(n) => {
                    let r = p.reg(&n);
                    Opnd::Reg(r)
                }
                t => return Err(format!("callee {:?}", t)),
            };
            p.eat('(')?;
            let mut args = Vec::new();
            if !p.tryeat(')') {
                loop {
                    args.push(p.tyval()?);
                    if p.tryeat(')') {
                        break;
                    }
                    p.eat(',')?;
                }
            }
            Ok(Ins::Call { dst, ret, callee, args })
        }
        "extractvalue" => {
            let (ty, a) = p.tyval()?;
            let mut idx = vec![];
            while p.tryeat(',') {
                if let Some(Tok::Num(_)) = p.peek() {
                    idx.push(p.int()? as usize);
                } else {
                    break;
                }
            }
            Ok(Ins::Extract { dst: d, ty, a, idx })
        }
        "insertvalue" => {
            let (ty, a) = p.tyval()?;
            p.eat(',')?;
            let (vty, v) = p.tyval()?;
            let mut idx = vec![];
            while p.tryeat(',') {
                if let Some(Tok::Num(_)) = p.peek() {
                    idx.push(p.int()? as usize);
                } else {
                    break;
                }
            }
            Ok(Ins::Insert { dst: d, ty, a, vty, v, idx })
        }
        "extractelement" => {
            let (ty, a) = p.tyval()?;
            p.eat(',')?;
            let (_, i) = p.tyval()?;
            Ok(Ins::ExtractElem { dst: d, ty, a, i })
        }
        "insertelement" => {
            let (ty, a) = p.tyval()?;
            p.eat(',')?;
            let (_, v) = p.tyval()?;
            p.eat(',')?;
            let (_, i) = p.tyval()?;
            Ok(Ins::InsertElem { dst: d, ty, a, v, i })
        }
        "shufflevector" => {
            let (ty, a) = p.tyval()?;
            p.eat(',')?;
            let (_, b) = p.tyval()?;
            p.eat(',')?;
            let (mt, m) = p.tyval()?;
            let n = mt.nfields();
            let mask = match m {
                Opnd::Zero(_) => vec![0; n],
                Opnd::Undef(_) => vec![-1; n],
                Opnd::Splat(_, v) => match *v {
                    Opnd::Int(_, c) => vec![c as i64; n],
                    _ => return Err("mask".into()),
                },
                Opnd::Agg(v) => v
                    .into_iter()
                    .map(|(_, o)| match o {
                        Opnd::Int(_, c) => c as i64,
                        _ => -1,
                    })
                    .collect(),
                _ => return Err("mask".into()),
            };
            Ok(Ins::Shuffle { dst: d, ty, a, b, mask })
        }
        "freeze" => {
            let (ty, a) = p.tyval()?;
            Ok(Ins::Freeze { dst: d, ty, a })
        }
        "br" => {
            if p.isid("label") {
                return Ok(Ins::Br(p.label(bbs)?));
            }
            let (_, c) = p.tyval()?;
            p.eat(',')?;
            let a = p.label(bbs)?;
            p.eat(',')?;
            let b = p.label(bbs)?;
            Ok(Ins::CondBr(c, a, b))
        }
        "switch" => {
            let (ty, v) = p.tyval()?;
            p.eat(',')?;
            let def = p.label(bbs)?;
            p.eat('[')?;
            let mut cases = vec![];
            while !p.tryeat(']') {
                let (_, c) = p.tyval()?;
                p.eat(',')?;
                let l = p.label(bbs)?;
                match c {
                    Opnd::Int(_, x) => cases.push((x, l)),
                    _ => return Err("switch case".into()),
                }
            }
            Ok(Ins::Switch { ty, v, def, cases })
        }
        "ret" => {
            let ty = p.ty()?;
            if ty == Ty::Void {
                return Ok(Ins::Ret(None));
            }
            let v = p.val(&ty)?;
            Ok(Ins::Ret(Some((ty, v))))
        }
        "unreachable" => Ok(Ins::Unreachable),
        _ => Err(format!("unknown opcode {}", op)),
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
