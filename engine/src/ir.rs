//! LLVM IR (textual) loader: types, constants, globals and lazily parsed function bodies.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    FOther(u32),
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    Func,
}

impl Ty {
    /// bits of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::FOther(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(_) => 16,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func => 0,
            Ty::Int(_) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(_) => 16,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs.iter() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * (t.bits() as u64 / 8),
            _ => panic!("field_offset {self:?}"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {self:?}"),
        }
    }
}

/// Runtime value: concrete bits, symbolic expression, or aggregate/vector.
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(u32),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    L(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Debug)]
pub enum Inst {
    Nop,
    Bin(BinOp, Ty, Op, Op, u32),
    FBin(FOp, Ty, Op, Op, u32),
    FNeg(Ty, Op, u32),
    FCmp(String, Ty, Op, Op, u32),
    ICmp(Pred, Ty, Op, Op, u32),
    Cast(CastOp, Ty, Ty, Op, u32),
    Select(Ty, Ty, Op, Op, Op, u32),
    Load(Ty, Op, u32),
    Store(Ty, Op, Op),
    Gep(Op, i64, Vec<(Op, i64, u32)>, u32),
    Alloca(u64, Option<(Op, u32)>, u32),
    Call { callee: Callee, args: Vec<(Op, Ty)>, ret: Ty, dst: Option<u32>, normal: Option<u32> },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    ExtractValue(Op, Vec<usize>, u32),
    InsertValue(Ty, Op, Op, Vec<usize>, u32),
    ExtractElement(Op, Op, u32),
    InsertElement(Ty, Op, Op, Op, u32),
    Shuffle(Ty, Op, Op, Vec<Option<usize>>, u32),
    AtomicRmw(String, Ty, Op, Op, u32),
    CmpXchg(Ty, Op, Op, Op, u32),
    Freeze(Op, u32),
    Other(String),
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
    Asm,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Function {
    pub name: String,
    pub nparams: usize,
    pub nlocals: usize,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: String,
    pub body: Option<(usize, usize)>,
    pub parsed: Option<&'static Function>,
    pub is_intrinsic: bool,
}

pub struct Global {
    pub name: String,
    pub base: u64,
    pub size: u64,
    pub constant: bool,
    pub data: Vec<u8>,
}

pub struct Module {
    pub src: &'static [u8],
    pub named: std::cell::RefCell<HashMap<String, Ty>>,
    pub pending: HashMap<String, (usize, usize)>,
    pub fns: Vec<FnDecl>,
    pub fn_ix: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gl_ix: HashMap<String, u32>,
}

pub const FN_BASE: u64 = 0x1000_0000_0;
pub const GL_BASE: u64 = 0x2000_0000;
pub const HEAP_SHIFT: u32 = 24;
pub const HEAP_BASE: u64 = 1 << 36;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Dots,
    Nl,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    end: usize,
}

fn unesc(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16);
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' && i + 2 < b.len() && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() {
            o.push((hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap()) as u8);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn wordch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b'$'
}

impl<'a> Lex<'a> {
    fn next(&mut self) -> Tok {
        loop {
            if self.p >= self.end {
                return Tok::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => {
                    self.p += 1;
                    return Tok::Nl;
                }
                b';' => {
                    while self.p < self.end && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                _ => break,
            }
        }
        let c = self.s[self.p];
        if c == b'%' || c == b'@' {
            self.p += 1;
            let name = if self.p < self.end && self.s[self.p] == b'"' {
                self.quoted()
            } else {
                let st = self.p;
                while self.p < self.end && wordch(self.s[self.p]) {
                    self.p += 1;
                }
                self.s[st..self.p].to_vec()
            };
            let name = String::from_utf8_lossy(&name).into_owned();
            return if c == b'%' { Tok::Local(name) } else { Tok::Global(name) };
        }
        if c == b'"' {
            return Tok::Str(self.quoted());
        }
        if c == b'c' && self.p + 1 < self.end && self.s[self.p + 1] == b'"' {
            self.p += 1;
            return Tok::CStr(self.quoted());
        }
        if c == b'.' && self.s[self.p..].starts_with(b"...") {
            self.p += 3;
            return Tok::Dots;
        }
        if wordch(c) {
            let st = self.p;
            while self.p < self.end && wordch(self.s[self.p]) {
                self.p += 1;
            }
            return Tok::Word(String::from_utf8_lossy(&self.s[st..self.p]).into_owned());
        }
        self.p += 1;
        Tok::P(c)
    }
    fn quoted(&mut self) -> Vec<u8> {
        self.p += 1;
        let st = self.p;
        while self.s[self.p] != b'"' {
            self.p += 1;
        }
        let r = unesc(&self.s[st..self.p]);
        self.p += 1;
        r
    }
    fn peek(&mut self) -> Tok {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn skip_line(&mut self) {
        while self.p < self.end && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn accept(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            let a = self.p.saturating_sub(120);
            let b = (self.p + 60).min(self.end);
            panic!("expected {:?} got {t:?} near: {}", c as char, String::from_utf8_lossy(&self.s[a..b]));
        }
    }
    fn accept_word(&mut self, w: &str) -> bool {
        if let Tok::Word(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn word(&mut self) -> String {
        match self.next() {
            Tok::Word(w) => w,
            t => {
                let a = self.p.saturating_sub(120);
                let b = (self.p + 60).min(self.end);
                panic!("expected word got {t:?} near {}", String::from_utf8_lossy(&self.s[a..b]))
            }
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

struct FnCtx {
    locals: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn local(&mut self, n: &str) -> u32 {
        let k = self.locals.len() as u32;
        *self.locals.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("no block {n}"))
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Word(w) => is_type_word(w),
        Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => true,
        Tok::Local(_) => true,
        _ => false,
    }
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "fp128" | "x86_fp80" | "bfloat" | "token")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn load(text: Vec<u8>) -> Module {
        let src: &'static [u8] = Box::leak(text.into_boxed_slice());
        let mut m = Module {
            src,
            named: Default::default(),
            pending: HashMap::new(),
            fns: vec![],
            fn_ix: HashMap::new(),
            globals: vec![],
            gl_ix: HashMap::new(),
        };
        // pass 1: split
        let mut p = 0;
        let n = src.len();
        let mut gdefs: Vec<(usize, usize)> = vec![];
        let mut tdefs: Vec<(usize, usize)> = vec![];
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        while p < n {
            let mut e = p;
            while e < n && src[e] != b'\n' {
                e += 1;
            }
            let line = &src[p..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let def = line.starts_with(b"define ");
                let mut lx = Lex { s: src, p, end: e };
                let name = loop {
                    match lx.next() {
                        Tok::Global(g) => break g,
                        Tok::Eof => panic!("no fn name"),
                        _ => {}
                    }
                };
                let hdr = p;
                if def {
                    // find closing line
                    let mut q = e + 1;
                    loop {
                        let mut e2 = q;
                        while e2 < n && src[e2] != b'\n' {
                            e2 += 1;
                        }
                        if &src[q..e2] == b"}" {
                            e = e2;
                            break;
                        }
                        q = e2 + 1;
                        assert!(q < n, "unterminated function");
                    }
                }
                let ix = m.fns.len() as u32;
                m.fn_ix.insert(name.clone(), ix);
                m.fns.push(FnDecl {
                    is_intrinsic: name.starts_with("llvm."),
                    name,
                    body: if def { Some((hdr, e)) } else { None },
                    parsed: None,
                });
            } else if line.starts_with(b"@") {
                gdefs.push((p, e));
                let text = String::from_utf8_lossy(line);
                if let Some(i) = text.find(" = extern_weak global") {
                    // weak libc symbols may also be called
                    let name = text[1..i].to_string();
                    if !m.fn_ix.contains_key(&name) {
                        m.fn_ix.insert(name.clone(), m.fns.len() as u32);
                        m.fns.push(FnDecl { is_intrinsic: false, name, body: None, parsed: None });
                    }
                }
            } else if line.starts_with(b"%") {
                tdefs.push((p, e));
            }
            p = e + 1;
        }
        // types may refer to later ones: resolve on demand
        let mut order = vec![];
        for (a, b) in tdefs {
            let mut lx = Lex { s: src, p: a, end: b };
            if let Tok::Local(nm) = lx.next() {
                lx.expect(b'=');
                lx.word();
                if lx.accept_word("opaque") {
                    m.named.borrow_mut().insert(nm, Ty::Struct(Rc::new(vec![]), false));
                } else {
                    m.pending.insert(nm.clone(), (lx.p, b));
                    order.push(nm);
                }
            }
        }
        for nm in order {
            m.named_ty(src, &nm);
        }
        // pass 2: global headers -> addresses
        let mut inits: Vec<Option<(usize, usize, Ty)>> = vec![];
        let mut addr = GL_BASE;
        for (a, b) in gdefs {
            let mut lx = Lex { s: src, p: a, end: b };
            let name = match lx.next() {
                Tok::Global(g) => g,
                _ => unreachable!(),
            };
            lx.expect(b'=');
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match lx.peek() {
                    Tok::Word(w) => match w.as_str() {
                        "global" => {
                            lx.next();
                            break;
                        }
                        "constant" => {
                            constant = true;
                            lx.next();
                            break;
                        }
                        "alias" | "ifunc" => {
                            alias = true;
                            lx.next();
                            break;
                        }
                        "external" | "extern_weak" => {
                            external = true;
                            lx.next();
                        }
                        _ => {
                            lx.next();
                            if lx.peek() == Tok::P(b'(') {
                                lx.skip_parens();
                            }
                        }
                    },
                    t => panic!("global header {t:?}"),
                }
            }
            if alias {
                aliases.push((name, lx.p, b));
                continue;
            }
            let ty = m.ty(&mut lx);
            let size = ty.size();
            let al = ty.align().max(16);
            addr = (addr + al - 1) / al * al;
            // explicit alignment
            let txt = &src[lx.p..b];
            if let Some(i) = find(txt, b", align ") {
                let mut v = 0u64;
                for c in &txt[i + 8..] {
                    if c.is_ascii_digit() {
                        v = v * 10 + (*c - b'0') as u64
                    } else {
                        break;
                    }
                }
                if v > 16 && v <= 4096 {
                    addr = (addr + v - 1) / v * v;
                }
            }
            m.gl_ix.insert(name.clone(), m.globals.len() as u32);
            m.globals.push(Global { name, base: addr, size, constant, data: vec![0; size as usize] });
            inits.push(if external { None } else { Some((lx.p, b, ty)) });
            addr += size + 32;
        }
        assert!(addr < FN_BASE);
        for (nm, a, b) in aliases {
            let mut lx = Lex { s: src, p: a, end: b };
            let _t = m.ty(&mut lx);
            lx.expect(b',');
            let _p = m.ty(&mut lx);
            if let Tok::Global(g) = lx.next() {
                if let Some(&i) = m.fn_ix.get(&g) {
                    m.fn_ix.insert(nm, i);
                } else if let Some(&i) = m.gl_ix.get(&g) {
                    m.gl_ix.insert(nm, i);
                }
            }
        }
        for i in 0..inits.len() {
            if let Some((a, b, ty)) = inits[i].clone() {
                let mut lx = Lex { s: src, p: a, end: b };
                let v = m.constant(&mut lx, &ty);
                let mut data = vec![0u8; ty.size() as usize];
                put_const(&mut data, 0, &ty, &v);
                m.globals[i].data = data;
            }
        }
        m
    }

    fn named_ty(&self, src: &[u8], n: &str) -> Ty {
        if let Some(t) = self.named.borrow().get(n) {
            return t.clone();
        }
        let (p, end) = *self.pending.get(n).unwrap_or_else(|| panic!("type %{n}"));
        let mut lx = Lex { s: src, p, end };
        let t = self.ty(&mut lx);
        self.named.borrow_mut().insert(n.to_string(), t.clone());
        t
    }
    fn ty(&self, lx: &mut Lex) -> Ty {
        let t = lx.next();
        let base = match t {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if lx.accept_word("addrspace") {
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "bfloat" => Ty::FOther(16),
                "x86_fp80" => Ty::FOther(80),
                "fp128" => Ty::FOther(128),
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                w if is_type_word(w) => Ty::Int(w[1..].parse().unwrap()),
                w => {
                    let a = lx.p.saturating_sub(120);
                    let b = (lx.p + 60).min(lx.end);
                    panic!("type? {w} near {}", String::from_utf8_lossy(&lx.s[a..b]))
                }
            },
            Tok::Local(n) => self.named_ty(lx.s, &n),
            Tok::P(b'[') => {
                let n: u64 = lx.word().parse().unwrap();
                assert_eq!(lx.word(), "x");
                let e = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(e))
            }
            Tok::P(b'{') => {
                let mut fs = vec![];
                if !lx.accept(b'}') {
                    loop {
                        fs.push(self.ty(lx));
                        if lx.accept(b'}') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                Ty::Struct(Rc::new(fs), false)
            }
            Tok::P(b'<') => {
                if lx.peek() == Tok::P(b'{') {
                    let t = self.ty(lx);
                    lx.expect(b'>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n: u32 = lx.word().parse().unwrap();
                    assert_eq!(lx.word(), "x");
                    let e = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            t => {
                let a = lx.p.saturating_sub(120);
                let b = (lx.p + 60).min(lx.end);
                panic!("type? {t:?} near {}", String::from_utf8_lossy(&lx.s[a..b]))
            }
        };
        // function type suffix
        if lx.peek() == Tok::P(b'(') && matches!(base, Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(..) | Ty::F32 | Ty::F64 | Ty::Vec(..) | Ty::Arr(..)) {
            // only in call instructions with explicit fn type: `call i32 (ptr, ...) @f(...)`
            let save = lx.p;
            lx.skip_parens();
            if matches!(lx.peek(), Tok::Global(_) | Tok::Local(_)) {
                return base;
            }
            lx.p = save;
        }
        base
    }

    pub fn addr_of(&self, g: &str) -> u64 {
        if let Some(&i) = self.gl_ix.get(g) {
            self.globals[i as usize].base
        } else if let Some(&i) = self.fn_ix.get(g) {
            FN_BASE + i as u64 * 16
        } else {
            panic!("unknown global @{g}")
        }
    }

    pub fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Vec(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(Self::zero).collect())),
            _ => V::C(0),
        }
    }

    fn constant(&self, lx: &mut Lex, ty: &Ty) -> V {
        match lx.next() {
            Tok::Word(w) => match w.as_str() {
                "true" => V::C(1),
                "false" | "null" => V::C(0),
                "none" => V::C(0),
                "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
                "getelementptr" => {
                    loop {
                        match lx.peek() {
                            Tok::P(b'(') => break,
                            Tok::Word(_) => {
                                lx.next();
                                // inrange(a, b)
                                if let Tok::P(b'(') = lx.peek() {
                                    let save = lx.p;
                                    lx.next();
                                    let t = lx.peek();
                                    lx.p = save;
                                    if let Tok::Word(w) = t {
                                        if w.parse::<i64>().is_ok() {
                                            lx.skip_parens();
                                        }
                                    }
                                }
                            }
                            t => panic!("gep const {t:?}"),
                        }
                    }
                    lx.expect(b'(');
                    let mut t = self.ty(lx);
                    lx.expect(b',');
                    let pt = self.ty(lx);
                    let base = cv(&self.constant(lx, &pt)) as u64;
                    let mut off = 0i64;
                    let mut first = true;
                    while lx.accept(b',') {
                        let it = self.ty(lx);
                        let iv = cv(&self.constant(lx, &it));
                        let iv = sext(iv, it.bits()) as i64;
                        if first {
                            off = off.wrapping_add(iv.wrapping_mul(t.size() as i64));
                            first = false;
                        } else {
                            match &t {
                                Ty::Struct(..) => {
                                    off += t.field_offset(iv as usize) as i64;
                                    t = t.elem(iv as usize).clone();
                                }
                                _ => {
                                    let e = t.elem(0).clone();
                                    off += iv * e.size() as i64;
                                    t = e;
                                }
                            }
                        }
                    }
                    lx.expect(b')');
                    V::C(base.wrapping_add(off as u64) as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    let v = self.constant(lx, &t);
                    assert_eq!(lx.word(), "to");
                    let t2 = self.ty(lx);
                    lx.expect(b')');
                    match w.as_str() {
                        "trunc" => V::C(mask(cv(&v), t2.bits())),
                        "sext" => V::C(mask(sext(cv(&v), t.bits()) as u128, t2.bits())),
                        _ => v,
                    }
                }
                "add" | "sub" | "mul" | "xor" | "or" | "and" | "shl" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    let a = cv(&self.constant(lx, &t));
                    lx.expect(b',');
                    let t2 = self.ty(lx);
                    let b = cv(&self.constant(lx, &t2));
                    lx.expect(b')');
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "or" => a | b,
                        "and" => a & b,
                        _ => a << (b & 127),
                    };
                    V::C(mask(r, t.bits()))
                }
                "splat" => {
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    let v = self.constant(lx, &t);
                    lx.expect(b')');
                    match ty {
                        Ty::Vec(n, _) => V::A(Rc::new(vec![v; *n as usize])),
                        _ => panic!("splat"),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.constant(lx, ty),
                "asm" => V::C(0),
                w => match ty {
                    Ty::Int(b) => {
                        let v = parse_int(w);
                        V::C(mask(v, *b))
                    }
                    Ty::F64 => {
                        if let Some(h) = w.strip_prefix("0x") {
                            V::C(u64::from_str_radix(h, 16).unwrap() as u128)
                        } else {
                            V::C(w.parse::<f64>().unwrap().to_bits() as u128)
                        }
                    }
                    Ty::F32 => {
                        if let Some(h) = w.strip_prefix("0x") {
                            let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap());
                            V::C((d as f32).to_bits() as u128)
                        } else {
                            V::C((w.parse::<f64>().unwrap() as f32).to_bits() as u128)
                        }
                    }
                    Ty::FOther(_) => V::C(0),
                    _ => panic!("constant {w} of {ty:?}"),
                },
            },
            Tok::Global(g) => V::C(self.addr_of(&g) as u128),
            Tok::CStr(b) => V::A(Rc::new(b.into_iter().map(|x| V::C(x as u128)).collect())),
            Tok::P(b'[') => V::A(Rc::new(self.const_list(lx, b']'))),
            Tok::P(b'{') => V::A(Rc::new(self.const_list(lx, b'}'))),
            Tok::P(b'<') => {
                if lx.accept(b'{') {
                    let r = self.const_list(lx, b'}');
                    lx.expect(b'>');
                    V::A(Rc::new(r))
                } else {
                    V::A(Rc::new(self.const_list(lx, b'>')))
                }
            }
            t => {
                let a = lx.p.saturating_sub(200);
                let b = (lx.p + 60).min(lx.end);
                panic!("constant? {t:?} near {}", String::from_utf8_lossy(&lx.s[a..b]))
            }
        }
    }
    fn const_list(&self, lx: &mut Lex, end: u8) -> Vec<V> {
        let mut r = vec![];
        if lx.accept(end) {
            return r;
        }
        loop {
            let t = self.ty(lx);
            r.push(self.constant(lx, &t));
            if lx.accept(end) {
                return r;
            }
            lx.expect(b',');
        }
    }

    fn operand(&self, lx: &mut Lex, ty: &Ty, fc: &mut FnCtx) -> Op {
        if let Tok::Local(n) = lx.peek() {
            lx.next();
            return Op::L(fc.local(&n));
        }
        Op::K(self.constant(lx, ty))
    }
    fn tyop(&self, lx: &mut Lex, fc: &mut FnCtx) -> (Ty, Op) {
        let t = self.ty(lx);
        let o = self.operand(lx, &t, fc);
        (t, o)
    }
    /// skips attribute words (with optional parens / `align N`) up to a type start
    fn skip_attrs(&self, lx: &mut Lex) {
        loop {
            let t = lx.peek();
            if is_type_start(&t) {
                return;
            }
            match t {
                Tok::Word(w) => {
                    lx.next();
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    } else if w == "align" || w == "alignstack" {
                        lx.next();
                    }
                }
                Tok::P(b'#') => {
                    lx.next();
                    lx.next();
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.accept(b'=') {
                        lx.next();
                    }
                }
                t => {
                    let a = lx.p.saturating_sub(200);
                    let b = (lx.p + 60).min(lx.end);
                    panic!("attr? {t:?} near {}", String::from_utf8_lossy(&lx.s[a..b]))
                }
            }
        }
    }

    pub fn function(&mut self, ix: u32) -> Option<&'static Function> {
        if let Some(f) = self.fns[ix as usize].parsed {
            return Some(f);
        }
        let (a, b) = self.fns[ix as usize].body?;
        let f = self.parse_fn(ix, a, b);
        let f: &'static Function = Box::leak(Box::new(f));
        self.fns[ix as usize].parsed = Some(f);
        Some(f)
    }

    fn parse_fn(&self, ix: u32, a: usize, b: usize) -> Function {
        let mut fc = FnCtx { locals: HashMap::new(), blocks: HashMap::new() };
        let mut lx = Lex { s: self.src, p: a, end: b };
        loop {
            if let Tok::Global(_) = lx.next() {
                break;
            }
        }
        lx.expect(b'(');
        let mut nparams = 0;
        let mut nnum = 0u32;
        if !lx.accept(b')') {
            loop {
                if lx.peek() == Tok::Dots {
                    lx.next();
                    lx.expect(b')');
                    break;
                }
                self.skip_attrs(&mut lx);
                let _t = self.ty(&mut lx);
                // attributes then name
                loop {
                    match lx.peek() {
                        Tok::Local(n) => {
                            lx.next();
                            if n.parse::<u32>().is_ok() {
                                nnum += 1;
                            }
                            fc.local(&n);
                            nparams += 1;
                            break;
                        }
                        Tok::Word(w) => {
                            lx.next();
                            if lx.peek() == Tok::P(b'(') {
                                lx.skip_parens();
                            } else if w == "align" || w == "alignstack" {
                                lx.next();
                            }
                        }
                        Tok::Str(_) => {
                            lx.next();
                            if lx.accept(b'=') {
                                lx.next();
                            }
                        }
                        Tok::P(b',') | Tok::P(b')') => {
                            fc.local(&format!("__anon{nparams}"));
                            nparams += 1;
                            nnum += 1;
                            break;
                        }
                        t => panic!("param {t:?}"),
                    }
                }
                if lx.accept(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        lx.skip_line();
        lx.p += 1;
        // find labels
        let body = lx.p;
        let mut labels: Vec<(String, usize, usize)> = vec![]; // name, body start, label pos
        let mut p = body;
        let mut first_is_label = false;
        let mut first = true;
        while p < b {
            let mut e = p;
            while e < b && self.src[e] != b'\n' {
                e += 1;
            }
            let line = &self.src[p..e];
            if !line.is_empty() && line[0] != b' ' && line[0] != b'}' && line[0] != b';' {
                let name = if line[0] == b'"' {
                    let q = line[1..].iter().position(|c| *c == b'"').unwrap();
                    unesc(&line[1..1 + q])
                } else {
                    let q = line.iter().position(|c| *c == b':').unwrap();
                    line[..q].to_vec()
                };
                if first {
                    first_is_label = true;
                }
                labels.push((String::from_utf8_lossy(&name).into_owned(), e + 1, p));
                first = false;
            } else if !line.is_empty() && line[0] == b' ' {
                first = false;
            }
            p = e + 1;
        }
        if !first_is_label {
            labels.insert(0, (format!("{nnum}"), body, body));
        }
        for (i, l) in labels.iter().enumerate() {
            fc.blocks.insert(l.0.clone(), i as u32);
        }
        let mut blocks = vec![];
        for i in 0..labels.len() {
            let s = labels[i].1;
            let e = if i + 1 < labels.len() { labels[i + 1].2 } else { b };
            let mut lx = Lex { s: self.src, p: s, end: e };
            let mut blk = Block::default();
            loop {
                match lx.peek() {
                    Tok::Eof => break,
                    Tok::Nl => {
                        lx.next();
                        continue;
                    }
                    _ => {}
                }
                self.inst(&mut lx, &mut fc, &mut blk);
                lx.skip_line();
            }
            blocks.push(blk);
        }
        Function { name: self.fns[ix as usize].name.clone(), nparams, nlocals: fc.locals.len(), blocks }
    }

    fn inst(&self, lx: &mut Lex, fc: &mut FnCtx, blk: &mut Block) {
        let mut dst: Option<u32> = None;
        if let Tok::Local(n) = lx.peek() {
            lx.next();
            lx.expect(b'=');
            dst = Some(fc.local(&n));
        }
        let opw = match lx.next() {
            Tok::Word(w) => w,
            Tok::P(b'}') => return,
            Tok::P(b'#') => return, // debug records
            t => {
                let a = lx.p.saturating_sub(100);
                let b = (lx.p + 60).min(lx.end);
                panic!("inst? {t:?} near {}", String::from_utf8_lossy(&lx.s[a..b]))
            }
        };
        let d = dst.unwrap_or(u32::MAX);
        let bin = |w: &str| -> Option<BinOp> {
            Some(match w {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return None,
            })
        };
        if let Some(bo) = bin(&opw) {
            self.skip_attrs(lx);
            let t = self.ty(lx);
            let a = self.operand(lx, &t, fc);
            lx.expect(b',');
            let b = self.operand(lx, &t, fc);
            blk.insts.push(Inst::Bin(bo, t, a, b, d));
            return;
        }
        let inst = match opw.as_str() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_attrs(lx);
                let t = self.ty(lx);
                let a = self.operand(lx, &t, fc);
                lx.expect(b',');
                let b = self.operand(lx, &t, fc);
                let o = match opw.as_str() {
                    "fadd" => FOp::FAdd,
                    "fsub" => FOp::FSub,
                    "fmul" => FOp::FMul,
                    "fdiv" => FOp::FDiv,
                    _ => FOp::FRem,
                };
                Inst::FBin(o, t, a, b, d)
            }
            "fneg" => {
                self.skip_attrs(lx);
                let (t, a) = self.tyop(lx, fc);
                Inst::FNeg(t, a, d)
            }
            "fcmp" => {
                let mut pr = lx.word();
                while matches!(pr.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    pr = lx.word();
                }
                let t = self.ty(lx);
                let a = self.operand(lx, &t, fc);
                lx.expect(b',');
                let b = self.operand(lx, &t, fc);
                Inst::FCmp(pr, t, a, b, d)
            }
            "icmp" => {
                let mut w = lx.word();
                if w == "samesign" {
                    w = lx.word();
                }
                let p = match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    w => panic!("icmp {w}"),
                };
                let t = self.ty(lx);
                let a = self.operand(lx, &t, fc);
                lx.expect(b',');
                let b = self.operand(lx, &t, fc);
                Inst::ICmp(p, t, a, b, d)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
                self.skip_attrs(lx);
                let (t, a) = self.tyop(lx, fc);
                assert_eq!(lx.word(), "to");
                let t2 = self.ty(lx);
                let o = match opw.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    "bitcast" | "addrspacecast" => CastOp::BitCast,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptrunc" => CastOp::FpTrunc,
                    _ => CastOp::FpExt,
                };
                Inst::Cast(o, t, t2, a, d)
            }
            "select" => {
                self.skip_attrs(lx);
                let (ct, c) = self.tyop(lx, fc);
                lx.expect(b',');
                let (t, a) = self.tyop(lx, fc);
                lx.expect(b',');
                let (_, b) = self.tyop(lx, fc);
                Inst::Select(ct, t, c, a, b, d)
            }
            "load" => {
                lx.accept_word("atomic");
                lx.accept_word("volatile");
                let t = self.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tyop(lx, fc);
                Inst::Load(t, p, d)
            }
            "store" => {
                lx.accept_word("atomic");
                lx.accept_word("volatile");
                let (t, v) = self.tyop(lx, fc);
                lx.expect(b',');
                let (_, p) = self.tyop(lx, fc);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                while let Tok::Word(w) = lx.peek() {
                    if is_type_word(&w) {
                        break;
                    }
                    lx.next();
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                let mut t = self.ty(lx);
                lx.expect(b',');
                let (bt, base) = self.tyop(lx, fc);
                if let Ty::Vec(..) = bt {
                    blk.insts.push(Inst::Other("vector gep".into()));
                    return;
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                loop {
                    let save = lx.p;
                    if !lx.accept(b',') {
                        break;
                    }
                    if lx.peek() == Tok::P(b'!') {
                        lx.p = save;
                        break;
                    }
                    let (it, io) = self.tyop(lx, fc);
                    let (scale, nt) = if first {
                        (t.size() as i64, t.clone())
                    } else {
                        match &t {
                            Ty::Struct(..) => {
                                let k = match &io {
                                    Op::K(v) => cv(v) as usize,
                                    _ => panic!("struct gep"),
                                };
                                off += t.field_offset(k) as i64;
                                (0, t.elem(k).clone())
                            }
                            _ => {
                                let e = t.elem(0).clone();
                                (e.size() as i64, e)
                            }
                        }
                    };
                    let is_struct = !first && matches!(t, Ty::Struct(..));
                    first = false;
                    if !is_struct {
                        match &io {
                            Op::K(v) => off = off.wrapping_add((sext(cv(v), it.bits()) as i64).wrapping_mul(scale)),
                            _ => idx.push((io, scale, it.bits())),
                        }
                    }
                    t = nt;
                }
                Inst::Gep(base, off, idx, d)
            }
            "alloca" => {
                lx.accept_word("inalloca");
                let t = self.ty(lx);
                let mut cnt = None;
                let save = lx.p;
                if lx.accept(b',') {
                    if is_type_start(&lx.peek()) {
                        let (ct, c) = self.tyop(lx, fc);
                        cnt = Some((c, ct.bits()));
                    } else {
                        lx.p = save;
                    }
                }
                Inst::Alloca(t.size(), cnt, d)
            }
            "tail" | "musttail" | "notail" => {
                let w = lx.word();
                assert_eq!(w, "call");
                self.call(lx, fc, dst, false)
            }
            "call" => self.call(lx, fc, dst, false),
            "invoke" => self.call(lx, fc, dst, true),
            "br" => {
                if lx.accept_word("label") {
                    if let Tok::Local(n) = lx.next() {
                        Inst::Br(fc.block(&n))
                    } else {
                        panic!()
                    }
                } else {
                    let (_, c) = self.tyop(lx, fc);
                    lx.expect(b',');
                    lx.word();
                    let t = match lx.next() {
                        Tok::Local(n) => fc.block(&n),
                        _ => panic!(),
                    };
                    lx.expect(b',');
                    lx.word();
                    let f = match lx.next() {
                        Tok::Local(n) => fc.block(&n),
                        _ => panic!(),
                    };
                    Inst::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (t, v) = self.tyop(lx, fc);
                lx.expect(b',');
                lx.word();
                let def = match lx.next() {
                    Tok::Local(n) => fc.block(&n),
                    _ => panic!(),
                };
                lx.expect(b'[');
                let mut cases = vec![];
                loop {
                    match lx.peek() {
                        Tok::Nl => {
                            lx.next();
                        }
                        Tok::P(b']') => {
                            lx.next();
                            break;
                        }
                        _ => {
                            let (_, k) = {
                                let t = self.ty(lx);
                                let k = self.constant(lx, &t);
                                (t, k)
                            };
                            lx.expect(b',');
                            lx.word();
                            let b = match lx.next() {
                                Tok::Local(n) => fc.block(&n),
                                _ => panic!(),
                            };
                            cases.push((cv(&k), b));
                        }
                    }
                }
                Inst::Switch(t, v, def, cases)
            }
            "ret" => {
                let t = self.ty(lx);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.operand(lx, &t, fc)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "phi" => {
                self.skip_attrs(lx);
                let t = self.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let o = self.operand(lx, &t, fc);
                    lx.expect(b',');
                    let b = match lx.next() {
                        Tok::Local(n) => fc.block(&n),
                        _ => panic!(),
                    };
                    lx.expect(b']');
                    inc.push((b, o));
                    let save = lx.p;
                    if !lx.accept(b',') {
                        break;
                    }
                    if lx.peek() != Tok::P(b'[') {
                        lx.p = save;
                        break;
                    }
                }
                blk.phis.push((d, inc));
                return;
            }
            "extractvalue" => {
                let (_, a) = self.tyop(lx, fc);
                let ix = self.indices(lx);
                Inst::ExtractValue(a, ix, d)
            }
            "insertvalue" => {
                let (t, a) = self.tyop(lx, fc);
                lx.expect(b',');
                let (_, v) = self.tyop(lx, fc);
                let ix = self.indices(lx);
                Inst::InsertValue(t, a, v, ix, d)
            }
            "extractelement" => {
                let (_, a) = self.tyop(lx, fc);
                lx.expect(b',');
                let (_, i) = self.tyop(lx, fc);
                Inst::ExtractElement(a, i, d)
            }
            "insertelement" => {
                let (t, a) = self.tyop(lx, fc);
                lx.expect(b',');
                let (_, v) = self.tyop(lx, fc);
                lx.expect(b',');
                let (_, i) = self.tyop(lx, fc);
                Inst::InsertElement(t, a, v, i, d)
            }
            "shufflevector" => {
                let (t, a) = self.tyop(lx, fc);
                lx.expect(b',');
                let (_, b) = self.tyop(lx, fc);
                lx.expect(b',');
                let mt = self.ty(lx);
                // mask constant may contain poison
                let n = match &mt {
                    Ty::Vec(n, _) => *n as usize,
                    _ => panic!(),
                };
                let save = lx.p;
                let mut mask_: Vec<Option<usize>> = vec![];
                match lx.next() {
                    Tok::P(b'<') => loop {
                        let _t = self.ty(lx);
                        let w = lx.word();
                        mask_.push(w.parse::<usize>().ok());
                        if lx.accept(b'>') {
                            break;
                        }
                        lx.expect(b',');
                    },
                    Tok::Word(_) => {
                        lx.p = save;
                        let v = self.constant(lx, &mt);
                        if let V::A(x) = v {
                            mask_ = x.iter().map(|v| Some(cv(v) as usize)).collect();
                        }
                    }
                    _ => panic!("shuffle mask"),
                }
                assert_eq!(mask_.len(), n);
                Inst::Shuffle(t, a, b, mask_, d)
            }
            "atomicrmw" => {
                lx.accept_word("volatile");
                let op = lx.word();
                let (_, p) = self.tyop(lx, fc);
                lx.expect(b',');
                let (t, v) = self.tyop(lx, fc);
                Inst::AtomicRmw(op, t, p, v, d)
            }
            "cmpxchg" => {
                lx.accept_word("weak");
                lx.accept_word("volatile");
                let (_, p) = self.tyop(lx, fc);
                lx.expect(b',');
                let (t, c) = self.tyop(lx, fc);
                lx.expect(b',');
                let (_, n) = self.tyop(lx, fc);
                Inst::CmpXchg(t, p, c, n, d)
            }
            "freeze" => {
                let (_, a) = self.tyop(lx, fc);
                Inst::Freeze(a, d)
            }
            "fence" | "landingpad" | "cleanup" | "catch" | "filter" | "resume" => {
                if opw == "resume" {
                    Inst::Other("resume".into())
                } else {
                    Inst::Nop
                }
            }
            w => Inst::Other(w.to_string()),
        };
        if let Inst::Nop = inst {
            return;
        }
        blk.insts.push(inst);
    }

    fn indices(&self, lx: &mut Lex) -> Vec<usize> {
        let mut r = vec![];
        loop {
            let save = lx.p;
            if !lx.accept(b',') {
                break;
            }
            match lx.peek() {
                Tok::Word(w) => {
                    lx.next();
                    r.push(w.parse().unwrap());
                }
                _ => {
                    lx.p = save;
                    break;
                }
            }
        }
        r
    }

    fn call(&self, lx: &mut Lex, fc: &mut FnCtx, dst: Option<u32>, invoke: bool) -> Inst {
        self.skip_attrs(lx);
        let ret = self.ty(lx);
        let mut asm = false;
        let callee = match lx.next() {
            Tok::Global(g) => match self.fn_ix.get(&g) {
                Some(i) => Callee::Direct(*i),
                None => panic!("call of unknown @{g}"),
            },
            Tok::Local(n) => Callee::Indirect(Op::L(fc.local(&n))),
            Tok::Word(w) if w == "asm" => {
                asm = true;
                // asm [sideeffect] [...] "..", "..."
                loop {
                    match lx.peek() {
                        Tok::P(b'(') => break,
                        _ => {
                            lx.next();
                        }
                    }
                }
                Callee::Asm
            }
            Tok::Word(w) if w == "inttoptr" => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let v = self.constant(lx, &t);
                lx.word();
                self.ty(lx);
                lx.expect(b')');
                Callee::Indirect(Op::K(v))
            }
            Tok::Word(w) if w == "null" || w == "undef" || w == "poison" => Callee::Indirect(Op::K(V::C(0))),
            t => {
                let a = lx.p.saturating_sub(200);
                let b = (lx.p + 60).min(lx.end);
                panic!("callee? {t:?} near {}", String::from_utf8_lossy(&lx.s[a..b]))
            }
        };
        let mut args = vec![];
        lx.expect(b'(');
        if !lx.accept(b')') {
            loop {
                self.skip_attrs(lx);
                let t = self.ty(lx);
                if t == Ty::Meta {
                    // skip metadata operand
                    let mut d = 0;
                    loop {
                        match lx.peek() {
                            Tok::P(b'(') | Tok::P(b'{') => d += 1,
                            Tok::P(b')') | Tok::P(b',') | Tok::P(b'}') if d == 0 => break,
                            Tok::P(b')') | Tok::P(b'}') => d -= 1,
                            Tok::Eof => panic!(),
                            _ => {}
                        }
                        lx.next();
                    }
                    args.push((Op::K(V::C(0)), t));
                } else {
                    // attributes after the type
                    loop {
                        match lx.peek() {
                            Tok::Word(w) => {
                                // attribute or constant?
                                if is_attr_word(&w) {
                                    lx.next();
                                    if lx.peek() == Tok::P(b'(') {
                                        lx.skip_parens();
                                    } else if w == "align" || w == "alignstack" {
                                        lx.next();
                                    }
                                } else {
                                    break;
                                }
                            }
                            Tok::Str(_) => {
                                lx.next();
                                if lx.accept(b'=') {
                                    lx.next();
                                }
                            }
                            _ => break,
                        }
                    }
                    let o = self.operand(lx, &t, fc);
                    args.push((o, t));
                }
                if lx.accept(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        let _ = asm;
        let mut normal = None;
        if invoke {
            // ... to label %x unwind label %y
            loop {
                match lx.next() {
                    Tok::Word(w) if w == "to" => break,
                    Tok::Eof => panic!("invoke"),
                    _ => {}
                }
            }
            lx.word();
            if let Tok::Local(n) = lx.next() {
                normal = Some(fc.block(&n));
            }
        }
        Inst::Call { callee, args, ret: ret.clone(), dst: if ret == Ty::Void { None } else { dst }, normal }
    }
}

fn is_attr_word(w: &str) -> bool {
    matches!(
        w,
        "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "align" | "dereferenceable" | "dereferenceable_or_null" | "zeroext" | "signext" | "inreg" | "byval" | "sret" | "returned" | "range" | "captures" | "initializes" | "immarg" | "nofree" | "nest" | "swiftself" | "swifterror" | "allocptr" | "allocalign" | "writable" | "dead_on_unwind" | "nofpclass" | "elementtype" | "inalloca" | "byref" | "preallocated" | "noext" | "dead_on_return"
    )
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

pub fn cv(v: &V) -> u128 {
    match v {
        V::C(c) => *c,
        _ => panic!("not a concrete scalar: {v:?}"),
    }
}
pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}
fn parse_int(w: &str) -> u128 {
    if let Some(r) = w.strip_prefix('-') {
        (r.parse::<u128>().unwrap_or_else(|_| panic!("int {w}")) as i128).wrapping_neg() as u128
    } else if let Some(r) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) {
        u128::from_str_radix(r, 16).unwrap()
    } else {
        w.parse::<u128>().unwrap_or_else(|_| panic!("int {w}"))
    }
}

pub fn put_const(data: &mut [u8], off: usize, ty: &Ty, v: &V) {
    match (ty, v) {
        (Ty::Struct(fs, _), V::A(vs)) => {
            for i in 0..fs.len() {
                put_const(data, off + ty.field_offset(i) as usize, &fs[i], &vs[i]);
            }
        }
        (Ty::Arr(_, t), V::A(vs)) => {
            let s = t.size() as usize;
            for (i, x) in vs.iter().enumerate() {
                put_const(data, off + i * s, t, x);
            }
        }
        (Ty::Vec(_, t), V::A(vs)) => {
            let s = (t.bits() / 8) as usize;
            for (i, x) in vs.iter().enumerate() {
                put_const(data, off + i * s, t, x);
            }
        }
        (_, V::C(c)) => {
            let n = ty.store_size() as usize;
            for i in 0..n.min(16) {
                data[off + i] = (c >> (8 * i)) as u8;
            }
        }
        _ => panic!("put_const {ty:?}"),
    }
}
