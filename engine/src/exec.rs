//! Symbolic executor over the loaded module.
use crate::expr::{fold, Pool, K};
use crate::ir::*;
use crate::solver::Solver;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<u32>>,
    pub ro: bool,
}

const CH: usize = 32;
#[derive(Clone, Default)]
pub struct PVec {
    ch: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    len: usize,
}
impl PVec {
    fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        if i >= self.len {
            return None;
        }
        self.ch[i / CH][i % CH].as_ref()
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        if i >= self.len {
            return None;
        }
        let c = Rc::make_mut(&mut self.ch[i / CH]);
        c[i % CH].as_mut().map(Rc::make_mut)
    }
    fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        let c = Rc::make_mut(&mut self.ch[i / CH]);
        c[i % CH] = o;
    }
    fn push(&mut self, o: Option<Rc<Obj>>) -> usize {
        let i = self.len;
        if i % CH == 0 {
            self.ch.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.ch.last_mut().unwrap()).push(o);
        self.len += 1;
        i
    }
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Function,
    bb: u32,
    ip: u32,
    locals: Vec<V>,
    allocas: Vec<u32>,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct Input {
    name: String,
    bytes: Vec<u32>, // expressions, low byte first
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: PVec,
    free: Vec<u32>,
    pc: Vec<u32>,
    known: Rc<HashMap<u32, u128>>,
    dom: Rc<HashMap<usize, [u64; 4]>>,
    model: Rc<Vec<u128>>,
    inputs: Rc<Vec<Input>>,
    names: Rc<HashMap<String, u32>>,
    notes: Rc<Vec<(String, V)>>,
    phase: Rc<String>,
    panic_mode: u32,
    steps: u64,
    clock: V,
    rnd: u64,
    depth: u32,
    cov: Rc<Vec<String>>,
}

pub enum Stop {
    Done,
    Assume,
    Bug(String, String),
    Unsup(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub notes: Vec<(String, String)>,
    pub stack: Vec<String>,
    pub msg: String,
    pub count: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum H {
    Unknown,
    Body,
    Nop,
    Panic,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    LibcRealloc,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    RetZero,
    RetOne,
    KeyCreate,
    RetLen3,
    Clock,
    Getrandom,
    Syscall,
    Errno,
    Trap,
    SymMake,
    SymAssume,
    SymCheck,
    SymCover,
    SymPhase,
    SymConc,
    SymNote,
    SymTier,
    SymClock,
    SymIsEngine,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitRev,
    Fshl,
    Fshr,
    UCmp,
    SCmp,
    LoadRel,
    Expect,
    PtrMask,
    TlsAddr,
    VRedAdd,
    VRedOr,
    VRedAnd,
    VRedUMax,
    VRedUMin,
    VRedXor,
    Pmovmskb,
    FptouiSat,
    FptosiSat,
    FUn(u8),
    FBin2(u8),
    Extern,
}

pub struct Cfg {
    pub max_steps: u64,
    pub time_limit: f64,
    pub max_paths: u64,
    pub enum_limit: usize,
    pub verbose: bool,
    pub tier: u64,
}

pub struct Engine {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    cfg: Cfg,
    handlers: Vec<H>,
    work: Vec<State>,
    gl_bases: Vec<(u64, u64)>,
    nglob: usize,
    pub steps: u64,
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(String, Vec<u8>)>, Vec<String>)>,
    pub labels: BTreeMap<String, u64>,
    pub viol: Vec<Violation>,
    pub unsup: BTreeMap<String, u64>,
    pub fns_run: BTreeSet<u32>,
    pub max_path_steps: u64,
    pub max_depth: u32,
    pub done: bool,
    errno: u64,
    start: Instant,
    multi_shown: u32,
    pub xsat: u64,
    pub xunsat: u64,
    tables: HashMap<u32, [u64; 4]>,
    norms: HashMap<u32, ([u64; 4], u32)>,
    pub table_queries: u64,
    pub qstat: HashMap<String, (u64, f64)>,
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

impl Engine {
    pub fn new(m: Module, cfg: Cfg) -> Engine {
        let n = m.fns.len();
        let gl_bases = m.globals.iter().map(|g| (g.base, g.size)).collect::<Vec<_>>();
        let nglob = m.globals.len();
        Engine {
            m,
            p: Pool::new(),
            s: Solver::new(60_000),
            cfg,
            handlers: vec![H::Unknown; n],
            work: vec![],
            gl_bases,
            nglob,
            steps: 0,
            paths: 0,
            assumed: 0,
            forks: 0,
            checks: 0,
            checks_trivial: 0,
            covers: BTreeMap::new(),
            samples: vec![],
            labels: BTreeMap::new(),
            viol: vec![],
            unsup: BTreeMap::new(),
            fns_run: BTreeSet::new(),
            max_path_steps: 0,
            max_depth: 0,
            done: false,
            errno: 0,
            start: Instant::now(),
            multi_shown: 0,
            xsat: 0,
            xunsat: 0,
            tables: HashMap::new(),
            norms: HashMap::new(),
            table_queries: 0,
            qstat: HashMap::new(),
        }
    }

    pub fn run(&mut self, entry: &str) {
        let mut st = State {
            frames: vec![],
            mem: PVec::default(),
            free: vec![],
            pc: vec![],
            known: Rc::new(HashMap::new()),
            dom: Rc::new(HashMap::new()),
            model: Rc::new(vec![]),
            inputs: Rc::new(vec![]),
            names: Rc::new(HashMap::new()),
            notes: Rc::new(vec![]),
            phase: Rc::new("main".into()),
            panic_mode: 0,
            steps: 0,
            clock: V::C(1_725_000_000),
            rnd: 0x9e3779b97f4a7c15,
            depth: 0,
            cov: Rc::new(vec![]),
        };
        for g in &self.m.globals {
            st.mem.push(Some(Rc::new(Obj { data: g.data.clone(), sym: None, ro: g.constant })));
        }
        self.errno = self.alloc(&mut st, 8);
        let ix = *self.m.fn_ix.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let f = self.m.function(ix).expect("entry body");
        st.frames.push(Frame { f, bb: 0, ip: 0, locals: vec![V::C(0); f.nlocals], allocas: vec![], dst: None, normal: None });
        self.work.push(st);
        let mut last = Instant::now();
        while let Some(st) = self.work.pop() {
            self.path(st);
            if self.s.unknown {
                *self.unsup.entry("solver returned unknown".into()).or_insert(0) += 1;
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.cfg.time_limit {
                *self.unsup.entry("time limit".into()).or_insert(0) += 1;
                break;
            }
            if self.paths + self.assumed > self.cfg.max_paths {
                *self.unsup.entry("path limit".into()).or_insert(0) += 1;
                break;
            }
            if self.cfg.verbose && last.elapsed().as_secs() >= 5 {
                last = Instant::now();
                eprintln!("[{:.0}s] paths {} assumed {} work {} steps {} queries {} ({:.1}s) hits {} tab {} exprs {}", self.start.elapsed().as_secs_f64(), self.paths, self.assumed, self.work.len(), self.steps, self.s.queries, self.s.time, self.s.cache_hits, self.table_queries, self.p.n.len());
            }
        }
        self.done = self.work.is_empty();
        if self.cfg.verbose {
            let mut v: Vec<_> = self.qstat.iter().collect();
            v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
            for (n, (c, t)) in v.iter().take(15) {
                eprintln!("  {t:8.2}s {c:7} queries in {}", demangle(n));
            }
        }
    }

    fn path(&mut self, mut st: State) {
        let r = self.run_state(&mut st);
        self.max_path_steps = self.max_path_steps.max(st.steps);
        self.max_depth = self.max_depth.max(st.depth);
        match r {
            Stop::Done => {
                self.paths += 1;
                // cross-check: the path is feasible for Z3 as well
                if self.xsat < 40 {
                    self.xsat += 1;
                    if self.s.check(&self.p, &st.pc).is_none() && !self.s.unknown {
                        *self.unsup.entry("Z3 refutes a completed path".into()).or_insert(0) += 1;
                    }
                }
                if self.paths <= 3 || self.paths.is_power_of_two() {
                    let inputs = st.inputs.iter().map(|i| (i.name.clone(), i.bytes.iter().map(|e| self.p.eval(*e, &st.model) as u8).collect())).collect();
                    self.samples.push((inputs, st.cov.to_vec()));
                }
            }
            Stop::Assume => self.assumed += 1,
            Stop::Bug(kind, msg) => {
                self.paths += 1;
                let label = if kind == "check" { msg.clone() } else { format!("{}:{}", kind, st.phase) };
                let model = st.model.clone();
                self.report(&st, &kind, &label, &msg, &model);
            }
            Stop::Unsup(m) => {
                self.paths += 1;
                if self.cfg.verbose && !self.unsup.contains_key(&m) {
                    eprintln!("UNSUPPORTED {m}\n  {}", self.stack(&st).join("\n  "));
                }
                *self.unsup.entry(m).or_insert(0) += 1;
            }
        }
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| demangle(&f.f.name)).collect()
    }

    fn report(&mut self, st: &State, kind: &str, label: &str, msg: &str, model: &[u128]) {
        if let Some(v) = self.viol.iter_mut().find(|v| v.label == label) {
            v.count += 1;
            return;
        }
        let mut inputs = vec![];
        for i in st.inputs.iter() {
            let b = i.bytes.iter().map(|e| self.p.eval(*e, model) as u8).collect();
            inputs.push((i.name.clone(), b));
        }
        let mut notes = vec![];
        for (n, v) in st.notes.iter() {
            let x = match v {
                V::C(c) => *c,
                V::E(e) => self.p.eval(*e, model),
                _ => 0,
            };
            notes.push((n.clone(), x.to_string()));
        }
        let stack = self.stack(st);
        // what is found after the first violation adds nothing to the verdict: look on for two minutes at most
        if self.viol.is_empty() {
            self.cfg.time_limit = self.cfg.time_limit.min(self.start.elapsed().as_secs_f64() + 120.0);
        }
        self.viol.push(Violation { kind: kind.into(), label: label.into(), inputs, notes, stack, msg: msg.into(), count: 1 });
    }

    // ---------------------------------------------------------------- memory
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false });
        let id = if let Some(i) = st.free.pop() {
            st.mem.set(i as usize, Some(o));
            i as usize
        } else {
            st.mem.push(Some(o))
        };
        HEAP_BASE + ((id as u64) << HEAP_SHIFT)
    }
    fn alloc_chk(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size >= (1 << HEAP_SHIFT) {
            return Err(Stop::Unsup(format!("allocation of {size} bytes")));
        }
        Ok(self.alloc(st, size))
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let (id, off) = self.find(st, addr, 0)?;
        if off != 0 || id < self.nglob {
            return Err(Stop::Bug("memory".into(), format!("bad free {addr:#x}")));
        }
        st.mem.set(id, None);
        st.free.push(id as u32);
        Ok(())
    }
    fn find(&self, st: &State, addr: u64, n: u64) -> R<(usize, usize)> {
        if addr >= HEAP_BASE {
            let id = ((addr - HEAP_BASE) >> HEAP_SHIFT) as usize;
            let off = (addr & ((1 << HEAP_SHIFT) - 1)) as usize;
            if let Some(o) = st.mem.get(id) {
                if off as u64 + n <= o.data.len() as u64 {
                    return Ok((id, off));
                }
                return Err(Stop::Bug("memory".into(), format!("out of bounds access: offset {off} len {n} of object of {} bytes", o.data.len())));
            }
            return Err(Stop::Bug("memory".into(), format!("access to dead object at {addr:#x}")));
        }
        if addr >= GL_BASE {
            let i = self.gl_bases.partition_point(|g| g.0 <= addr);
            if i > 0 {
                let (b, s) = self.gl_bases[i - 1];
                if addr - b + n <= s {
                    return Ok((i - 1, (addr - b) as usize));
                }
            }
        }
        Err(Stop::Bug("memory".into(), format!("invalid access at {addr:#x} len {n}")))
    }
    fn load_int(&mut self, st: &State, addr: u64, n: usize) -> R<V> {
        let (id, off) = self.find(st, addr, n as u64)?;
        let o = st.mem.get(id).unwrap();
        match &o.sym {
            None => Ok(V::C(le(&o.data[off..off + n]))),
            Some(s) => {
                if s[off..off + n].iter().all(|x| *x == 0) {
                    return Ok(V::C(le(&o.data[off..off + n])));
                }
                let mut acc: Option<u32> = None;
                let o = o.clone();
                let s = o.sym.as_ref().unwrap();
                for i in (0..n).rev() {
                    let b = if s[off + i] != 0 { s[off + i] } else { self.p.konst(o.data[off + i] as u128, 8) };
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.p.concat(a, b),
                    });
                }
                Ok(self.p.val(acc.unwrap()))
            }
        }
    }
    fn load_ty(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Struct(fs, _) => {
                let mut r = vec![];
                for i in 0..fs.len() {
                    r.push(self.load_ty(st, addr + ty.field_offset(i), &fs[i])?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Arr(n, t) => {
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.load_ty(st, addr + i * t.size(), t)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            Ty::Vec(n, t) => {
                let b = t.bits() as u64;
                let mut r = vec![];
                if b % 8 != 0 {
                    let w = *n;
                    let v = self.load_int(st, addr, ((w + 7) / 8) as usize)?;
                    for i in 0..*n {
                        r.push(match &v {
                            V::C(c) => V::C((c >> i) & 1),
                            V::E(e) => {
                                let x = self.p.extract(*e, i, 1);
                                self.p.val(x)
                            }
                            _ => unreachable!(),
                        });
                    }
                    return Ok(V::A(Rc::new(r)));
                }
                for i in 0..*n as u64 {
                    r.push(self.load_ty(st, addr + i * (b / 8), t)?);
                }
                Ok(V::A(Rc::new(r)))
            }
            _ => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                let v = self.load_int(st, addr, n)?;
                if w % 8 != 0 {
                    return Ok(match v {
                        V::C(c) => V::C(mask(c, w)),
                        V::E(e) => {
                            let x = self.p.extract(e, 0, w);
                            self.p.val(x)
                        }
                        v => v,
                    });
                }
                Ok(v)
            }
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: usize) -> R<&'a mut Obj> {
        let o = st.mem.get_mut(id).unwrap();
        if o.ro {
            return Err(Stop::Bug("memory".into(), "write to constant".into()));
        }
        Ok(o)
    }
    fn store_int(&mut self, st: &mut State, addr: u64, n: usize, v: &V, w: u32) -> R<()> {
        let (id, off) = self.find(st, addr, n as u64)?;
        match v {
            V::C(c) => {
                let o = self.obj_mut(st, id)?;
                for i in 0..n {
                    o.data[off + i] = if i < 16 { (c >> (8 * i)) as u8 } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..n {
                        s[off + i] = 0;
                    }
                }
            }
            V::E(e) => {
                let e = if w % 8 != 0 { self.p.zext(*e, (n * 8) as u32) } else { *e };
                let e = self.norm(st, e);
                let bytes: Vec<u32> = (0..n)
                    .map(|i| {
                        let b = self.p.extract(e, 8 * i as u32, 8);
                        self.norm(st, b)
                    })
                    .collect();
                let kv: Vec<Option<u128>> = bytes.iter().map(|b| self.p.kv(*b)).collect();
                let o = self.obj_mut(st, id)?;
                if o.sym.is_none() {
                    o.sym = Some(vec![0; o.data.len()]);
                }
                for i in 0..n {
                    match kv[i] {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym.as_mut().unwrap()[off + i] = 0;
                        }
                        None => o.sym.as_mut().unwrap()[off + i] = bytes[i],
                    }
                }
            }
            V::A(_) => return Err(Stop::Unsup("store aggregate as int".into())),
        }
        Ok(())
    }
    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Struct(fs, _), V::A(vs)) => {
                for i in 0..fs.len() {
                    self.store_ty(st, addr + ty.field_offset(i), &fs[i], &vs[i])?;
                }
                Ok(())
            }
            (Ty::Arr(_, t), V::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store_ty(st, addr + i as u64 * t.size(), t, x)?;
                }
                Ok(())
            }
            (Ty::Vec(n, t), V::A(vs)) => {
                let b = t.bits() as u64;
                if b % 8 != 0 {
                    let x = self.vec_to_int(vs, t.bits());
                    return self.store_int(st, addr, ((*n as u64 * b + 7) / 8) as usize, &x, *n * b as u32);
                }
                for (i, x) in vs.iter().enumerate() {
                    self.store_ty(st, addr + i as u64 * (b / 8), t, x)?;
                }
                Ok(())
            }
            _ => {
                let w = ty.bits();
                self.store_int(st, addr, ((w + 7) / 8) as usize, v, w)
            }
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.find(st, s, n)?;
        let (di, d_o) = self.find(st, d, n)?;
        let n = n as usize;
        let src = st.mem.get(si).unwrap();
        let data: Vec<u8> = src.data[so..so + n].to_vec();
        let sym: Option<Vec<u32>> = src.sym.as_ref().map(|x| x[so..so + n].to_vec()).filter(|v| v.iter().any(|x| *x != 0));
        let o = self.obj_mut(st, di)?;
        o.data[d_o..d_o + n].copy_from_slice(&data);
        match sym {
            Some(sy) => {
                if o.sym.is_none() {
                    o.sym = Some(vec![0; o.data.len()]);
                }
                o.sym.as_mut().unwrap()[d_o..d_o + n].copy_from_slice(&sy);
            }
            None => {
                if let Some(x) = &mut o.sym {
                    for b in &mut x[d_o..d_o + n] {
                        *b = 0;
                    }
                }
            }
        }
        Ok(())
    }
    fn byte(&mut self, st: &State, addr: u64) -> R<V> {
        self.load_int(st, addr, 1)
    }
    fn string(&mut self, st: &mut State, p: &V, l: &V) -> R<String> {
        let p = self.conc(st, p)? as u64;
        let l = self.conc(st, l)? as u64;
        if l == 0 {
            return Ok(String::new());
        }
        let (id, off) = self.find(st, p, l)?;
        let o = st.mem.get(id).unwrap();
        Ok(String::from_utf8_lossy(&o.data[off..off + l as usize]).into_owned())
    }

    // ---------------------------------------------------------------- solving
    fn slice(&self, st: &State, e: u32) -> Vec<u32> {
        let mut syms = self.p.n[e as usize].syms;
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !used[i] {
                    let s = self.p.n[*c as usize].syms;
                    if s & syms != 0 {
                        used[i] = true;
                        out.push(*c);
                        if s & !syms != 0 {
                            syms |= s;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    /// Truth table of a 1-bit expression over the single byte-sized symbol it depends on.
    fn table(&mut self, e: u32) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) {
            return *t;
        }
        let ix = self.p.n[e as usize].syms.trailing_zeros();
        let v = self.p.vtab(e, ix);
        let mut t = [0u64; 4];
        for (x, y) in v.iter().enumerate() {
            if *y == 1 {
                t[x / 64] |= 1 << (x % 64);
            }
        }
        self.tables.insert(e, t);
        t
    }
    /// Some(symbol) when the expression depends on one symbol of at most 8 bits
    fn single(&self, e: u32) -> Option<usize> {
        let s = self.p.n[e as usize].syms;
        if s.count_ones() == 1 && s.trailing_zeros() < 127 {
            let ix = s.trailing_zeros() as usize;
            if self.p.sym_w[ix] <= 8 {
                return Some(ix);
            }
        }
        None
    }
    fn dom_of(&self, st: &State, ix: usize) -> [u64; 4] {
        if let Some(d) = st.dom.get(&ix) {
            return *d;
        }
        let n = 1usize << self.p.sym_w[ix];
        let mut t = [0u64; 4];
        for x in 0..n {
            t[x / 64] |= 1 << (x % 64);
        }
        t
    }
    /// Path-sensitive simplification of an expression over one byte: constant, or that byte itself, on every value
    /// the path condition leaves to it.
    fn norm(&mut self, st: &State, e: u32) -> u32 {
        let n = self.p.n[e as usize];
        if matches!(n.k, K::Const | K::Sym) || (n.k == K::ZExt && self.p.n[n.a as usize].k == K::Sym) {
            return e;
        }
        let Some(ix) = self.single(e) else { return e };
        let d = self.dom_of(st, ix);
        if let Some((d0, r)) = self.norms.get(&e) {
            if *d0 == d {
                return *r;
            }
        }
        self.p.vtab_trim();
        let v = self.p.vtab(e, ix as u32);
        let mut first = None;
        let mut konst = true;
        let mut ident = true;
        for (x, y) in v.iter().enumerate() {
            if d[x / 64] >> (x % 64) & 1 == 0 {
                continue;
            }
            ident &= *y == x as u128;
            match first {
                None => first = Some(*y),
                Some(f) => konst &= f == *y,
            }
            if !ident && !konst {
                break;
            }
        }
        let r = match first {
            None => e,
            Some(f) if konst => self.p.konst(f, n.w),
            _ if ident && n.w >= self.p.sym_w[ix] => {
                let s = self.sym_expr(ix);
                self.p.zext(s, n.w)
            }
            _ if n.k == K::Ite => {
                let s = self.sym_expr(ix);
                self.p.retab(s, &v, &d, n.w)
            }
            _ => e,
        };
        self.norms.insert(e, (d, r));
        r
    }
    fn norm_v(&mut self, st: &State, v: V) -> V {
        match v {
            V::E(e) => {
                let r = self.norm(st, e);
                self.p.val(r)
            }
            v => v,
        }
    }
    fn sym_expr(&mut self, ix: usize) -> u32 {
        let (n, w) = (self.p.sym_names[ix].clone(), self.p.sym_w[ix]);
        self.p.sym(&n, w)
    }
    fn sat(&mut self, st: &State, e: u32) -> Option<Rc<Vec<u128>>> {
        if let Some(k) = self.p.kv(e) {
            return if k == 1 { Some(st.model.clone()) } else { None };
        }
        if let Some(k) = st.known.get(&e) {
            return if *k == 1 { Some(st.model.clone()) } else { None };
        }
        let n = self.p.n[e as usize];
        // a disjunction of one-symbol conditions: disjunct by disjunct
        if n.k == K::Or || (n.k == K::Xor && self.p.kv(n.b) == Some(1) && self.p.n[n.a as usize].k == K::And) {
            let (mut todo, neg) = if n.k == K::Or { (vec![e], false) } else { (vec![n.a], true) };
            let want = if neg { K::And } else { K::Or };
            let mut leaves = vec![];
            let mut ok = true;
            while let Some(x) = todo.pop() {
                let m = self.p.n[x as usize];
                if m.k == want {
                    todo.push(m.a);
                    todo.push(m.b);
                } else if self.single(x).is_some() && leaves.len() < 64 {
                    leaves.push(x);
                } else {
                    ok = false;
                    break;
                }
            }
            if ok {
                for l in leaves {
                    let c = if neg { self.p.not(l) } else { l };
                    if let Some(m) = self.sat(st, c) {
                        return Some(m);
                    }
                }
                return None;
            }
        }
        let mut q = self.slice(st, e);
        q.push(e);
        if let Some(r) = self.sat_tables(st, &q) {
            return r;
        }
        self.sat_smt(st, q)
    }
    /// Exact decision when every condition depends on one symbol of at most 8 bits: truth tables, per symbol.
    fn sat_tables(&mut self, st: &State, q: &[u32]) -> Option<Option<Rc<Vec<u128>>>> {
        let mut doms: Vec<(usize, [u64; 4])> = vec![];
        for c in q {
            // conjunctions in the query itself
            let mut todo = vec![*c];
            while let Some(c) = todo.pop() {
                let n = self.p.n[c as usize];
                match self.single(c) {
                    Some(ix) => {
                        let u = self.table(c);
                        match doms.iter_mut().find(|d| d.0 == ix) {
                            Some(d) => {
                                for i in 0..4 {
                                    d.1[i] &= u[i];
                                }
                            }
                            None => doms.push((ix, u)),
                        }
                    }
                    None if n.k == K::And && n.w == 1 => {
                        todo.push(n.a);
                        todo.push(n.b);
                    }
                    None => return None,
                }
            }
        }
        self.table_queries += 1;
        let mut m: Vec<u128> = (*st.model).clone();
        for (ix, t) in doms {
            let mut v = None;
            for i in 0..4 {
                if t[i] != 0 {
                    v = Some((i as u32 * 64 + t[i].trailing_zeros()) as u128);
                    break;
                }
            }
            let Some(v) = v else {
                // cross-check: Z3 agrees that nothing is left
                if self.xunsat < 100 {
                    self.xunsat += 1;
                    if self.s.check(&self.p, q).is_some() {
                        *self.unsup.entry("Z3 satisfies a condition the tables refute".into()).or_insert(0) += 1;
                    }
                }
                return Some(None);
            };
            if m.len() <= ix {
                m.resize(ix + 1, 0);
            }
            m[ix] = v;
        }
        Some(Some(Rc::new(m)))
    }
    /// Z3's verdict (used for every assertion)
    fn sat_smt(&mut self, st: &State, q: Vec<u32>) -> Option<Rc<Vec<u128>>> {
        if self.cfg.verbose {
            let n = st.frames.last().map_or("", |f| &f.f.name).to_string();
            let t0 = self.s.time;
            let r = self.sat_smt2(st, q);
            let x = self.qstat.entry(n).or_insert((0, 0.0));
            x.0 += 1;
            x.1 += self.s.time - t0;
            return r;
        }
        self.sat_smt2(st, q)
    }
    fn sat_smt2(&mut self, st: &State, q: Vec<u32>) -> Option<Rc<Vec<u128>>> {
        let r = self.s.check(&self.p, &q)?;
        let mut m: Vec<u128> = (*st.model).clone();
        for (i, v) in r {
            if m.len() <= i as usize {
                m.resize(i as usize + 1, 0);
            }
            m[i as usize] = v;
        }
        Some(Rc::new(m))
    }
    fn add_pc(&mut self, st: &mut State, e: u32) {
        if self.p.kv(e).is_some() {
            return;
        }
        let n = self.p.n[e as usize];
        let known = Rc::make_mut(&mut st.known);
        known.insert(e, 1);
        match n.k {
            K::And if n.w == 1 => {
                self.add_pc(st, n.a);
                self.add_pc(st, n.b);
                return;
            }
            K::Xor if self.p.kv(n.b) == Some(1) => {
                known.insert(n.a, 0);
                let i = self.p.n[n.a as usize];
                if i.k == K::Or {
                    let x = self.p.not(i.a);
                    let y = self.p.not(i.b);
                    self.add_pc(st, x);
                    self.add_pc(st, y);
                    return;
                }
            }
            K::Eq => {
                if let Some(k) = self.p.kv(n.b) {
                    known.insert(n.a, k);
                }
            }
            _ => {}
        }
        let ne = self.p.not(e);
        Rc::make_mut(&mut st.known).insert(ne, 0);
        if let Some(ix) = self.single(e) {
            let mut d = self.dom_of(st, ix);
            let t = self.table(e);
            for i in 0..4 {
                d[i] &= t[i];
            }
            Rc::make_mut(&mut st.dom).insert(ix, d);
        }
        if self.cfg.verbose && self.p.n[e as usize].syms.count_ones() > 1 && self.multi_shown < 6 {
            self.multi_shown += 1;
            eprintln!("multi-symbol condition in {}: {}", st.frames.last().map_or("", |f| &f.f.name), self.p.show(e, 12));
        }
        st.pc.push(e);
    }
    /// Makes a value concrete, forking one state per feasible value (the forks re-execute the current instruction).
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        let e = match v {
            V::C(c) => return Ok(*c),
            V::E(e) => *e,
            V::A(_) => return Err(Stop::Unsup("aggregate concretised".into())),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let w = self.p.w(e);
        if w == 1 && self.p.split.contains(&e) && self.single(e).is_none() {
            if let Some(v) = self.conc_split(st, e)? {
                return Ok(v);
            }
        }
        let v0 = self.p.eval(e, &st.model.clone());
        let mut vals = vec![(v0, st.model.clone())];
        let single = self.single(e).filter(|ix| self.slice(st, e).iter().all(|c| self.single(*c) == Some(*ix)));
        if let Some(ix) = single {
            self.table_queries += 1;
            let d = self.dom_of(st, ix);
            let t = self.p.vtab(e, ix as u32);
            for (x, y) in t.iter().enumerate() {
                if d[x / 64] >> (x % 64) & 1 == 1 && !vals.iter().any(|v| v.0 == *y) {
                    let mut m: Vec<u128> = (*st.model).clone();
                    if m.len() <= ix {
                        m.resize(ix + 1, 0);
                    }
                    m[ix] = x as u128;
                    vals.push((*y, Rc::new(m)));
                }
            }
        } else if w == 1 {
            let other = if v0 == 1 { self.p.not(e) } else { e };
            if let Some(m) = self.sat(st, other) {
                vals.push((v0 ^ 1, m));
            }
        } else {
            let k = self.p.konst(v0, w);
            let mut excl = self.p.ne(e, k);
            loop {
                match self.sat(st, excl) {
                    None => break,
                    Some(m) => {
                        let x = self.p.eval(e, &m);
                        vals.push((x, m));
                        if vals.len() > self.cfg.enum_limit {
                            return Err(Stop::Unsup(format!("more than {} values for a concretised expression", self.cfg.enum_limit)));
                        }
                        let k = self.p.konst(x, w);
                        let ne = self.p.ne(e, k);
                        excl = self.p.bin(BinOp::And, excl, ne);
                    }
                }
                if self.s.unknown {
                    break;
                }
            }
        }
        for (x, m) in vals.iter().skip(1) {
            self.forks += 1;
            let mut c = st.clone();
            c.depth += 1;
            c.model = m.clone();
            self.bind(&mut c, e, *x, w);
            self.work.push(c);
        }
        self.bind(st, e, v0, w);
        if vals.len() > 1 {
            st.depth += 1;
        }
        Ok(v0)
    }
    /// Decides a conjunction (or its negation) of one-symbol conditions one condition at a time, so that no
    /// disjunction over several symbols enters the path condition.
    fn conc_split(&mut self, st: &mut State, e: u32) -> R<Option<u128>> {
        let n = self.p.n[e as usize];
        let (neg, root) = if n.k == K::Xor && self.p.kv(n.b) == Some(1) { (true, n.a) } else { (false, e) };
        let mut leaves = vec![];
        let mut todo = vec![root];
        while let Some(x) = todo.pop() {
            let n = self.p.n[x as usize];
            if n.k == K::And {
                todo.push(n.a);
                todo.push(n.b);
            } else if self.single(x).is_some() {
                leaves.push(x);
            } else {
                return Ok(None);
            }
        }
        leaves.reverse();
        let mut all = 1;
        for l in leaves {
            if self.conc(st, &V::E(l))? == 0 {
                all = 0;
                break;
            }
        }
        let v = all ^ neg as u128;
        Rc::make_mut(&mut st.known).insert(e, v);
        Ok(Some(v))
    }
    fn bind(&mut self, st: &mut State, e: u32, x: u128, w: u32) {
        let k = self.p.konst(x, w);
        let q = self.p.eq(e, k);
        self.add_pc(st, q);
        Rc::make_mut(&mut st.known).insert(e, x);
    }

    // ---------------------------------------------------------------- helpers
    fn vec_to_int(&mut self, vs: &[V], w: u32) -> V {
        if vs.iter().all(|v| matches!(v, V::C(_))) && vs.len() as u32 * w <= 128 {
            let mut r = 0u128;
            for (i, v) in vs.iter().enumerate() {
                r |= cv(v) << (i as u32 * w);
            }
            return V::C(r);
        }
        let mut acc: Option<u32> = None;
        for v in vs.iter().rev() {
            let x = self.p.id(v, w);
            acc = Some(match acc {
                None => x,
                Some(a) => self.p.concat(a, x),
            });
        }
        self.p.val(acc.unwrap())
    }
    fn int_to_vec(&mut self, v: &V, n: u32, w: u32) -> V {
        let mut r = vec![];
        for i in 0..n {
            r.push(match v {
                V::C(c) => V::C(mask(c >> (i * w), w)),
                V::E(e) => {
                    let x = self.p.extract(*e, i * w, w);
                    self.p.val(x)
                }
                _ => unreachable!(),
            });
        }
        V::A(Rc::new(r))
    }
    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(fold(op, w, *x, *y));
        }
        let x = self.p.id(a, w);
        let y = self.p.id(b, w);
        let r = self.p.bin(op, x, y);
        self.p.val(r)
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sext(x, w) > sext(y, w),
                Pred::Sge => sext(x, w) >= sext(y, w),
                Pred::Slt => sext(x, w) < sext(y, w),
                Pred::Sle => sext(x, w) <= sext(y, w),
            };
            return V::C(r as u128);
        }
        let x = self.p.id(a, w);
        let y = self.p.id(b, w);
        let r = match p {
            Pred::Eq => self.p.eq(x, y),
            Pred::Ne => self.p.ne(x, y),
            Pred::Ugt => self.p.ult(y, x),
            Pred::Uge => self.p.ule(y, x),
            Pred::Ult => self.p.ult(x, y),
            Pred::Ule => self.p.ule(x, y),
            Pred::Sgt => self.p.slt(y, x),
            Pred::Sge => self.p.sle(y, x),
            Pred::Slt => self.p.slt(x, y),
            Pred::Sle => self.p.sle(x, y),
        };
        self.p.val(r)
    }
    fn ite(&mut self, c: u32, ty: &Ty, a: &V, b: &V) -> V {
        match ty {
            Ty::Struct(fs, _) => {
                let (V::A(x), V::A(y)) = (a, b) else { panic!() };
                let r = (0..fs.len()).map(|i| self.ite(c, &fs[i], &x[i], &y[i])).collect();
                V::A(Rc::new(r))
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                let (V::A(x), V::A(y)) = (a, b) else { panic!() };
                let r = (0..x.len()).map(|i| self.ite(c, t, &x[i], &y[i])).collect();
                V::A(Rc::new(r))
            }
            _ => {
                let w = ty.bits();
                let x = self.p.id(a, w);
                let y = self.p.id(b, w);
                let r = self.p.ite(c, x, y);
                self.p.val(r)
            }
        }
    }
    fn gstride(&self, e: u32) -> u128 {
        let n = &self.p.n[e as usize];
        match n.k {
            K::Const => n.v,
            K::Add => gcd(self.gstride(n.a), self.gstride(n.b)),
            K::ZExt => self.gstride(n.a),
            K::Concat => {
                let lw = self.p.w(n.b);
                if self.p.kv(n.b) == Some(0) && lw < 60 {
                    (1u128 << lw).saturating_mul(self.gstride(n.a).max(1))
                } else {
                    1
                }
            }
            K::Mul => match self.p.kv(n.b) {
                Some(k) if self.p.umax(n.a).checked_mul(k).map_or(false, |m| m <= mask(u128::MAX, n.w)) => k,
                Some(k) => 1u128 << k.trailing_zeros().min(60),
                None => 1,
            },
            K::Ite => gcd(self.gstride(n.b), self.gstride(n.c)),
            _ => 1,
        }
    }
    /// load through a symbolic address without forking where possible
    fn load_sym(&mut self, st: &mut State, e: u32, ty: &Ty) -> R<V> {
        if let Some(k) = st.known.get(&e) {
            let k = *k as u64;
            return self.load_ty(st, k, ty);
        }
        let scalar = matches!(ty, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64);
        let n = self.p.n[e as usize];
        if scalar && n.k == K::Ite && n.itek > 0 && n.itek <= 8 {
            if let Some(r) = self.load_ite(st, e, ty) {
                return Ok(self.p.val(r));
            }
        }
        if scalar {
            let a0 = self.p.eval(e, &st.model.clone()) as u64;
            let sz = ty.store_size();
            if let Ok((id, off)) = self.find(st, a0, sz) {
                let o = st.mem.get(id).unwrap().clone();
                let base = a0 - off as u64;
                let size = o.data.len() as u64;
                if size <= 8192 {
                    // addr = k + x
                    let (k, x) = if n.k == K::Add && self.p.kv(n.b).is_some() { (self.p.kv(n.b).unwrap() as u64, n.a) } else { (0, e) };
                    let maxx = self.p.umax(x);
                    let mut lo = base;
                    let mut hi = base + size - sz;
                    if k >= base && k <= base + size {
                        lo = k;
                        if maxx < (1 << 32) {
                            hi = hi.min(k + maxx as u64);
                        }
                    }
                    let kl = self.p.konst(lo as u128, 64);
                    let kh = self.p.konst(hi as u128, 64);
                    let c1 = self.p.ule(kl, e);
                    let c2 = self.p.ule(e, kh);
                    let ok = self.p.bin(BinOp::And, c1, c2);
                    let bad = self.p.not(ok);
                    if self.sat(st, bad).is_none() && !self.s.unknown {
                        let mut stride = self.gstride(x).max(1);
                        if lo != k {
                            stride = 1;
                        }
                        let stride = stride.min(1 << 20) as u64;
                        let cnt = (hi - lo) / stride + 1;
                        if cnt <= 2048 {
                            let w = ty.bits();
                            // run-length encoded chain
                            let mut runs: Vec<(u64, u32)> = vec![]; // (end address exclusive, value)
                            let mut a = lo;
                            while a <= hi {
                                let v = self.load_ty(st, a, ty)?;
                                let v = self.p.id(&v, w);
                                match runs.last_mut() {
                                    Some(l) if l.1 == v => l.0 = a + stride,
                                    _ => runs.push((a + stride, v)),
                                }
                                a += stride;
                            }
                            let mut r = runs.last().unwrap().1;
                            for (end, v) in runs.iter().rev().skip(1) {
                                let ke = self.p.konst(*end as u128, 64);
                                let c = self.p.ult(e, ke);
                                r = self.p.ite(c, *v, r);
                            }
                            let r = self.norm(st, r);
                            return Ok(self.p.val(r));
                        }
                    }
                }
            }
        }
        let a = self.conc(st, &V::E(e))? as u64;
        self.load_ty(st, a, ty)
    }
    fn load_ite(&mut self, st: &State, e: u32, ty: &Ty) -> Option<u32> {
        let n = self.p.n[e as usize];
        if n.k == K::Ite {
            let a = self.load_ite(st, n.b, ty)?;
            let b = self.load_ite(st, n.c, ty)?;
            return Some(self.p.ite(n.a, a, b));
        }
        match self.load_ty(st, n.v as u64, ty) {
            Ok(v) => Some(self.p.id(&v, ty.bits())),
            Err(_) => None,
        }
    }

    fn op(&self, fr: &Frame, o: &Op) -> V {
        match o {
            Op::L(i) => fr.locals[*i as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }

    // ---------------------------------------------------------------- main loop
    fn run_state(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            self.steps += 1;
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                return Stop::Bug("limit".into(), format!("more than {} instructions on one path", self.cfg.max_steps));
            }
            if self.steps & 0xfffff == 0 && self.start.elapsed().as_secs_f64() > self.cfg.time_limit {
                return Stop::Unsup("time limit".into());
            }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let blk = &fr.f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = &inc.iter().find(|(b, _)| *b == from).expect("phi").1;
                vals.push((
                    *d,
                    match o {
                        Op::L(i) => fr.locals[*i as usize].clone(),
                        Op::K(v) => v.clone(),
                    },
                ));
            }
            for (d, v) in vals {
                fr.locals[d as usize] = v;
            }
        }
        fr.bb = to;
        fr.ip = 0;
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        let fr = st.frames.last_mut().unwrap();
        fr.locals[d as usize] = v;
        fr.ip += 1;
    }
    fn lanes(v: &V) -> &Rc<Vec<V>> {
        match v {
            V::A(x) => x,
            _ => panic!("lanes"),
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f;
        let inst = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        match inst {
            Inst::Nop => {
                st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Bin(op, ty, a, b, d) => {
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let r = match ty {
                    Ty::Vec(_, t) => {
                        let w = t.bits();
                        let (p, q) = (Self::lanes(&x), Self::lanes(&y));
                        V::A(Rc::new((0..p.len()).map(|i| self.bin(*op, w, &p[i], &q[i])).collect()))
                    }
                    _ => {
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                            if let V::C(0) = y {
                                return Err(Stop::Bug("memory".into(), "division by zero".into()));
                            }
                        }
                        self.bin(*op, ty.bits(), &x, &y)
                    }
                };
                self.set(st, *d, r);
            }
            Inst::ICmp(p, ty, a, b, d) => {
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let r = match ty {
                    Ty::Vec(_, t) => {
                        let w = t.bits();
                        let (u, v) = (Self::lanes(&x), Self::lanes(&y));
                        V::A(Rc::new((0..u.len()).map(|i| self.icmp(*p, w, &u[i], &v[i])).collect()))
                    }
                    _ => self.icmp(*p, ty.bits(), &x, &y),
                };
                self.set(st, *d, r);
            }
            Inst::Cast(op, from, to, a, d) => {
                let mut x = self.op(fr, a);
                if matches!(x, V::E(_)) && !matches!(op, CastOp::Trunc | CastOp::ZExt | CastOp::SExt | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::BitCast) {
                    x = V::C(self.conc(st, &x)?);
                }
                let r = self.cast(*op, from, to, &x)?;
                self.set(st, *d, r);
            }
            Inst::Select(ct, ty, c, a, b, d) => {
                let c = self.op(fr, c);
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let r = match (&c, ct) {
                    (V::C(k), _) => {
                        if *k == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    (V::A(cs), _) => {
                        let t = ty.elem(0).clone();
                        let (u, v) = (Self::lanes(&x), Self::lanes(&y));
                        let mut r = vec![];
                        for i in 0..cs.len() {
                            r.push(match &cs[i] {
                                V::C(k) => {
                                    if *k == 1 {
                                        u[i].clone()
                                    } else {
                                        v[i].clone()
                                    }
                                }
                                V::E(e) => self.ite(*e, &t, &u[i], &v[i]),
                                _ => unreachable!(),
                            });
                        }
                        V::A(Rc::new(r))
                    }
                    (V::E(e), _) => match st.known.get(e) {
                        Some(1) => x,
                        Some(_) => y,
                        None => self.ite(*e, ty, &x, &y),
                    },
                };
                self.set(st, *d, r);
            }
            Inst::Load(ty, p, d) => {
                let p = self.op(fr, p);
                let v = match &p {
                    V::C(a) => self.load_ty(st, *a as u64, ty)?,
                    V::E(e) => self.load_sym(st, *e, ty)?,
                    _ => return Err(Stop::Unsup("load ptr".into())),
                };
                self.set(st, *d, v);
            }
            Inst::Store(ty, v, p) => {
                let p = self.op(fr, p);
                let v = self.op(fr, v);
                let a = self.conc(st, &p)? as u64;
                self.store_ty(st, a, ty, &v)?;
                st.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Gep(base, off, idx, d) => {
                let b = self.op(fr, base);
                let mut r = b;
                for (io, scale, w) in idx {
                    let iv = self.op(fr, io);
                    let iv = match iv {
                        V::C(c) => V::C((sext(c, *w) as u128) & u64::MAX as u128),
                        V::E(e) => {
                            let x = if *w < 64 { self.p.sext(e, 64) } else { self.p.extract(e, 0, 64) };
                            self.p.val(x)
                        }
                        v => v,
                    };
                    let t = self.bin(BinOp::Mul, 64, &iv, &V::C(*scale as u64 as u128));
                    r = self.bin(BinOp::Add, 64, &r, &t);
                }
                if *off != 0 {
                    r = self.bin(BinOp::Add, 64, &r, &V::C(*off as u64 as u128));
                }
                self.set(st, *d, r);
            }
            Inst::Alloca(sz, cnt, d) => {
                let n = match cnt {
                    None => 1,
                    Some((o, _)) => {
                        let v = self.op(fr, o);
                        self.conc(st, &v)? as u64
                    }
                };
                let a = self.alloc_chk(st, sz * n)?;
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(((a - HEAP_BASE) >> HEAP_SHIFT) as u32);
                fr.locals[*d as usize] = V::C(a as u128);
                fr.ip += 1;
            }
            Inst::Br(t) => self.jump(st, *t),
            Inst::CondBr(c, t, e) => {
                let v = self.op(fr, c);
                let k = self.conc(st, &v)?;
                self.jump(st, if k == 1 { *t } else { *e });
            }
            Inst::Switch(ty, v, def, cases) => {
                let v = self.op(fr, v);
                let dest = match &v {
                    V::C(k) => cases.iter().find(|c| c.0 == *k).map_or(*def, |c| c.1),
                    V::E(e) => self.switch(st, *e, ty.bits(), *def, cases)?,
                    _ => return Err(Stop::Unsup("switch".into())),
                };
                self.jump(st, dest);
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|o| self.op(fr, o));
                let fr = st.frames.pop().unwrap();
                for id in fr.allocas.iter() {
                    st.mem.set(*id as usize, None);
                    st.free.push(*id);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                self.ret_to(st, fr.dst, fr.normal, r);
            }
            Inst::Unreachable => return Err(Stop::Bug("unreachable".into(), "unreachable instruction reached".into())),
            Inst::ExtractValue(a, ix, d) => {
                let mut v = self.op(fr, a);
                for i in ix {
                    let n = match &v {
                        V::A(x) => x[*i].clone(),
                        _ => return Err(Stop::Unsup("extractvalue".into())),
                    };
                    v = n;
                }
                self.set(st, *d, v);
            }
            Inst::InsertValue(_, a, v, ix, d) => {
                let mut agg = self.op(fr, a);
                let v = self.op(fr, v);
                fn ins(a: &mut V, ix: &[usize], v: V) {
                    if ix.is_empty() {
                        *a = v;
                        return;
                    }
                    if let V::A(x) = a {
                        ins(&mut Rc::make_mut(x)[ix[0]], &ix[1..], v)
                    }
                }
                ins(&mut agg, ix, v);
                self.set(st, *d, agg);
            }
            Inst::ExtractElement(a, i, d) => {
                let v = self.op(fr, a);
                let i = self.op(fr, i);
                let k = self.conc(st, &i)? as usize;
                let r = Self::lanes(&v)[k].clone();
                self.set(st, *d, r);
            }
            Inst::InsertElement(_, a, v, i, d) => {
                let mut agg = self.op(fr, a);
                let v = self.op(fr, v);
                let i = self.op(fr, i);
                let k = self.conc(st, &i)? as usize;
                if let V::A(x) = &mut agg {
                    Rc::make_mut(x)[k] = v;
                }
                self.set(st, *d, agg);
            }
            Inst::Shuffle(ty, a, b, m, d) => {
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let n = match ty {
                    Ty::Vec(n, _) => *n as usize,
                    _ => unreachable!(),
                };
                let (u, v) = (Self::lanes(&x), Self::lanes(&y));
                let r = m
                    .iter()
                    .map(|i| match i {
                        None => V::C(0),
                        Some(i) if *i < n => u[*i].clone(),
                        Some(i) => v[*i - n].clone(),
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(r)));
            }
            Inst::AtomicRmw(op, ty, p, v, d) => {
                let p = self.op(fr, p);
                let v = self.op(fr, v);
                let a = self.conc(st, &p)? as u64;
                let old = self.load_ty(st, a, ty)?;
                let w = ty.bits();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(BinOp::Add, w, &old, &v),
                    "sub" => self.bin(BinOp::Sub, w, &old, &v),
                    "and" => self.bin(BinOp::And, w, &old, &v),
                    "or" => self.bin(BinOp::Or, w, &old, &v),
                    "xor" => self.bin(BinOp::Xor, w, &old, &v),
                    o => return Err(Stop::Unsup(format!("atomicrmw {o}"))),
                };
                self.store_ty(st, a, ty, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(ty, p, c, n, d) => {
                let (p, c, n) = (self.op(fr, p), self.op(fr, c), self.op(fr, n));
                let a = self.conc(st, &p)? as u64;
                let old = self.load_ty(st, a, ty)?;
                let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let k = self.conc(st, &eq)?;
                if k == 1 {
                    self.store_ty(st, a, ty, &n)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(k)])));
            }
            Inst::Freeze(a, d) => {
                let v = self.op(fr, a);
                self.set(st, *d, v);
            }
            Inst::FBin(op, ty, a, b, d) => {
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let g = |x: f64, y: f64| match op {
                    FOp::FAdd => x + y,
                    FOp::FSub => x - y,
                    FOp::FMul => x * y,
                    FOp::FDiv => x / y,
                    FOp::FRem => x % y,
                };
                let r = match ty {
                    Ty::F64 => g(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128,
                    Ty::F32 => {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            FOp::FAdd => x + y,
                            FOp::FSub => x - y,
                            FOp::FMul => x * y,
                            FOp::FDiv => x / y,
                            FOp::FRem => x % y,
                        })
                        .to_bits() as u128
                    }
                    _ => return Err(Stop::Unsup("float type".into())),
                };
                self.set(st, *d, V::C(r));
            }
            Inst::FNeg(ty, a, d) => {
                let x = self.op(fr, a);
                let x = self.conc(st, &x)?;
                let r = x ^ (1u128 << (ty.bits() - 1));
                self.set(st, *d, V::C(r));
            }
            Inst::FCmp(p, ty, a, b, d) => {
                let (x, y) = (self.op(fr, a), self.op(fr, b));
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let (x, y) = match ty {
                    Ty::F64 => (f64::from_bits(x as u64), f64::from_bits(y as u64)),
                    Ty::F32 => (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64),
                    _ => return Err(Stop::Unsup("float type".into())),
                };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "one" => !un && x != y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "une" => x != y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *d, V::C(r as u128));
            }
            Inst::Other(w) => return Err(Stop::Unsup(format!("instruction {w}"))),
            Inst::Call { callee, args, ret, dst, normal } => {
                let ix = match callee {
                    Callee::Direct(i) => *i,
                    Callee::Indirect(o) => {
                        let v = self.op(fr, o);
                        let a = self.conc(st, &v)? as u64;
                        if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
                            return Err(Stop::Bug("memory".into(), format!("indirect call of {a:#x}")));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                    Callee::Asm => {
                        let r = if *ret == Ty::Void { None } else { Some(Module::zero(ret)) };
                        self.finish_call(st, *dst, *normal, r);
                        return Ok(());
                    }
                };
                let mut h = self.handlers[ix as usize];
                if h == H::Unknown {
                    h = classify(&self.m.fns[ix as usize].name, self.m.fns[ix as usize].body.is_some());
                    self.handlers[ix as usize] = h;
                }
                if h == H::Body {
                    let g = match self.m.fns[ix as usize].parsed {
                        Some(g) => g,
                        None => {
                            self.fns_run.insert(ix);
                            self.m.function(ix).unwrap()
                        }
                    };
                    let fr = st.frames.last().unwrap();
                    let mut locals = vec![V::C(0); g.nlocals];
                    for (i, (o, _)) in args.iter().enumerate().take(g.nparams) {
                        locals[i] = self.op(fr, o);
                    }
                    if st.frames.len() > 3000 {
                        return Err(Stop::Bug("limit".into(), "call depth".into()));
                    }
                    st.frames.push(Frame { f: g, bb: 0, ip: 0, locals, allocas: vec![], dst: *dst, normal: *normal });
                } else if h == H::Nop {
                    let r = if *ret == Ty::Void { None } else { Some(Module::zero(ret)) };
                    self.finish_call(st, *dst, *normal, r);
                } else {
                    let fr = st.frames.last().unwrap();
                    let a: Vec<V> = args.iter().map(|(o, _)| self.op(fr, o)).collect();
                    let r = self.external(st, ix, h, &a, args, ret)?;
                    self.finish_call(st, *dst, *normal, r);
                }
            }
        }
        Ok(())
    }
    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, r: Option<V>) {
        self.ret_to(st, dst, normal, r)
    }
    fn ret_to(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, r: Option<V>) {
        let fr = st.frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (dst, r) {
            fr.locals[d as usize] = v;
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => fr.ip += 1,
        }
    }
    fn switch(&mut self, st: &mut State, e: u32, w: u32, def: u32, cases: &[(u128, u32)]) -> R<u32> {
        if let Some(k) = st.known.get(&e) {
            return Ok(cases.iter().find(|c| c.0 == *k).map_or(def, |c| c.1));
        }
        // distinct destinations
        let mut dests: Vec<(u32, u32)> = vec![]; // (dest, cond)
        let mut none = self.p.konst(1, 1);
        for (k, d) in cases {
            let kk = self.p.konst(*k, w);
            let c = self.p.eq(e, kk);
            let nc = self.p.not(c);
            none = self.p.bin(BinOp::And, none, nc);
            match dests.iter_mut().find(|x| x.0 == *d) {
                Some(x) => x.1 = self.p.bin(BinOp::Or, x.1, c),
                None => dests.push((*d, c)),
            }
        }
        match dests.iter_mut().find(|x| x.0 == def) {
            Some(x) => x.1 = self.p.bin(BinOp::Or, x.1, none),
            None => dests.push((def, none)),
        }
        for (d, c) in &dests {
            if self.p.kv(*c) == Some(1) || st.known.get(c) == Some(&1) {
                return Ok(*d);
            }
        }
        let v0 = self.p.eval(e, &st.model.clone());
        let d0 = cases.iter().find(|c| c.0 == v0).map_or(def, |c| c.1);
        let mut c0 = 0;
        let mut forked = false;
        for (d, c) in &dests {
            if *d == d0 {
                c0 = *c;
                continue;
            }
            if let Some(m) = self.sat(st, *c) {
                self.forks += 1;
                forked = true;
                let mut s = st.clone();
                s.depth += 1;
                s.model = m;
                self.add_pc(&mut s, *c);
                Rc::make_mut(&mut s.known).insert(*c, 1);
                self.work.push(s);
            }
        }
        if forked {
            st.depth += 1;
        }
        self.add_pc(st, c0);
        Rc::make_mut(&mut st.known).insert(c0, 1);
        Ok(d0)
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, x: &V) -> R<V> {
        if let (Ty::Vec(n, ft), V::A(xs)) = (from, x) {
            match (op, to) {
                (CastOp::BitCast, Ty::Vec(n2, t2)) => {
                    if n == n2 {
                        return Ok(x.clone());
                    }
                    let (w1, w2) = (ft.bits(), t2.bits());
                    if n * w1 <= 128 {
                        let i = self.vec_to_int(xs, w1);
                        return Ok(self.int_to_vec(&i, *n2, w2));
                    }
                    return Err(Stop::Unsup("wide vector bitcast".into()));
                }
                (CastOp::BitCast, _) => return Ok(self.vec_to_int(xs, ft.bits())),
                (_, Ty::Vec(_, t2)) => {
                    let mut r = vec![];
                    for v in xs.iter() {
                        r.push(self.cast(op, ft, t2, v)?);
                    }
                    return Ok(V::A(Rc::new(r)));
                }
                _ => return Err(Stop::Unsup("vector cast".into())),
            }
        }
        if let Ty::Vec(n2, t2) = to {
            return Ok(self.int_to_vec(x, *n2, t2.bits()));
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match op {
            CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::ZExt => match x {
                V::C(c) => V::C(mask(*c, tw)),
                V::E(e) => {
                    let r = if tw < fw { self.p.extract(*e, 0, tw) } else { self.p.zext(*e, tw) };
                    self.p.val(r)
                }
                _ => return Err(Stop::Unsup("cast".into())),
            },
            CastOp::SExt => match x {
                V::C(c) => V::C(mask(sext(*c, fw) as u128, tw)),
                V::E(e) => {
                    let r = self.p.sext(*e, tw);
                    self.p.val(r)
                }
                _ => return Err(Stop::Unsup("cast".into())),
            },
            CastOp::BitCast => x.clone(),
            _ => {
                let V::C(c) = x else { return Err(Stop::Unsup("symbolic float cast".into())) };
                let c = *c;
                let tof = |t: &Ty, v: f64| match t {
                    Ty::F64 => v.to_bits() as u128,
                    _ => (v as f32).to_bits() as u128,
                };
                let fromf = |t: &Ty, c: u128| match t {
                    Ty::F64 => f64::from_bits(c as u64),
                    _ => f32::from_bits(c as u32) as f64,
                };
                match op {
                    CastOp::FpToUi => V::C(mask(fromf(from, c) as u128, tw)),
                    CastOp::FpToSi => V::C(mask((fromf(from, c) as i128) as u128, tw)),
                    CastOp::UiToFp => match to {
                        Ty::F64 => V::C((c as f64).to_bits() as u128),
                        _ => V::C((c as f32).to_bits() as u128),
                    },
                    CastOp::SiToFp => match to {
                        Ty::F64 => V::C((sext(c, fw) as f64).to_bits() as u128),
                        _ => V::C((sext(c, fw) as f32).to_bits() as u128),
                    },
                    CastOp::FpTrunc | CastOp::FpExt => V::C(tof(to, fromf(from, c))),
                    _ => unreachable!(),
                }
            }
        })
    }

    fn bool_v(&mut self, v: &V, w: u32) -> u32 {
        match v {
            V::C(c) => self.p.konst((*c != 0) as u128, 1),
            V::E(e) => {
                if w == 1 {
                    *e
                } else {
                    let z = self.p.konst(0, w);
                    self.p.ne(*e, z)
                }
            }
            _ => panic!(),
        }
    }

    fn external(&mut self, st: &mut State, ix: u32, h: H, a: &[V], args: &[(Op, Ty)], ret: &Ty) -> R<Option<V>> {
        let some = |v: V| Ok(Some(v));
        match h {
            H::Panic => {
                if st.panic_mode == 1 {
                    return Err(Stop::Done);
                }
                return Err(Stop::Bug("panic".into(), "panic".into()));
            }
            H::Trap => return Err(Stop::Bug("panic".into(), format!("abort ({})", self.m.fns[ix as usize].name))),
            H::Alloc | H::Malloc | H::AllocZeroed => {
                let n = self.conc(st, &a[0])? as u64;
                let p = self.alloc_chk(st, n)?;
                some(V::C(p as u128))
            }
            H::Calloc => {
                let n = self.conc(st, &a[0])? as u64 * self.conc(st, &a[1])? as u64;
                let p = self.alloc_chk(st, n)?;
                some(V::C(p as u128))
            }
            H::PosixMemalign => {
                let n = self.conc(st, &a[2])? as u64;
                let pp = self.conc(st, &a[0])? as u64;
                let p = self.alloc_chk(st, n)?;
                self.store_int(st, pp, 8, &V::C(p as u128), 64)?;
                some(V::C(0))
            }
            H::Dealloc | H::Free => {
                let p = self.conc(st, &a[0])? as u64;
                self.dealloc(st, p)?;
                Ok(None)
            }
            H::Realloc | H::LibcRealloc => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, if h == H::Realloc { &a[3] } else { &a[1] })? as u64;
                let q = self.alloc_chk(st, n)?;
                if p != 0 {
                    let (id, _) = self.find(st, p, 0)?;
                    let old = st.mem.get(id).unwrap().data.len() as u64;
                    self.copy(st, q, p, old.min(n))?;
                    self.dealloc(st, p)?;
                }
                some(V::C(q as u128))
            }
            H::Memcpy => {
                let n = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])? as u64;
                if let (V::E(e), true) = (&a[1], n > 0 && n <= 16) {
                    // source chosen by the input (look-up tables): one symbolic load per byte
                    let mut vs = vec![];
                    for i in 0..n {
                        let k = self.p.konst(i as u128, 64);
                        let x = self.p.bin(BinOp::Add, *e, k);
                        let v = match self.p.val(x) {
                            V::C(c) => self.load_ty(st, c as u64, &Ty::Int(8))?,
                            V::E(x) => self.load_sym(st, x, &Ty::Int(8))?,
                            _ => unreachable!(),
                        };
                        vs.push(v);
                    }
                    for (i, v) in vs.iter().enumerate() {
                        self.store_int(st, d + i as u64, 1, v, 8)?;
                    }
                } else {
                    let s = self.conc(st, &a[1])? as u64;
                    self.copy(st, d, s, n)?;
                }
                if *ret == Ty::Void {
                    Ok(None)
                } else {
                    some(a[0].clone())
                }
            }
            H::Memset => {
                let n = self.conc(st, &a[2])? as u64;
                let d = self.conc(st, &a[0])? as u64;
                let v = match &a[1] {
                    V::C(c) => V::C(c & 0xff),
                    V::E(e) => {
                        let x = self.p.extract(*e, 0, 8);
                        self.p.val(x)
                    }
                    _ => return Err(Stop::Unsup("memset".into())),
                };
                if n > 0 {
                    let (id, off) = self.find(st, d, n)?;
                    let o = self.obj_mut(st, id)?;
                    let n = n as usize;
                    match v {
                        V::C(c) => {
                            o.data[off..off + n].fill(c as u8);
                            if let Some(s) = &mut o.sym {
                                s[off..off + n].fill(0);
                            }
                        }
                        V::E(e) => {
                            if o.sym.is_none() {
                                o.sym = Some(vec![0; o.data.len()]);
                            }
                            o.sym.as_mut().unwrap()[off..off + n].fill(e);
                        }
                        _ => {}
                    }
                }
                if *ret == Ty::Void {
                    Ok(None)
                } else {
                    some(a[0].clone())
                }
            }
            H::Bcmp | H::Memcmp => {
                let n = self.conc(st, &a[2])? as u64;
                let p = self.conc(st, &a[0])? as u64;
                let q = self.conc(st, &a[1])? as u64;
                if n == 0 {
                    return some(V::C(0));
                }
                let (pi, po) = self.find(st, p, n)?;
                let (qi, qo) = self.find(st, q, n)?;
                let (x, y) = (st.mem.get(pi).unwrap().clone(), st.mem.get(qi).unwrap().clone());
                let n = n as usize;
                if x.sym.is_none() && y.sym.is_none() {
                    let r = match x.data[po..po + n].cmp(&y.data[qo..qo + n]) {
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Less => 0xffff_ffffu128,
                        _ => 1,
                    };
                    return some(V::C(r));
                }
                let get = |s: &mut Self, o: &Obj, i: usize| -> u32 {
                    match &o.sym {
                        Some(v) if v[i] != 0 => v[i],
                        _ => s.p.konst(o.data[i] as u128, 8),
                    }
                };
                if h == H::Bcmp {
                    let mut c = self.p.konst(1, 1);
                    for i in 0..n {
                        let (b1, b2) = (get(self, &x, po + i), get(self, &y, qo + i));
                        let e = self.p.eq(b1, b2);
                        c = self.p.bin(BinOp::And, c, e);
                        if self.p.kv(c) == Some(0) {
                            break;
                        }
                    }
                    let z = self.p.konst(0, 32);
                    let o = self.p.konst(1, 32);
                    let r = self.p.ite(c, z, o);
                    return some(self.p.val(r));
                }
                let mut r = self.p.konst(0, 32);
                let m1 = self.p.konst(u128::MAX, 32);
                let p1 = self.p.konst(1, 32);
                // first concrete difference ends the comparison
                let mut end = n;
                for i in 0..n {
                    let (b1, b2) = (get(self, &x, po + i), get(self, &y, qo + i));
                    if let (Some(u), Some(v)) = (self.p.kv(b1), self.p.kv(b2)) {
                        if u != v {
                            r = if u < v { m1 } else { p1 };
                            end = i;
                            break;
                        }
                    }
                }
                for i in (0..end).rev() {
                    let (b1, b2) = (get(self, &x, po + i), get(self, &y, qo + i));
                    let e = self.p.eq(b1, b2);
                    let l = self.p.ult(b1, b2);
                    let d = self.p.ite(l, m1, p1);
                    r = self.p.ite(e, r, d);
                }
                some(self.p.val(r))
            }
            H::Memchr => {
                let n = self.conc(st, &a[2])? as u64;
                let p = self.conc(st, &a[0])? as u64;
                let c = match &a[1] {
                    V::C(c) => V::C(c & 0xff),
                    V::E(e) => {
                        let x = self.p.extract(*e, 0, 8);
                        self.p.val(x)
                    }
                    _ => unreachable!(),
                };
                let mut r = V::C(0);
                for i in (0..n).rev() {
                    let b = self.byte(st, p + i)?;
                    let e = self.icmp(Pred::Eq, 8, &b, &c);
                    let e = self.p.id(&e, 1);
                    r = self.ite(e, &Ty::Ptr, &V::C((p + i) as u128), &r);
                }
                some(r)
            }
            H::Strlen => {
                let p = self.conc(st, &a[0])? as u64;
                let mut n = 0;
                loop {
                    let b = self.byte(st, p + n)?;
                    if self.conc(st, &b)? == 0 {
                        break;
                    }
                    n += 1;
                }
                some(V::C(n as u128))
            }
            H::RetZero => {
                if *ret == Ty::Void {
                    Ok(None)
                } else {
                    some(Module::zero(ret))
                }
            }
            H::RetOne => some(V::C(1)),
            H::KeyCreate => {
                let p = self.conc(st, &a[0])? as u64;
                self.store_int(st, p, 4, &V::C(1), 32)?;
                some(V::C(0))
            }
            H::RetLen3 => some(a[2].clone()),
            H::Clock => {
                let p = self.conc(st, &a[1])? as u64;
                let c = st.clock.clone();
                self.store_int(st, p, 8, &c, 64)?;
                self.store_int(st, p + 8, 8, &V::C(0), 64)?;
                some(V::C(0))
            }
            H::Getrandom => {
                let n = self.conc(st, &a[1])? as u64;
                let p = self.conc(st, &a[0])? as u64;
                self.random(st, p, n)?;
                some(V::C(n as u128))
            }
            H::Syscall => {
                let k = self.conc(st, &a[0])?;
                match k {
                    318 => {
                        let p = self.conc(st, &a[1])? as u64;
                        let n = self.conc(st, &a[2])? as u64;
                        self.random(st, p, n)?;
                        some(V::C(n as u128))
                    }
                    202 => some(V::C(0)),
                    k => Err(Stop::Unsup(format!("syscall {k}"))),
                }
            }
            H::Errno => some(V::C(self.errno as u128)),
            H::SymIsEngine => some(V::C(1)),
            H::SymMake => {
                // (ptr, len, name, namelen, per_byte)
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                let name = self.string(st, &a[2], &a[3])?;
                let per = self.conc(st, &a[4])?;
                let names = Rc::make_mut(&mut st.names);
                let k = names.entry(name.clone()).or_insert(0);
                let full = if *k == 0 { name.clone() } else { format!("{name}#{k}") };
                *k += 1;
                let mut bytes = vec![];
                if per == 0 && n <= 16 {
                    let s = self.p.sym(&full, (n * 8) as u32);
                    for i in 0..n {
                        bytes.push(self.p.extract(s, (8 * i) as u32, 8));
                    }
                    self.store_int(st, p, n as usize, &V::E(s), (n * 8) as u32)?;
                } else {
                    for i in 0..n {
                        // per: 1 full bytes, 2 ASCII (7 bits), 3 booleans (1 bit)
                        let w = match per {
                            2 => 7,
                            3 => 1,
                            _ => 8,
                        };
                        let s = self.p.sym(&format!("{full}[{i}]"), w);
                        let s = self.p.zext(s, 8);
                        bytes.push(s);
                        self.store_int(st, p + i, 1, &V::E(s), 8)?;
                    }
                }
                Rc::make_mut(&mut st.inputs).push(Input { name: full, bytes });
                Ok(None)
            }
            H::SymAssume => {
                let c = self.bool_v(&a[0], args[0].1.bits());
                match self.p.kv(c) {
                    Some(1) => return Ok(None),
                    Some(_) => return Err(Stop::Assume),
                    None => {}
                }
                let m = st.model.clone();
                if self.p.eval(c, &m) == 1 {
                    self.add_pc(st, c);
                    return Ok(None);
                }
                match self.sat(st, c) {
                    Some(m) => {
                        st.model = m;
                        self.add_pc(st, c);
                        Ok(None)
                    }
                    None => Err(Stop::Assume),
                }
            }
            H::SymCheck => {
                let c = self.bool_v(&a[0], args[0].1.bits());
                let label = self.string(st, &a[1], &a[2])?;
                *self.labels.entry(label.clone()).or_insert(0) += 1;
                self.checks += 1;
                match self.p.kv(c) {
                    Some(1) => {
                        self.checks_trivial += 1;
                        return Ok(None);
                    }
                    Some(_) => return Err(Stop::Bug("check".into(), label)),
                    None => {}
                }
                // a conjunction is refuted when one of its members is
                let mut refuted = None;
                let mut todo = vec![c];
                while let Some(x) = todo.pop() {
                    let n = self.p.n[x as usize];
                    if st.known.get(&x) == Some(&1) || self.p.kv(x) == Some(1) {
                        continue;
                    }
                    if n.k == K::And && n.w == 1 {
                        todo.push(n.b);
                        todo.push(n.a);
                        continue;
                    }
                    let nx = self.p.not(x);
                    let mut q = self.slice(st, nx);
                    q.push(nx);
                    refuted = self.sat_smt(st, q);
                    if refuted.is_some() {
                        break;
                    }
                }
                if let Some(m) = refuted {
                    self.report(st, "check", &label, &label, &m);
                    match self.sat(st, c) {
                        Some(m2) => st.model = m2,
                        None => return Err(Stop::Done),
                    }
                }
                if !self.s.unknown {
                    self.add_pc(st, c);
                }
                Ok(None)
            }
            H::SymCover => {
                let l = self.string(st, &a[0], &a[1])?;
                Rc::make_mut(&mut st.cov).push(l.clone());
                *self.covers.entry(l).or_insert(0) += 1;
                Ok(None)
            }
            H::SymPhase => {
                let l = self.string(st, &a[0], &a[1])?;
                let m = self.conc(st, &a[2])? as u32;
                st.phase = Rc::new(l);
                st.panic_mode = m;
                Ok(None)
            }
            H::SymConc => {
                let v = self.conc(st, &a[0])?;
                some(V::C(v))
            }
            H::SymNote => {
                let l = self.string(st, &a[0], &a[1])?;
                Rc::make_mut(&mut st.notes).push((l, a[2].clone()));
                Ok(None)
            }
            H::SymTier => some(V::C(self.cfg.tier as u128)),
            H::SymClock => {
                st.clock = a[0].clone();
                Ok(None)
            }
            H::TlsAddr | H::Expect => some(a[0].clone()),
            H::LoadRel => {
                let p = self.conc(st, &a[0])? as u64;
                let off = a[1].clone();
                let addr = self.bin(BinOp::Add, 64, &V::C(p as u128), &off);
                let v = match &addr {
                    V::C(x) => self.load_ty(st, *x as u64, &Ty::Int(32))?,
                    V::E(e) => self.load_sym(st, *e, &Ty::Int(32))?,
                    _ => unreachable!(),
                };
                let v = self.cast(CastOp::SExt, &Ty::Int(32), &Ty::Int(64), &v)?;
                some(self.bin(BinOp::Add, 64, &V::C(p as u128), &v))
            }
            H::PtrMask => some(self.bin(BinOp::And, 64, &a[0], &a[1])),
            H::VRedAdd | H::VRedOr | H::VRedAnd | H::VRedUMax | H::VRedUMin | H::VRedXor => {
                let t = args[0].1.elem(0).clone();
                let w = t.bits();
                let xs = Self::lanes(&a[0]).clone();
                let mut r = xs[0].clone();
                for x in xs.iter().skip(1) {
                    r = match h {
                        H::VRedAdd => self.bin(BinOp::Add, w, &r, x),
                        H::VRedOr => self.bin(BinOp::Or, w, &r, x),
                        H::VRedAnd => self.bin(BinOp::And, w, &r, x),
                        H::VRedXor => self.bin(BinOp::Xor, w, &r, x),
                        _ => {
                            let p = if h == H::VRedUMax { Pred::Ugt } else { Pred::Ult };
                            let c = self.icmp(p, w, &r, x);
                            match c {
                                V::C(1) => r,
                                V::C(_) => x.clone(),
                                V::E(e) => self.ite(e, &t, &r, x),
                                _ => unreachable!(),
                            }
                        }
                    };
                }
                some(r)
            }
            H::Pmovmskb => {
                let xs = Self::lanes(&a[0]).clone();
                let bits: Vec<V> = xs.iter().map(|x| self.bin(BinOp::LShr, 8, x, &V::C(7))).collect();
                let bits: Vec<V> = bits
                    .iter()
                    .map(|b| match b {
                        V::C(c) => V::C(c & 1),
                        V::E(e) => {
                            let x = self.p.extract(*e, 0, 1);
                            self.p.val(x)
                        }
                        _ => unreachable!(),
                    })
                    .collect();
                let v = self.vec_to_int(&bits, 1);
                some(self.cast(CastOp::ZExt, &Ty::Int(16), &Ty::Int(32), &v)?)
            }
            H::FptouiSat | H::FptosiSat => {
                let c = self.conc(st, &a[0])?;
                let f = match args[0].1 {
                    Ty::F64 => f64::from_bits(c as u64),
                    _ => f32::from_bits(c as u32) as f64,
                };
                let w = ret.bits();
                let r = if h == H::FptouiSat {
                    let m = mask(u128::MAX, w);
                    (f as u128).min(m)
                } else {
                    let mx = (1i128 << (w - 1)) - 1;
                    let mn = -(1i128 << (w - 1));
                    mask((f as i128).clamp(mn, mx) as u128, w)
                };
                some(V::C(r))
            }
            H::FUn(k) => {
                let c = self.conc(st, &a[0])?;
                let g = |f: f64| match k {
                    0 => f.abs(),
                    1 => f.floor(),
                    2 => f.ceil(),
                    3 => f.trunc(),
                    4 => f.sqrt(),
                    5 => f.round(),
                    _ => f.round_ties_even(),
                };
                some(match args[0].1 {
                    Ty::F64 => V::C(g(f64::from_bits(c as u64)).to_bits() as u128),
                    _ => V::C((g(f32::from_bits(c as u32) as f64) as f32).to_bits() as u128),
                })
            }
            H::FBin2(k) => {
                let (x, y) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let (x, y) = (&x, &y);
                let g = |p: f64, q: f64| match k {
                    0 => p.min(q),
                    1 => p.max(q),
                    _ => p.copysign(q),
                };
                some(match args[0].1 {
                    Ty::F64 => V::C(g(f64::from_bits(*x as u64), f64::from_bits(*y as u64)).to_bits() as u128),
                    _ => V::C((g(f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) as f32).to_bits() as u128),
                })
            }
            H::Extern | H::Unknown | H::Body | H::Nop => Err(Stop::Unsup(format!("external function {}", demangle(&self.m.fns[ix as usize].name)))),
            _ => {
                // arithmetic intrinsics, possibly on vectors
                let t = &args[0].1;
                if let Ty::Vec(n, et) = t {
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        let sub: Vec<V> = a
                            .iter()
                            .map(|v| match v {
                                V::A(x) => x[i].clone(),
                                v => v.clone(),
                            })
                            .collect();
                        out.push(self.arith(st, h, &sub, et.bits(), ret)?);
                    }
                    return some(V::A(Rc::new(out)));
                }
                let w = t.bits();
                let r = self.arith(st, h, a, w, ret)?;
                some(r)
            }
        }
    }
    fn random(&mut self, st: &mut State, p: u64, n: u64) -> R<()> {
        for i in 0..n {
            st.rnd ^= st.rnd << 13;
            st.rnd ^= st.rnd >> 7;
            st.rnd ^= st.rnd << 17;
            let b = V::C((st.rnd >> 24) as u128 & 0xff);
            self.store_int(st, p + i, 1, &b, 8)?;
        }
        Ok(())
    }
    fn arith(&mut self, st: &mut State, h: H, a: &[V], w: u32, ret: &Ty) -> R<V> {
        let pair = |r: V, o: V| V::A(Rc::new(vec![r, o]));
        Ok(match h {
            H::UAddO => {
                let r = self.bin(BinOp::Add, w, &a[0], &a[1]);
                let o = self.icmp(Pred::Ult, w, &r, &a[0]);
                pair(r, o)
            }
            H::USubO => {
                let r = self.bin(BinOp::Sub, w, &a[0], &a[1]);
                let o = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                pair(r, o)
            }
            H::UMulO => {
                let r = self.bin(BinOp::Mul, w, &a[0], &a[1]);
                let o = match (&a[0], &a[1]) {
                    (V::C(x), V::C(y)) => V::C(x.checked_mul(*y).map_or(true, |m| mask(m, w) != m) as u128),
                    _ => {
                        if w * 2 > 128 {
                            return Err(Stop::Unsup("128-bit multiplication overflow".into()));
                        }
                        let x = self.p.id(&a[0], w);
                        let y = self.p.id(&a[1], w);
                        if let Some(m) = self.p.umax(x).checked_mul(self.p.umax(y)) {
                            if mask(m, w) == m {
                                return Ok(pair(r, V::C(0)));
                            }
                        }
                        let (x, y) = (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w));
                        let m = self.p.bin(BinOp::Mul, x, y);
                        let hi = self.p.extract(m, w, w);
                        let z = self.p.konst(0, w);
                        let e = self.p.ne(hi, z);
                        self.p.val(e)
                    }
                };
                pair(r, o)
            }
            H::SAddO | H::SSubO | H::SMulO => {
                let op = match h {
                    H::SAddO => BinOp::Add,
                    H::SSubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let r = self.bin(op, w, &a[0], &a[1]);
                let o = match (&a[0], &a[1]) {
                    (V::C(x), V::C(y)) => {
                        let (x, y) = (sext(*x, w), sext(*y, w));
                        let f = match h {
                            H::SAddO => x.checked_add(y),
                            H::SSubO => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        V::C(f.map_or(true, |m| sext(mask(m as u128, w), w) != m) as u128)
                    }
                    _ => {
                        let ew = if h == H::SMulO { 2 * w } else { w + 1 };
                        if ew > 128 {
                            return Err(Stop::Unsup("wide signed overflow".into()));
                        }
                        let x = self.p.id(&a[0], w);
                        let y = self.p.id(&a[1], w);
                        let (x, y) = (self.p.sext(x, ew), self.p.sext(y, ew));
                        let m = self.p.bin(op, x, y);
                        let rr = self.p.id(&r, w);
                        let s = self.p.sext(rr, ew);
                        let e = self.p.ne(m, s);
                        self.p.val(e)
                    }
                };
                pair(r, o)
            }
            H::UAddSat => {
                let r = self.bin(BinOp::Add, w, &a[0], &a[1]);
                let o = self.icmp(Pred::Ult, w, &r, &a[0]);
                let o = self.p.id(&o, 1);
                self.ite(o, &Ty::Int(w), &V::C(mask(u128::MAX, w)), &r)
            }
            H::USubSat => {
                let r = self.bin(BinOp::Sub, w, &a[0], &a[1]);
                let o = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                let o = self.p.id(&o, 1);
                self.ite(o, &Ty::Int(w), &V::C(0), &r)
            }
            H::SAddSat | H::SSubSat => {
                let hh = if h == H::SAddSat { H::SAddO } else { H::SSubO };
                let p = self.arith(st, hh, a, w, ret)?;
                let V::A(p) = p else { unreachable!() };
                let neg = self.icmp(Pred::Slt, w, &a[0], &V::C(0));
                let neg = self.p.id(&neg, 1);
                let sat = self.ite(neg, &Ty::Int(w), &V::C(1u128 << (w - 1)), &V::C((1u128 << (w - 1)) - 1));
                let o = self.p.id(&p[1], 1);
                self.ite(o, &Ty::Int(w), &sat, &p[0])
            }
            H::UMax | H::UMin | H::SMax | H::SMin => {
                let p = match h {
                    H::UMax => Pred::Ugt,
                    H::UMin => Pred::Ult,
                    H::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                let c = self.p.id(&c, 1);
                self.ite(c, &Ty::Int(w), &a[0], &a[1])
            }
            H::Abs => {
                let c = self.icmp(Pred::Slt, w, &a[0], &V::C(0));
                let c = self.p.id(&c, 1);
                let n = self.bin(BinOp::Sub, w, &V::C(0), &a[0]);
                self.ite(c, &Ty::Int(w), &n, &a[0])
            }
            H::Ctlz => match &a[0] {
                V::C(c) => V::C((w - (128 - c.leading_zeros())) as u128),
                V::E(e) => {
                    let mut r = self.p.konst(w as u128, w);
                    for i in 0..w {
                        let b = self.p.extract(*e, i, 1);
                        let k = self.p.konst((w - 1 - i) as u128, w);
                        r = self.p.ite(b, k, r);
                    }
                    self.p.val(r)
                }
                _ => unreachable!(),
            },
            H::Cttz => match &a[0] {
                V::C(0) => V::C(w as u128),
                V::C(c) => V::C(c.trailing_zeros() as u128),
                V::E(e) => {
                    let mut r = self.p.konst(w as u128, w);
                    for i in (0..w).rev() {
                        let b = self.p.extract(*e, i, 1);
                        let k = self.p.konst(i as u128, w);
                        r = self.p.ite(b, k, r);
                    }
                    // an index in a scan: keep it concrete
                    let v = self.p.val(r);
                    V::C(self.conc(st, &v)?)
                }
                _ => unreachable!(),
            },
            H::Ctpop => match &a[0] {
                V::C(c) => V::C(c.count_ones() as u128),
                V::E(e) => {
                    let mut r = self.p.konst(0, w);
                    for i in 0..w {
                        let b = self.p.extract(*e, i, 1);
                        let z = self.p.zext(b, w);
                        r = self.p.bin(BinOp::Add, r, z);
                    }
                    self.p.val(r)
                }
                _ => unreachable!(),
            },
            H::Bswap | H::BitRev => {
                let g = if h == H::Bswap { 8 } else { 1 };
                match &a[0] {
                    V::C(c) => {
                        let mut r = 0u128;
                        for i in 0..w / g {
                            r = (r << g) | mask(c >> (i * g), g);
                        }
                        V::C(r)
                    }
                    V::E(e) => {
                        let mut acc = self.p.extract(*e, 0, g);
                        for i in 1..w / g {
                            let b = self.p.extract(*e, i * g, g);
                            acc = self.p.concat(acc, b);
                        }
                        self.p.val(acc)
                    }
                    _ => unreachable!(),
                }
            }
            H::Fshl | H::Fshr => {
                let s = (self.conc(st, &a[2])? as u32) % w;
                if s == 0 {
                    return Ok(if h == H::Fshl { a[0].clone() } else { a[1].clone() });
                }
                let (l, r) = if h == H::Fshl { (s, w - s) } else { (w - s, s) };
                let x = self.bin(BinOp::Shl, w, &a[0], &V::C(l as u128));
                let y = self.bin(BinOp::LShr, w, &a[1], &V::C(r as u128));
                self.bin(BinOp::Or, w, &x, &y)
            }
            H::UCmp | H::SCmp => {
                let rw = ret.bits();
                let p = if h == H::UCmp { Pred::Ult } else { Pred::Slt };
                let l = self.icmp(p, w, &a[0], &a[1]);
                let e = self.icmp(Pred::Eq, w, &a[0], &a[1]);
                let (l, e) = (self.p.id(&l, 1), self.p.id(&e, 1));
                let x = self.ite(e, &Ty::Int(rw), &V::C(0), &V::C(1));
                self.ite(l, &Ty::Int(rw), &V::C(mask(u128::MAX, rw)), &x)
            }
            _ => return Err(Stop::Unsup(format!("handler {h:?}"))),
        })
    }
}

fn le(b: &[u8]) -> u128 {
    let mut r = 0u128;
    for (i, x) in b.iter().enumerate().take(16) {
        r |= (*x as u128) << (8 * i);
    }
    r
}

fn classify(n: &str, body: bool) -> H {
    if let Some(r) = n.strip_prefix("llvm.") {
        let pre = |p: &str| r.starts_with(p);
        return match () {
            _ if pre("memcpy") || pre("memmove") => H::Memcpy,
            _ if pre("memset") => H::Memset,
            _ if pre("lifetime") || pre("assume") || pre("experimental.noalias") || pre("dbg") || pre("prefetch") || pre("donothing") || pre("stackrestore") || pre("va_") || pre("x86.sse2.pause") || pre("eh.") || pre("invariant") => H::Nop,
            _ if pre("stacksave") => H::RetZero,
            _ if pre("uadd.with") => H::UAddO,
            _ if pre("usub.with") => H::USubO,
            _ if pre("umul.with") => H::UMulO,
            _ if pre("sadd.with") => H::SAddO,
            _ if pre("ssub.with") => H::SSubO,
            _ if pre("smul.with") => H::SMulO,
            _ if pre("uadd.sat") => H::UAddSat,
            _ if pre("usub.sat") => H::USubSat,
            _ if pre("sadd.sat") => H::SAddSat,
            _ if pre("ssub.sat") => H::SSubSat,
            _ if pre("umax") => H::UMax,
            _ if pre("umin") => H::UMin,
            _ if pre("smax") => H::SMax,
            _ if pre("smin") => H::SMin,
            _ if pre("abs") => H::Abs,
            _ if pre("ctlz") => H::Ctlz,
            _ if pre("cttz") => H::Cttz,
            _ if pre("ctpop") => H::Ctpop,
            _ if pre("bswap") => H::Bswap,
            _ if pre("bitreverse") => H::BitRev,
            _ if pre("fshl") => H::Fshl,
            _ if pre("fshr") => H::Fshr,
            _ if pre("ucmp") => H::UCmp,
            _ if pre("scmp") => H::SCmp,
            _ if pre("load.relative") => H::LoadRel,
            _ if pre("expect") || pre("launder") || pre("strip.inv") || pre("ssa.copy") => H::Expect,
            _ if pre("ptrmask") => H::PtrMask,
            _ if pre("threadlocal.address") => H::TlsAddr,
            _ if pre("vector.reduce.add") => H::VRedAdd,
            _ if pre("vector.reduce.or") => H::VRedOr,
            _ if pre("vector.reduce.and") => H::VRedAnd,
            _ if pre("vector.reduce.xor") => H::VRedXor,
            _ if pre("vector.reduce.umax") => H::VRedUMax,
            _ if pre("vector.reduce.umin") => H::VRedUMin,
            _ if pre("x86.sse2.pmovmskb") => H::Pmovmskb,
            _ if pre("trap") || pre("ubsantrap") => H::Trap,
            _ if pre("is.constant") => H::RetZero,
            _ if pre("fptoui.sat") => H::FptouiSat,
            _ if pre("fptosi.sat") => H::FptosiSat,
            _ if pre("fabs") => H::FUn(0),
            _ if pre("floor") => H::FUn(1),
            _ if pre("ceil") => H::FUn(2),
            _ if pre("trunc") => H::FUn(3),
            _ if pre("sqrt") => H::FUn(4),
            _ if pre("round.") => H::FUn(5),
            _ if pre("rint") || pre("nearbyint") || pre("roundeven") => H::FUn(6),
            _ if pre("minnum") => H::FBin2(0),
            _ if pre("maxnum") => H::FBin2(1),
            _ if pre("copysign") => H::FBin2(2),
            _ => H::Extern,
        };
    }
    match n {
        "rust_begin_unwind" | "rust_panic" | "__rust_start_panic" | "__rust_foreign_exception" | "__rust_drop_panic" => return H::Panic,
        "__rust_alloc" | "__rdl_alloc" | "__rg_alloc" => return H::Alloc,
        "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" | "__rg_alloc_zeroed" => return H::AllocZeroed,
        "__rust_dealloc" | "__rdl_dealloc" | "__rg_dealloc" => return H::Dealloc,
        "__rust_realloc" | "__rdl_realloc" | "__rg_realloc" => return H::Realloc,
        "malloc" => return H::Malloc,
        "calloc" => return H::Calloc,
        "free" => return H::Free,
        "realloc" => return H::LibcRealloc,
        "posix_memalign" => return H::PosixMemalign,
        "memcpy" | "memmove" => return H::Memcpy,
        "memset" => return H::Memset,
        "bcmp" => return H::Bcmp,
        "memcmp" => return H::Memcmp,
        "memchr" => return H::Memchr,
        "strlen" => return H::Strlen,
        "clock_gettime" => return H::Clock,
        "getrandom" => return H::Getrandom,
        "syscall" => return H::Syscall,
        "__errno_location" => return H::Errno,
        "abort" | "exit" | "_exit" => return H::Trap,
        "getenv" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "signal" | "sigaction" | "pthread_mutex_lock" | "pthread_mutex_unlock" => return H::RetZero,
        "pthread_self" => return H::RetOne,
        "pthread_key_create" => return H::KeyCreate,
        "write" => return H::RetLen3,
        "sym_make" => return H::SymMake,
        "sym_assume" => return H::SymAssume,
        "sym_check" => return H::SymCheck,
        "sym_cover" => return H::SymCover,
        "sym_phase" => return H::SymPhase,
        "sym_concretize" => return H::SymConc,
        "sym_note" => return H::SymNote,
        "sym_tier" => return H::SymTier,
        "sym_clock" => return H::SymClock,
        "sym_is_engine" => return H::SymIsEngine,
        _ => {}
    }
    let d = demangle(n);
    if d.starts_with("std::panicking::rust_panic_with_hook") || d.starts_with("std::panicking::begin_panic") || d.starts_with("core::panicking::panic_fmt") || d.starts_with("core::panicking::panic_nounwind") || d.starts_with("std::process::abort") || d.starts_with("alloc::alloc::handle_alloc_error") {
        return H::Panic;
    }
    if body {
        H::Body
    } else {
        H::Extern
    }
}

/// Legacy Rust demangling (good enough for reports).
pub fn demangle(n: &str) -> String {
    let Some(r) = n.strip_prefix("_ZN") else { return n.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut l = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            l = l * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + l > b.len() {
            break;
        }
        parts.push(r[i..i + l].to_string());
        i += l;
    }
    if let Some(l) = parts.last() {
        if l.len() == 17 && l.starts_with('h') {
            parts.pop();
        }
    }
    let s = parts.join("::");
    let s = s.strip_prefix("_$").map(|x| format!("${x}")).unwrap_or(s);
    s.replace("$LT$", "<").replace("$GT$", ">").replace("$RF$", "&").replace("$u20$", " ").replace("$u7b$", "{").replace("$u7d$", "}").replace("$LP$", "(").replace("$RP$", ")").replace("$C$", ",").replace("$u5b$", "[").replace("$u5d$", "]").replace("$BP$", "*").replace("$u27$", "'").replace("..", "::")
}
