//! Hash-consed bit-vector expressions with local simplification.
use crate::ir::{mask, sext, BinOp, V};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,  // a high, b low
    Extract, // a, lo = k
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Key {
    k: K,
    w: u32,
    a: u32,
    b: u32,
    c: u32,
    v: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub k: K,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub v: u128,
    pub syms: u128,
    /// all leaves of a (nested) Ite are constants; value is the leaf count
    pub itek: u16,
}

pub struct Pool {
    /// conditions that are better decided symbol by symbol
    pub split: std::collections::HashSet<u32>,
    pub n: Vec<Node>,
    map: HashMap<Key, u32>,
    pub sym_names: Vec<String>,
    pub sym_w: Vec<u32>,
    sym_ix: HashMap<String, u32>,
    pub memo: Vec<(u32, u128)>,
    pub memo_gen: u32,
    vtabs: HashMap<u32, std::rc::Rc<Vec<u128>>>,
}

pub fn fold(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            if b == 0 {
                if sext(a, w) < 0 {
                    1
                } else {
                    u128::MAX
                }
            } else {
                sext(a, w).wrapping_div(sext(b, w)) as u128
            }
        }
        BinOp::SRem => {
            if b == 0 {
                a
            } else {
                sext(a, w).wrapping_rem(sext(b, w)) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    mask(r, w)
}

fn kof(op: BinOp) -> K {
    match op {
        BinOp::Add => K::Add,
        BinOp::Sub => K::Sub,
        BinOp::Mul => K::Mul,
        BinOp::UDiv => K::UDiv,
        BinOp::SDiv => K::SDiv,
        BinOp::URem => K::URem,
        BinOp::SRem => K::SRem,
        BinOp::Shl => K::Shl,
        BinOp::LShr => K::LShr,
        BinOp::AShr => K::AShr,
        BinOp::And => K::And,
        BinOp::Or => K::Or,
        BinOp::Xor => K::Xor,
    }
}
fn bop(k: K) -> BinOp {
    match k {
        K::Add => BinOp::Add,
        K::Sub => BinOp::Sub,
        K::Mul => BinOp::Mul,
        K::UDiv => BinOp::UDiv,
        K::SDiv => BinOp::SDiv,
        K::URem => BinOp::URem,
        K::SRem => BinOp::SRem,
        K::Shl => BinOp::Shl,
        K::LShr => BinOp::LShr,
        K::AShr => BinOp::AShr,
        K::And => BinOp::And,
        K::Or => BinOp::Or,
        K::Xor => BinOp::Xor,
        _ => unreachable!(),
    }
}

const ITEK_MAX: u16 = 40;

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            split: Default::default(), n: vec![], map: HashMap::new(), sym_names: vec![], sym_w: vec![], sym_ix: HashMap::new(), memo: vec![], memo_gen: 0, vtabs: HashMap::new() };
        p.konst(0, 1); // id 0 is reserved (false)
        p
    }
    fn mk(&mut self, k: K, w: u32, a: u32, b: u32, c: u32, v: u128) -> u32 {
        let key = Key { k, w, a, b, c, v };
        if let Some(i) = self.map.get(&key) {
            return *i;
        }
        let mut syms = 0u128;
        match k {
            K::Const => {}
            K::Sym => syms = 1u128 << (v.min(127) as u32),
            K::Extract | K::ZExt | K::SExt => syms = self.n[a as usize].syms,
            K::Ite => syms = self.n[a as usize].syms | self.n[b as usize].syms | self.n[c as usize].syms,
            _ => syms = self.n[a as usize].syms | self.n[b as usize].syms,
        }
        let itek = match k {
            K::Const => 1,
            K::Ite => {
                let x = self.n[b as usize].itek;
                let y = self.n[c as usize].itek;
                if x > 0 && y > 0 && x + y <= ITEK_MAX {
                    x + y
                } else {
                    0
                }
            }
            _ => 0,
        };
        let id = self.n.len() as u32;
        self.n.push(Node { k, w, a, b, c, v, syms, itek });
        self.map.insert(key, id);
        id
    }
    pub fn konst(&mut self, v: u128, w: u32) -> u32 {
        self.mk(K::Const, w, 0, 0, 0, mask(v, w))
    }
    pub fn sym(&mut self, name: &str, w: u32) -> u32 {
        let key = format!("{name}:{w}");
        let ix = match self.sym_ix.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.sym_names.len() as u32;
                self.sym_names.push(name.to_string());
                self.sym_w.push(w);
                self.sym_ix.insert(key, i);
                i
            }
        };
        self.mk(K::Sym, w, 0, 0, 0, ix as u128)
    }
    pub fn w(&self, e: u32) -> u32 {
        self.n[e as usize].w
    }
    pub fn kv(&self, e: u32) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.k == K::Const {
            Some(n.v)
        } else {
            None
        }
    }
    pub fn id(&mut self, v: &V, w: u32) -> u32 {
        match v {
            V::C(c) => self.konst(*c, w),
            V::E(e) => {
                debug_assert_eq!(self.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn val(&self, e: u32) -> V {
        match self.kv(e) {
            Some(c) => V::C(c),
            None => V::E(e),
        }
    }
    /// maps a function over the constant leaves of an Ite tree
    fn map_ite(&mut self, e: u32, f: &mut dyn FnMut(&mut Pool, u32) -> u32) -> u32 {
        let n = self.n[e as usize];
        if n.k == K::Ite {
            let x = self.map_ite(n.b, f);
            let y = self.map_ite(n.c, f);
            self.ite(n.a, x, y)
        } else {
            f(self, e)
        }
    }
    pub fn not(&mut self, a: u32) -> u32 {
        debug_assert_eq!(self.w(a), 1);
        let n = self.n[a as usize];
        match n.k {
            K::Const => self.konst(n.v ^ 1, 1),
            K::Ult => self.ule(n.b, n.a),
            K::Ule => self.ult(n.b, n.a),
            K::Slt => self.sle(n.b, n.a),
            K::Sle => self.slt(n.b, n.a),
            K::Xor if self.kv(n.b) == Some(1) => n.a,
            _ => {
                let one = self.konst(1, 1);
                self.mk(K::Xor, 1, a, one, 0, 0)
            }
        }
    }
    pub fn bin(&mut self, op: BinOp, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let (ka, kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = fold(op, w, x, y);
            return self.konst(r, w);
        }
        // canonical: constant on the right for commutative operators
        let comm = matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
        if comm && (ka.is_some() || (kb.is_none() && a > b)) {
            return self.bin_c(op, b, a, w);
        }
        self.bin_c(op, a, b, w)
    }
    fn bin_c(&mut self, op: BinOp, a: u32, b: u32, w: u32) -> u32 {
        let kb = self.kv(b);
        let ka = self.kv(a);
        let full = mask(u128::MAX, w);
        if let Some(k) = kb {
            match op {
                BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if k == 0 => return a,
                BinOp::Sub => {
                    let nk = self.konst(0u128.wrapping_sub(k), w);
                    return self.bin(BinOp::Add, a, nk);
                }
                BinOp::And if k == 0 => return b,
                BinOp::And if k == full => return a,
                BinOp::Or if k == full => return b,
                BinOp::Mul if k == 0 => return b,
                BinOp::Mul if k == 1 => return a,
                BinOp::UDiv | BinOp::SDiv if k == 1 => return a,
                BinOp::Mul if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.bin(BinOp::Shl, a, s);
                }
                BinOp::UDiv if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.bin(BinOp::LShr, a, s);
                }
                BinOp::URem if k.is_power_of_two() => {
                    let s = self.konst(k - 1, w);
                    return self.bin(BinOp::And, a, s);
                }
                BinOp::Shl | BinOp::LShr if k >= w as u128 => return self.konst(0, w),
                _ => {}
            }
            if w == 1 && op == BinOp::Xor {
                return self.not(a);
            }
            let na = self.n[a as usize];
            // op(ite(c,k1,k2),k)
            if na.k == K::Ite && na.itek > 0 {
                return self.map_ite(a, &mut |p, leaf| p.bin(op, leaf, b));
            }
            match (op, na.k) {
                (BinOp::Add, K::Add) => {
                    if let Some(k2) = self.kv(na.b) {
                        let s = self.konst(k.wrapping_add(k2), w);
                        return self.bin(BinOp::Add, na.a, s);
                    }
                }
                (BinOp::And, K::And) => {
                    if let Some(k2) = self.kv(na.b) {
                        let s = self.konst(k & k2, w);
                        return self.bin(BinOp::And, na.a, s);
                    }
                }
                (BinOp::Xor, K::Xor) => {
                    if let Some(k2) = self.kv(na.b) {
                        let s = self.konst(k ^ k2, w);
                        return self.bin(BinOp::Xor, na.a, s);
                    }
                }
                (BinOp::And, K::ZExt) => {
                    let iw = self.w(na.a);
                    let mi = mask(u128::MAX, iw);
                    if k & mi == mi {
                        return a;
                    }
                    let kk = self.konst(k, iw);
                    let r = self.bin(BinOp::And, na.a, kk);
                    return self.zext(r, w);
                }
                (BinOp::And | BinOp::Or | BinOp::Xor, K::Concat) => {
                    let lw = self.w(na.b);
                    let kl = self.konst(k, lw);
                    let kh = self.konst(k >> lw, w - lw);
                    let h = self.bin(op, na.a, kh);
                    let l = self.bin(op, na.b, kl);
                    return self.concat(h, l);
                }
                (BinOp::LShr, K::ZExt) => {
                    let iw = self.w(na.a);
                    if k >= iw as u128 {
                        return self.konst(0, w);
                    }
                    let kk = self.konst(k, iw);
                    let r = self.bin(BinOp::LShr, na.a, kk);
                    return self.zext(r, w);
                }
                (BinOp::Or, K::ZExt) | (BinOp::Xor, K::ZExt) => {
                    let iw = self.w(na.a);
                    if mask(k, iw) == k {
                        let kk = self.konst(k, iw);
                        let r = self.bin(op, na.a, kk);
                        return self.zext(r, w);
                    }
                }
                (BinOp::LShr, _) if w > 1 => {
                    // x >> k  ==  zext(extract(x, k, w-k))
                    let e = self.extract(a, k as u32, w - k as u32);
                    return self.zext(e, w);
                }
                (BinOp::And, _) if (k + 1).is_power_of_two() && w > 1 => {
                    let lw = (k + 1).trailing_zeros();
                    let e = self.extract(a, 0, lw);
                    return self.zext(e, w);
                }
                (BinOp::Shl, _) => {
                    let e = self.extract(a, 0, w - k as u32);
                    let z = self.konst(0, k as u32);
                    return self.concat(e, z);
                }
                (BinOp::AShr, K::ZExt) => {
                    return self.bin(BinOp::LShr, a, b);
                }
                _ => {}
            }
        }
        if let Some(k) = ka {
            if k == 0 && matches!(op, BinOp::Shl | BinOp::LShr | BinOp::AShr | BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                return a;
            }
            let nb = self.n[b as usize];
            if nb.k == K::Ite && nb.itek > 0 {
                return self.map_ite(b, &mut |p, leaf| p.bin(op, a, leaf));
            }
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.konst(0, w),
                _ => {}
            }
        }
        if w == 1 {
            // complementary
            let na = self.not(a);
            if na == b {
                match op {
                    BinOp::And => return self.konst(0, 1),
                    BinOp::Or | BinOp::Xor => return self.konst(1, 1),
                    _ => {}
                }
            }
        }
        // or of disjoint concat halves: zext(x) | concat(y, 0)
        if op == BinOp::Or || op == BinOp::Add || op == BinOp::Xor {
            let (x, y) = (self.n[a as usize], self.n[b as usize]);
            if let Some(r) = self.join(a, x, y) {
                return r;
            }
            if let Some(r) = self.join(b, y, x) {
                return r;
            }
        }
        self.mk(kof(op), w, a, b, 0, 0)
    }
    /// x = concat(hi, 0_k), y = zext(lo) with width(lo) <= k  =>  concat(hi, zext(lo,k))
    fn join(&mut self, _xi: u32, x: Node, y: Node) -> Option<u32> {
        if x.k == K::Concat && self.kv(x.b) == Some(0) && y.k == K::ZExt {
            let k = self.w(x.b);
            let lw = self.w(y.a);
            if lw <= k {
                let l = self.zext(y.a, k);
                return Some(self.concat(x.a, l));
            }
        }
        None
    }
    pub fn eq(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(1, 1);
        }
        let (ka, kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst((x == y) as u128, 1);
        }
        if ka.is_some() {
            return self.eq(b, a);
        }
        if let Some(k) = kb {
            let n = self.n[a as usize];
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match n.k {
                K::ZExt => {
                    let iw = self.w(n.a);
                    if mask(k, iw) != k {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.eq(n.a, kk);
                }
                K::SExt => {
                    let iw = self.w(n.a);
                    if mask(sext(mask(k, iw), iw) as u128, w) != k {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.eq(n.a, kk);
                }
                K::Concat => {
                    let lw = self.w(n.b);
                    let hw = w - lw;
                    let kl = self.konst(k, lw);
                    let kh = self.konst(k >> lw, hw);
                    let x = self.eq(n.a, kh);
                    let y = self.eq(n.b, kl);
                    return self.bin(BinOp::And, x, y);
                }
                K::Add => {
                    if let Some(k2) = self.kv(n.b) {
                        let kk = self.konst(k.wrapping_sub(k2), w);
                        return self.eq(n.a, kk);
                    }
                }
                K::Xor => {
                    if let Some(k2) = self.kv(n.b) {
                        let kk = self.konst(k ^ k2, w);
                        return self.eq(n.a, kk);
                    }
                    if k == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                K::Sub if k == 0 => return self.eq(n.a, n.b),
                K::And if self.kv(n.b).map_or(false, |m| k & !m != 0) => return self.konst(0, 1),
                K::And if w == 64 && k == 0x8080808080808080 => {
                    if let Some(r) = self.no_zero_byte(a) {
                        return r;
                    }
                }
                K::Or if k == 0 => {
                    let z = b;
                    let x = self.eq(n.a, z);
                    let y = self.eq(n.b, z);
                    return self.bin(BinOp::And, x, y);
                }
                K::Ite => {
                    if n.itek > 0 {
                        return self.map_ite(a, &mut |p, leaf| p.eq(leaf, b));
                    }
                    // one branch constant
                    if self.kv(n.b).is_some() || self.kv(n.c).is_some() {
                        let x = self.eq(n.b, b);
                        let y = self.eq(n.c, b);
                        return self.ite(n.a, x, y);
                    }
                }
                _ => {}
            }
        } else {
            let (x, y) = (self.n[a as usize], self.n[b as usize]);
            if x.k == K::ZExt && y.k == K::ZExt && self.w(x.a) == self.w(y.a) {
                return self.eq(x.a, y.a);
            }
            if w == 1 {
                let t = self.bin(BinOp::Xor, a, b);
                return self.not(t);
            }
            if x.k == K::Concat && y.k == K::Concat && self.w(x.b) == self.w(y.b) {
                let p = self.eq(x.a, y.a);
                let q = self.eq(x.b, y.b);
                return self.bin(BinOp::And, p, q);
            }
        }
        let (a, b) = if self.kv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mk(K::Eq, 1, a, b, 0, 0)
    }
    /// `(x | (0x0101010101010100 - x)) & 0x8080808080808080 == 0x8080808080808080` (possibly several such words
    /// and-ed together) holds exactly when x has no zero byte: rewritten byte by byte.
    fn no_zero_byte(&mut self, a: u32) -> Option<u32> {
        let mut todo = vec![a];
        let mut xs = vec![];
        let mut masked = u64::MAX as u128;
        while let Some(e) = todo.pop() {
            let n = self.n[e as usize];
            if let Some(k) = self.kv(e) {
                masked &= k;
            } else if n.k == K::And {
                todo.push(n.a);
                todo.push(n.b);
            } else if n.k == K::Or {
                let is = |p: &Pool, s: u32, x: u32| {
                    let m = p.n[s as usize];
                    m.k == K::Sub && p.kv(m.a) == Some(0x0101010101010100) && m.b == x
                };
                if is(self, n.b, n.a) {
                    xs.push(n.a);
                } else if is(self, n.a, n.b) {
                    xs.push(n.b);
                } else {
                    return None;
                }
            } else {
                return None;
            }
        }
        if masked & 0x8080808080808080 != 0x8080808080808080 || xs.is_empty() {
            return None;
        }
        let mut r = self.konst(1, 1);
        for x in xs {
            for i in 0..8 {
                let b = self.extract(x, i * 8, 8);
                let z = self.konst(0, 8);
                let c = self.ne(b, z);
                r = self.bin(BinOp::And, r, c);
            }
        }
        self.split.insert(r);
        let nr = self.not(r);
        self.split.insert(nr);
        Some(r)
    }
    /// The function of symbol `s` (width sw <= 8) given by its values on the domain, as a balanced decision tree.
    pub fn retab(&mut self, s: u32, vals: &[u128], dom: &[u64; 4], w: u32) -> u32 {
        let sw = self.w(s);
        // (first x of the run, value of the run; None: x + k)
        let build = |affine: bool| {
            let mut runs: Vec<(usize, bool, u128)> = vec![];
            let mut last: Option<(usize, u128)> = None;
            for (x, y) in vals.iter().enumerate() {
                if dom[x / 64] >> (x % 64) & 1 == 0 {
                    continue;
                }
                let off = mask(y.wrapping_sub(x as u128), w);
                match runs.last_mut() {
                    Some(r) if !r.1 && r.2 == *y => {}
                    Some(r) if r.1 && r.2 == off => {}
                    // a run of one may still become affine
                    Some(r) if affine && !r.1 && last.map(|l| (l.0, mask(l.1.wrapping_sub(l.0 as u128), w))) == Some((r.0, off)) => {
                        r.1 = true;
                        r.2 = off;
                    }
                    _ => runs.push((x, false, *y)),
                }
                last = Some((x, *y));
            }
            runs
        };
        let mut runs = build(false);
        if runs.len() > 12 {
            let r2 = build(true);
            if r2.len() * 2 < runs.len() {
                runs = r2;
            }
        }
        fn tree(p: &mut Pool, s: u32, sw: u32, w: u32, r: &[(usize, bool, u128)]) -> u32 {
            if r.len() == 1 {
                if !r[0].1 {
                    return p.konst(r[0].2, w);
                }
                let e = if w >= sw { p.zext(s, w) } else { p.extract(s, 0, w) };
                let k = p.konst(r[0].2, w);
                return p.bin(BinOp::Add, e, k);
            }
            let m = r.len() / 2;
            let a = tree(p, s, sw, w, &r[..m]);
            let b = tree(p, s, sw, w, &r[m..]);
            let k = p.konst(r[m].0 as u128, sw);
            let c = p.ult(s, k);
            p.ite(c, a, b)
        }
        if runs.is_empty() {
            return self.konst(0, w);
        }
        tree(self, s, sw, w, &runs)
    }
    pub fn ne(&mut self, a: u32, b: u32) -> u32 {
        let e = self.eq(a, b);
        self.not(e)
    }
    /// unsigned upper bound
    pub fn umax(&self, a: u32) -> u128 {
        let n = &self.n[a as usize];
        match n.k {
            K::Const => n.v,
            K::ZExt => self.umax(n.a),
            K::And => self.umax(n.a).min(self.umax(n.b)),
            K::URem => match self.kv(n.b) {
                Some(k) if k > 0 => k - 1,
                _ => mask(u128::MAX, n.w),
            },
            K::LShr => match self.kv(n.b) {
                Some(k) if k < 128 => self.umax(n.a) >> k,
                _ => mask(u128::MAX, n.w),
            },
            K::UDiv => match self.kv(n.b) {
                Some(k) if k > 0 => self.umax(n.a) / k,
                _ => mask(u128::MAX, n.w),
            },
            K::Ite => self.umax(n.b).max(self.umax(n.c)),
            K::Concat => {
                let lw = self.w(n.b);
                (self.umax(n.a) << lw) | self.umax(n.b)
            }
            K::Add => {
                let s = self.umax(n.a).saturating_add(self.umax(n.b));
                if s <= mask(u128::MAX, n.w) {
                    s
                } else {
                    mask(u128::MAX, n.w)
                }
            }
            K::Or | K::Xor => {
                let m = self.umax(n.a) | self.umax(n.b);
                if m == 0 {
                    0
                } else {
                    let bits = 128 - m.leading_zeros();
                    mask(u128::MAX, bits)
                }
            }
            K::Mul => self.umax(n.a).checked_mul(self.umax(n.b)).filter(|s| *s <= mask(u128::MAX, n.w)).unwrap_or(mask(u128::MAX, n.w)),
            _ => mask(u128::MAX, n.w),
        }
    }
    pub fn ult(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(0, 1);
        }
        let (ka, kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst((x < y) as u128, 1);
        }
        if w == 1 {
            let na = self.not(a);
            return self.bin(BinOp::And, na, b);
        }
        if let Some(k) = kb {
            if k == 0 {
                return self.konst(0, 1);
            }
            if self.umax(a) < k {
                return self.konst(1, 1);
            }
            if k == 1 {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            let n = self.n[a as usize];
            if n.k == K::Ite && n.itek > 0 {
                return self.map_ite(a, &mut |p, leaf| p.ult(leaf, b));
            }
            if n.k == K::ZExt {
                let iw = self.w(n.a);
                let kk = self.konst(k, iw);
                return self.ult(n.a, kk);
            }
            // umax <= k means a<k <=> a != k
            if self.umax(a) == k {
                return self.ne(a, b);
            }
        }
        if let Some(k) = ka {
            if k == mask(u128::MAX, w) || self.umax(b) <= k {
                return self.konst(0, 1);
            }
            if k == 0 {
                return self.ne(b, a);
            }
            let n = self.n[b as usize];
            if n.k == K::Ite && n.itek > 0 {
                return self.map_ite(b, &mut |p, leaf| p.ult(a, leaf));
            }
            if n.k == K::ZExt {
                let iw = self.w(n.a);
                let kk = self.konst(k, iw);
                return self.ult(kk, n.a);
            }
        }
        let (x, y) = (self.n[a as usize], self.n[b as usize]);
        if x.k == K::ZExt && y.k == K::ZExt && self.w(x.a) == self.w(y.a) {
            return self.ult(x.a, y.a);
        }
        self.mk(K::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        if a == b {
            return self.konst(1, 1);
        }
        if let Some(k) = self.kv(b) {
            if k == mask(u128::MAX, w) {
                return self.konst(1, 1);
            }
            let kk = self.konst(k + 1, w);
            return self.ult(a, kk);
        }
        if let Some(k) = self.kv(a) {
            if k == 0 {
                return self.konst(1, 1);
            }
            let kk = self.konst(k - 1, w);
            return self.ult(kk, b);
        }
        let (x, y) = (self.n[a as usize], self.n[b as usize]);
        if x.k == K::ZExt && y.k == K::ZExt && self.w(x.a) == self.w(y.a) {
            return self.ule(x.a, y.a);
        }
        self.mk(K::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        if a == b {
            return self.konst(0, 1);
        }
        let (ka, kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let half = 1u128 << (w - 1);
        if w > 1 && self.umax(a) < half && self.umax(b) < half {
            return self.ult(a, b);
        }
        if let Some(k) = kb {
            let n = self.n[a as usize];
            if n.k == K::Ite && n.itek > 0 {
                return self.map_ite(a, &mut |p, leaf| p.slt(leaf, b));
            }
            if k == 0 && self.umax(a) < half {
                return self.konst(0, 1);
            }
            if sext(k, w) < 0 && self.umax(a) < half {
                return self.konst(0, 1);
            }
        }
        if let Some(k) = ka {
            let n = self.n[b as usize];
            if n.k == K::Ite && n.itek > 0 {
                return self.map_ite(b, &mut |p, leaf| p.slt(a, leaf));
            }
            if sext(k, w) < 0 && self.umax(b) < half {
                return self.konst(1, 1);
            }
        }
        self.mk(K::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: u32, b: u32) -> u32 {
        let w = self.w(a);
        if a == b {
            return self.konst(1, 1);
        }
        if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            return self.konst((sext(x, w) <= sext(y, w)) as u128, 1);
        }
        let half = 1u128 << (w - 1);
        if w > 1 && self.umax(a) < half && self.umax(b) < half {
            return self.ule(a, b);
        }
        if let Some(k) = self.kv(b) {
            if k != half - 1 {
                let kk = self.konst(k.wrapping_add(1), w);
                return self.slt(a, kk);
            }
            return self.konst(1, 1);
        }
        if let Some(k) = self.kv(a) {
            if k != half {
                let kk = self.konst(k.wrapping_sub(1), w);
                return self.slt(kk, b);
            }
            return self.konst(1, 1);
        }
        self.mk(K::Sle, 1, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: u32, w: u32) -> u32 {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const => self.konst(n.v, w),
            K::ZExt => self.zext(n.a, w),
            K::Ite if n.itek > 0 => self.map_ite(a, &mut |p, l| p.zext(l, w)),
            _ => self.mk(K::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: u32, w: u32) -> u32 {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.k {
            K::Const => {
                let v = sext(n.v, n.w) as u128;
                self.konst(v, w)
            }
            K::ZExt => self.zext(n.a, w),
            K::SExt => self.sext(n.a, w),
            K::Ite if n.itek > 0 => self.map_ite(a, &mut |p, l| p.sext(l, w)),
            _ => {
                if n.w == 1 {
                    let x = self.konst(u128::MAX, w);
                    let y = self.konst(0, w);
                    return self.ite(a, x, y);
                }
                self.mk(K::SExt, w, a, 0, 0, 0)
            }
        }
    }
    pub fn extract(&mut self, a: u32, lo: u32, w: u32) -> u32 {
        let n = self.n[a as usize];
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.k {
            K::Const => self.konst(n.v >> lo, w),
            K::Extract => self.extract(n.a, lo + n.v as u32, w),
            K::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.konst(0, w)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let e = self.extract(n.a, lo, iw - lo);
                    self.zext(e, w)
                }
            }
            K::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(K::Extract, w, a, 0, 0, lo as u128)
                }
            }
            K::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            K::Ite if n.itek > 0 || self.kv(n.b).is_some() || self.kv(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            K::And | K::Or | K::Xor if self.kv(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(bop(n.k), x, y)
            }
            K::Add | K::Sub | K::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(bop(n.k), x, y)
            }
            _ => self.mk(K::Extract, w, a, 0, 0, lo as u128),
        }
    }
    pub fn concat(&mut self, a: u32, b: u32) -> u32 {
        let (x, y) = (self.n[a as usize], self.n[b as usize]);
        let w = x.w + y.w;
        if x.k == K::Const && y.k == K::Const {
            return self.konst((x.v << y.w) | y.v, w);
        }
        if x.k == K::Const && x.v == 0 {
            return self.zext(b, w);
        }
        if x.k == K::Extract && y.k == K::Extract && x.a == y.a && x.v as u32 == y.v as u32 + y.w {
            return self.extract(x.a, y.v as u32, w);
        }
        if x.k == K::Concat && y.k == K::Extract {
            let z = self.n[x.b as usize];
            if z.k == K::Extract && z.a == y.a && z.v as u32 == y.v as u32 + y.w {
                let low = self.extract(y.a, y.v as u32, y.w + z.w);
                return self.concat(x.a, low);
            }
        }
        // zext(hi part) over low part: concat(zext(e), y) with e,y adjacent extracts
        if x.k == K::ZExt && y.k == K::Extract {
            let z = self.n[x.a as usize];
            if z.k == K::Extract && z.a == y.a && z.v as u32 == y.v as u32 + y.w {
                let low = self.extract(y.a, y.v as u32, y.w + z.w);
                return self.zext(low, w);
            }
        }
        if y.k == K::Extract && y.v == 0 && x.k == K::SExt {}
        self.mk(K::Concat, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if let Some(k) = self.kv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.kv(a), self.kv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::And, nc, b);
                }
                (None, Some(0)) => return self.bin(BinOp::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::Or, nc, a);
                }
                _ => {}
            }
        }
        let nc = self.n[c as usize];
        if nc.k == K::Xor && self.kv(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        // nested same condition
        let na = self.n[a as usize];
        if na.k == K::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n[b as usize];
        if nb.k == K::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(K::Ite, w, c, a, b, 0)
    }

    /// evaluates under a model (symbol index -> value; missing = 0)
    pub fn show(&self, e: u32, d: usize) -> String {
        let n = self.n[e as usize];
        if let Some(k) = self.kv(e) {
            return format!("{k:#x}:{}", n.w);
        }
        if n.k == K::Sym {
            return self.sym_names[n.syms.trailing_zeros() as usize % self.sym_names.len()].clone();
        }
        if d == 0 {
            return "..".into();
        }
        let mut o = format!("({:?}:{}", n.k, n.w);
        for c in [n.a, n.b, n.c] {
            if c != 0 {
                o += " ";
                o += &self.show(c, d - 1);
            }
        }
        o + ")"
    }
    pub fn eval(&mut self, e: u32, model: &[u128]) -> u128 {
        self.memo_gen += 1;
        if self.memo.len() < self.n.len() {
            self.memo.resize(self.n.len(), (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: u32, m: &[u128]) -> u128 {
        let n = self.n[e as usize];
        match n.k {
            K::Const => return n.v,
            K::Sym => return mask(m.get(n.v as usize).copied().unwrap_or(0), n.w),
            _ => {}
        }
        if self.memo[e as usize].0 == self.memo_gen {
            return self.memo[e as usize].1;
        }
        let r = match n.k {
            K::Eq => (self.ev(n.a, m) == self.ev(n.b, m)) as u128,
            K::Ult => (self.ev(n.a, m) < self.ev(n.b, m)) as u128,
            K::Ule => (self.ev(n.a, m) <= self.ev(n.b, m)) as u128,
            K::Slt => {
                let w = self.w(n.a);
                (sext(self.ev(n.a, m), w) < sext(self.ev(n.b, m), w)) as u128
            }
            K::Sle => {
                let w = self.w(n.a);
                (sext(self.ev(n.a, m), w) <= sext(self.ev(n.b, m), w)) as u128
            }
            K::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, m) << lw) | self.ev(n.b, m)
            }
            K::Extract => mask(self.ev(n.a, m) >> (n.v as u32), n.w),
            K::ZExt => self.ev(n.a, m),
            K::SExt => {
                let w = self.w(n.a);
                mask(sext(self.ev(n.a, m), w) as u128, n.w)
            }
            K::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            k => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                fold(bop(k), n.w, a, b)
            }
        };
        self.memo[e as usize] = (self.memo_gen, r);
        r
    }
    /// Values of an expression depending on a single byte-sized symbol, for each value of that symbol.
    pub fn vtab(&mut self, e: u32, ix: u32) -> std::rc::Rc<Vec<u128>> {
        use std::rc::Rc;
        if let Some(t) = self.vtabs.get(&e) {
            return t.clone();
        }
        let n = self.n[e as usize];
        let cnt = 1usize << self.sym_w[ix as usize];
        let r: Vec<u128> = match n.k {
            K::Const => vec![n.v; cnt],
            K::Sym => (0..cnt as u128).collect(),
            K::Extract => self.vtab(n.a, ix).iter().map(|x| mask(x >> (n.v as u32), n.w)).collect(),
            K::ZExt => self.vtab(n.a, ix).iter().copied().collect(),
            K::SExt => {
                let w = self.w(n.a);
                self.vtab(n.a, ix).iter().map(|x| mask(sext(*x, w) as u128, n.w)).collect()
            }
            K::Ite => {
                let (c, a, b) = (self.vtab(n.a, ix), self.vtab(n.b, ix), self.vtab(n.c, ix));
                (0..cnt).map(|i| if c[i] == 1 { a[i] } else { b[i] }).collect()
            }
            _ => {
                let (a, b) = (self.vtab(n.a, ix), self.vtab(n.b, ix));
                let w = self.w(n.a);
                let lw = self.w(n.b);
                (0..cnt)
                    .map(|i| match n.k {
                        K::Eq => (a[i] == b[i]) as u128,
                        K::Ult => (a[i] < b[i]) as u128,
                        K::Ule => (a[i] <= b[i]) as u128,
                        K::Slt => (sext(a[i], w) < sext(b[i], w)) as u128,
                        K::Sle => (sext(a[i], w) <= sext(b[i], w)) as u128,
                        K::Concat => (a[i] << lw) | b[i],
                        k => fold(bop(k), n.w, a[i], b[i]),
                    })
                    .collect()
            }
        };
        let r = Rc::new(r);
        if n.k != K::Const {
            self.vtabs.insert(e, r.clone());
        }
        r
    }
    pub fn vtab_trim(&mut self) {
        if self.vtabs.len() > 60_000 {
            self.vtabs.clear();
        }
    }
}
