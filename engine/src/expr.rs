//! Hash-consed bit-vector expressions with local simplification.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u16, u128),
    Var(u16, u32),
    Not(u16, E),
    Bin(B, u16, E, E),
    Cmp(P, E, E),
    Ite(u16, E, E, E),
    Extract(u16, u16, E), // width, lo
    Concat(u16, E, E),    // high, low
    ZExt(u16, E),
    SExt(u16, E),
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub width: u16,
}

pub struct Arena {
    pub nodes: Vec<N>,
    pub vars_of: Vec<u128>,
    map: FxMap<N, E>,
    pub vars: Vec<VarInfo>,
    memo: Vec<u128>,
    memo_gen: Vec<u32>,
    gen: u32,
    last_model: u64,
    /// truth table of width-1 expressions over one 8-bit variable
    pub tt: FxMap<E, [u64; 4]>,
    pub single: Vec<i32>, // -1 none, -2 many, else var id
}

thread_local! {
    pub static A: RefCell<Arena> = RefCell::new(Arena::new());
}
pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    A.with(|a| f(&mut a.borrow_mut()))
}

pub fn cbin(op: B, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            (sx(a, w) >> s) as u128
        }
    }) & m
}
pub fn ccmp(p: P, w: u16, a: u128, b: u128) -> bool {
    match p {
        P::Eq => a == b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Slt => sx(a, w) < sx(b, w),
        P::Sle => sx(a, w) <= sx(b, w),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            vars_of: vec![],
            map: FxMap::default(),
            vars: vec![],
            memo: vec![],
            memo_gen: vec![],
            gen: 1,
            last_model: u64::MAX,
            tt: FxMap::default(),
            single: vec![],
        };
        a.mk(N::Const(1, 0)); // id 0 reserved ("no symbolic byte")
        a
    }
    pub fn mk(&mut self, n: N) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as E;
        let v = match n {
            N::Const(..) => 0,
            N::Var(_, i) => 1u128 << (i % 128),
            N::Not(_, a) | N::Extract(_, _, a) | N::ZExt(_, a) | N::SExt(_, a) => {
                self.vars_of[a as usize]
            }
            N::Bin(_, _, a, b) | N::Cmp(_, a, b) | N::Concat(_, a, b) => {
                self.vars_of[a as usize] | self.vars_of[b as usize]
            }
            N::Ite(_, c, a, b) => {
                self.vars_of[a as usize] | self.vars_of[b as usize] | self.vars_of[c as usize]
            }
        };
        let j = |s: &Vec<i32>, xs: &[E]| {
            let mut r = -1;
            for x in xs {
                let y = s[*x as usize];
                if y == -1 || y == r {
                } else if r == -1 {
                    r = y
                } else {
                    r = -2
                }
            }
            r
        };
        let s = match n {
            N::Const(..) => -1,
            N::Var(_, i) => i as i32,
            N::Not(_, a) | N::Extract(_, _, a) | N::ZExt(_, a) | N::SExt(_, a) => {
                self.single[a as usize]
            }
            N::Bin(_, _, a, b) | N::Cmp(_, a, b) | N::Concat(_, a, b) => j(&self.single, &[a, b]),
            N::Ite(_, c, a, b) => j(&self.single, &[c, a, b]),
        };
        self.nodes.push(n);
        self.vars_of.push(v);
        self.single.push(s);
        self.memo.push(0);
        self.memo_gen.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn width(&self, e: E) -> u16 {
        match self.nodes[e as usize] {
            N::Const(w, _)
            | N::Var(w, _)
            | N::Not(w, _)
            | N::Bin(_, w, _, _)
            | N::Ite(w, ..)
            | N::Extract(w, ..)
            | N::Concat(w, ..)
            | N::ZExt(w, _)
            | N::SExt(w, _) => w,
            N::Cmp(..) => 1,
        }
    }
    pub fn c(&mut self, w: u16, v: u128) -> E {
        self.mk(N::Const(w, v & mask(w)))
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let N::Const(_, v) = self.nodes[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn new_var(&mut self, width: u16, name: String) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, width });
        self.mk(N::Var(width, id))
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        match self.nodes[a as usize] {
            N::Const(_, v) => self.c(w, !v),
            N::Not(_, x) => x,
            N::Cmp(P::Ult, x, y) => self.cmp(P::Ule, y, x),
            N::Cmp(P::Ule, x, y) => self.cmp(P::Ult, y, x),
            N::Cmp(P::Slt, x, y) => self.cmp(P::Sle, y, x),
            N::Cmp(P::Sle, x, y) => self.cmp(P::Slt, y, x),
            _ => self.mk(N::Not(w, a)),
        }
    }
    pub fn bin(&mut self, op: B, mut a: E, mut b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(w, cbin(op, w, x, y));
        }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if y == 0 => return a,
                B::And if y == 0 => return b,
                B::And if y == m => return a,
                B::Or if y == m => return b,
                B::Xor if y == m => return self.not(a),
                B::Mul if y == 0 => return b,
                B::Mul | B::UDiv if y == 1 => return a,
                B::Sub => {
                    let nb = self.c(w, y.wrapping_neg());
                    return self.bin(B::Add, a, nb);
                }
                B::Add => {
                    if let N::Bin(B::Add, _, x, z) = self.nodes[a as usize] {
                        if let Some(cz) = self.as_const(z) {
                            let k = self.c(w, cz.wrapping_add(y));
                            return self.bin(B::Add, x, k);
                        }
                    }
                }
                B::And => {
                    // and with low mask -> zext(extract)
                    if y.count_ones() == (y + 1).trailing_zeros() && y != m && y != 0 {
                        let k = y.count_ones() as u16;
                        let lo = self.extract(k, 0, a);
                        return self.zext(w, lo);
                    }
                    if let N::Bin(B::And, _, x, z) = self.nodes[a as usize] {
                        if let Some(cz) = self.as_const(z) {
                            let k = self.c(w, cz & y);
                            return self.bin(B::And, x, k);
                        }
                    }
                }
                B::Shl => {
                    if y >= w as u128 {
                        return self.c(w, 0);
                    }
                    let y = y as u16;
                    let lo = self.extract(w - y, 0, a);
                    let z = self.c(y, 0);
                    return self.concat(lo, z);
                }
                B::LShr => {
                    if y >= w as u128 {
                        return self.c(w, 0);
                    }
                    let y = y as u16;
                    let hi = self.extract(w - y, y, a);
                    return self.zext(w, hi);
                }
                B::AShr => {
                    let y = y.min(w as u128 - 1) as u16;
                    let hi = self.extract(w - y, y, a);
                    return self.sext(w, hi);
                }
                B::Mul if y.is_power_of_two() => {
                    let k = self.c(w, y.trailing_zeros() as u128);
                    return self.bin(B::Shl, a, k);
                }
                B::UDiv if y.is_power_of_two() => {
                    let k = self.c(w, y.trailing_zeros() as u128);
                    return self.bin(B::LShr, a, k);
                }
                B::URem if y.is_power_of_two() => {
                    let k = self.c(w, y - 1);
                    return self.bin(B::And, a, k);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                B::Sub | B::Xor => return self.c(w, 0),
                B::And | B::Or => return a,
                _ => {}
            }
        }
        if ca == Some(0) && matches!(op, B::Shl | B::LShr | B::AShr | B::UDiv | B::URem) {
            return a;
        }
        // or of disjoint zext / shifted: concat(x, 0) | zext(y)
        if matches!(op, B::Or | B::Add | B::Xor) {
            if let Some(r) = self.or_concat(w, a, b).or_else(|| self.or_concat(w, b, a)) {
                return r;
            }
        }
        if w == 1 {
            if let (N::Not(_, x), _) = (self.nodes[a as usize], 0) {
                if x == b {
                    match op {
                        B::And => return self.c(1, 0),
                        B::Or | B::Xor => return self.c(1, 1),
                        _ => {}
                    }
                }
            }
            if let (N::Not(_, x), _) = (self.nodes[b as usize], 0) {
                if x == a {
                    match op {
                        B::And => return self.c(1, 0),
                        B::Or | B::Xor => return self.c(1, 1),
                        _ => {}
                    }
                }
            }
        }
        // push binary ops with a constant into ite with constant arms
        if let (N::Ite(_, c, x, y), Some(_)) = (self.nodes[a as usize], cb) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let nx = self.bin(op, x, b);
                let ny = self.bin(op, y, b);
                return self.ite(c, nx, ny);
            }
        }
        self.mk(N::Bin(op, w, a, b))
    }
    fn or_concat(&mut self, w: u16, a: E, b: E) -> Option<E> {
        // a = concat(hi, 0_k) (possibly zext of it), b fits in k bits
        let (hi, lo) = match self.nodes[a as usize] {
            N::Concat(_, h, l) => (h, l),
            N::ZExt(_, x) => match self.nodes[x as usize] {
                N::Concat(_, h, l) => {
                    let hw = w - self.width(l);
                    let h = self.zext(hw, h);
                    (h, l)
                }
                _ => return None,
            },
            _ => return None,
        };
        if self.as_const(lo) != Some(0) {
            return None;
        }
        let k = self.width(lo);
        match self.nodes[b as usize] {
            N::ZExt(_, x) if self.width(x) <= k => {
                let x = self.zext(k, x);
                Some(self.concat(hi, x))
            }
            N::Const(_, v) if v <= mask(k) => {
                let x = self.c(k, v);
                Some(self.concat(hi, x))
            }
            N::Concat(_, bh, bl) if self.as_const(bh) == Some(0) && self.width(bl) <= k => {
                let x = self.zext(k, bl);
                Some(self.concat(hi, x))
            }
            _ => None,
        }
    }
    pub fn cmp(&mut self, p: P, mut a: E, mut b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(1, ccmp(p, w, x, y) as u128);
        }
        if a == b {
            return self.c(1, matches!(p, P::Eq | P::Ule | P::Sle) as u128);
        }
        if p == P::Eq && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        match p {
            P::Eq => {
                if let Some(y) = cb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not(a) };
                    }
                    match self.nodes[a as usize] {
                        N::ZExt(_, x) => {
                            let xw = self.width(x);
                            if y > mask(xw) {
                                return self.c(1, 0);
                            }
                            let k = self.c(xw, y);
                            return self.cmp(P::Eq, x, k);
                        }
                        N::SExt(_, x) => {
                            let xw = self.width(x);
                            let back = sx(y & mask(xw), xw) as u128 & m;
                            if back != y {
                                return self.c(1, 0);
                            }
                            let k = self.c(xw, y);
                            return self.cmp(P::Eq, x, k);
                        }
                        N::Concat(_, h, l) => {
                            let lw = self.width(l);
                            let kh = self.c(w - lw, y >> lw);
                            let kl = self.c(lw, y);
                            let x = self.cmp(P::Eq, h, kh);
                            let z = self.cmp(P::Eq, l, kl);
                            return self.bin(B::And, x, z);
                        }
                        N::Bin(B::Add, _, x, z) => {
                            if let Some(cz) = self.as_const(z) {
                                let k = self.c(w, y.wrapping_sub(cz));
                                return self.cmp(P::Eq, x, k);
                            }
                        }
                        N::Bin(B::Xor, _, x, z) => {
                            if let Some(cz) = self.as_const(z) {
                                let k = self.c(w, y ^ cz);
                                return self.cmp(P::Eq, x, k);
                            }
                            if y == 0 {
                                return self.cmp(P::Eq, x, z);
                            }
                        }
                        N::Bin(B::Or, _, x, z) if y == 0 => {
                            let k = self.c(w, 0);
                            let p1 = self.cmp(P::Eq, x, k);
                            let p2 = self.cmp(P::Eq, z, k);
                            return self.bin(B::And, p1, p2);
                        }
                        N::Bin(B::Sub, _, x, z) if y == 0 => return self.cmp(P::Eq, x, z),
                        N::Not(_, x) => {
                            let k = self.c(w, !y);
                            return self.cmp(P::Eq, x, k);
                        }
                        N::Ite(_, c, x, z) => {
                            let (kx, kz) = (self.as_const(x), self.as_const(z));
                            if kx.is_some() || kz.is_some() {
                                let p1 = self.cmp(P::Eq, x, b);
                                let p2 = self.cmp(P::Eq, z, b);
                                return self.ite(c, p1, p2);
                            }
                        }
                        _ => {}
                    }
                }
                if let (N::ZExt(_, x), N::ZExt(_, y)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                    let (wx, wy) = (self.width(x), self.width(y));
                    let k = wx.max(wy);
                    if k < w {
                        let x = self.zext(k, x);
                        let y = self.zext(k, y);
                        return self.cmp(P::Eq, x, y);
                    }
                }
            }
            P::Ult => {
                if cb == Some(0) {
                    return self.c(1, 0);
                }
                if ca == Some(m) {
                    return self.c(1, 0);
                }
                if cb == Some(1) {
                    let z = self.c(w, 0);
                    return self.cmp(P::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.c(w, 0);
                    let e = self.cmp(P::Eq, b, z);
                    return self.not(e);
                }
            }
            P::Ule => {
                if ca == Some(0) || cb == Some(m) {
                    return self.c(1, 1);
                }
                if cb == Some(0) {
                    return self.cmp(P::Eq, a, b);
                }
                if ca == Some(m) {
                    return self.cmp(P::Eq, b, a);
                }
            }
            _ => {}
        }
        if matches!(p, P::Ult | P::Ule) {
            match (self.nodes[a as usize], self.nodes[b as usize]) {
                (N::ZExt(_, x), N::ZExt(_, y)) => {
                    let (wx, wy) = (self.width(x), self.width(y));
                    let k = wx.max(wy);
                    if k < w {
                        let x = self.zext(k, x);
                        let y = self.zext(k, y);
                        return self.cmp(p, x, y);
                    }
                }
                (N::ZExt(_, x), N::Const(_, v)) => {
                    let wx = self.width(x);
                    if v > mask(wx) {
                        return self.c(1, 1);
                    }
                    let k = self.c(wx, v);
                    return self.cmp(p, x, k);
                }
                (N::Const(_, v), N::ZExt(_, y)) => {
                    let wy = self.width(y);
                    if v > mask(wy) {
                        return self.c(1, 0);
                    }
                    let k = self.c(wy, v);
                    return self.cmp(p, k, y);
                }
                _ => {}
            }
        } else if matches!(p, P::Slt | P::Sle) {
            // both nonnegative zext -> unsigned
            let nn = |s: &Self, e: E| match s.nodes[e as usize] {
                N::ZExt(..) => true,
                N::Const(_, v) => v >> (w - 1) == 0,
                _ => false,
            };
            if nn(self, a) && nn(self, b) {
                let q = if p == P::Slt { P::Ult } else { P::Ule };
                return self.cmp(q, a, b);
            }
            if cb == Some(0) && p == P::Slt {
                if let N::ZExt(..) = self.nodes[a as usize] {
                    return self.c(1, 0);
                }
            }
        }
        if let (N::Ite(_, c, x, y), Some(_)) = (self.nodes[a as usize], cb) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let nx = self.cmp(p, x, b);
                let ny = self.cmp(p, y, b);
                return self.ite(c, nx, ny);
            }
        }
        if let (N::Ite(_, c, x, y), Some(_)) = (self.nodes[b as usize], ca) {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let nx = self.cmp(p, a, x);
                let ny = self.cmp(p, a, y);
                return self.ite(c, nx, ny);
            }
        }
        self.mk(N::Cmp(p, a, b))
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(_, x) = self.nodes[c as usize] {
            return self.ite(x, b, a);
        }
        let w = self.width(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(B::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(B::And, n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(B::Or, n, a);
                }
                (_, Some(0)) => return self.bin(B::And, c, a),
                _ => {}
            }
        }
        self.mk(N::Ite(w, c, a, b))
    }
    pub fn extract(&mut self, w: u16, lo: u16, a: E) -> E {
        let aw = self.width(a);
        if w == aw {
            return a;
        }
        match self.nodes[a as usize] {
            N::Const(_, v) => self.c(w, v >> lo),
            N::Extract(_, l2, x) => self.extract(w, lo + l2, x),
            N::Concat(_, h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    self.extract(w, lo - lw, h)
                } else if lo + w <= lw {
                    self.extract(w, lo, l)
                } else {
                    let x = self.extract(lo + w - lw, 0, h);
                    let y = self.extract(lw - lo, lo, l);
                    self.concat(x, y)
                }
            }
            N::ZExt(_, x) => {
                let xw = self.width(x);
                if lo >= xw {
                    self.c(w, 0)
                } else if lo + w <= xw {
                    self.extract(w, lo, x)
                } else {
                    let y = self.extract(xw - lo, lo, x);
                    self.zext(w, y)
                }
            }
            N::SExt(_, x) if lo + w <= self.width(x) => self.extract(w, lo, x),
            N::SExt(_, x) if lo == 0 => self.sext(w, x),
            N::Ite(_, c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let nx = self.extract(w, lo, x);
                let ny = self.extract(w, lo, y);
                self.ite(c, nx, ny)
            }
            N::Bin(op, _, x, y) if matches!(op, B::And | B::Or | B::Xor) => {
                let nx = self.extract(w, lo, x);
                let ny = self.extract(w, lo, y);
                self.bin(op, nx, ny)
            }
            N::Bin(op, _, x, y) if lo == 0 && matches!(op, B::Add | B::Sub | B::Mul) => {
                let nx = self.extract(w, lo, x);
                let ny = self.extract(w, lo, y);
                self.bin(op, nx, ny)
            }
            N::Not(_, x) => {
                let nx = self.extract(w, lo, x);
                self.not(nx)
            }
            _ => self.mk(N::Extract(w, lo, a)),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.width(h), self.width(l));
        let w = hw + lw;
        match (self.nodes[h as usize], self.nodes[l as usize]) {
            (N::Const(_, x), N::Const(_, y)) if w <= 128 => return self.c(w, (x << lw) | y),
            (N::Const(_, 0), _) => return self.zext(w, l),
            (N::Extract(_, l1, x), N::Extract(_, l2, y)) if x == y && l1 == l2 + lw => {
                return self.extract(w, l2, x)
            }
            (N::Extract(_, l1, x), _) if x == l && l1 == lw => return self.extract(w, 0, x),
            (N::ZExt(_, x), _) => {
                let t = self.concat(x, l);
                return self.zext(w, t);
            }
            // (a ++ b) ++ l where b, l adjacent extracts
            (N::Concat(_, a, b), N::Extract(_, l2, y)) => {
                if let N::Extract(_, l1, x) = self.nodes[b as usize] {
                    if x == y && l1 == l2 + lw {
                        let bw = self.width(b);
                        let t = self.extract(bw + lw, l2, x);
                        return self.concat(a, t);
                    }
                }
            }
            _ => {}
        }
        self.mk(N::Concat(w, h, l))
    }
    pub fn zext(&mut self, w: u16, a: E) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        match self.nodes[a as usize] {
            N::Const(_, v) => self.c(w, v),
            N::ZExt(_, x) => self.zext(w, x),
            _ => self.mk(N::ZExt(w, a)),
        }
    }
    pub fn sext(&mut self, w: u16, a: E) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        match self.nodes[a as usize] {
            N::Const(_, v) => self.c(w, sx(v, aw) as u128),
            N::SExt(_, x) => self.sext(w, x),
            N::ZExt(_, x) => self.zext(w, x),
            _ => self.mk(N::SExt(w, a)),
        }
    }
    /// Evaluate under a model (missing variables are 0).
    pub fn eval(&mut self, e: E, model: &[u64], model_id: u64) -> u128 {
        if model_id != self.last_model {
            self.last_model = model_id;
            self.gen += 1;
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u64]) -> u128 {
        let i = e as usize;
        match self.nodes[i] {
            N::Const(_, v) => return v,
            N::Var(_, k) => return m.get(k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.memo_gen[i] == self.gen {
            return self.memo[i];
        }
        let r = match self.nodes[i] {
            N::Const(_, v) => v,
            N::Var(..) => 0,
            N::Not(w, a) => !self.ev(a, m) & mask(w),
            N::Bin(op, w, a, b) => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                cbin(op, w, x, y)
            }
            N::Cmp(p, a, b) => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                ccmp(p, self.width(a), x, y) as u128
            }
            N::Ite(_, c, a, b) => {
                if self.ev(c, m) == 1 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            N::Extract(w, lo, a) => (self.ev(a, m) >> lo) & mask(w),
            N::Concat(_, h, l) => {
                let lw = self.width(l);
                let x = self.ev(h, m);
                let y = self.ev(l, m);
                (x << lw) | y
            }
            N::ZExt(_, a) => self.ev(a, m),
            N::SExt(w, a) => {
                let x = self.ev(a, m);
                sx(x, self.width(a)) as u128 & mask(w)
            }
        };
        self.memo[i] = r;
        self.memo_gen[i] = self.gen;
        r
    }
    /// Truth table over the only variable (8 bits wide) of a width-1 expression.
    pub fn truth(&mut self, e: E) -> Option<(u32, [u64; 4])> {
        let s = self.single[e as usize];
        if s < 0 || self.vars[s as usize].width != 8 {
            return None;
        }
        if let Some(t) = self.tt.get(&e) {
            return Some((s as u32, *t));
        }
        let mut t = [0u64; 4];
        let mut model = vec![0u64; s as usize + 1];
        for v in 0..256u64 {
            model[s as usize] = v;
            self.gen += 1;
            self.last_model = u64::MAX;
            if self.ev(e, &model) == 1 {
                t[(v >> 6) as usize] |= 1 << (v & 63);
            }
        }
        self.gen += 1;
        self.tt.insert(e, t);
        Some((s as u32, t))
    }
    /// Values of `e` for each value of its only 8-bit variable.
    pub fn table(&mut self, e: E) -> Option<(u32, Vec<u128>)> {
        let s = self.single[e as usize];
        if s < 0 || self.vars[s as usize].width != 8 {
            return None;
        }
        let mut out = Vec::with_capacity(256);
        let mut model = vec![0u64; s as usize + 1];
        for v in 0..256u64 {
            model[s as usize] = v;
            self.gen += 1;
            self.last_model = u64::MAX;
            out.push(self.ev(e, &model));
        }
        self.gen += 1;
        Some((s as u32, out))
    }
    pub fn show(&self, e: E) -> String {
        self.show_d(e, 6)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        if d == 0 {
            return "…".into();
        }
        let s = |x: E| self.show_d(x, d - 1);
        match self.nodes[e as usize] {
            N::Const(w, v) => format!("{v}:{w}"),
            N::Var(_, i) => self.vars[i as usize].name.clone(),
            N::Not(_, a) => format!("!{}", s(a)),
            N::Bin(op, _, a, b) => format!("({:?} {} {})", op, s(a), s(b)),
            N::Cmp(p, a, b) => format!("({:?} {} {})", p, s(a), s(b)),
            N::Ite(_, c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            N::Extract(w, lo, a) => format!("{}[{}+{}]", s(a), lo, w),
            N::Concat(_, a, b) => format!("({}++{})", s(a), s(b)),
            N::ZExt(w, a) => format!("z{}({})", w, s(a)),
            N::SExt(w, a) => format!("s{}({})", w, s(a)),
        }
    }
}
