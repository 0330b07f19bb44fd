//! Function bodies: textual LLVM IR -> register bytecode (lazily, per function).
use crate::expr::{self, FxMap, B};
use crate::ll::*;

const NEEDS_TMP: u32 = 0x8000_0000;

struct Fc<'a> {
    m: &'a mut Module,
    p: P,
    f: Func,
    locals: FxMap<&'static [u8], R>,
    consts: FxMap<(u128, bool), R>,
    blocks: FxMap<&'static [u8], u32>,
    bpc: Vec<u32>,
    edges: Vec<(u32, u32)>,
    phis: Vec<Vec<(R, u32, Vec<(Vec<R>, u32)>)>>,
    cur: u32,
}

impl Module {
    pub fn compile(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize].compiled {
            return f;
        }
        let def = self.funcs[id as usize].def.expect("function body");
        let text = self.text;
        let mut c = Fc {
            m: self,
            p: P { s: text, i: def },
            f: Func { id, ..Default::default() },
            locals: FxMap::default(),
            consts: FxMap::default(),
            blocks: FxMap::default(),
            bpc: vec![],
            edges: vec![],
            phis: vec![],
            cur: 0,
        };
        c.run();
        let f: &'static Func = Box::leak(Box::new(c.f));
        self.funcs[id as usize].compiled = Some(f);
        f
    }
}

impl<'a> Fc<'a> {
    fn reg(&mut self, n: u32) -> R {
        let r = self.f.nregs;
        self.f.nregs += n;
        r
    }
    fn cst(&mut self, v: u128, w: u16) -> R {
        let wide = w > 64;
        if let Some(r) = self.consts.get(&(v, wide)) {
            if !wide {
                return *r;
            }
        }
        let val = if wide { V::S(expr::with(|a| a.c(w, v))) } else { V::C(v as u64) };
        let r = CONST | self.f.consts.len() as u32;
        self.f.consts.push(val);
        self.consts.insert((v, wide), r);
        r
    }
    fn block(&mut self, n: &'static [u8]) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let b = self.bpc.len() as u32;
        self.bpc.push(u32::MAX);
        self.phis.push(vec![]);
        self.blocks.insert(n, b);
        b
    }
    fn local(&mut self, n: &'static [u8], t: T) -> R {
        if let Some(r) = self.locals.get(n) {
            return *r;
        }
        let k = self.m.types.nleaves(t);
        let r = self.reg(k);
        self.locals.insert(n, r);
        r
    }
    fn operand(&mut self, t: T) -> Vec<R> {
        self.p.ws();
        if self.p.pk() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            let r = self.local(n, t);
            let k = self.m.types.nleaves(t);
            (r..r + k).collect()
        } else {
            let l = self.m.constant(&mut self.p, t);
            l.into_iter().map(|(v, w)| self.cst(v, w)).collect()
        }
    }
    fn op1(&mut self, t: T) -> R {
        let v = self.operand(t);
        if v.len() != 1 {
            self.p.fail("scalar operand")
        }
        v[0]
    }
    fn tyop(&mut self) -> (T, Vec<R>) {
        let t = self.p.ty(&mut self.m.types);
        let v = self.operand(t);
        (t, v)
    }
    fn emit(&mut self, i: Ins) {
        self.f.code.push(i)
    }
    fn edge(&mut self, to: u32) -> u32 {
        self.edges.push((self.cur, to));
        self.edges.len() as u32 - 1
    }
    fn label(&mut self) -> u32 {
        if !self.p.eat("label") {
            self.p.fail("label")
        }
        self.p.ws();
        self.p.i += 1;
        let n = self.p.name();
        self.block(n)
    }
    fn pool(&mut self, v: &[u32]) -> u32 {
        let s = self.f.pool.len() as u32;
        self.f.pool.extend_from_slice(v);
        s
    }
    fn unsupported(&mut self, m: String) {
        let i = self.f.msgs.len() as u32;
        self.f.msgs.push(m);
        self.emit(Ins::Unsupported(i));
    }

    fn run(&mut self) {
        // header
        while self.p.pk() != b'@' {
            if self.p.pk() == b'"' {
                self.p.name();
            } else {
                self.p.i += 1
            }
        }
        self.p.i += 1;
        self.p.name();
        if !self.p.eat("(") {
            self.p.fail("(")
        }
        let mut maxnum: i64 = -1;
        if !self.p.eat(")") {
            loop {
                if self.p.eat("...") {
                    self.p.eat(")");
                    break;
                }
                let t = self.p.ty(&mut self.m.types);
                let bv = self.p_attrs();
                self.p.ws();
                self.p.i += 1;
                let n = self.p.name();
                if let Ok(k) = std::str::from_utf8(n).unwrap().parse::<i64>() {
                    maxnum = maxnum.max(k)
                }
                let r = self.local(n, t);
                if let Some(bt) = bv {
                    let (sz, _) = self.m.types.layout(bt);
                    self.f.byval.push((r, sz as u32));
                }
                if self.p.eat(")") {
                    break;
                }
                if !self.p.eat(",") {
                    self.p.fail(",")
                }
            }
        }
        self.f.nparams = self.f.nregs;
        self.p.eol();
        // entry block
        let mut first = true;
        loop {
            // line start
            let c = self.p.pk();
            if c == b'}' {
                break;
            }
            if c == b'\n' {
                self.p.i += 1;
                continue;
            }
            if c != b' ' && c != b';' {
                // label
                let n = self.p.name();
                if self.p.pk() != b':' {
                    self.p.fail("label def")
                }
                let b = self.block(n);
                self.bpc[b as usize] = self.f.code.len() as u32;
                self.cur = b;
                first = false;
                self.p.eol();
                continue;
            }
            self.p.ws();
            if self.p.pk() == b';' || self.p.pk() == b'#' {
                self.p.eol();
                continue;
            }
            if first {
                let n: &'static [u8] = Box::leak(format!("{}", maxnum + 1).into_bytes().into_boxed_slice());
                let b = self.block(n);
                self.bpc[b as usize] = 0;
                self.cur = b;
                first = false;
            }
            self.inst();
            self.p.eol();
        }
        // edges
        for (pred, succ) in std::mem::take(&mut self.edges) {
            let mut mv: Vec<(R, R)> = vec![];
            for (dst, n, inc) in &self.phis[succ as usize] {
                let (vals, _) = inc.iter().find(|x| x.1 == pred).expect("phi incoming");
                for k in 0..*n {
                    if vals[k as usize] != dst + k {
                        mv.push((dst + k, vals[k as usize]));
                    }
                }
            }
            let mut tmp = false;
            for i in 0..mv.len() {
                for j in 0..i {
                    if mv[i].1 == mv[j].0 {
                        tmp = true
                    }
                }
            }
            let e = Edge {
                target: self.bpc[succ as usize],
                moves: self.f.moves.len() as u32,
                n: mv.len() as u32 | if tmp { NEEDS_TMP } else { 0 },
            };
            assert!(e.target != u32::MAX);
            self.f.moves.extend(mv);
            self.f.edges.push(e);
        }
    }
    fn p_attrs(&mut self) -> Option<T> {
        self.p.attrs_pub(&mut self.m.types)
    }
    fn dst(&mut self, name: Option<&'static [u8]>, t: T) -> R {
        match name {
            Some(n) => self.local(n, t),
            None => {
                let k = self.m.types.nleaves(t);
                self.reg(k)
            }
        }
    }
    fn mkint(&mut self, w: u16) -> T {
        self.m.types.mk(Ty::Int(w))
    }
    fn elem_bits(&self, t: T) -> u16 {
        match self.m.types.tys[t as usize] {
            Ty::Vector(_, e) => self.m.types.bits(e),
            _ => self.m.types.bits(t),
        }
    }
    fn is_fp(&self, t: T) -> bool {
        match self.m.types.tys[t as usize] {
            Ty::Vector(_, e) => self.is_fp(e),
            Ty::Fp(_) => true,
            _ => false,
        }
    }

    fn inst(&mut self) {
        let start = self.p.i;
        let mut name: Option<&'static [u8]> = None;
        if self.p.pk() == b'%' {
            self.p.i += 1;
            name = Some(self.p.name());
            if !self.p.eat("=") {
                self.p.fail("=")
            }
        }
        let w = self.p.word();
        match w {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl"
            | b"lshr" | b"ashr" => {
                for f in ["nuw", "nsw", "exact", "disjoint", "nuw"] {
                    let _ = self.p.eat(f);
                }
                let (t, a) = self.tyop();
                self.p.eat(",");
                let b = self.operand(t);
                let d = self.dst(name, t);
                let wd = self.elem_bits(t);
                let op = match w {
                    b"add" => B::Add,
                    b"sub" => B::Sub,
                    b"mul" => B::Mul,
                    b"udiv" => B::UDiv,
                    b"sdiv" => B::SDiv,
                    b"urem" => B::URem,
                    b"srem" => B::SRem,
                    b"and" => B::And,
                    b"or" => B::Or,
                    b"xor" => B::Xor,
                    b"shl" => B::Shl,
                    b"lshr" => B::LShr,
                    _ => B::AShr,
                };
                for k in 0..a.len() {
                    self.emit(Ins::Bin(op, wd, d + k as u32, a[k], b[k]));
                }
            }
            b"icmp" => {
                let _ = self.p.eat("samesign");
                let pw = self.p.word();
                let pr = match pw {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    b"sgt" => Pred::Sgt,
                    _ => Pred::Sge,
                };
                let (t, a) = self.tyop();
                self.p.eat(",");
                let b = self.operand(t);
                let i1 = self.mkint(1);
                let rt = match self.m.types.tys[t as usize] {
                    Ty::Vector(n, _) => self.m.types.mk(Ty::Vector(n, i1)),
                    _ => i1,
                };
                let d = self.dst(name, rt);
                let wd = self.elem_bits(t);
                for k in 0..a.len() {
                    self.emit(Ins::Cmp(pr, wd, d + k as u32, a[k], b[k]));
                }
            }
            b"zext" | b"sext" | b"trunc" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"freeze" | b"addrspacecast" => {
                for f in ["nneg", "nuw", "nsw", "nuw"] {
                    let _ = self.p.eat(f);
                }
                let (t, a) = self.tyop();
                if w == b"freeze" {
                    let d = self.dst(name, t);
                    for k in 0..a.len() {
                        self.emit(Ins::Mov(d + k as u32, a[k]));
                    }
                    return;
                }
                if !self.p.eat("to") {
                    self.p.fail("to")
                }
                let rt = self.p.ty(&mut self.m.types);
                let d = self.dst(name, rt);
                let (wf, wt) = (self.elem_bits(t), self.elem_bits(rt));
                if w == b"bitcast" {
                    let m = self.m.types.nleaves(rt) as u16;
                    let n = a.len() as u16;
                    if n == m && wf == wt {
                        for k in 0..a.len() {
                            self.emit(Ins::Mov(d + k as u32, a[k]));
                        }
                        return;
                    }
                    let src = self.pool(&a);
                    self.emit(Ins::Bitcast { ws: wf, n, wd: wt, m, src, dst: d });
                    return;
                }
                for k in 0..a.len() {
                    let dd = d + k as u32;
                    let i = if wf == wt {
                        Ins::Mov(dd, a[k])
                    } else if wf > wt {
                        Ins::Trunc(wf, wt, dd, a[k])
                    } else if w == b"sext" {
                        Ins::SExt(wf, wt, dd, a[k])
                    } else {
                        Ins::ZExt(wf, wt, dd, a[k])
                    };
                    self.emit(i);
                }
            }
            b"select" => {
                let (_, c) = self.tyop();
                self.p.eat(",");
                let (t, a) = self.tyop();
                self.p.eat(",");
                let (_, b) = self.tyop();
                let d = self.dst(name, t);
                let mut l = vec![];
                self.m.types.leaves(t, 0, &mut l);
                for k in 0..a.len() {
                    let cc = if c.len() == 1 { c[0] } else { c[k] };
                    self.emit(Ins::Sel { w: l[k].1, ptr: l[k].2, dst: d + k as u32, c: cc, a: a[k], b: b[k] });
                }
            }
            b"load" => {
                let _ = self.p.eat("atomic");
                let _ = self.p.eat("volatile");
                let t = self.p.ty(&mut self.m.types);
                self.p.eat(",");
                let (_, a) = self.tyop();
                let d = self.dst(name, t);
                let mut l = vec![];
                self.m.types.leaves(t, 0, &mut l);
                if let Ty::Vector(n, _) = self.m.types.tys[t as usize] {
                    if l[0].1 % 8 != 0 {
                        let tot = l[0].1 * n as u16;
                        let r = self.reg(1);
                        self.emit(Ins::Load { w: tot, dst: r, addr: a[0], off: 0 });
                        let src = self.pool(&[r]);
                        self.emit(Ins::Bitcast { ws: tot, n: 1, wd: l[0].1, m: n as u16, src, dst: d });
                        return;
                    }
                }
                for (k, x) in l.iter().enumerate() {
                    self.emit(Ins::Load { w: x.1, dst: d + k as u32, addr: a[0], off: x.0 as u32 });
                }
            }
            b"store" => {
                let _ = self.p.eat("atomic");
                let _ = self.p.eat("volatile");
                let (t, v) = self.tyop();
                self.p.eat(",");
                let (_, a) = self.tyop();
                let mut l = vec![];
                self.m.types.leaves(t, 0, &mut l);
                if let Ty::Vector(n, _) = self.m.types.tys[t as usize] {
                    if l[0].1 % 8 != 0 {
                        let tot = l[0].1 * n as u16;
                        let r = self.reg(1);
                        let src = self.pool(&v);
                        self.emit(Ins::Bitcast { ws: l[0].1, n: n as u16, wd: tot, m: 1, src, dst: r });
                        self.emit(Ins::Store { w: tot, val: r, addr: a[0], off: 0 });
                        return;
                    }
                }
                for (k, x) in l.iter().enumerate() {
                    self.emit(Ins::Store { w: x.1, val: v[k], addr: a[0], off: x.0 as u32 });
                }
            }
            b"getelementptr" => {
                for f in ["inbounds", "nusw", "nuw"] {
                    let _ = self.p.eat(f);
                }
                let et = self.p.ty(&mut self.m.types);
                self.p.eat(",");
                let (bt, base) = self.tyop();
                if self.m.types.tys[bt as usize] != Ty::Ptr {
                    self.unsupported("vector gep".into());
                    let d = self.dst(name, bt);
                    let _ = d;
                    return;
                }
                let mut off: i64 = 0;
                let mut terms: Vec<(u16, R, u32)> = vec![];
                let mut cur = et;
                let mut first = true;
                while self.p.eat(",") {
                    self.p.ws();
                    if self.p.pk() == b'!' {
                        break;
                    }
                    let (it, idx) = self.tyop();
                    let iw = self.m.types.bits(it);
                    let cv = if idx[0] & CONST != 0 {
                        match self.f.consts[(idx[0] & !CONST) as usize] {
                            V::C(v) => Some(expr::sx(v as u128, iw) as i64),
                            _ => None,
                        }
                    } else {
                        None
                    };
                    let scale;
                    if first {
                        scale = self.m.types.layout(cur).0;
                        first = false;
                    } else {
                        match self.m.types.tys[cur as usize].clone() {
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                scale = self.m.types.layout(e).0;
                                cur = e;
                            }
                            _ => {
                                let (o, f) = self.m.types.field_off(cur, cv.unwrap() as usize);
                                off += o as i64;
                                cur = f;
                                continue;
                            }
                        }
                    }
                    match cv {
                        Some(v) => off = off.wrapping_add(v.wrapping_mul(scale as i64)),
                        None => terms.push((iw, idx[0], scale as u32)),
                    }
                }
                let d = self.dst(name, bt);
                let mut b = base[0];
                let nt = terms.len();
                for (k, (iw, idx, sc)) in terms.into_iter().enumerate() {
                    let dd = if k + 1 == nt && off == 0 { d } else { self.reg(1) };
                    self.emit(Ins::LeaI { w: iw, dst: dd, base: b, idx, scale: sc });
                    b = dd;
                }
                if off != 0 || nt == 0 {
                    if off as i32 as i64 == off {
                        self.emit(Ins::Lea { dst: d, base: b, off: off as i32 });
                    } else {
                        let c = self.cst(off as u64 as u128, 64);
                        self.emit(Ins::Bin(B::Add, 64, d, b, c));
                    }
                }
            }
            b"br" => {
                if self.p.eat("i1") {
                    let i1 = self.mkint(1);
                    let c = self.op1(i1);
                    self.p.eat(",");
                    let a = self.label();
                    self.p.eat(",");
                    let b = self.label();
                    let (ea, eb) = (self.edge(a), self.edge(b));
                    self.emit(Ins::Br(c, ea, eb));
                } else {
                    let a = self.label();
                    let e = self.edge(a);
                    self.emit(Ins::Jmp(e));
                }
            }
            b"switch" => {
                let (t, v) = self.tyop();
                self.p.eat(",");
                let d = self.label();
                let def = self.edge(d);
                self.p.eat("[");
                let start = self.f.cases.len() as u32;
                let mut n = 0;
                loop {
                    while matches!(self.p.pk(), b' ' | b'\n') {
                        self.p.i += 1
                    }
                    if self.p.pk() == b']' {
                        break;
                    }
                    let ct = self.p.ty(&mut self.m.types);
                    let c = self.m.constant(&mut self.p, ct)[0].0;
                    self.p.eat(",");
                    let l = self.label();
                    let e = self.edge(l);
                    self.f.cases.push((c, e));
                    n += 1;
                }
                // sort for binary search
                let s = start as usize;
                self.f.cases[s..].sort();
                let wd = self.m.types.bits(t);
                self.emit(Ins::Switch { w: wd, v: v[0], start, n, def });
            }
            b"phi" => {
                for f in ["nnan", "ninf"] {
                    let _ = self.p.eat(f);
                }
                let t = self.p.ty(&mut self.m.types);
                let mut inc = vec![];
                loop {
                    if !self.p.eat("[") {
                        self.p.fail("phi [")
                    }
                    let v = self.operand(t);
                    self.p.eat(",");
                    self.p.ws();
                    self.p.i += 1;
                    let n = self.p.name();
                    let b = self.block(n);
                    self.p.eat("]");
                    inc.push((v, b));
                    if !self.p.eat(",") {
                        break;
                    }
                    self.p.ws();
                    if self.p.pk() == b'!' {
                        break;
                    }
                }
                let d = self.dst(name, t);
                let n = self.m.types.nleaves(t);
                self.phis[self.cur as usize].push((d, n, inc));
            }
            b"ret" => {
                if self.p.eat("void") {
                    self.emit(Ins::Ret(0, 0));
                } else {
                    let (_, v) = self.tyop();
                    let s = self.pool(&v);
                    self.emit(Ins::Ret(s, v.len() as u16));
                }
            }
            b"unreachable" => self.emit(Ins::Unreachable),
            b"fence" => {}
            b"alloca" => {
                let _ = self.p.eat("inalloca");
                let t = self.p.ty(&mut self.m.types);
                let (mut sz, mut al) = self.m.types.layout(t);
                while self.p.eat(",") {
                    if self.p.eat("align") {
                        self.p.ws();
                        let n = std::str::from_utf8(self.p.word()).unwrap().parse::<u64>().unwrap();
                        al = al.max(n);
                    } else {
                        self.p.ws();
                        if self.p.pk() == b'!' {
                            break;
                        }
                        let ct = self.p.ty(&mut self.m.types);
                        let v = self.op1(ct);
                        if v & CONST == 0 {
                            self.unsupported("dynamic alloca".into());
                            return;
                        }
                        if let V::C(n) = self.f.consts[(v & !CONST) as usize] {
                            sz *= n;
                        }
                    }
                }
                let pt = self.m.types.mk(Ty::Ptr);
                let d = self.dst(name, pt);
                self.emit(Ins::Alloca { dst: d, size: sz as u32, align: al.max(8) as u32 });
            }
            b"extractvalue" => {
                let (t, a) = self.tyop();
                let (lo, et) = self.agg_path(t);
                let n = self.m.types.nleaves(et);
                let d = self.dst(name, et);
                for k in 0..n {
                    self.emit(Ins::Mov(d + k, a[(lo + k) as usize]));
                }
            }
            b"insertvalue" => {
                let (t, mut a) = self.tyop();
                self.p.eat(",");
                let (_, v) = self.tyop();
                let (lo, _) = self.agg_path(t);
                for k in 0..v.len() {
                    a[lo as usize + k] = v[k];
                }
                let d = self.dst(name, t);
                for k in 0..a.len() {
                    self.emit(Ins::Mov(d + k as u32, a[k]));
                }
            }
            b"shufflevector" => {
                let (t, a) = self.tyop();
                self.p.eat(",");
                let (_, b) = self.tyop();
                self.p.eat(",");
                let mt = self.p.ty(&mut self.m.types);
                let mk = self.m.constant(&mut self.p, mt);
                let e = match self.m.types.tys[t as usize] {
                    Ty::Vector(_, e) => e,
                    _ => self.p.fail("shuffle"),
                };
                let rt = self.m.types.mk(Ty::Vector(mk.len() as u32, e));
                let d = self.dst(name, rt);
                for (k, (ix, _)) in mk.iter().enumerate() {
                    let ix = *ix as usize;
                    let s = if ix < a.len() { a[ix] } else { b[ix - a.len()] };
                    self.emit(Ins::Mov(d + k as u32, s));
                }
            }
            b"extractelement" => {
                let (t, a) = self.tyop();
                self.p.eat(",");
                let (_, ix) = self.tyop();
                let e = match self.m.types.tys[t as usize] {
                    Ty::Vector(_, e) => e,
                    _ => self.p.fail("extractelement"),
                };
                let d = self.dst(name, e);
                let n = a.len() as u16;
                let src = self.pool(&a);
                self.emit(Ins::ExtractElt { n, src, idx: ix[0], dst: d });
            }
            b"insertelement" => {
                let (t, a) = self.tyop();
                self.p.eat(",");
                let (_, v) = self.tyop();
                self.p.eat(",");
                let (_, ix) = self.tyop();
                let wd = self.elem_bits(t);
                let d = self.dst(name, t);
                let n = a.len() as u16;
                let src = self.pool(&a);
                self.emit(Ins::InsertElt { n, w: wd, src, val: v[0], idx: ix[0], dst: d });
            }
            b"cmpxchg" => {
                let _ = self.p.eat("weak");
                let _ = self.p.eat("volatile");
                let (_, a) = self.tyop();
                self.p.eat(",");
                let (t, c) = self.tyop();
                self.p.eat(",");
                let (_, n) = self.tyop();
                let wd = self.m.types.bits(t);
                let i1 = self.mkint(1);
                let rt = self.m.types.mk(Ty::Struct(vec![t, i1], false));
                let d = self.dst(name, rt);
                self.emit(Ins::CmpXchg { w: wd, dst: d, addr: a[0], cmp: c[0], new: n[0] });
            }
            b"atomicrmw" => {
                let _ = self.p.eat("volatile");
                let op = self.p.word();
                let (_, a) = self.tyop();
                self.p.eat(",");
                let (t, v) = self.tyop();
                let wd = self.m.types.bits(t);
                let d = self.dst(name, t);
                let op = match op {
                    b"xchg" => 0,
                    b"add" => 1,
                    b"sub" => 2,
                    b"and" => 3,
                    b"or" => 4,
                    b"xor" => 5,
                    b"umax" => 6,
                    b"umin" => 7,
                    b"nand" => 8,
                    _ => 9,
                };
                self.emit(Ins::AtomicRmw { op, w: wd, dst: d, addr: a[0], val: v[0] });
            }
            b"call" | b"tail" | b"musttail" | b"notail" => {
                if w != b"call" && !self.p.eat("call") {
                    self.p.fail("call")
                }
                self.call(name)
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                self.fast();
                let (t, a) = self.tyop();
                self.p.eat(",");
                let b = self.operand(t);
                let d = self.dst(name, t);
                let wd = self.elem_bits(t);
                let op = match w {
                    b"fadd" => 0,
                    b"fsub" => 1,
                    b"fmul" => 2,
                    b"fdiv" => 3,
                    _ => 4,
                };
                for k in 0..a.len() {
                    self.emit(Ins::Fp { op, w: wd, dst: d + k as u32, a: a[k], b: b[k] });
                }
            }
            b"fcmp" => {
                self.fast();
                let pw = self.p.word();
                let op = 16
                    + match pw {
                        b"false" => 0,
                        b"oeq" => 1,
                        b"ogt" => 2,
                        b"oge" => 3,
                        b"olt" => 4,
                        b"ole" => 5,
                        b"one" => 6,
                        b"ord" => 7,
                        b"uno" => 8,
                        b"ueq" => 9,
                        b"ugt" => 10,
                        b"uge" => 11,
                        b"ult" => 12,
                        b"ule" => 13,
                        b"une" => 14,
                        _ => 15,
                    };
                let (t, a) = self.tyop();
                self.p.eat(",");
                let b = self.operand(t);
                let b1 = self.mkint(1);
                let d = self.dst(name, b1);
                if a.len() != 1 {
                    self.p.fail("vector fcmp")
                }
                let wd = self.elem_bits(t);
                self.emit(Ins::Fp { op, w: wd, dst: d, a: a[0], b: b[0] });
            }
            b"fneg" => {
                self.fast();
                let (t, a) = self.tyop();
                let d = self.dst(name, t);
                let wd = self.elem_bits(t);
                for k in 0..a.len() {
                    self.emit(Ins::FpCvt { op: 6, wf: wd, wt: wd, dst: d + k as u32, a: a[k] });
                }
            }
            b"sitofp" | b"uitofp" | b"fptosi" | b"fptoui" | b"fpext" | b"fptrunc" => {
                self.fast();
                let _ = self.p.eat("nneg");
                let (t, a) = self.tyop();
                if !self.p.eat("to") {
                    self.p.fail("to")
                }
                let tt = self.p.ty(&mut self.m.types);
                let d = self.dst(name, tt);
                let (wf, wt) = (self.elem_bits(t), self.elem_bits(tt));
                let op = match w {
                    b"sitofp" => 0,
                    b"uitofp" => 1,
                    b"fptosi" => 2,
                    b"fptoui" => 3,
                    b"fpext" => 4,
                    _ => 5,
                };
                for k in 0..a.len() {
                    self.emit(Ins::FpCvt { op, wf, wt, dst: d + k as u32, a: a[k] });
                }
            }
            _ => {
                // floating point and other unsupported instructions: only an error when executed
                let ww = std::str::from_utf8(w).unwrap().to_string();
                let end = self.m.text[start..].iter().position(|c| *c == b'\n').unwrap();
                let line = String::from_utf8_lossy(&self.m.text[start..start + end]).to_string();
                self.unsupported(format!("instruction {ww}: {line}"));
                // define the result with a best-effort type
                if let Some(n) = name {
                    for f in ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"] {
                        let _ = self.p.eat(f);
                    }
                    let t = match w {
                        b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" | b"fneg" => self.p.ty(&mut self.m.types),
                        b"fcmp" => self.mkint(1),
                        b"sitofp" | b"uitofp" | b"fptosi" | b"fptoui" | b"fpext" | b"fptrunc" => {
                            let k = line.rfind(" to ").unwrap();
                            let mut p = P { s: self.m.text, i: start + k + 4 };
                            p.ty(&mut self.m.types)
                        }
                        _ => panic!("unsupported instruction with result: {line}"),
                    };
                    self.local(n, t);
                }
            }
        }
        let _ = self.is_fp(0);
    }
    fn fast(&mut self) {
        for f in ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"] {
            let _ = self.p.eat(f);
        }
    }
    fn agg_path(&mut self, t: T) -> (u32, T) {
        let mut lo = 0;
        let mut cur = t;
        while self.p.eat(",") {
            self.p.ws();
            if !self.p.pk().is_ascii_digit() {
                break;
            }
            let ix = std::str::from_utf8(self.p.word()).unwrap().parse::<usize>().unwrap();
            match self.m.types.tys[cur as usize].clone() {
                Ty::Struct(fs, _) => {
                    for f in &fs[..ix] {
                        lo += self.m.types.nleaves(*f)
                    }
                    cur = fs[ix];
                }
                Ty::Array(_, e) => {
                    lo += ix as u32 * self.m.types.nleaves(e);
                    cur = e;
                }
                _ => self.p.fail("aggregate path"),
            }
        }
        (lo, cur)
    }
    fn call(&mut self, name: Option<&'static [u8]>) {
        for f in ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"] {
            let _ = self.p.eat(f);
        }
        loop {
            let st = self.p.i;
            let w = self.p.word();
            match w {
                b"fastcc" | b"ccc" | b"coldcc" | b"tailcc" | b"preserve_mostcc" | b"preserve_allcc" => {}
                b"cc" => {
                    self.p.word();
                }
                _ => {
                    self.p.i = st;
                    break;
                }
            }
        }
        self.p_attrs();
        let rt = self.p.ty(&mut self.m.types);
        self.p.ws();
        if self.p.pk() == b'(' {
            self.p.skip_parens_pub();
            self.p.ws();
        }
        let nret = self.m.types.nleaves(rt);
        enum Callee {
            F(&'static [u8]),
            R(R),
            Asm(String),
        }
        let pt = self.m.types.mk(Ty::Ptr);
        let callee = if self.p.pk() == b'@' {
            let st = self.p.i;
            self.p.i += 1;
            let n = self.p.name();
            if self.m.fn_by_name.contains_key(n) {
                Callee::F(n)
            } else {
                self.p.i = st;
                Callee::R(self.op1(pt))
            }
        } else if self.p.eat("asm") {
            let mut txt = String::new();
            loop {
                self.p.ws();
                if self.p.pk() == b'(' {
                    break;
                }
                if self.p.pk() == b'"' {
                    txt.push_str(&String::from_utf8_lossy(self.p.name()));
                    txt.push(' ');
                } else if self.p.pk() == b',' {
                    self.p.i += 1;
                } else {
                    self.p.word();
                }
            }
            Callee::Asm(txt)
        } else {
            Callee::R(self.op1(pt))
        };
        if !self.p.eat("(") {
            self.p.fail("call (")
        }
        let mut args: Vec<R> = vec![];
        let mut argtys: Vec<T> = vec![];
        if !self.p.eat(")") {
            loop {
                self.p.ws();
                let t = self.p.ty(&mut self.m.types);
                if self.m.types.tys[t as usize] == Ty::Other {
                    // metadata argument
                    while !matches!(self.p.pk(), b',' | b')') {
                        if self.p.pk() == b'"' {
                            self.p.name();
                        } else {
                            self.p.i += 1
                        }
                    }
                } else {
                    self.p_attrs();
                    let v = self.operand(t);
                    args.extend(v);
                    argtys.push(t);
                }
                if self.p.eat(")") {
                    break;
                }
                if !self.p.eat(",") {
                    self.p.fail("call ,")
                }
            }
        }
        match callee {
            Callee::Asm(t) => {
                let d = self.dst(name, rt);
                if t.contains("cpuid") || nret == 0 {
                    let z = self.cst(0, 64);
                    for k in 0..nret {
                        self.emit(Ins::Mov(d + k, z));
                    }
                } else {
                    self.unsupported(format!("inline asm {t}"));
                }
            }
            Callee::R(f) => {
                let d = self.dst(name, rt);
                let a = self.pool(&args);
                self.emit(Ins::CallInd { f, args: a, nargs: args.len() as u16, nret: nret as u16, dst: d });
            }
            Callee::F(n) => {
                let ns = std::str::from_utf8(n).unwrap();
                if let Some(rest) = ns.strip_prefix("llvm.") {
                    return self.intrinsic(name, rest, rt, args, argtys);
                }
                let d = self.dst(name, rt);
                let a = self.pool(&args);
                let f = self.m.fn_by_name[n];
                self.emit(Ins::Call { f, args: a, nargs: args.len() as u16, nret: nret as u16, dst: d });
            }
        }
    }
    fn intrinsic(&mut self, name: Option<&'static [u8]>, n: &str, rt: T, args: Vec<R>, argtys: Vec<T>) {
        let d = self.dst(name, rt);
        let nret = self.m.types.nleaves(rt) as u16;
        let base = n.split('.').next().unwrap_or("");
        let i = match base {
            "lifetime" | "assume" | "dbg" | "prefetch" | "invariant" | "va_end" | "donothing" => Intr::Nop,
            "experimental" if n.contains("noalias") => Intr::Nop,
            "memcpy" | "memmove" => Intr::MemCpy,
            "memset" => Intr::MemSet,
            "umax" => Intr::UMax,
            "umin" => Intr::UMin,
            "smax" => Intr::SMax,
            "smin" => Intr::SMin,
            "abs" => Intr::Abs,
            "fshl" => Intr::Fshl,
            "fshr" => Intr::Fshr,
            "cttz" => Intr::Cttz,
            "ctlz" => Intr::Ctlz,
            "ctpop" => Intr::Ctpop,
            "bswap" => Intr::Bswap,
            "bitreverse" => Intr::Bitrev,
            "uadd" if n.contains("sat") => Intr::UAddSat,
            "usub" if n.contains("sat") => Intr::USubSat,
            "sadd" if n.contains("sat") => Intr::SAddSat,
            "ssub" if n.contains("sat") => Intr::SSubSat,
            "uadd" => Intr::UAddO,
            "usub" => Intr::USubO,
            "umul" => Intr::UMulO,
            "sadd" => Intr::SAddO,
            "ssub" => Intr::SSubO,
            "smul" => Intr::SMulO,
            "ucmp" => Intr::Ucmp,
            "scmp" => Intr::Scmp,
            "trap" | "ubsantrap" | "debugtrap" => Intr::Trap,
            "threadlocal" => Intr::TlsAddr,
            "load" if n.starts_with("load.relative") => Intr::LoadRel,
            "expect" => Intr::Expect,
            "ptrmask" => Intr::Ptrmask,
            "vector" if n.contains("reduce.add") => Intr::VReduce(B::Add),
            "vector" if n.contains("reduce.or") => Intr::VReduce(B::Or),
            "vector" if n.contains("reduce.and") => Intr::VReduce(B::And),
            "vector" if n.contains("reduce.xor") => Intr::VReduce(B::Xor),
            "vector" if n.contains("reduce.umax") => Intr::VReduceMinMax(0),
            "vector" if n.contains("reduce.umin") => Intr::VReduceMinMax(1),
            "x86" if n.contains("pause") => Intr::Pause,
            "x86" if n.contains("psad.bw") => Intr::Psad,
            _ => Intr::Unsupported,
        };
        match i {
            Intr::Nop | Intr::Pause => return,
            Intr::Unsupported => return self.unsupported(format!("intrinsic llvm.{n}")),
            Intr::TlsAddr | Intr::Expect => {
                return self.emit(Ins::Mov(d, args[0]));
            }
            _ => {}
        }
        let vec_n = match self.m.types.tys[rt as usize] {
            Ty::Vector(k, _) if !matches!(i, Intr::Psad) => k,
            _ => 0,
        };
        let at = argtys.get(0).copied().unwrap_or(rt);
        let w = match i {
            Intr::MemCpy | Intr::MemSet | Intr::LoadRel => 64,
            _ => self.elem_bits(at),
        };
        if vec_n > 0 {
            // lane-wise
            let k = vec_n as usize;
            for j in 0..k {
                let mut a: Vec<R> = vec![];
                let mut o = 0;
                for t in &argtys {
                    if matches!(self.m.types.tys[*t as usize], Ty::Vector(..)) {
                        a.push(args[o + j]);
                        o += k;
                    } else {
                        a.push(args[o]);
                        o += 1;
                    }
                }
                let s = self.pool(&a);
                self.emit(Ins::Intr { i, w, args: s, nargs: a.len() as u16, nret: 1, dst: d + j as u32 });
            }
            return;
        }
        // scmp/ucmp: remember the result width in nret slot's place via w of result
        let s = self.pool(&args);
        let nret = match i {
            Intr::Ucmp | Intr::Scmp => self.m.types.bits(rt),
            _ => nret,
        };
        self.emit(Ins::Intr { i, w, args: s, nargs: args.len() as u16, nret, dst: d });
    }
}
pub fn edge_n(n: u32) -> (usize, bool) {
    ((n & !NEEDS_TMP) as usize, n & NEEDS_TMP != 0)
}
