//! Parser for textual LLVM IR: module index, types, constants, lazily compiled function bodies.
use crate::expr::{self, FxMap, B};

pub const FUNC_BASE: u64 = 0x0010_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const HEAP_BASE: u64 = 0x4000_0000;
pub const HEAP_END: u64 = 0xB000_0000;
pub const STACK_BASE: u64 = 0xC000_0000;
pub const STACK_END: u64 = 0xD000_0000;

pub type T = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Fp(u16),
    Array(u64, T),
    Vector(u32, T),
    Struct(Vec<T>, bool),
    Other,
}
pub struct Types {
    pub tys: Vec<Ty>,
    map: FxMap<Ty, T>,
    named: FxMap<&'static [u8], (usize, Option<T>)>,
    lay: Vec<Option<(u64, u64)>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    C(u64),
    S(expr::E),
}

#[derive(Clone, Copy, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug)]
pub enum Intr {
    Nop,
    MemCpy,
    MemSet,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    Fshl,
    Fshr,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ucmp,
    Scmp,
    Trap,
    TlsAddr,
    LoadRel,
    Expect,
    Pause,
    Psad,
    Pshufb,
    VReduce(B),
    UMaxV,
    VReduceMinMax(u8),
    Ptrmask,
    Unsupported,
}

pub type R = u32; // operand: register, or CONST | index
pub const CONST: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug)]
pub enum Ins {
    Bin(B, u16, R, R, R),
    Cmp(Pred, u16, R, R, R),
    ZExt(u16, u16, R, R),
    SExt(u16, u16, R, R),
    Trunc(u16, u16, R, R),
    Mov(R, R),
    Sel { w: u16, ptr: bool, dst: R, c: R, a: R, b: R },
    Load { w: u16, dst: R, addr: R, off: u32 },
    Store { w: u16, val: R, addr: R, off: u32 },
    Lea { dst: R, base: R, off: i32 },
    LeaI { w: u16, dst: R, base: R, idx: R, scale: u32 },
    Jmp(u32),
    Br(R, u32, u32),
    Switch { w: u16, v: R, start: u32, n: u32, def: u32 },
    Call { f: u32, args: u32, nargs: u16, nret: u16, dst: R },
    CallInd { f: R, args: u32, nargs: u16, nret: u16, dst: R },
    Intr { i: Intr, w: u16, args: u32, nargs: u16, nret: u16, dst: R },
    Ret(u32, u16),
    Alloca { dst: R, size: u32, align: u32 },
    AtomicRmw { op: u8, w: u16, dst: R, addr: R, val: R },
    CmpXchg { w: u16, dst: R, addr: R, cmp: R, new: R },
    /// reinterpret `n` source leaves of width ws into m leaves of width wd
    Bitcast { ws: u16, n: u16, wd: u16, m: u16, src: u32, dst: R },
    ExtractElt { n: u16, src: u32, idx: R, dst: R },
    InsertElt { n: u16, w: u16, src: u32, val: R, idx: R, dst: R },
    Unreachable,
    /// floating point on concrete values
    Fp { op: u8, w: u16, dst: R, a: R, b: R },
    FpCvt { op: u8, wf: u16, wt: u16, dst: R, a: R },
    Unsupported(u32),
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Edge {
    pub target: u32,
    pub moves: u32,
    pub n: u32,
}

#[derive(Default)]
pub struct Func {
    pub id: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Ins>,
    pub edges: Vec<Edge>,
    pub moves: Vec<(R, R)>,
    pub pool: Vec<u32>,
    pub cases: Vec<(u128, u32)>,
    pub consts: Vec<V>,
    pub byval: Vec<(u32, u32)>,
    pub msgs: Vec<String>,
}

pub struct FnDecl {
    pub name: &'static str,
    pub def: Option<usize>, // offset of the "define" line
    pub compiled: Option<&'static Func>,
    pub ext: u32,
}
pub struct GlobalDecl {
    pub name: &'static str,
    pub ty: T,
    pub init: Option<usize>,
    pub addr: u64,
    pub weak: bool,
}

pub struct Module {
    pub text: &'static [u8],
    pub types: Types,
    pub funcs: Vec<FnDecl>,
    pub fn_by_name: FxMap<&'static [u8], u32>,
    pub globals: Vec<GlobalDecl>,
    pub gl_by_name: FxMap<&'static [u8], u32>,
    pub globals_end: u64,
    pub constmap: FxMap<&'static [u8], u64>, // aliases
}

impl Types {
    fn new() -> Self {
        Types { tys: vec![], map: FxMap::default(), named: FxMap::default(), lay: vec![] }
    }
    pub fn mk(&mut self, t: Ty) -> T {
        if let Some(i) = self.map.get(&t) {
            return *i;
        }
        let i = self.tys.len() as T;
        self.tys.push(t.clone());
        self.lay.push(None);
        self.map.insert(t, i);
        i
    }
    /// (size, align)
    pub fn layout(&mut self, t: T) -> (u64, u64) {
        if let Some(l) = self.lay[t as usize] {
            return l;
        }
        let l = match self.tys[t as usize].clone() {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) | Ty::Fp(w) => {
                let b = ((w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (((b + a - 1) / a) * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Array(n, e) => {
                let (s, a) = self.layout(e);
                (s * n, a)
            }
            Ty::Vector(n, e) => {
                let w = self.bits(e) as u64;
                let s = (n as u64 * w + 7) / 8;
                let a = s.next_power_of_two();
                (a, a)
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs {
                    let (s, a) = self.layout(f);
                    let a = if packed { 1 } else { a };
                    al = al.max(a);
                    o = (o + a - 1) / a * a + s;
                }
                ((o + al - 1) / al * al, al)
            }
        };
        self.lay[t as usize] = Some(l);
        l
    }
    pub fn bits(&self, t: T) -> u16 {
        match self.tys[t as usize] {
            Ty::Int(w) | Ty::Fp(w) => w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn field_off(&mut self, t: T, i: usize) -> (u64, T) {
        match self.tys[t as usize].clone() {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    let (s, a) = self.layout(*f);
                    let a = if packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    if k == i {
                        return (o, *f);
                    }
                    o += s;
                }
                panic!("field")
            }
            Ty::Array(_, e) => {
                let (s, _) = self.layout(e);
                (s * i as u64, e)
            }
            Ty::Vector(_, e) => {
                let (s, _) = self.layout(e);
                (s * i as u64, e)
            }
            x => panic!("field_off {:?}", x),
        }
    }
    /// scalar leaves: (offset, bits, is_ptr)
    pub fn leaves(&mut self, t: T, base: u64, out: &mut Vec<(u64, u16, bool)>) {
        match self.tys[t as usize].clone() {
            Ty::Void | Ty::Other => {}
            Ty::Int(w) | Ty::Fp(w) => out.push((base, w, false)),
            Ty::Ptr => out.push((base, 64, true)),
            Ty::Array(n, e) => {
                let (s, _) = self.layout(e);
                for i in 0..n {
                    self.leaves(e, base + i * s, out)
                }
            }
            Ty::Vector(n, e) => {
                let w = self.bits(e) as u64;
                for i in 0..n as u64 {
                    if w % 8 == 0 {
                        self.leaves(e, base + i * w / 8, out)
                    } else {
                        self.leaves(e, base, out)
                    }
                }
            }
            Ty::Struct(fs, _) => {
                for i in 0..fs.len() {
                    let (o, f) = self.field_off(t, i);
                    self.leaves(f, base + o, out)
                }
            }
        }
    }
    pub fn nleaves(&mut self, t: T) -> u32 {
        match self.tys[t as usize].clone() {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Fp(_) | Ty::Ptr => 1,
            Ty::Array(n, e) => n as u32 * self.nleaves(e),
            Ty::Vector(n, _) => n,
            Ty::Struct(fs, _) => fs.iter().map(|f| self.nleaves(*f)).sum(),
        }
    }
}

pub struct P {
    pub s: &'static [u8],
    pub i: usize,
}
fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}
impl P {
    #[inline]
    pub fn pk(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    #[inline]
    pub fn ws(&mut self) {
        while matches!(self.pk(), b' ' | b'\t') {
            self.i += 1
        }
    }
    fn ws_nl(&mut self) {
        while matches!(self.pk(), b' ' | b'\t' | b'\n') {
            self.i += 1
        }
    }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            let last = b[b.len() - 1];
            let nx = *self.s.get(self.i + b.len()).unwrap_or(&0);
            if idch(last) && idch(nx) {
                return false;
            }
            self.i += b.len();
            return true;
        }
        false
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            self.fail(&format!("expected {t}"))
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(100);
        let b = (self.i + 100).min(self.s.len());
        panic!(
            "IR parse error: {m} at …{} >>> {}…",
            String::from_utf8_lossy(&self.s[a..self.i]),
            String::from_utf8_lossy(&self.s[self.i..b])
        )
    }
    pub fn word(&mut self) -> &'static [u8] {
        self.ws();
        let st = self.i;
        while idch(self.pk()) {
            self.i += 1
        }
        &self.s[st..self.i]
    }
    /// name after % or @
    pub fn name(&mut self) -> &'static [u8] {
        if self.pk() == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.pk() != b'"' {
                self.i += 1
            }
            self.i += 1;
            &self.s[st..self.i - 1]
        } else {
            let st = self.i;
            while idch(self.pk()) {
                self.i += 1
            }
            &self.s[st..self.i]
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.pk() {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.pk() != b'"' {
                        self.i += 1
                    }
                }
                0 => self.fail("eof"),
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn eol(&mut self) {
        let mut i = self.i;
        while i < self.s.len() && self.s[i] != b'\n' {
            i += 1
        }
        self.i = i + 1;
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let neg = self.pk() == b'-';
        if neg {
            self.i += 1
        }
        let mut v: i128 = 0;
        let st = self.i;
        while self.pk().is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.pk() - b'0') as i128);
            self.i += 1
        }
        if st == self.i {
            self.fail("number")
        }
        if neg {
            -v
        } else {
            v
        }
    }
    pub fn ty(&mut self, m: &mut Types) -> T {
        self.ws();
        let t = match self.pk() {
            b'i' => {
                self.i += 1;
                let n = self.num();
                m.mk(Ty::Int(n as u16))
            }
            b'[' => {
                self.i += 1;
                let n = self.num();
                self.expect("x");
                let e = self.ty(m);
                self.expect("]");
                m.mk(Ty::Array(n as u64, e))
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.pk() == b'{' {
                    let t = self.struct_body(m, true);
                    self.expect(">");
                    t
                } else {
                    let n = self.num();
                    self.expect("x");
                    let e = self.ty(m);
                    self.expect(">");
                    m.mk(Ty::Vector(n as u32, e))
                }
            }
            b'{' => self.struct_body(m, false),
            b'%' => {
                self.i += 1;
                let n = self.name();
                let (off, t) = *m.named.get(n).unwrap_or_else(|| self.fail("named type"));
                match t {
                    Some(t) => t,
                    None => {
                        let mut p = P { s: self.s, i: off };
                        let t = if p.eat("opaque") { m.mk(Ty::Other) } else { p.ty(m) };
                        m.named.get_mut(n).unwrap().1 = Some(t);
                        t
                    }
                }
            }
            _ => {
                let w = self.word();
                match w {
                    b"ptr" => m.mk(Ty::Ptr),
                    b"void" => m.mk(Ty::Void),
                    b"float" => m.mk(Ty::Fp(32)),
                    b"double" => m.mk(Ty::Fp(64)),
                    b"half" => m.mk(Ty::Fp(16)),
                    b"x86_fp80" => m.mk(Ty::Fp(80)),
                    b"fp128" => m.mk(Ty::Fp(128)),
                    b"metadata" | b"label" | b"token" => m.mk(Ty::Other),
                    _ => self.fail("type"),
                }
            }
        };
        if self.pk() == b' ' && self.s[self.i + 1..].starts_with(b"addrspace(") {
            self.i += 1;
            self.word();
            self.skip_parens();
        }
        t
    }
    fn struct_body(&mut self, m: &mut Types, packed: bool) -> T {
        self.expect("{");
        let mut fs = vec![];
        if !self.eat("}") {
            loop {
                fs.push(self.ty(m));
                if self.eat("}") {
                    break;
                }
                self.expect(",");
            }
        }
        m.mk(Ty::Struct(fs, packed))
    }
    /// skip attributes; returns byval type if one is present
    pub fn attrs_pub(&mut self, m: &mut Types) -> Option<T> {
        self.attrs(m)
    }
    pub fn skip_parens_pub(&mut self) {
        self.skip_parens()
    }
    fn attrs(&mut self, m: &mut Types) -> Option<T> {
        let mut bv = None;
        loop {
            self.ws();
            let c = self.pk();
            if c == b'#' {
                self.i += 1;
                self.num();
                continue;
            }
            if c == b'"' {
                self.name();
                if self.pk() == b'=' {
                    self.i += 1;
                    self.name();
                }
                continue;
            }
            if !c.is_ascii_lowercase() {
                return bv;
            }
            let st = self.i;
            let w = self.word();
            match w {
                b"align" | b"dereferenceable" | b"addrspace" | b"dereferenceable_or_null"
                    if self.pk() == b' ' =>
                {
                    self.num();
                }
                b"byval" => {
                    self.expect("(");
                    bv = Some(self.ty(m));
                    self.expect(")");
                }
                b"noundef" | b"nonnull" | b"noalias" | b"nofree" | b"readonly" | b"writeonly"
                | b"zeroext" | b"signext" | b"immarg" | b"returned" | b"inreg" | b"nocapture"
                | b"nest" | b"swiftself" | b"writable" | b"allocptr" | b"readnone"
                | b"dead_on_unwind" | b"dead_on_return" | b"allocalign" | b"noext" | b"nofpclass" => {
                    if self.pk() == b'(' {
                        self.skip_parens()
                    }
                }
                _ if self.pk() == b'(' => self.skip_parens(),
                _ => {
                    self.i = st;
                    return bv;
                }
            }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let data = std::fs::read(path).expect("read .ll");
        let text: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mut m = Module {
            text,
            types: Types::new(),
            funcs: vec![],
            fn_by_name: FxMap::default(),
            globals: vec![],
            gl_by_name: FxMap::default(),
            globals_end: 0,
            constmap: FxMap::default(),
        };
        // index lines
        let mut p = P { s: text, i: 0 };
        let mut gl: Vec<(&'static [u8], usize, bool)> = vec![];
        let mut aliases: Vec<(&'static [u8], usize)> = vec![];
        while p.i < text.len() {
            let st = p.i;
            match text[p.i] {
                b'%' => {
                    p.i += 1;
                    let n = p.name();
                    p.expect("=");
                    p.expect("type");
                    m.types.named.insert(n, (p.i, None));
                }
                b'@' => {
                    p.i += 1;
                    let n = p.name();
                    p.expect("=");
                    let mut ext = false;
                    let mut weak = false;
                    let mut alias = false;
                    loop {
                        p.ws();
                        let s0 = p.i;
                        if p.pk() == b'(' {
                            p.skip_parens();
                            continue;
                        }
                        let w = p.word();
                        match w {
                            b"global" | b"constant" => break,
                            b"alias" => {
                                alias = true;
                                break;
                            }
                            b"external" => ext = true,
                            b"extern_weak" => {
                                weak = true;
                                ext = true
                            }
                            b"" => {
                                p.i = s0;
                                p.fail("global")
                            }
                            _ => {}
                        }
                    }
                    if alias {
                        aliases.push((n, p.i));
                    } else {
                        let _ = weak;
                        gl.push((n, p.i, ext));
                        if weak {
                            m.constmap.insert(n, 0);
                        }
                    }
                }
                b'd' if text[p.i..].starts_with(b"define ") || text[p.i..].starts_with(b"declare ") => {
                    let def = text[p.i + 2] == b'f';
                    let weak = !def && text[p.i..].starts_with(b"declare extern_weak ");
                    while text[p.i] != b'@' {
                        if text[p.i] == b'"' {
                            p.name();
                        } else {
                            p.i += 1
                        }
                    }
                    p.i += 1;
                    let n = p.name();
                    if weak {
                        m.constmap.insert(n, 0);
                    }
                    let id = m.funcs.len() as u32;
                    m.fn_by_name.insert(n, id);
                    m.funcs.push(FnDecl {
                        name: std::str::from_utf8(n).unwrap(),
                        def: if def { Some(st) } else { None },
                        compiled: None,
                        ext: u32::MAX,
                    });
                    if def {
                        // skip to "\n}"
                        p.eol();
                        loop {
                            if text[p.i] == b'}' {
                                break;
                            }
                            p.eol();
                        }
                    }
                }
                _ => {}
            }
            p.eol();
        }
        let mut addr = GLOBAL_BASE;
        for (n, off, ext) in gl {
            let mut p = P { s: text, i: off };
            let ty = p.ty(&mut m.types);
            let (sz, al) = m.types.layout(ty);
            let mut align = al.max(8);
            // explicit alignment at the end of the line
            {
                let mut e = off;
                while e < text.len() && text[e] != b'\n' {
                    e += 1
                }
                let tail = &text[e.saturating_sub(120).max(off)..e];
                if let Some(k) = tail.windows(8).rposition(|w| w == b", align ") {
                    let v = tail[k + 8..]
                        .iter()
                        .take_while(|c| c.is_ascii_digit())
                        .fold(0u64, |a, c| a * 10 + (*c - b'0') as u64);
                    align = align.max(v.max(1).next_power_of_two());
                }
            }
            addr = (addr + align - 1) / align * align;
            let id = m.globals.len() as u32;
            m.gl_by_name.insert(n, id);
            m.globals.push(GlobalDecl {
                name: std::str::from_utf8(n).unwrap_or("?"),
                ty,
                init: if ext { None } else { Some(p.i) },
                addr,
                weak: m.constmap.contains_key(n),
            });
            addr += sz.max(1);
        }
        m.globals_end = addr;
        assert!(addr < HEAP_BASE);
        for (n, off) in aliases {
            let mut p = P { s: text, i: off };
            let _ = p.ty(&mut m.types);
            p.expect(",");
            let t = p.ty(&mut m.types);
            let v = m.constant(&mut p, t);
            m.constmap.insert(n, v[0].0 as u64);
        }
        m
    }

    pub fn sym_addr(&self, n: &[u8]) -> Option<u64> {
        if let Some(v) = self.constmap.get(n) {
            return Some(*v);
        }
        if let Some(f) = self.fn_by_name.get(n) {
            return Some(FUNC_BASE + 16 * *f as u64);
        }
        self.gl_by_name.get(n).map(|g| self.globals[*g as usize].addr)
    }

    /// Parse a constant of type `t`, returning its scalar leaves.
    pub fn constant(&mut self, p: &mut P, t: T) -> Vec<(u128, u16)> {
        p.ws();
        let ty = self.types.tys[t as usize].clone();
        let c = p.pk();
        if c == b'f' && p.s[p.i..].starts_with(b"f0x") {
            if let Ty::Fp(w) = ty {
                p.i += 1;
                let wd = p.word();
                let v = u64::from_str_radix(std::str::from_utf8(&wd[2..]).unwrap(), 16).unwrap_or_else(|_| p.fail("float"));
                return vec![(v as u128, w)];
            }
        }
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                let a = self.sym_addr(n).unwrap_or_else(|| p.fail("unknown symbol"));
                return vec![(a as u128, 64)];
            }
            b'-' | b'0'..=b'9' => {
                if let Ty::Fp(w) = ty {
                    // hex or decimal float
                    let wd = p.word();
                    let s = std::str::from_utf8(wd).unwrap();
                    let v = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap_or(0)
                    } else {
                        let mut s = s.to_string();
                        if p.pk() == b'+' {
                            p.i += 1;
                            s.push_str(std::str::from_utf8(p.word()).unwrap());
                        }
                        s.parse::<f64>().unwrap_or(0.0).to_bits()
                    };
                    let v = if w == 32 { (f64::from_bits(v) as f32).to_bits() as u64 } else { v };
                    return vec![(v as u128, w)];
                }
                let w = self.types.bits(t);
                let v = p.num();
                return vec![(v as u128 & expr::mask(w), w)];
            }
            b'c' if p.s[p.i + 1] == b'"' => {
                let b = self.cstr(p);
                return b.into_iter().map(|x| (x as u128, 8)).collect();
            }
            b'[' | b'{' | b'<' => {
                let packed = c == b'<' && {
                    let mut k = p.i + 1;
                    while p.s[k] == b' ' {
                        k += 1
                    }
                    p.s[k] == b'{'
                };
                p.i += 1;
                if packed {
                    p.expect("{");
                }
                let close = match c {
                    b'[' => "]",
                    b'{' => "}",
                    _ => {
                        if packed {
                            "}"
                        } else {
                            ">"
                        }
                    }
                };
                let mut out = vec![];
                if !p.eat(close) {
                    loop {
                        let et = p.ty(&mut self.types);
                        out.extend(self.constant(p, et));
                        if p.eat(close) {
                            break;
                        }
                        p.expect(",");
                    }
                }
                if packed {
                    p.expect(">");
                }
                return out;
            }
            _ => {}
        }
        let st = p.i;
        let w = p.word();
        match w {
            b"null" => vec![(0, 64)],
            b"true" => vec![(1, 1)],
            b"false" => vec![(0, 1)],
            b"zeroinitializer" | b"undef" | b"poison" | b"none" => {
                let mut l = vec![];
                self.types.leaves(t, 0, &mut l);
                l.into_iter().map(|(_, w, _)| (0, w)).collect()
            }
            b"splat" => {
                p.expect("(");
                let et = p.ty(&mut self.types);
                let v = self.constant(p, et);
                p.expect(")");
                let n = self.types.nleaves(t);
                (0..n).map(|_| v[0]).collect()
            }
            b"getelementptr" => {
                while !p.eat("(") {
                    p.word();
                    p.ws();
                    if p.s[p.i..].starts_with(b"(i") && p.s[..p.i].ends_with(b"inrange") {
                        p.skip_parens();
                    }
                    if p.s[p.i..].starts_with(b"inrange") {
                        p.word();
                        p.skip_parens();
                    }
                }
                let et = p.ty(&mut self.types);
                p.expect(",");
                let bt = p.ty(&mut self.types);
                let mut a = self.constant(p, bt)[0].0 as u64;
                let mut cur = et;
                let mut first = true;
                while p.eat(",") {
                    let it = p.ty(&mut self.types);
                    let (v, w) = self.constant(p, it)[0];
                    let v = expr::sx(v, w) as i64;
                    if first {
                        let (s, _) = self.types.layout(cur);
                        a = a.wrapping_add((v * s as i64) as u64);
                        first = false;
                    } else {
                        let (o, f) = match self.types.tys[cur as usize] {
                            Ty::Array(_, e) => {
                                let s = self.types.layout(e).0;
                                ((v * s as i64) as u64, e)
                            }
                            _ => self.types.field_off(cur, v as usize),
                        };
                        a = a.wrapping_add(o);
                        cur = f;
                    }
                }
                p.expect(")");
                vec![(a as u128, 64)]
            }
            b"ptrtoint" | b"inttoptr" | b"trunc" | b"bitcast" | b"zext" | b"sext" | b"addrspacecast" => {
                let _ = p.eat("nuw");
                let _ = p.eat("nsw");
                p.expect("(");
                let ft = p.ty(&mut self.types);
                let (v, fw) = self.constant(p, ft)[0];
                p.expect("to");
                let tt = p.ty(&mut self.types);
                p.expect(")");
                let tw = self.types.bits(tt);
                let v = if w == b"sext" { expr::sx(v, fw) as u128 } else { v };
                vec![(v & expr::mask(tw), tw)]
            }
            b"add" | b"sub" | b"xor" | b"mul" => {
                while !p.eat("(") {
                    p.word();
                }
                let t1 = p.ty(&mut self.types);
                let (a, w1) = self.constant(p, t1)[0];
                p.expect(",");
                let t2 = p.ty(&mut self.types);
                let (b, _) = self.constant(p, t2)[0];
                p.expect(")");
                let op = match w {
                    b"add" => B::Add,
                    b"sub" => B::Sub,
                    b"mul" => B::Mul,
                    _ => B::Xor,
                };
                vec![(expr::cbin(op, w1, a, b), w1)]
            }
            b"dso_local_equivalent" | b"no_cfi" => self.constant(p, t),
            _ if matches!(p.s.get(st), Some(b'+') | Some(b'-')) => {
                // +inf, -inf, +qnan, +nan(0x..)
                p.i = st;
                let neg = p.s[p.i] == b'-';
                p.i += 1;
                let w = p.word().to_vec();
                if w == b"nan" && p.eat("(") {
                    while !p.eat(")") {
                        p.i += 1;
                    }
                }
                let bits = self.types.bits(t);
                let (inf, one) = if bits == 64 { (0x7ff0u128 << 48, 1u128 << 63) } else { (0x7f80u128 << 16, 1u128 << 31) };
                let v = match &w[..] {
                    b"inf" => inf,
                    b"qnan" | b"nan" => inf | if bits == 64 { 1 << 51 } else { 1 << 22 },
                    _ => p.fail("float constant"),
                };
                vec![(if neg { v | one } else { v }, bits)]
            }
            _ => {
                p.i = st;
                p.fail("constant")
            }
        }
    }
    fn cstr(&mut self, p: &mut P) -> Vec<u8> {
        p.i += 2;
        let mut out = vec![];
        let hx = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        loop {
            let c = p.pk();
            p.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    if p.pk() == b'\\' {
                        out.push(b'\\');
                        p.i += 1;
                    } else {
                        out.push(hx(p.s[p.i]) * 16 + hx(p.s[p.i + 1]));
                        p.i += 2;
                    }
                }
                c => out.push(c),
            }
        }
        out
    }
    /// Write the initial image of global `g` through `w(addr, bytes)`.
    pub fn init_global(&mut self, g: usize, w: &mut dyn FnMut(u64, &[u8])) {
        let Some(off) = self.globals[g].init else { return };
        let (ty, addr) = (self.globals[g].ty, self.globals[g].addr);
        let mut p = P { s: self.text, i: off };
        self.init_at(&mut p, ty, addr, w);
    }
    fn init_at(&mut self, p: &mut P, t: T, addr: u64, w: &mut dyn FnMut(u64, &[u8])) {
        p.ws();
        let c = p.pk();
        if p.s[p.i..].starts_with(b"zeroinitializer") || p.s[p.i..].starts_with(b"undef") || p.s[p.i..].starts_with(b"poison") {
            p.word();
            return;
        }
        match self.types.tys[t as usize].clone() {
            Ty::Array(_, e) => {
                if c == b'c' {
                    let b = self.cstr(p);
                    w(addr, &b);
                    return;
                }
                p.expect("[");
                let (s, _) = self.types.layout(e);
                let mut i = 0;
                if p.eat("]") {
                    return;
                }
                loop {
                    let et = p.ty(&mut self.types);
                    self.init_at(p, et, addr + i * s, w);
                    i += 1;
                    if p.eat("]") {
                        return;
                    }
                    p.expect(",");
                }
            }
            Ty::Struct(fs, packed) => {
                if packed {
                    p.expect("<");
                }
                p.expect("{");
                for i in 0..fs.len() {
                    let (o, _) = self.types.field_off(t, i);
                    let et = p.ty(&mut self.types);
                    self.init_at(p, et, addr + o, w);
                    if i + 1 < fs.len() {
                        p.expect(",");
                    }
                }
                p.expect("}");
                if packed {
                    p.expect(">");
                }
            }
            _ => {
                let mut l = vec![];
                self.types.leaves(t, 0, &mut l);
                let vs = self.constant(p, t);
                for ((o, _, _), (v, wd)) in l.iter().zip(vs) {
                    let n = (wd as usize + 7) / 8;
                    w(addr + o, &v.to_le_bytes()[..n]);
                }
            }
        }
    }
}
