//! Models of external functions: harness primitives, allocator, C library, virtual file system.
use crate::exec::{cmpsym, ev, Engine, Rs, State, Stop};
use crate::expr::{self, B, E, P};
use crate::ll::{Pred, V};
use crate::mem::norm;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Sym,
    Assume,
    Check,
    Cover,
    Conc,
    Note,
    NoteVal,
    VFile,
    VDir,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    /// the function itself runs, once for every value of the bytes it is given
    HashWrite,
    Ret0,
    RetM1,
    Malloc,
    Calloc,
    CRealloc,
    CFree,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Strncmp,
    Strcmp,
    Memcpy,
    Memset,
    Isw(u8),
    Write,
    Writev,
    Read,
    Open,
    Close,
    Lseek,
    Fstat,
    Stat,
    Realpath,
    Getcwd,
    Errno,
    Abort,
    AssertFail,
    Getenv,
    ClockGettime,
    Getrandom,
    Syscall,
    PthreadKey,
    PanicFmt,
    Exit,
    Snprintf,
    Opendir,
    Readdir,
    Closedir,
    Gettid,
    Affinity,
    Strerror,
}

pub fn lookup(name: &str, defined: bool) -> Option<Ext> {
    use Ext::*;
    if name.contains("9panicking9panic_fmt") || name.contains("9panicking14panic_nounwind") && name.contains("nounwind_fmt") {
        return Some(PanicFmt);
    }
    if name.ends_with("___rust_alloc") {
        return Some(Alloc);
    }
    if name.ends_with("___rust_alloc_zeroed") {
        return Some(AllocZ);
    }
    if name.ends_with("___rust_dealloc") {
        return Some(Dealloc);
    }
    if name.ends_with("___rust_realloc") {
        return Some(Realloc);
    }
    if name.contains("__rust_no_alloc_shim_is_unstable") {
        return Some(Nop);
    }
    if name.contains("4core4hash3sip") && name.contains("Sip13Rounds") && name.contains("6Hasher5write") && !name.contains("regex") {
        return Some(HashWrite);
    }
    if defined {
        return None;
    }
    Some(match name {
        "vs_sym" => Sym,
        "vs_assume" => Assume,
        "vs_check" => Check,
        "vs_cover" => Cover,
        "vs_conc" => Conc,
        "vs_note" => Note,
        "vs_note_val" => NoteVal,
        "vs_file" => VFile,
        "vs_dir" => VDir,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => CRealloc,
        "free" => CFree,
        "posix_memalign" => PosixMemalign,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "strncmp" => Strncmp,
        "strcmp" => Strcmp,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "iswspace" => Isw(0),
        "iswdigit" => Isw(1),
        "iswalpha" => Isw(2),
        "iswalnum" => Isw(3),
        "write" => Write,
        "writev" => Writev,
        "read" => Read,
        "open64" | "open" => Open,
        "close" => Close,
        "lseek64" | "lseek" => Lseek,
        "fstat64" | "fstat" => Fstat,
        "stat64" | "stat" | "lstat64" | "lstat" => Stat,
        "realpath" => Realpath,
        "getcwd" => Getcwd,
        "__errno_location" => Errno,
        "abort" => Abort,
        "__assert_fail" => AssertFail,
        "getenv" => Getenv,
        "clock_gettime" => ClockGettime,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "pthread_key_create" => PthreadKey,
        "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "munmap" | "sched_yield"
        | "pthread_self" | "fclose" | "fputc" | "fwrite" | "fprintf" | "signal" | "sigaction" | "fcntl" => Ret0,
        "exit" | "_exit" => Exit,
        "snprintf" | "vsnprintf" => Snprintf,
        "opendir" => Opendir,
        "readdir64" | "readdir" => Readdir,
        "closedir" => Closedir,
        "gettid" | "dirfd" => Gettid,
        "sched_getaffinity" => Affinity,
        "__xpg_strerror_r" => Strerror,
        _ => return None,
    })
}

#[derive(Clone, Default, Debug)]
pub struct Vfs {
    /// path -> contents (None: directory)
    pub files: Vec<(String, Option<Vec<(u8, E)>>)>,
    /// fd - 3 -> (file index, offset)
    pub fds: Vec<(usize, u64)>,
    pub dirs: Vec<(Vec<(String, u64)>, usize)>,
}

fn event(st: &mut State, k: u8, id: &str) {
    for b in std::iter::once(k).chain(id.bytes()) {
        st.ev = (st.ev ^ b as u64).wrapping_mul(0x100000001b3);
    }
}

const CWD: &str = "/tmp/vsr";

impl Engine {
    fn c(&mut self, st: &mut State, v: V) -> Rs<u64> {
        self.conc(st, v)
    }
    fn str(&mut self, st: &mut State, p: V, n: V) -> Rs<String> {
        let p = self.c(st, p)?;
        let n = self.c(st, n)?;
        let mut out = vec![];
        for i in 0..n {
            let b = st.mem.load(p + i, 8)?;
            let b = match self.simp(st, b) {
                V::C(x) => x,
                V::S(e) => self.eval(st, e) as u64,
            };
            out.push(b as u8);
        }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
    /// Bytes of a C string; decides where the terminator is.
    fn cstr(&mut self, st: &mut State, p: V) -> Rs<Vec<V>> {
        let p = self.c(st, p)?;
        let mut out = vec![];
        loop {
            let b = st.mem.load(p + out.len() as u64, 8)?;
            let b = self.simp(st, b);
            let z = cmpsym(Pred::Eq, 8, b, V::C(0));
            if self.decide(st, z)? {
                return Ok(out);
            }
            out.push(b);
        }
    }
    /// Walk the path component by component, deciding symbolic bytes on the way; None, and errno set, if it names
    /// nothing. Symbolic bytes are part of names: one that could be a separator or a dot is not supported.
    fn vfind(&mut self, st: &mut State, p: V) -> Rs<Option<usize>> {
        let s = self.cstr(st, p)?;
        {
            let v = Rc::make_mut(&mut st.vfs);
            for d in ["/tmp", CWD] {
                if !v.files.iter().any(|f| f.0 == d) {
                    v.files.push((d.to_string(), None));
                }
            }
        }
        let vfs = st.vfs.clone();
        let mut comps: Vec<Vec<V>> = vec![];
        if s.is_empty() {
            st.mem.store(self.errno_addr, V::C(2), 32)?;
            return Ok(None);
        }
        if s[0] != V::C(b'/' as u64) {
            for c in CWD.split('/') {
                comps.push(c.bytes().map(|b| V::C(b as u64)).collect());
            }
        }
        comps.push(vec![]);
        for v in s {
            match v {
                V::C(x) if x == b'/' as u64 => comps.push(vec![]),
                V::C(_) => comps.last_mut().unwrap().push(v),
                _ => {
                    for x in [b'/', b'.'] {
                        let c = cmpsym(Pred::Eq, 8, v, V::C(x as u64));
                        if self.decide(st, c)? {
                            return Err(Stop::Unsupported("symbolic separator in a path".into()));
                        }
                    }
                    comps.last_mut().unwrap().push(v)
                }
            }
        }
        // index of the current entry; None: the root
        let mut cur: Option<usize> = None;
        for c in comps {
            if let Some(i) = cur {
                if vfs.files[i].1.is_some() {
                    st.mem.store(self.errno_addr, V::C(20), 32)?;
                    return Ok(None);
                }
            }
            let is = |t: &str| c.len() == t.len() && c.iter().zip(t.bytes()).all(|(x, y)| *x == V::C(y as u64));
            let name = cur.map_or("", |i| &vfs.files[i].0[..]);
            if is("") || is(".") {
                continue;
            }
            if is("..") {
                let up = &name[..name.rfind('/').unwrap_or(0)];
                cur = vfs.files.iter().position(|f| f.0 == up);
                continue;
            }
            let mut next = None;
            'files: for (i, (f, _)) in vfs.files.iter().enumerate() {
                let Some(child) = f.strip_prefix(name).and_then(|f| f.strip_prefix('/')) else { continue };
                if child.len() != c.len() || child.contains('/') {
                    continue;
                }
                for (x, y) in c.iter().zip(child.bytes()) {
                    let e = cmpsym(Pred::Eq, 8, *x, V::C(y as u64));
                    if !self.decide(st, e)? {
                        continue 'files;
                    }
                }
                next = Some(i);
                break;
            }
            if next.is_none() {
                st.mem.store(self.errno_addr, V::C(2), 32)?;
                return Ok(None);
            }
            cur = next;
        }
        if cur.is_none() {
            return Err(Stop::Unsupported("the root directory".into()));
        }
        Ok(cur)
    }
    fn enoent(&mut self, _: &mut State, _: V) -> Rs<V> {
        Ok(V::C(u32::MAX as u64))
    }
    fn put_stat(&mut self, st: &mut State, buf: u64, idx: usize) -> Rs<()> {
        let (mode, size) = match &st.vfs.files[idx].1 {
            None => (0o040755u64, 4096u64),
            Some(d) => (0o100644u64, d.len() as u64),
        };
        st.mem.fill(buf, 0, 144)?;
        st.mem.store(buf, V::C(1), 64)?; // dev
        st.mem.store(buf + 8, V::C(idx as u64 + 100), 64)?; // ino
        st.mem.store(buf + 16, V::C(1), 64)?; // nlink
        st.mem.store(buf + 24, V::C(mode), 32)?;
        st.mem.store(buf + 48, V::C(size), 64)?;
        Ok(())
    }
    fn eq_bytes(&mut self, st: &mut State, a: u64, b: u64, n: u64) -> Rs<Vec<(V, V)>> {
        let mut out = vec![];
        for i in 0..n {
            let x = st.mem.load(a + i, 8)?;
            let y = st.mem.load(b + i, 8)?;
            let x = self.simp(st, x);
            let y = self.simp(st, y);
            out.push((x, y));
        }
        Ok(out)
    }

    pub fn ext(&mut self, st: &mut State, x: Ext, id: u32, a: &[V]) -> Rs<V> {
        let _ = id;
        Ok(match x {
            Ext::Sym => {
                let w = self.c(st, a[0])? as u16;
                let name = self.str(st, a[1], a[2])?;
                let mut k = 0;
                let mut nm = name.clone();
                // unique per path
                while st.names.contains_key(&nm) {
                    k += 1;
                    nm = format!("{name}#{k}");
                }
                let (e, i) = expr::with(|ar| {
                    if let Some(i) = ar.vars.iter().position(|v| v.name == nm && v.width == w) {
                        (ar.mk(expr::N::Var(w, i as u32)), i)
                    } else {
                        let i = ar.vars.len();
                        (ar.new_var(w, nm.clone()), i)
                    }
                });
                if i >= 128 {
                    return Err(Stop::Unsupported("more than 128 symbolic variables".into()));
                }
                Rc::make_mut(&mut st.names).insert(nm, i as u32);
                st.vars.push(i as u32);
                while st.dom.len() <= i {
                    st.dom.push([u64::MAX; 4]);
                }
                if st.model.len() <= i {
                    let mut m = (*st.model).clone();
                    m.resize(i + 1, 0);
                    self.set_model(st, m);
                }
                if w < 64 {
                    expr::with(|ar| {
                        let z = ar.zext(64, e);
                        norm(ar, z)
                    })
                } else {
                    V::S(e)
                }
            }
            Ext::Assume => {
                let c = cmpsym(Pred::Ne, 32, a[0], V::C(0));
                match c {
                    V::C(1) => {}
                    V::C(_) => return Err(Stop::Infeasible),
                    V::S(e) => {
                        if self.eval(st, e) == 1 {
                            if st.known.get(&e) != Some(&true) {
                                self.add(st, e);
                            }
                        } else {
                            match self.feasible(st, e, false)? {
                                None => return Err(Stop::Infeasible),
                                Some(m) => {
                                    self.set_model(st, m);
                                    self.add(st, e);
                                }
                            }
                        }
                    }
                }
                V::C(0)
            }
            Ext::Check => {
                let id = self.str(st, a[1], a[2])?;
                *self.rep.check_ids.entry(id.clone()).or_insert(0) += 1;
                event(st, b'c', &id);
                let c = cmpsym(Pred::Ne, 32, a[0], V::C(0));
                match c {
                    V::C(1) => self.rep.checks_const += 1,
                    V::C(_) => {
                        self.violation(st, "check", id);
                        self.rep.checks_const += 1;
                        return Err(Stop::Done);
                    }
                    V::S(e) => {
                        self.rep.checks_solver += 1;
                        let n = expr::with(|ar| ar.not(e));
                        match self.feasible(st, n, true)? {
                            None => {
                                st.known.insert(e, true);
                            }
                            Some(m) => {
                                let mut o = st.clone();
                                self.set_model(&mut o, m);
                                self.violation(&o, "check", id);
                                match self.feasible(st, e, true)? {
                                    None => return Err(Stop::Done),
                                    Some(m) => {
                                        self.set_model(st, m);
                                        self.add(st, e);
                                    }
                                }
                            }
                        }
                    }
                }
                V::C(0)
            }
            Ext::Cover => {
                let id = self.str(st, a[0], a[1])?;
                event(st, b'v', &id);
                *self.rep.covers.entry(id).or_insert(0) += 1;
                V::C(0)
            }
            Ext::Conc => V::C(self.c(st, a[0])?),
            Ext::Note => {
                let p = self.c(st, a[0])?;
                let n = self.c(st, a[1])?;
                let mut s = vec![];
                for i in 0..n {
                    s.push(st.mem.load(p + i, 8)?);
                }
                st.notes.push(s);
                V::C(0)
            }
            Ext::NoteVal => {
                let s = self.str(st, a[0], a[1])?;
                let v = self.c(st, a[2])?;
                st.notes.push(format!("{s}={v}").bytes().map(|b| V::C(b as u64)).collect());
                V::C(0)
            }
            Ext::VFile | Ext::VDir => {
                let (at, n) = (self.c(st, a[0])?, self.c(st, a[1])?);
                for i in 0..n {
                    let b = st.mem.load(at + i, 8)?;
                    if let V::S(_) = self.simp(st, b) {
                        return Err(Stop::Unsupported("symbolic path of a declared file".into()));
                    }
                }
                let path = self.str(st, a[0], a[1])?;
                let data = if x == Ext::VFile {
                    let p = self.c(st, a[2])?;
                    let n = self.c(st, a[3])?;
                    let mut d = vec![];
                    for i in 0..n {
                        d.push(st.mem.byte(p + i)?);
                    }
                    Some(d)
                } else {
                    None
                };
                let v = Rc::make_mut(&mut st.vfs);
                // parents
                let mut k = 0;
                while let Some(j) = path[k + 1..].find('/') {
                    k = k + 1 + j;
                    let d = path[..k].to_string();
                    if !v.files.iter().any(|f| f.0 == d) {
                        v.files.push((d, None));
                    }
                }
                v.files.retain(|f| f.0 != path);
                v.files.push((path, data));
                V::C(0)
            }
            Ext::Alloc | Ext::AllocZ => {
                let n = self.c(st, a[0])?;
                let al = self.c(st, a[1])?;
                if n > (1 << 30) {
                    return Ok(V::C(0));
                }
                let p = st.mem.alloc(n, al).ok_or(Stop::Unsupported("guest heap exhausted".into()))?;
                if x == Ext::AllocZ {
                    st.mem.fill(p, 0, n)?;
                }
                V::C(p)
            }
            Ext::Dealloc | Ext::CFree => {
                let p = self.c(st, a[0])?;
                st.mem.free(p);
                V::C(0)
            }
            Ext::Realloc => {
                let p = self.c(st, a[0])?;
                let al = self.c(st, a[2])?;
                let n = self.c(st, a[3])?;
                V::C(st.mem.realloc(p, n, al).ok_or(Stop::Unsupported("guest heap exhausted".into()))?)
            }
            Ext::Malloc => {
                let n = self.c(st, a[0])?;
                V::C(st.mem.alloc(n, 16).ok_or(Stop::Unsupported("guest heap exhausted".into()))?)
            }
            Ext::Calloc => {
                let n = self.c(st, a[0])? * self.c(st, a[1])?;
                let p = st.mem.alloc(n, 16).ok_or(Stop::Unsupported("guest heap exhausted".into()))?;
                st.mem.fill(p, 0, n)?;
                V::C(p)
            }
            Ext::CRealloc => {
                let p = self.c(st, a[0])?;
                let n = self.c(st, a[1])?;
                let r = if p == 0 { st.mem.alloc(n, 16) } else { st.mem.realloc(p, n, 16) };
                V::C(r.ok_or(Stop::Unsupported("guest heap exhausted".into()))?)
            }
            Ext::PosixMemalign => {
                let o = self.c(st, a[0])?;
                let al = self.c(st, a[1])?;
                let n = self.c(st, a[2])?;
                let p = st.mem.alloc(n, al).ok_or(Stop::Unsupported("guest heap exhausted".into()))?;
                st.mem.store(o, V::C(p), 64)?;
                V::C(0)
            }
            Ext::Nop | Ext::HashWrite | Ext::Ret0 => V::C(0),
            Ext::RetM1 => V::C(u32::MAX as u64),
            Ext::Bcmp => {
                let (p, q, n) = (self.c(st, a[0])?, self.c(st, a[1])?, self.c(st, a[2])?);
                if let (Some(x), Some(y)) = (st.mem.read(p, n)?, st.mem.read(q, n)?) {
                    return Ok(V::C((x != y) as u64));
                }
                let bs = self.eq_bytes(st, p, q, n)?;
                expr::with(|ar| {
                    let mut r = ar.c(1, 1);
                    for (x, y) in bs {
                        let x = ev(ar, x, 8);
                        let y = ev(ar, y, 8);
                        let c = ar.cmp(P::Eq, x, y);
                        r = ar.bin(B::And, r, c);
                    }
                    let n = ar.not(r);
                    let z = ar.zext(32, n);
                    norm(ar, z)
                })
            }
            Ext::Memcmp | Ext::Strncmp | Ext::Strcmp => {
                let (p, q) = (self.c(st, a[0])?, self.c(st, a[1])?);
                let n = if x == Ext::Strcmp { 1 << 20 } else { self.c(st, a[2])? };
                for i in 0..n {
                    let l = st.mem.load(p + i, 8)?;
                    let r = st.mem.load(q + i, 8)?;
                    let (l, r) = (self.simp(st, l), self.simp(st, r));
                    let c = cmpsym(Pred::Eq, 8, l, r);
                    if !self.decide(st, c)? {
                        let lt = cmpsym(Pred::Ult, 8, l, r);
                        return Ok(if self.decide(st, lt)? { V::C(u32::MAX as u64) } else { V::C(1) });
                    }
                    if x != Ext::Memcmp {
                        let z = cmpsym(Pred::Eq, 8, l, V::C(0));
                        if self.decide(st, z)? {
                            return Ok(V::C(0));
                        }
                    }
                }
                V::C(0)
            }
            Ext::Strlen => {
                let s = self.cstr(st, a[0])?;
                V::C(s.len() as u64)
            }
            Ext::Memcpy => {
                let (d, s, n) = (self.c(st, a[0])?, self.c(st, a[1])?, self.c(st, a[2])?);
                st.mem.copy(d, s, n)?;
                V::C(d)
            }
            Ext::Memset => {
                let (d, n) = (self.c(st, a[0])?, self.c(st, a[2])?);
                let v = self.c(st, a[1])?;
                st.mem.fill(d, v as u8, n)?;
                V::C(d)
            }
            Ext::Isw(k) => {
                // "C" locale: ASCII only
                let r = |lo: u64, hi: u64| {
                    let x = cmpsym(Pred::Uge, 32, a[0], V::C(lo));
                    let y = cmpsym(Pred::Ule, 32, a[0], V::C(hi));
                    expr::with(|ar| {
                        let x = ev(ar, x, 1);
                        let y = ev(ar, y, 1);
                        ar.bin(B::And, x, y)
                    })
                };
                let sets: &[(u64, u64)] = match k {
                    0 => &[(9, 13), (32, 32)],
                    1 => &[(48, 57)],
                    2 => &[(65, 90), (97, 122)],
                    _ => &[(48, 57), (65, 90), (97, 122)],
                };
                let mut e = expr::with(|ar| ar.c(1, 0));
                for (lo, hi) in sets {
                    let c = r(*lo, *hi);
                    e = expr::with(|ar| ar.bin(B::Or, e, c));
                }
                expr::with(|ar| {
                    let z = ar.zext(32, e);
                    norm(ar, z)
                })
            }
            Ext::Write => {
                let n = self.c(st, a[2])?;
                if self.trace {
                    let s = self.str(st, a[1], a[2])?;
                    eprint!("[guest] {s}");
                }
                V::C(n)
            }
            Ext::Writev => {
                let iov = self.c(st, a[1])?;
                let k = self.c(st, a[2])?;
                let mut n = 0;
                for i in 0..k {
                    let l = st.mem.load(iov + 16 * i + 8, 64)?;
                    n += self.c(st, l)?;
                }
                V::C(n)
            }
            Ext::Open => match self.vfind(st, a[0])? {
                Some(i) => {
                    let v = Rc::make_mut(&mut st.vfs);
                    v.fds.push((i, 0));
                    V::C(v.fds.len() as u64 + 2)
                }
                None => self.enoent(st, a[0])?,
            },
            Ext::Close => V::C(0),
            Ext::Read => {
                let fd = self.c(st, a[0])?;
                let p = self.c(st, a[1])?;
                let n = self.c(st, a[2])?;
                let v = Rc::make_mut(&mut st.vfs);
                let Some(f) = v.fds.get_mut((fd as usize).wrapping_sub(3)) else {
                    return Ok(V::C(0));
                };
                let Some(d) = &v.files[f.0].1 else {
                    st.mem.store(self.errno_addr, V::C(21), 32)?;
                    return Ok(V::C(u64::MAX));
                };
                let k = (d.len() as u64 - f.1).min(n);
                for i in 0..k {
                    let (b, e) = d[(f.1 + i) as usize];
                    st.mem.set_byte(p + i, b, e)?;
                }
                f.1 += k;
                V::C(k)
            }
            Ext::Lseek => {
                let fd = self.c(st, a[0])?;
                let off = self.c(st, a[1])?;
                let wh = self.c(st, a[2])?;
                let v = Rc::make_mut(&mut st.vfs);
                let f = &mut v.fds[fd as usize - 3];
                let len = v.files[f.0].1.as_ref().map_or(0, |d| d.len() as u64);
                f.1 = match wh {
                    0 => off,
                    1 => f.1.wrapping_add(off),
                    _ => len.wrapping_add(off),
                };
                V::C(f.1)
            }
            Ext::Fstat => {
                let fd = self.c(st, a[0])?;
                let b = self.c(st, a[1])?;
                let i = st.vfs.fds[fd as usize - 3].0;
                self.put_stat(st, b, i)?;
                V::C(0)
            }
            Ext::Stat => {
                let b = self.c(st, a[1])?;
                match self.vfind(st, a[0])? {
                    Some(i) => {
                        self.put_stat(st, b, i)?;
                        V::C(0)
                    }
                    None => self.enoent(st, a[0])?,
                }
            }
            Ext::Realpath => match self.vfind(st, a[0])? {
                Some(i) => {
                    let n = st.vfs.files[i].0.clone();
                    let p = st.mem.alloc(n.len() as u64 + 1, 16).unwrap();
                    st.mem.write(p, n.as_bytes())?;
                    st.mem.write(p + n.len() as u64, &[0])?;
                    V::C(p)
                }
                None => {
                    self.enoent(st, a[0])?;
                    V::C(0)
                }
            },
            Ext::Getcwd => {
                let p = self.c(st, a[0])?;
                st.mem.write(p, CWD.as_bytes())?;
                st.mem.write(p + CWD.len() as u64, &[0])?;
                V::C(p)
            }
            Ext::Errno => V::C(self.errno_addr),
            Ext::Abort => return Err(Stop::Crash("abort".into())),
            Ext::AssertFail => {
                let s = self.cstr(st, a[0])?;
                let s: Vec<u8> = s.iter().map(|v| if let V::C(x) = v { *x as u8 } else { b'?' }).collect();
                return Err(Stop::Crash(format!("C assertion failed: {}", String::from_utf8_lossy(&s))));
            }
            Ext::Getenv => V::C(0),
            Ext::ClockGettime => {
                let p = self.c(st, a[1])?;
                st.clock += 1000;
                st.mem.store(p, V::C(1_700_000_000 + st.clock / 1_000_000_000), 64)?;
                st.mem.store(p + 8, V::C(st.clock % 1_000_000_000), 64)?;
                V::C(0)
            }
            Ext::Getrandom => {
                let p = self.c(st, a[0])?;
                let n = self.c(st, a[1])?;
                for i in 0..n {
                    st.mem.set_byte(p + i, (i * 37 + 11) as u8, 0)?;
                }
                V::C(n)
            }
            Ext::Syscall => {
                let n = self.c(st, a[0])?;
                match n {
                    318 => {
                        let p = self.c(st, a[1])?;
                        let k = self.c(st, a[2])?;
                        for i in 0..k {
                            st.mem.set_byte(p + i, (i * 37 + 11) as u8, 0)?;
                        }
                        V::C(k)
                    }
                    186 => V::C(1),
                    332 => {
                        // statx: not available, std falls back to stat
                        st.mem.store(self.errno_addr, V::C(38), 32)?;
                        V::C(u64::MAX)
                    }
                    202 => V::C(0),
                    _ => return Err(Stop::Unsupported(format!("syscall {n}"))),
                }
            }
            Ext::PthreadKey => {
                let p = self.c(st, a[0])?;
                st.mem.store(p, V::C(1), 32)?;
                V::C(0)
            }
            Ext::PanicFmt => {
                // last argument: &Location { file: &str, line: u32, col: u32 }
                let mut msg = String::from("panic");
                if let Some(V::C(l)) = a.last().copied() {
                    if let (Ok(V::C(p)), Ok(V::C(n)), Ok(V::C(line)), Ok(V::C(col))) =
                        (st.mem.load(l, 64), st.mem.load(l + 8, 64), st.mem.load(l + 16, 32), st.mem.load(l + 20, 32))
                    {
                        if n < 4096 {
                            if let Ok(Some(b)) = st.mem.read(p, n) {
                                let f = String::from_utf8_lossy(&b).trim_end_matches('\0').to_string();
                                let f = f.trim_start_matches("/repo/").to_string();
                                msg = format!("panic at {f}:{line}:{col}");
                            }
                        }
                    }
                }
                return Err(Stop::Panic(msg));
            }
            Ext::Exit => return Err(Stop::Exit),
            Ext::Snprintf => {
                let p = self.c(st, a[0])?;
                let n = self.c(st, a[1])?;
                if n > 0 && p != 0 {
                    st.mem.write(p, &[0])?;
                }
                V::C(0)
            }
            Ext::Opendir => match self.vfind(st, a[0])? {
                Some(i) if st.vfs.files[i].1.is_none() => {
                    let base = st.vfs.files[i].0.clone();
                    let v = Rc::make_mut(&mut st.vfs);
                    let mut names = vec![(".".to_string(), 4), ("..".to_string(), 4)];
                    for (n, f) in &v.files {
                        if let Some(r) = n.strip_prefix(&format!("{base}/")) {
                            if !r.contains('/') {
                                names.push((r.to_string(), if f.is_none() { 4 } else { 8 }));
                            }
                        }
                    }
                    names[2..].sort();
                    v.dirs.push((names, 0));
                    let h = st.mem.alloc(320, 16).unwrap();
                    let k = st.vfs.dirs.len() as u64;
                    st.mem.store(h, V::C(k), 64)?;
                    V::C(h)
                }
                found => {
                    if found.is_some() {
                        st.mem.store(self.errno_addr, V::C(20), 32)?;
                    }
                    V::C(0)
                }
            },
            Ext::Readdir => {
                let h = self.c(st, a[0])?;
                let k = st.mem.load(h, 64)?;
                let k = self.c(st, k)? as usize - 1;
                let v = Rc::make_mut(&mut st.vfs);
                let (names, pos) = &mut v.dirs[k];
                if *pos >= names.len() {
                    return Ok(V::C(0));
                }
                let (n, kind) = names[*pos].clone();
                *pos += 1;
                st.mem.fill(h + 16, 0, 280)?;
                st.mem.store(h + 16, V::C(77), 64)?;
                st.mem.store(h + 32, V::C(280), 16)?;
                st.mem.store(h + 34, V::C(kind), 8)?;
                st.mem.write(h + 35, n.as_bytes())?;
                V::C(h + 16)
            }
            Ext::Closedir => V::C(0),
            Ext::Gettid => V::C(1),
            Ext::Strerror => {
                let (e, p) = (self.c(st, a[0])?, self.c(st, a[1])?);
                let m = match e {
                    2 => "No such file or directory",
                    20 => "Not a directory",
                    21 => "Is a directory",
                    _ => return Err(Stop::Unsupported("strerror".into())),
                };
                st.mem.write(p, m.as_bytes())?;
                st.mem.set_byte(p + m.len() as u64, 0, 0)?;
                V::C(0)
            }
            Ext::Affinity => {
                // one processor
                let (n, p) = (self.c(st, a[1])?, self.c(st, a[2])?);
                st.mem.fill(p, 0, n)?;
                st.mem.set_byte(p, 1, 0)?;
                V::C(0)
            }
        })
    }
}
