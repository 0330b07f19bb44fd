mod comp;
mod exec;
mod expr;
mod ext;
mod ll;
mod mem;
mod solver;
use exec::*;
use std::io::Write;

pub fn demangle(s: &str) -> String {
    // v0 mangling: keep the readable identifiers only
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut n = 0usize;
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if n > 0 && n < 80 && i + n <= b.len() && b[st] != b'0' {
                let w = &s[i..i + n];
                if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    out.push(w.to_string());
                    i += n;
                    continue;
                }
            }
            i = st + 1;
            continue;
        }
        if b[i] == b's' || b[i] == b'C' || b[i] == b'B' {
            // disambiguators / back references up to '_'
            if b[i] != b'C' {
                if let Some(k) = s[i + 1..].find('_') {
                    if s[i + 1..i + 1 + k].bytes().all(|c| c.is_ascii_alphanumeric()) && k < 14 {
                        i += k + 2;
                        continue;
                    }
                }
            }
        }
        i += 1;
    }
    out.join("::")
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report_json(e: &Engine, entry: &str, wall: f64, complete: bool) -> String {
    let r = &e.rep;
    let s = &e.sol.st;
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
    };
    let viol = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"id\":{},\"inputs\":[{}],\"notes\":[{}],\"trace\":{}}}",
                esc(&v.kind),
                esc(&v.id),
                v.inputs.iter().map(|(n, w, x)| format!("[{},{},{}]", esc(n), w, x)).collect::<Vec<_>>().join(","),
                v.notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","),
                esc(&v.trace)
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    let fns = e
        .m
        .funcs
        .iter()
        .filter(|f| f.compiled.is_some())
        .map(|f| esc(&demangle(f.name)))
        .collect::<Vec<_>>()
        .join(",");
    format!(
        "{{\"entry\":{},\"complete\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"checks_solver\":{},\"checks_const\":{},\"check_ids\":{},\"covers\":{},\"samples\":[{}],\"violations\":[{}],\"errors\":[{}],\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"presolved\":{},\"solver_us\":{},\"max_query_us\":{},\"wall_s\":{:.3},\"functions\":[{}]}}",
        esc(entry),
        complete,
        r.paths,
        r.infeasible,
        r.forks,
        r.steps,
        r.checks_solver,
        r.checks_const,
        map(&r.check_ids),
        map(&r.covers),
        r.samples
            .iter()
            .map(|v| {
                format!(
                    "{{\"inputs\":[{}],\"notes\":[{}],\"ev\":\"{:016x}\"}}",
                    v.inputs.iter().map(|(n, w, x)| format!("[{},{},{}]", esc(n), w, x)).collect::<Vec<_>>().join(","),
                    v.notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","),
                    v.ev
                )
            })
            .collect::<Vec<_>>().join(","),
        viol,
        r.errors.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.cache_hits,
        s.presolved,
        s.time_us,
        s.max_us,
        wall,
        fns
    )
}

use std::sync::atomic::Ordering::SeqCst;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entries: Vec<String> = vec![];
    let mut out = String::new();
    let mut jobs = 1usize;
    let mut trace = false;
    let mut strict = false;
    let mut limit = 600u64;
    let mut dump = None;
    let mut prof = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--ll" => {
                i += 1;
                ll = args[i].clone()
            }
            "--entry" => {
                i += 1;
                entries.extend(args[i].split(',').map(|s| s.to_string()))
            }
            "--out" => {
                i += 1;
                out = args[i].clone()
            }
            "--jobs" => {
                i += 1;
                jobs = args[i].parse().unwrap()
            }
            "--limit" => {
                i += 1;
                limit = args[i].parse().unwrap()
            }
            "--dump" => {
                i += 1;
                dump = Some(args[i].clone())
            }
            "--trace" => trace = true,
            "--strict" => strict = true,
            "--prof" => prof = true,
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m = ll::Module::load(&ll);
    let (mut eng, mem) = Engine::new(m);
    eng.trace = trace;
    eng.strict = strict;
    eng.sol.dump = dump;
    if prof {
        eng.prof = Some(vec![]);
    }
    let t1 = t0.elapsed();
    if trace {
        eprintln!("load {:?}, {} functions, {} globals", t1, eng.m.funcs.len(), eng.m.globals.len());
    }
    let mut all = vec![];
    for entry in entries {
        let t = std::time::Instant::now();
        eng.rep = Report::default();
        eng.sol.st = Default::default();
        eng.deadline = t + std::time::Duration::from_secs(limit);
        let st = eng.initial(mem.clone(), &entry);
        eng.pending.push(st);
        let parts = explore(&mut eng, &entry, jobs, t);
        all.push(parts);
        if trace {
            eprintln!("{}: {:?} {:?}", entry, t.elapsed(), eng.rep.paths);
            let mut v: Vec<_> = eng.fork_sites.iter().map(|(k, n)| (*n, *k)).collect();
            v.sort();
            v.reverse();
            for (n, (f, pc)) in v.iter().take(12) {
                eprintln!("  forks {n:6} {} @{pc}", eng.fname(*f));
            }
            if let Some(p) = &eng.prof {
                let mut v: Vec<_> = p.iter().enumerate().map(|(i, n)| (*n, i)).collect();
                v.sort();
                v.reverse();
                for (n, i) in v.iter().take(40) {
                    eprintln!("  calls {n:8} {}", eng.fname(*i as u32));
                }
            }
        }
    }
    let txt = format!("[{}]", all.join(",\n"));
    if out.is_empty() {
        println!("{txt}");
    } else {
        std::fs::write(&out, txt).unwrap();
    }
}

/// Shared by the processes of one exploration.
struct Shared {
    /// processes that may still be started
    free: std::sync::atomic::AtomicIsize,
    /// names of report files
    next: std::sync::atomic::AtomicUsize,
}

/// Depth-first, one process; whenever a process of the budget is free, half of the pending states (the oldest)
/// go to a forked worker. Every process writes its own report.
fn explore(eng: &mut Engine, entry: &str, jobs: usize, t: std::time::Instant) -> String {
    if jobs <= 1 {
        drain(eng, None, entry, t);
        return report_json(eng, entry, t.elapsed().as_secs_f64(), true);
    }
    let sh = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.free.store(jobs as isize - 1, SeqCst);
    let dir = std::env::temp_dir().join(format!("symex-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let kids = drain(eng, Some((sh, &dir)), entry, t);
    sh.free.fetch_add(1, SeqCst);
    let mut parts = vec![report_json(eng, entry, t.elapsed().as_secs_f64(), true)];
    if !reap(kids) {
        parts.push(format!("{{\"entry\":{},\"complete\":false,\"errors\":[\"a worker died\"]}}", esc(entry)));
    }
    let n = sh.next.load(SeqCst);
    for j in 0..n {
        match std::fs::read_to_string(dir.join(format!("{j}.json"))) {
            Ok(s) => parts.push(s),
            Err(_) => parts.push(format!("{{\"entry\":{},\"complete\":false,\"errors\":[\"a worker left no report\"]}}", esc(entry))),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    parts.join(",\n")
}

fn reap(kids: Vec<i32>) -> bool {
    let mut ok = true;
    for p in kids {
        let mut stt = 0;
        unsafe { waitpid(p, &mut stt, 0) };
        ok &= stt == 0;
    }
    ok
}

fn take(sh: &Shared) -> bool {
    let mut n = sh.free.load(SeqCst);
    while n > 0 {
        match sh.free.compare_exchange(n, n - 1, SeqCst, SeqCst) {
            Ok(_) => return true,
            Err(m) => n = m,
        }
    }
    false
}

fn drain(eng: &mut Engine, sh: Option<(&Shared, &std::path::Path)>, entry: &str, t: std::time::Instant) -> Vec<i32> {
    let mut kids = vec![];
    while let Some(s) = eng.pending.pop() {
        if std::time::Instant::now() > eng.deadline {
            eng.rep.errors.push("time limit".into());
            eng.pending.clear();
            break;
        }
        if let Some((sh, dir)) = sh {
            while !eng.pending.is_empty() && take(sh) {
                let j = sh.next.fetch_add(1, SeqCst);
                let n = (eng.pending.len() + 1) / 2;
                let p = unsafe { fork() };
                if p == 0 {
                    drop(s);
                    eng.pending.truncate(n);
                    eng.rep = Report::default();
                    eng.sol.st = Default::default();
                    let kids = drain(eng, Some((sh, dir)), entry, t);
                    sh.free.fetch_add(1, SeqCst);
                    let r = report_json(eng, entry, t.elapsed().as_secs_f64(), true);
                    std::fs::write(dir.join(format!("{j}.json")), r).unwrap();
                    let ok = reap(kids);
                    unsafe { _exit(!ok as i32) }
                }
                eng.pending.drain(..n);
                kids.push(p);
            }
        }
        eng.run(s);
    }
    kids
}
