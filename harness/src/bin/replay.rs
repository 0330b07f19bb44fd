//! Native execution of a harness under a recorded assignment: `replay ENTRY VALUES`.
//! VALUES: lines `name value`. Output lines: CHECKFAIL id / COVER id / NOTE text / PANIC location / END.
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;

static VALS: Mutex<Option<HashMap<String, u64>>> = Mutex::new(None);

static EV: Mutex<u64> = Mutex::new(0xcbf29ce484222325);
/// digest of the checks and covers passed, as the engine computes it
fn event(k: u8, id: &str) {
    let mut e = EV.lock().unwrap();
    for b in std::iter::once(k).chain(id.bytes()) {
        *e = (*e ^ b as u64).wrapping_mul(0x100000001b3);
    }
}
fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
fn out(l: String) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", l.replace('\n', "\\n"));
    let _ = o.flush();
}
#[no_mangle]
extern "C" fn vs_sym(w: u32, n: *const u8, l: usize) -> u64 {
    let name = s(n, l);
    let v = VALS.lock().unwrap().as_ref().unwrap().get(&name).copied().unwrap_or(0);
    if w < 64 {
        v & ((1 << w) - 1)
    } else {
        v
    }
}
#[no_mangle]
extern "C" fn vs_assume(c: u32) {
    if c & 1 == 0 {
        out("ASSUME".into());
        std::process::exit(0);
    }
}
#[no_mangle]
extern "C" fn vs_check(c: u32, p: *const u8, l: usize) {
    event(b'c', &s(p, l));
    if c & 1 == 0 {
        out(format!("CHECKFAIL {}", s(p, l)));
    }
}
#[no_mangle]
extern "C" fn vs_cover(p: *const u8, l: usize) {
    event(b'v', &s(p, l));
    out(format!("COVER {}", s(p, l)));
}
#[no_mangle]
extern "C" fn vs_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn vs_note(p: *const u8, l: usize) {
    out(format!("NOTE {}", s(p, l)));
}
#[no_mangle]
extern "C" fn vs_note_val(p: *const u8, l: usize, v: u64) {
    out(format!("NOTE {}={}", s(p, l), v));
}
fn inside(p: &str) {
    assert!(p.starts_with("/tmp/vsr/") && !p.contains(".."), "virtual file outside the scratch root: {p}");
}
#[no_mangle]
extern "C" fn vs_file(p: *const u8, pl: usize, d: *const u8, dl: usize) {
    let p = s(p, pl);
    inside(&p);
    std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
    std::fs::write(&p, unsafe { std::slice::from_raw_parts(d, dl) }).unwrap();
}
#[no_mangle]
extern "C" fn vs_dir(p: *const u8, pl: usize) {
    let p = s(p, pl);
    inside(&p);
    std::fs::create_dir_all(&p).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut m = HashMap::new();
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let (n, v) = l.rsplit_once(' ').unwrap();
        m.insert(n.to_string(), v.parse().unwrap());
    }
    *VALS.lock().unwrap() = Some(m);
    let _ = std::fs::remove_dir_all("/tmp/vsr");
    std::fs::create_dir_all("/tmp/vsr").unwrap();
    std::env::set_current_dir("/tmp/vsr").unwrap();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().unwrap();
        out(format!("PANIC panic at {}:{}:{}", l.file(), l.line(), l.column()));
        eprintln!("{i}");
    }));
    let f = vharness::table().into_iter().find(|(n, _)| *n == a[1]).expect("no such entry").1;
    f();
    out(format!("END {:016x}", *EV.lock().unwrap()));
    let _ = std::fs::remove_dir_all("/tmp/vsr");
}
