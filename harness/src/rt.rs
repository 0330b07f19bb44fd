//! Harness primitives. In the symbolic build the `vs_*` symbols are interpreted by the engine; in the
//! native build (feature `replay`) they are supplied by `replay.rs` from a recorded assignment.
extern "C" {
    fn vs_sym(w: u32, name: *const u8, len: usize) -> u64;
    fn vs_assume(c: u32);
    fn vs_check(c: u32, id: *const u8, len: usize);
    fn vs_cover(id: *const u8, len: usize);
    fn vs_conc(v: u64) -> u64;
    fn vs_note(p: *const u8, len: usize);
    fn vs_note_val(p: *const u8, len: usize, v: u64);
    fn vs_file(p: *const u8, pl: usize, d: *const u8, dl: usize);
    fn vs_dir(p: *const u8, pl: usize);
}

/// Directory that holds the virtual files of a harness (the working directory of the process).
pub const ROOT: &str = "/tmp/vsr";

/// A fresh symbolic byte.
pub fn byte(name: &str) -> u8 {
    unsafe { vs_sym(8, name.as_ptr(), name.len()) as u8 }
}
/// A fresh symbolic 32-bit value.
pub fn word(name: &str) -> u32 {
    unsafe { vs_sym(32, name.as_ptr(), name.len()) as u32 }
}
pub fn assume(c: bool) {
    unsafe { vs_assume(c as u32) }
}
pub fn check(c: bool, id: &str) {
    unsafe { vs_check(c as u32, id.as_ptr(), id.len()) }
}
/// Reachability witness.
pub fn cover(id: &str) {
    unsafe { vs_cover(id.as_ptr(), id.len()) }
}
/// Case split: one path per feasible value.
pub fn split(v: u64) -> u64 {
    unsafe { vs_conc(v) }
}
pub fn note(s: &str) {
    unsafe { vs_note(s.as_ptr(), s.len()) }
}
pub fn note_val(s: &str, v: u64) {
    unsafe { vs_note_val(s.as_ptr(), s.len(), v) }
}
pub fn file(path: &str, data: &str) {
    unsafe { vs_file(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
}
pub fn dir(path: &str) {
    unsafe { vs_dir(path.as_ptr(), path.len()) }
}
/// A symbolic choice among `n` alternatives, decided per path.
pub fn choose(name: &str, n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    let b = byte(name);
    assume((b as usize) < n);
    split(b as u64) as usize
}
/// A symbolic value in `0..=max` that stays symbolic.
pub fn upto(name: &str, max: u32) -> u32 {
    let b = byte(name) as u32;
    assume(b <= max);
    b
}
/// Symbolic bytes constrained by a predicate.
pub fn bytes(name: &str, n: usize, ok: impl Fn(u8) -> bool) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let b = byte(&format!("{name}{i}"));
            assume(ok(b));
            b
        })
        .collect()
}
