//! The interface between the harnesses and whatever runs them: the symbolic engine (which gives
//! these symbols their meaning) or the native replayer (which reads the values from a recording).
extern "C-unwind" {
    fn sym_byte() -> u8;
    fn sym_choice(n: u32) -> u32;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, id: u32);
    fn sym_observe(p: *const u8, n: usize);
    fn sym_reach(id: u32);
    fn sym_tag(id: u64);
}

/// An arbitrary byte.
pub fn byte() -> u8 {
    unsafe { sym_byte() }
}
/// An arbitrary value in 0..n, explored as a separate path per value.
pub fn choice(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    unsafe { sym_choice(n as u32) as usize }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { sym_check(c, id) }
}
/// Bytes compared between the symbolic run and the native run of the same input.
pub fn observe(b: &[u8]) {
    unsafe { sym_observe(b.as_ptr(), b.len()) }
}
/// Vacuity guard: this point is reached.
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}
pub fn tag(id: u64) {
    unsafe { sym_tag(id) }
}
