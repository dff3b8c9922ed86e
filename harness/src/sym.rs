//! Interface to the symbolic executor (or to the native replayer).
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_observe(p: *const u8, n: usize);
    fn sym_alloc_limit(n: usize);
    fn sym_fork(v: u64) -> u64;
    fn sym_opaque_numbers(b: bool);
}
/// Fill from the symbolic input.
pub fn fill(b: &mut [u8]) { unsafe { sym_bytes(b.as_mut_ptr(), b.len()) } }
pub fn byte() -> u8 { let mut b = [0u8]; fill(&mut b); b[0] }
pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; fill(&mut b); b }
pub fn vec(n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; fill(&mut b); b }
pub fn u128() -> u128 { u128::from_le_bytes(bytes()) }
pub fn bit() -> bool { let b = byte(); assume(b < 2); b == 1 }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn assert(b: bool, id: u32) { unsafe { sym_assert(b, id) } }
pub fn cover(id: u32) { unsafe { sym_cover(id) } }
pub fn observe(b: &[u8]) { unsafe { sym_observe(b.as_ptr(), b.len()) } }
pub fn alloc_limit(n: usize) { unsafe { sym_alloc_limit(n) } }
/// From here on, symbolic numbers print as 0 and the debug format of symbolic texts is empty (for error texts nothing depends on).
pub fn opaque_numbers() { unsafe { sym_opaque_numbers(true) } }
/// An arbitrary number below `n`, concrete on each path.
pub fn pick(n: usize) -> usize {
    if n <= 1 { return 0 }
    let b = byte();
    assume((b as usize) < n);
    unsafe { sym_fork(b as u64) as usize }
}
/// Make a symbolic value concrete (one path per value).
pub fn fork(v: u64) -> u64 { unsafe { sym_fork(v) } }
/// Choose one of the given items.
pub fn one_of<T: Copy>(xs: &[T]) -> T { xs[pick(xs.len())] }
/// Assertion whose id is its source line.
macro_rules! check { ($c:expr) => { $crate::sym::assert($c, line!()) } }
pub(crate) use check;
