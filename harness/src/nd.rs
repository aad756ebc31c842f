//! Nondeterminism layer.
//!
//! Under Kani every draw is an unconstrained symbolic value.  In an ordinary
//! build the draws are answered, in order, from a list of recorded values, so
//! that a solver counterexample can be replayed against the real code.

#[cfg(kani)]
mod imp {
    #[inline(never)]
    pub fn u8() -> u8 {
        kani::any()
    }
    #[inline(never)]
    pub fn u16() -> u16 {
        kani::any()
    }
    #[inline(never)]
    pub fn u32() -> u32 {
        kani::any()
    }
    #[inline(never)]
    pub fn u64() -> u64 {
        kani::any()
    }
    #[inline(never)]
    pub fn bytes<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    std::thread_local! {
        static TAPE: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) };
    }
    /// Values are little-endian byte strings, one per draw.
    pub fn load(values: Vec<Vec<u8>>) {
        TAPE.with(|t| *t.borrow_mut() = values.into());
    }
    fn pop<const N: usize>() -> [u8; N] {
        let v = TAPE.with(|t| t.borrow_mut().pop_front()).unwrap_or_default();
        let mut out = [0u8; N];
        let n = v.len().min(N);
        out[..n].copy_from_slice(&v[..n]);
        out
    }
    pub fn u8() -> u8 {
        u8::from_le_bytes(pop())
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(pop())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(pop())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(pop())
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        pop()
    }
    /// A replayed run that leaves the assumed region shows nothing.
    pub fn assume(c: bool) {
        if !c {
            std::process::exit(3);
        }
    }
}
pub use imp::*;

/// A symbolic length in `0..=max`.
pub fn len(max: usize) -> usize {
    let n = u16() as usize;
    assume(n <= max);
    n
}
/// A symbolic index (unconstrained: the caller compares it itself).
pub fn idx() -> usize {
    u16() as usize
}
pub fn flag() -> bool {
    u8() & 1 == 1
}
/// A buffer of any size, with arbitrary contents (zero when replayed: harnesses set
/// what they look at). Never freed.
pub fn heap(n: usize) -> &'static mut [u8] {
    unsafe {
        let l = std::alloc::Layout::from_size_align_unchecked(n, 1);
        #[cfg(kani)]
        let p = std::alloc::alloc(l);
        #[cfg(not(kani))]
        let p = std::alloc::alloc_zeroed(l);
        core::slice::from_raw_parts_mut(p, n)
    }
}
