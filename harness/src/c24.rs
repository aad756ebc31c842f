//! C24: generator seeding and the helper conversions.
#![allow(static_mut_refs)]
use crate::nd;
use crate::server::*;
use tpm2_impl::platform::crypto::drbg_helpers as h;
use tpm2_impl::platform::crypto::{Drbg, DrbgError};
use tpm2_impl::{ServerError, TpmContext};

/// A generator that serves numbered values, failing at an arbitrary call.
struct Seq {
    next: [u64; 6],
    words: [u32; 6],
    bytes: [u8; 16],
    n: usize,
    fail_at: usize,
    /// per call: kind (4, 8 or 1 for bytes), additional input length and first byte
    calls: [(u8, usize, u8); 6],
    fill_len: usize,
}
impl Seq {
    fn new() -> Self {
        Seq {
            next: [nd::u64(), nd::u64(), nd::u64(), nd::u64(), nd::u64(), nd::u64()],
            words: [nd::u32(), nd::u32(), nd::u32(), nd::u32(), nd::u32(), nd::u32()],
            bytes: nd::bytes(),
            n: 0,
            fail_at: nd::u8() as usize,
            calls: [(0, 0, 0); 6],
            fill_len: 0,
        }
    }
    fn call(&mut self, kind: u8, add: &[u8]) -> Result<usize, DrbgError> {
        let k = self.n;
        assert!(k < 6, "more generator calls than expected");
        self.calls[k] = (kind, add.len(), if add.is_empty() { 0 } else { add[0] });
        self.n += 1;
        if k == self.fail_at { Err(DrbgError) } else { Ok(k) }
    }
}
impl Drbg for Seq {
    type Entropy = [u8; 1];
    type Nonce = [u8; 1];
    fn instantiate(_: &[u8; 1], _: &[u8; 1], _: &[u8]) -> Result<Self, DrbgError> {
        Err(DrbgError)
    }
    fn reseed(&mut self, _: &[u8; 1], _: &[u8]) -> Result<(), DrbgError> {
        panic!("unexpected reseed")
    }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> {
        let k = self.call(4, a)?;
        Ok(self.words[k])
    }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> {
        let k = self.call(8, a)?;
        Ok(self.next[k])
    }
    fn fill_bytes(&mut self, a: &[u8], d: &mut [u8]) -> Result<(), DrbgError> {
        self.call(1, a)?;
        self.fill_len = d.len();
        for i in 0..d.len() {
            d[i] = self.bytes[i % 16];
        }
        Ok(())
    }
    fn requires_reseeding(&mut self) -> bool {
        false
    }
}
fn first_only(g: &Seq, add: &[u8]) {
    let i = nd::idx();
    if i < g.n && i < 6 {
        let (_, len, b) = g.calls[i];
        if i == 0 {
            assert!(len == add.len() && (len == 0 || b == add[0]), "the additional input is passed on");
        } else {
            assert!(len == 0, "the additional input is used once");
        }
    }
}
/// `n` bytes assembled from 64-bit values, the tail from one value.
fn fill(n: usize) {
    let mut g = Seq::new();
    let add = [nd::u8(); 2];
    let an = nd::len(2);
    let mut out = [0x11u8; 36];
    let r = h::fill_bytes_via_next(&mut g, &add[..an], &mut out[..n]);
    let full = n / 8;
    let tail = n % 8;
    let want = full + (tail > 0) as usize;
    first_only(&g, &add[..an]);
    if g.fail_at < want {
        assert!(r == Err(DrbgError), "a generator failure is reported");
        assert!(g.n == g.fail_at + 1, "generator calls after a failure");
    } else {
        assert!(r == Ok(()), "bytes generated");
        assert!(g.n == want, "generator calls");
        let i = nd::idx();
        if i < n {
            let k = i / 8;
            let b = if k < full || tail > 4 {
                assert!(g.calls[k].0 == 8, "64 bit value used");
                (g.next[k] >> (8 * (i % 8))) as u8
            } else {
                assert!(g.calls[k].0 == 4, "32 bit value used");
                (g.words[k] >> (8 * (i % 8))) as u8
            };
            assert!(out[i] == b, "generated byte");
        }
    }
    let i = nd::idx();
    if i < 36 && i >= n {
        assert!(out[i] == 0x11, "byte outside the destination was modified");
    }
    reached!(r.is_ok());
    reached!(r.is_err() || n == 0);
}
harness! {
    fill_small [40] { fill(0); fill(1); fill(3); fill(4); fill(5); fill(7); fill(8); }
    fill_large [40] { fill(9); fill(12); fill(13); fill(16); fill(17); fill(23); fill(28); fill(31); }
    words [20] {
        let mut g = Seq::new();
        let add = [nd::u8(); 2];
        let an = nd::len(2);
        let r = h::next_u32_via_fill(&mut g, &add[..an]);
        first_only(&g, &add[..an]);
        assert!(g.n == 1, "generator calls");
        if g.fail_at == 0 {
            assert!(r == Err(DrbgError), "a generator failure is reported");
        } else {
            assert!(g.fill_len == 4, "bytes drawn");
            let b = g.bytes;
            assert!(r == Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]])), "32 bit value");
        }
        let mut g = Seq::new();
        let r = h::next_u64_via_fill(&mut g, &add[..an]);
        first_only(&g, &add[..an]);
        assert!(g.n == 1, "generator calls");
        if g.fail_at == 0 {
            assert!(r == Err(DrbgError), "a generator failure is reported");
        } else {
            assert!(g.fill_len == 8, "bytes drawn");
            let b = g.bytes;
            assert!(r == Ok(u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])), "64 bit value");
        }
        let mut g = Seq::new();
        let r = h::next_u64_via_u32(&mut g, &add[..an]);
        first_only(&g, &add[..an]);
        if g.fail_at < 2 {
            assert!(r == Err(DrbgError) && g.n == g.fail_at + 1, "a generator failure is reported");
        } else {
            assert!(g.n == 2, "generator calls");
            assert!(r == Ok((g.words[1] as u64) << 32 | g.words[0] as u64), "64 bit value");
        }
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    seeding [12] {
        let l = log();
        l.fail_init = nd::flag();
        let t = TpmContext::<Deps>::new();
        assert!(l.n == 4 && l.ev[0] == Ev::Source, "one entropy source, two draws, one instantiation");
        let (Ev::Entropy(n1, b1), Ev::Entropy(n2, b2)) = (l.ev[1], l.ev[2]) else { panic!("seed and nonce are drawn from the entropy source") };
        let Ev::Instantiate(seed, nonce, p, fail) = l.ev[3] else { panic!("the generator was not instantiated") };
        assert!(p == 0, "no personalization");
        let (bs, bn) = if n1 == SEED { (b1, b2) } else { (b2, b1) };
        assert!((n1 == SEED && n2 == NONCE) || (n1 == NONCE && n2 == SEED), "seed and nonce are drawn completely");
        assert!(seed == bs, "the seed is fresh entropy");
        assert!(nonce == [bn[0], bn[1], bn[2]], "the nonce is fresh entropy");
        match t {
            Ok(_) => assert!(!fail, "a failing generator gave a working TPM"),
            Err(e) => assert!(fail && e == ServerError::DrbgError, "creation failed although the generator works"),
        }
        reached!(fail);
        reached!(!fail);
    }
}
