//! A TPM platform whose entropy source and DRBG answer arbitrarily and record
//! how they are used.
#![allow(static_mut_refs)]
use crate::nd;
use tpm2_impl::TpmContext;
use tpm2_impl::platform::TpmContextDeps;
use tpm2_impl::platform::crypto::{Drbg, DrbgError, EntropySource};

pub const SEED: usize = 6;
pub const NONCE: usize = 3;
/// Most bytes one generate call may be asked for.
pub const GEN: usize = 40;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ev {
    None,
    Source,
    /// Entropy drawn: length and first bytes.
    Entropy(usize, [u8; SEED]),
    Instantiate([u8; SEED], [u8; NONCE], usize, bool),
    Reseed([u8; SEED], usize, bool),
    Generate(usize, [u8; GEN], usize, bool),
    NextU32,
    NextU64,
}
pub struct Log {
    pub ev: [Ev; 12],
    pub n: usize,
    /// requires_reseeding answers
    pub want: bool,
    pub asked: usize,
    pub said_yes: usize,
    /// May operations fail?
    pub fail_init: bool,
    pub fail_reseed: bool,
    pub fail_gen: bool,
}
pub static mut LOG: Log = Log {
    ev: [Ev::None; 12],
    n: 0,
    want: false,
    asked: 0,
    said_yes: 0,
    fail_init: false,
    fail_reseed: false,
    fail_gen: false,
};
pub fn log() -> &'static mut Log {
    unsafe { &mut *core::ptr::addr_of_mut!(LOG) }
}
fn push(e: Ev) {
    let l = log();
    assert!(l.n < 12, "more platform calls than expected");
    l.ev[l.n] = e;
    l.n += 1;
}

pub struct Source;
impl EntropySource for Source {
    fn instantiate() -> Self {
        push(Ev::Source);
        Source
    }
    fn fill_entropy(&mut self, dest: &mut [u8]) {
        let b = nd::bytes::<SEED>();
        let n = dest.len();
        assert!(n <= SEED, "entropy request size");
        dest.copy_from_slice(&b[..n]);
        push(Ev::Entropy(n, b));
    }
}
#[derive(Default, Clone, Copy)]
pub struct Seed(pub [u8; SEED]);
impl AsMut<[u8]> for Seed {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
#[derive(Default, Clone, Copy)]
pub struct Nonce(pub [u8; NONCE]);
impl AsMut<[u8]> for Nonce {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
pub struct Gen;
impl Drbg for Gen {
    type Entropy = Seed;
    type Nonce = Nonce;
    fn instantiate(e: &Seed, n: &Nonce, p: &[u8]) -> Result<Self, DrbgError> {
        let fail = log().fail_init;
        push(Ev::Instantiate(e.0, n.0, p.len(), fail));
        if fail { Err(DrbgError) } else { Ok(Gen) }
    }
    fn reseed(&mut self, e: &Seed, add: &[u8]) -> Result<(), DrbgError> {
        let fail = log().fail_reseed;
        push(Ev::Reseed(e.0, add.len(), fail));
        if fail { Err(DrbgError) } else { Ok(()) }
    }
    fn next_u32(&mut self, _: &[u8]) -> Result<u32, DrbgError> {
        push(Ev::NextU32);
        Ok(nd::u32())
    }
    fn next_u64(&mut self, _: &[u8]) -> Result<u64, DrbgError> {
        push(Ev::NextU64);
        Ok(nd::u64())
    }
    fn fill_bytes(&mut self, add: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        let b = nd::bytes::<GEN>();
        let n = dest.len();
        assert!(n <= GEN, "generate request size");
        let fail = log().fail_gen;
        push(Ev::Generate(n, b, add.len(), fail));
        // Even a failing generator may have touched the buffer.
        dest.copy_from_slice(&b[..n]);
        if fail { Err(DrbgError) } else { Ok(()) }
    }
    fn requires_reseeding(&mut self) -> bool {
        let l = log();
        l.asked += 1;
        if l.want {
            l.said_yes += 1;
        }
        l.want
    }
}
pub struct Deps;
impl TpmContextDeps for Deps {
    type Drbg = Gen;
    type EntropySource = Source;
    type Request = [u8];
    type Response = [u8];
}
/// A working TPM with an empty log.
pub fn tpm() -> TpmContext<Deps> {
    let t = TpmContext::<Deps>::new();
    forget();
    match t {
        Ok(t) => t,
        Err(_) => panic!("the TPM could not be created although its generator works"),
    }
}
pub fn forget() {
    log().n = 0;
    log().asked = 0;
    log().said_yes = 0;
}
/// Arbitrary platform behaviour for the next command.
pub fn arbitrary_platform() {
    let l = log();
    l.want = nd::flag();
    l.fail_reseed = nd::flag();
    l.fail_gen = nd::flag();
}
pub fn be16(b: &[u8], at: usize) -> u16 {
    ((b[at] as u16) << 8) | b[at + 1] as u16
}
pub fn be32(b: &[u8], at: usize) -> u32 {
    ((be16(b, at) as u32) << 16) | be16(b, at + 2) as u32
}
/// A GetRandom request for `n` bytes.
pub fn get_random(n: u16) -> [u8; 12] {
    let n = n.to_be_bytes();
    [0x80, 0x01, 0, 0, 0, 12, 0, 0, 0x01, 0x7B, n[0], n[1]]
}

/// A platform for large requests: its generator marks the first and the last
/// byte it is asked for and leaves the others.
pub struct Bulk;
pub struct BulkLog {
    pub calls: usize,
    pub len: usize,
    pub first: u8,
    pub last: u8,
}
pub static mut BULK: BulkLog = BulkLog { calls: 0, len: 0, first: 0, last: 0 };
pub fn bulk() -> &'static mut BulkLog {
    unsafe { &mut *core::ptr::addr_of_mut!(BULK) }
}
impl Drbg for Bulk {
    type Entropy = Seed;
    type Nonce = Nonce;
    fn instantiate(_: &Seed, _: &Nonce, _: &[u8]) -> Result<Self, DrbgError> {
        Ok(Bulk)
    }
    fn reseed(&mut self, _: &Seed, _: &[u8]) -> Result<(), DrbgError> {
        Ok(())
    }
    fn next_u32(&mut self, _: &[u8]) -> Result<u32, DrbgError> {
        Ok(nd::u32())
    }
    fn next_u64(&mut self, _: &[u8]) -> Result<u64, DrbgError> {
        Ok(nd::u64())
    }
    fn fill_bytes(&mut self, _: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        let l = bulk();
        l.calls += 1;
        l.len = dest.len();
        if l.len > 0 {
            l.last = nd::u8();
            dest[l.len - 1] = l.last;
            l.first = nd::u8();
            dest[0] = l.first;
        }
        Ok(())
    }
    fn requires_reseeding(&mut self) -> bool {
        false
    }
}
pub struct BulkDeps;
impl TpmContextDeps for BulkDeps {
    type Drbg = Bulk;
    type EntropySource = Source;
    type Request = [u8];
    type Response = [u8];
}
pub fn bulk_tpm() -> TpmContext<BulkDeps> {
    match TpmContext::<BulkDeps>::new() {
        Ok(t) => t,
        Err(_) => panic!("the TPM could not be created although its generator works"),
    }
}
/// Room for the largest random request.
pub const BULK_ROOM: usize = 65536 + 64;
