B, D, M = "base/src/lib.rs", "marshalable-derive/src/lib.rs", "marshalable/src/lib.rs"
CL, SV, T2 = "crates/tpm2-client/src/", "crates/tpm2-impl/src/", "crates/tpm2/src/"
BUGS = []


def bug(id, property, deps, edits, needs, breaks, main):
    BUGS.append(dict(id=id, property=property, deps=deps, edits=edits, needs=needs, breaks=breaks, main=main))


bug("clock-order", "C02", "base marshalable", [(B, """    pub reset_count: u32,
    pub restart_count: u32,
    pub safe""", """    pub restart_count: u32,
    pub reset_count: u32,
    pub safe""")],
    "a clock information structure with different reset and restart counts; encoder and decoder change together, so a round trip still works",
    "reset and restart count change places on the wire", """
use tpm2_rs_base::*;
use tpm2_rs_marshalable::Marshalable;
fn main() {
    let c = TpmsClockInfo { clock: 1, reset_count: 2, restart_count: 3, safe: TpmiYesNo::try_unmarshal(&mut tpm2_rs_marshalable::UnmarshalBuf::new(&[1])).unwrap() };
    let mut b = [0; 32];
    let n = c.try_marshal(&mut b).unwrap();
    assert_eq!(&b[..n], &[0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3, 1]);
}
""")

bug("full-buffer", "C06", "base marshalable", [(D, "if buffer.len() > core::cmp::min(u16::MAX as usize, Self::MAX_BUFFER_SIZE) {", "if buffer.len() > core::cmp::min(u8::MAX as usize, Self::MAX_BUFFER_SIZE) {")],
    "a payload of more than 255 bytes for a type that can hold it", "long payloads are refused though the type can hold them", """
use tpm2_rs_base::*;
fn main() {
    let full = [7u8; Tpm2bMaxBuffer::MAX_BUFFER_SIZE];
    assert_eq!(Tpm2bMaxBuffer::from_bytes(&full[..256]).unwrap().get_buffer(), &full[..256]);
    assert_eq!(Tpm2bMaxBuffer::from_bytes(&full).unwrap().get_buffer(), &full);
}
""")

bug("list-add-reset", "C07", "base marshalable", [(B, """                self.$ListField[self.count()] = *element;
                self.count += 1;
                Ok(())""", """                let next = self.count() % ($ListCapacity as usize - 1).max(1);
                self.$ListField[next] = *element;
                self.count += 1;
                Ok(())""")],
    "adding the last element that fits a list one by one",
    "the last element added to a list overwrites the first one", """
use tpm2_rs_base::*;
fn main() {
    let mut l = TpmlDigest::default();
    for i in 0..8u8 {
        l.add(&Tpm2bDigest::from_bytes(&[i]).unwrap()).unwrap();
    }
    assert!(l.add(&Tpm2bDigest::default()).is_err());
    for (i, d) in l.digests().iter().enumerate() {
        assert_eq!(d.get_buffer(), &[i as u8]);
    }
}
""")

bug("selector-width", "C08", "base marshalable", [(B, """        let magic = TpmGenerated::try_unmarshal(buffer)?;
        let selector = u16::try_unmarshal(buffer)?;""", """        let magic = TpmGenerated::try_unmarshal(buffer)?;
        let selector = u16::try_unmarshal(buffer)? & 0x80ff;""")],
    "an attestation with a tag whose unused middle bits are set",
    "attestations with unknown structure tags are accepted as known ones", """
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};
fn main() {
    let mut b = [0u8; 128];
    b[..6].copy_from_slice(&[0xff, 0x54, 0x43, 0x47, 0x80, 0x14]);
    assert!(TpmsAttest::try_unmarshal(&mut UnmarshalBuf::new(&b)).is_ok());
    b[4] = 0x81;
    assert!(TpmsAttest::try_unmarshal(&mut UnmarshalBuf::new(&b)).is_err());
}
""")

bug("policy-range", "C10", "base", [("base/src/constants.rs", "(TpmHc::PolicySessionFirst.0..=TpmHc::PolicySessionLast.0).contains(&value)", "(TpmHc::PolicySessionFirst.0..TpmHc::PolicySessionLast.0).contains(&value)")],
    "the last policy session handle, 0x0300003F", "the last policy session cannot be used for authorization", """
use tpm2_rs_base::*;
fn main() {
    for h in 0x0300_0000..0x0300_0040u32 {
        TpmiShAuthSession::try_from(h).unwrap();
    }
    assert!(TpmiShAuthSession::try_from(0x0300_0040).is_err());
}
""")

bug("nv-type-or", "C11", "base", [(B, "self.0 = set_attribute_field(self.0, index_type.0 as u32, Self::NT_MASK, Self::NT_SHIFT);",
    "self.0 |= new_attribute_field(index_type.0 as u32, Self::NT_MASK, Self::NT_SHIFT);")],
    "an NV attribute word that already has a type which is not a subset of the new one", "setting the index type keeps bits of the old type", """
use tpm2_rs_base::constants::TpmNt;
use tpm2_rs_base::*;
fn main() {
    let mut a = TpmaNv::from(TpmNt::Counter) | TpmaNv::ORDERLY;
    a.set_type(TpmNt::Bits);
    assert!(a.get_index_type() == TpmNt::Bits);
    assert!(a.contains(TpmaNv::ORDERLY));
}
""")

bug("position-byte", "C12", "tpm2", [(T2 + "errors/tpm_rc/mod.rs", "            0x700 => Some(Self::Pos7),\n", "            0x700 => Some(Self::Pos6),\n")],
    "an error about the seventh handle, parameter or session", "position seven is reported as six", """
use tpm2::errors::*;
fn main() {
    let e = TpmRcError::ValueFor(ErrorType::Parameter, ErrorPosition::Pos7);
    assert_eq!(e.format1_parameter(), Some((ErrorType::Parameter, ErrorPosition::Pos7)));
}
""")

CLIENT = """
use tpm2_client::{connection::Connection, sessions::*, *};
use tpm2_rs_base::{commands::*, constants::*, errors::*, *};
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};
#[allow(dead_code)]
struct Fake { sent: Vec<u8>, resp: Vec<u8>, calls: usize }
impl Connection for Fake {
    type Error = TssError;
    fn transact<'a>(&mut self, c: &[u8], r: &'a mut [u8]) -> Result<&'a mut [u8], TssError> {
        self.sent = c.to_vec();
        self.calls += 1;
        r[..self.resp.len()].copy_from_slice(&self.resp);
        Ok(&mut r[..self.resp.len()])
    }
}
#[allow(dead_code)]
fn resp(tag: u16, rc: u32, body: &[u8]) -> Vec<u8> {
    let mut v = tag.to_be_bytes().to_vec();
    v.extend((10 + body.len() as u32).to_be_bytes());
    v.extend(rc.to_be_bytes());
    v.extend(body);
    v
}
#[allow(dead_code)]
struct S { id: u8, ok: bool }
impl Session for S {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        TpmsAuthCommand { session_handle: TpmiShAuthSession::RS_PW, nonce: Tpm2bNonce::default(), session_attributes: TpmaSession(0), hmac: Tpm2bAuth::from_bytes(&[self.id]).unwrap() }
    }
    fn validate_auth_response(&self, a: &TpmsAuthResponse) -> TssResult<()> {
        if self.ok && a.hmac.get_buffer() == [self.id] { Ok(()) } else { Err(TssTcsError::BadParameter.into()) }
    }
}
"""
bug("auth-size-three", "C13", "base marshalable client", [(CL + "lib.rs", """    auth_offset += s3
        .get_auth_command()
        .try_marshal(&mut buffer[auth_offset..])?;
    marshal_auth_size(auth_offset, buffer)
""", """    let area = marshal_auth_size(auth_offset, buffer)?;
    let last = s3.get_auth_command().try_marshal(&mut buffer[area..])?;
    Ok(area + last)
""")],
    "a command with exactly three sessions", "with three sessions the authorization size covers only the first two", CLIENT + """
fn main() {
    let mut f = Fake { sent: vec![], resp: resp(0x8001, 0x101, &[]), calls: 0 };
    let _ = run_command_with_handles(&StartupCmd { startup_type: TpmSu::Clear }, (), (S { id: 1, ok: true }, S { id: 2, ok: true }, S { id: 3, ok: true }), &mut f);
    assert_eq!(u32::from_be_bytes(f.sent[10..14].try_into().unwrap()) as usize, f.sent.len() - 14 - 2);
}
""")

bug("session-leftover", "C15", "base marshalable client", [(CL + "lib.rs", "    if !unmarsh.is_empty() {\n", "    if resp_header.tag != TpmSt::Sessions && !unmarsh.is_empty() {\n")],
    "a response with the sessions tag and bytes left over", "a response with sessions that leaves bytes over is accepted", CLIENT + """
fn main() {
    let good = [0, 0, 0, 0, 0, 0, 1, 0, 1, 7];
    let mut f = Fake { sent: vec![], resp: resp(0x8002, 0, &good), calls: 0 };
    assert!(run_command_with_handles(&StartupCmd { startup_type: TpmSu::Clear }, (), S { id: 7, ok: true }, &mut f).is_ok());
    let mut bad = good.to_vec();
    bad.push(9);
    f.resp = resp(0x8002, 0, &bad);
    assert!(run_command_with_handles(&StartupCmd { startup_type: TpmSu::Clear }, (), S { id: 7, ok: true }, &mut f).is_err());
}
""")

bug("second-auth-reused", "C16", "base marshalable client", [(CL + "lib.rs", """    let auth = TpmsAuthResponse::try_unmarshal(buffer)?;
    s3.validate_auth_response(&auth)?;
    Ok(())""", """    s3.validate_auth_response(&auth)?;
    TpmsAuthResponse::try_unmarshal(buffer)?;
    Ok(())""")],
    "three sessions whose response authorizations differ", "the third session validates the second session's authorization", CLIENT + """
fn main() {
    let body = [0, 0, 0, 0, /**/ 0, 0, 1, 0, 1, 1, /**/ 0, 0, 1, 0, 1, 2, /**/ 0, 0, 1, 0, 1, 3];
    let mut f = Fake { sent: vec![], resp: resp(0x8002, 0, &body), calls: 0 };
    run_command_with_handles(&StartupCmd { startup_type: TpmSu::Clear }, (), (S { id: 1, ok: true }, S { id: 2, ok: true }, S { id: 3, ok: true }), &mut f).unwrap();
}
""")

TCP = """
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use tpm2_client::connection::*;
#[allow(dead_code)]
fn pair() -> (TcpConnection, TcpStream, TcpStream) {
    let (a, b) = (TcpListener::bind("127.0.0.1:0").unwrap(), TcpListener::bind("127.0.0.1:0").unwrap());
    let c = TcpConnection::connect("127.0.0.1", Some(a.local_addr().unwrap().port()), Some(b.local_addr().unwrap().port())).unwrap();
    (c, a.accept().unwrap().0, b.accept().unwrap().0)
}
"""
bug("tcp-one-read", "C17", "client", [(CL + "connection/tcp.rs", """        self.tpm_tcp
            .read_exact(&mut response[..resp_hdr.length.get() as usize])?;
""", """        let got = self
            .tpm_tcp
            .read(&mut response[..resp_hdr.length.get() as usize])?;
        self.tpm_tcp
            .read_exact(&mut response[..resp_hdr.length.get() as usize - got])?;
""")],
    "an answer of the simulator that arrives in more than one packet", "the rest of a split response overwrites its beginning", TCP + """
fn main() {
    let (mut c, mut t, _p) = pair();
    let h = std::thread::spawn(move || {
        t.set_nodelay(true).unwrap();
        let mut b = [0; 11];
        t.read_exact(&mut b).unwrap();
        t.write_all(&[0, 0, 0, 4, 1, 2]).unwrap();
        std::thread::sleep(std::time::Duration::from_millis(300));
        t.write_all(&[3, 4, 0, 0, 0, 0]).unwrap();
    });
    let mut r = [0; 16];
    assert_eq!(c.transact(&[9, 9], &mut r).unwrap(), &[1, 2, 3, 4]);
    h.join().unwrap();
}
""")

bug("reinit-goes-on", "C18", "client", [(CL + "connection/tcp.rs", """        self.platform_signal(SimulatorPlatformSignal::PowerOff)?;
        self.platform_signal(SimulatorPlatformSignal::PowerOn)?;""", """        let off = self.platform_signal(SimulatorPlatformSignal::PowerOff);
        self.platform_signal(SimulatorPlatformSignal::PowerOn)?;
        off?;""")],
    "the simulator refusing the power-off signal", "after a failed power-off the sequence still switches the power on", TCP + """
fn main() {
    let (mut c, _t, mut p) = pair();
    let h = std::thread::spawn(move || {
        let mut seen = vec![];
        let mut b = [0; 4];
        while p.read_exact(&mut b).is_ok() {
            seen.push(b[3]);
            let end = [0, 0, 0, (b[3] == 2) as u8];
            if p.write_all(&end).is_err() { break; }
        }
        seen
    });
    assert!(c.reinit().is_err());
    drop(c);
    assert_eq!(h.join().unwrap(), [12, 2]);
}
""")

SERVER = """
use tpm2_impl::{platform::{*, crypto::*}, *};
use std::cell::RefCell;
thread_local! {
    static LOG: RefCell<Vec<(String, Vec<u8>)>> = const { RefCell::new(vec![]) };
    static RESEED: RefCell<Vec<bool>> = const { RefCell::new(vec![]) };
}
fn log(what: &str, b: &[u8]) { LOG.with(|l| l.borrow_mut().push((what.to_string(), b.to_vec()))); }
struct E;
impl EntropySource for E {
    fn instantiate() -> Self { E }
    fn fill_entropy(&mut self, d: &mut [u8]) { for (i, b) in d.iter_mut().enumerate() { *b = 0x40 + i as u8; } log("entropy", d); }
}
struct R(u8);
impl Drbg for R {
    type Entropy = [u8; 4];
    type Nonce = [u8; 2];
    fn instantiate(e: &[u8; 4], n: &[u8; 2], _: &[u8]) -> Result<Self, DrbgError> { log("seed", e); log("nonce", n); Ok(R(0)) }
    fn reseed(&mut self, e: &[u8; 4], _: &[u8]) -> Result<(), DrbgError> { log("reseed", e); Ok(()) }
    fn fill_bytes(&mut self, _: &[u8], d: &mut [u8]) -> Result<(), DrbgError> { for b in d.iter_mut() { self.0 += 1; *b = self.0; } log("fill", d); Ok(()) }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> { let mut b = [0; 4]; self.fill_bytes(a, &mut b)?; Ok(u32::from_le_bytes(b)) }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> { let mut b = [0; 8]; self.fill_bytes(a, &mut b)?; Ok(u64::from_le_bytes(b)) }
    fn requires_reseeding(&mut self) -> bool { RESEED.with(|r| r.borrow_mut().pop().unwrap_or(false)) }
}
struct Deps;
impl TpmContextDeps for Deps { type Drbg = R; type EntropySource = E; type Request = [u8]; type Response = [u8]; }
#[allow(dead_code)]
fn req(size: u32, code: u32, rest: &[u8]) -> Vec<u8> {
    let mut v = vec![0x80, 1];
    v.extend(size.to_be_bytes()); v.extend(code.to_be_bytes()); v.extend(rest);
    v
}
#[allow(dead_code)]
fn rc(b: &[u8]) -> u32 { u32::from_be_bytes(b[6..10].try_into().unwrap()) }
"""
bug("size-field-larger", "C20", "server", [(SV + "tpmctx.rs", "if size as usize != request_size {", "if (size as usize) < request_size {")],
    "a request whose size field is larger than the bytes that came", "an incomplete request is executed", SERVER + """
fn main() {
    let mut t: TpmContext<Deps> = TpmContext::new().unwrap();
    let mut out = [0u8; 64];
    let n = t.execute_command_separate(&req(13, 0x17b, &[0, 4]), &mut out);
    assert_eq!((n, rc(&out)), (10, 0x142));
}
""")

bug("in-place-past-request", "C21", "server", [(SV + "buffers/inout.rs", """        // Limit the read view to only the request portion of the in-place buffer
        if self.len < offset + out.len() {
            return Err(ReadOutOfBounds);
        }
        self.buffer.read_into(offset, out)""", """        // Limit the read view to only the request portion of the in-place buffer
        if self.len < offset {
            return Err(ReadOutOfBounds);
        }
        self.buffer.read_into(offset, out)""")],
    "an in-place request that ends before its parameter, in a larger buffer", "in place, bytes after the request are taken for its parameter", SERVER + """
fn main() {
    let mut t: TpmContext<Deps> = TpmContext::new().unwrap();
    let r = req(10, 0x17b, &[]);
    let mut out = [0u8; 64];
    let n = t.execute_command_separate(&r, &mut out);
    let mut io = [0u8; 64];
    io[..10].copy_from_slice(&r);
    io[10..12].copy_from_slice(&[0, 4]);
    let m = t.execute_command_in_place(&mut io, 10);
    assert_eq!((n, rc(&out)), (m, rc(&io)));
}
""")

bug("reseed-once", "C22", "server", [(SV + "handler/random.rs", """        if self.crypto.drbg.requires_reseeding() {
            let mut seed = <Deps::Drbg as Drbg>::Entropy::default();
            self.crypto.entropy.fill_entropy(seed.as_mut());""", """        if self.crypto.drbg.requires_reseeding() {
            let mut seed = <Deps::Drbg as Drbg>::Entropy::default();
            let wanted = seed.as_mut().len().min(buffer.len());
            self.crypto.entropy.fill_entropy(&mut seed.as_mut()[..wanted]);""")],
    "a generator that asks for reseeding while fewer bytes are requested than a seed has", "the generator is reseeded with fewer fresh bytes than a seed has", SERVER + """
fn main() {
    let mut t: TpmContext<Deps> = TpmContext::new().unwrap();
    RESEED.with(|r| *r.borrow_mut() = vec![true]);
    let mut out = [0u8; 64];
    t.execute_command_separate(&req(12, 0x17b, &[0, 2]), &mut out);
    LOG.with(|l| assert!(l.borrow().contains(&("reseed".into(), vec![0x40, 0x41, 0x42, 0x43]))));
}
""")

bug("additional-input-twice", "C24", "server", [(SV + "platform/crypto/drbg/helpers.rs", """        additional_input = &[];
        left.copy_from_slice(&chunk);""", """        left.copy_from_slice(&chunk);
        if dest.len() >= 8 {
            additional_input = &[];
        }""")],
    "a destination of nine to fifteen bytes and additional input", "additional input is passed to the generator twice", """
use tpm2_impl::platform::crypto::*;
struct R(Vec<usize>);
impl Drbg for R {
    type Entropy = [u8; 1];
    type Nonce = [u8; 1];
    fn instantiate(_: &[u8; 1], _: &[u8; 1], _: &[u8]) -> Result<Self, DrbgError> { Ok(R(vec![])) }
    fn reseed(&mut self, _: &[u8; 1], _: &[u8]) -> Result<(), DrbgError> { Ok(()) }
    fn fill_bytes(&mut self, a: &[u8], d: &mut [u8]) -> Result<(), DrbgError> { drbg_helpers::fill_bytes_via_next(self, a, d) }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> { self.0.push(a.len()); Ok(1) }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> { self.0.push(a.len()); Ok(1) }
    fn requires_reseeding(&mut self) -> bool { false }
}
fn main() {
    let mut r = R(vec![]);
    r.fill_bytes(&[1, 2, 3], &mut [0; 12]).unwrap();
    assert_eq!(r.0, [3, 0]);
}
""")

bug("digest-size-order", "C26", "tpm2", [(T2 + "tpmi.rs", """            Sha512, Sha3_512, // 64-byte digest
            Sha384, Sha3_384, // 48-byte digest
            Sha256,""", """            Sha512, // 64-byte digest
            Sha384, Sha3_384, Sha3_512, // 48-byte digest
            Sha256,""")],
    "a configuration that supports SHA3-512 and SHA-384 but not SHA-512", "the largest digest of such a configuration is reported as 48 bytes", """
use tpm2::*;
#[derive(Clone, Copy)]
struct L;
impl Limits for L { fn supports_hash(self, h: TpmiAlgHash) -> bool { matches!(h, TpmiAlgHash::Sha384 | TpmiAlgHash::Sha3_512) } }
fn main() {
    assert_eq!(L.max_digest_size(), 64);
    assert_eq!(TpmtHa::marshaled_size_max(L), 66);
}
""")

bug("unmarshal-before-check", "C26", "tpm2", [(T2 + "tpmt.rs", """            TpmiAlgHash::Sha384 if limits.supports_hash(Sha384) => {""", """            TpmiAlgHash::Sha384 if limits.max_digest_size() >= Sha384.digest_size() => {""")],
    "a configuration with SHA-512 but without SHA-384, receiving a SHA-384 digest", "a digest of an unsupported algorithm is accepted", """
use tpm2::*;
#[derive(Clone, Copy)]
struct L;
impl Limits for L { fn supports_hash(self, h: TpmiAlgHash) -> bool { matches!(h, TpmiAlgHash::Sha512) } }
fn main() {
    let mut b = [0u8; 50];
    b[1] = 0x0c;
    let mut v = TpmtHa::Sha512(&[1; 64]);
    assert!(v.unmarshal(L, &b).is_err());
}
""")

bug("length-truncated", "C28", "base marshalable", [(D, "for i in 0..self.#length_prim as usize {", "for i in 0..(self.#length_prim as u8) as usize {")],
    "a user-defined structure with a length-prefixed array of 256 or more elements", "lists with 256 or more elements lose elements when written", """
use tpm2_rs_marshalable::*;
#[derive(Marshalable)]
struct L { n: u16, #[marshalable(length = n)] a: [u8; 300] }
fn main() {
    let v = L { n: 256, a: [5; 300] };
    let mut b = [0; 400];
    assert_eq!(v.try_marshal(&mut b).unwrap(), 258);
}
""")

bug("curve-number", "C30", "base marshalable", [("base/src/constants.rs", "    BNP638 = 0x0011,\n", "    BNP638 = 0x0012,\n")],
    "a BN_P638 key or curve list", "the curve BN_P638 is sent with another number", """
use tpm2_rs_base::constants::TpmEccCurve;
use tpm2_rs_marshalable::*;
fn main() {
    let mut b = [0; 2];
    TpmEccCurve::BNP638.try_marshal(&mut b).unwrap();
    assert_eq!(b, [0, 0x11]);
}
""")
