//! C13: the bytes handed to the connection are exactly the TPM command.
use crate::client::*;
use crate::nd;
use tpm2_client::sessions::*;
use tpm2_client::*;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::*;
use tpm2_rs_base::marshal::{Marshalable, UnmarshalBuf};
use tpm2_rs_base::*;

/// Reference writer.
struct W {
    b: [u8; CMD],
    n: usize,
}
impl W {
    fn new(tag: u16, code: u32) -> W {
        let mut w = W { b: [0; CMD], n: 0 };
        w.u16(tag);
        w.u32(0);
        w.u32(code);
        w
    }
    fn u8(&mut self, v: u8) {
        self.b[self.n] = v;
        self.n += 1;
    }
    fn u16(&mut self, v: u16) {
        self.u8((v >> 8) as u8);
        self.u8(v as u8);
    }
    fn u32(&mut self, v: u32) {
        self.u16((v >> 16) as u16);
        self.u16(v as u16);
    }
    fn bytes(&mut self, v: &[u8]) {
        self.u16(v.len() as u16);
        for b in v {
            self.u8(*b);
        }
    }
    /// Fills in the size.
    fn done(mut self) -> W {
        self.b[4] = (self.n >> 8) as u8;
        self.b[5] = self.n as u8;
        self
    }
}
fn judge(t: &Tpm, w: W) {
    let w = w.done();
    assert!(t.calls == 1, "the command is sent once");
    assert!(t.cmd_len == w.n, "command length");
    let i = nd::idx();
    if i < w.n {
        assert!(t.cmd[i] == w.b[i], "command byte");
    }
    assert!(t.room == RESP_BUFFER_SIZE, "room for the response");
    reached!(i < w.n);
}
const NONE: u16 = 0x8001;
const SOME: u16 = 0x8002;

/// A session with arbitrary authorization.
struct Auth<const N: usize = 4> {
    handle: u32,
    nonce: [u8; N],
    nn: usize,
    attrs: u8,
    hmac: [u8; N],
    hn: usize,
}
impl<const N: usize> Auth<N> {
    fn any(nn: usize, hn: usize) -> Auth<N> {
        Auth { handle: nd::u32(), nonce: nd::bytes(), nn, attrs: nd::u8(), hmac: nd::bytes(), hn }
    }
    fn write(&self, w: &mut W) {
        w.u32(self.handle);
        w.bytes(&self.nonce[..self.nn]);
        w.u8(self.attrs);
        w.bytes(&self.hmac[..self.hn]);
    }
}
impl<const N: usize> Session for Auth<N> {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        let h = self.handle.to_be_bytes();
        let mut u = UnmarshalBuf::new(&h);
        TpmsAuthCommand {
            session_handle: TpmiShAuthSession::try_unmarshal(&mut u).unwrap(),
            nonce: Tpm2bNonce::from_bytes(&self.nonce[..self.nn]).unwrap(),
            session_attributes: TpmaSession(self.attrs),
            hmac: Tpm2bAuth::from_bytes(&self.hmac[..self.hn]).unwrap(),
        }
    }
    fn validate_auth_response(&self, _: &TpmsAuthResponse) -> TssResult<()> {
        Ok(())
    }
}
fn auths<const N: usize>(w: &mut W, list: &[&Auth<N>]) {
    let at = w.n;
    w.u32(0);
    for a in list {
        a.write(w);
    }
    let size = w.n - at - 4;
    w.b[at + 2] = (size >> 8) as u8;
    w.b[at + 3] = size as u8;
}
harness! {
    startup [40] {
        let mut t = Tpm::new(&OK_EMPTY);
        let su = nd::u16();
        let _ = run_command(&StartupCmd { startup_type: TpmSu(su) }, &mut t);
        let mut w = W::new(NONE, 0x144);
        w.u16(su);
        judge(&t, w);
    }
    random [40] {
        let mut t = dead();
        let n = nd::u16();
        let _ = run_command(&GetRandomCmd { bytes_requested: n }, &mut t);
        let mut w = W::new(NONE, 0x17B);
        w.u16(n);
        judge(&t, w);
    }
    capability [40] {
        let mut t = dead();
        let (c, p, n) = (nd::u32(), nd::u32(), nd::u32());
        let cmd = GetCapabilityCmd { capability: TpmCap(c), property: TpmPt(p), property_count: n };
        let _ = get_capability(&mut t, &cmd);
        let mut w = W::new(NONE, 0x17A);
        w.u32(c);
        w.u32(p);
        w.u32(n);
        judge(&t, w);
    }
    pcr_read [60] {
        let mut body = [0u8; 11];
        let (h, s) = (nd::u16(), nd::bytes::<4>());
        body[3] = 1;
        body[4] = (h >> 8) as u8;
        body[5] = h as u8;
        body[6] = 4;
        body[7..].copy_from_slice(&s);
        let Ok(cmd) = PcrReadCmd::try_unmarshal(&mut UnmarshalBuf::new(&body)) else { panic!("well-formed selection rejected") };
        let mut t = dead();
        let _ = run_command(&cmd, &mut t);
        let mut w = W::new(NONE, 0x17E);
        w.u32(1);
        w.u16(h);
        w.u8(4);
        for b in s { w.u8(b); }
        judge(&t, w);
    }
    handles [40] {
        let (h, a, b) = (nd::u32(), nd::u16(), nd::u32());
        let mut t = dead();
        let _ = run_command_with_handles(&OneHandle { a, b }, TpmHandle(h), (), &mut t);
        let mut w = W::new(NONE, 0x14E);
        w.u32(h);
        w.u16(a);
        w.u32(b);
        judge(&t, w);
        let (x, y, a) = (nd::u32(), nd::u32(), nd::u64());
        let mut t = dead();
        let _ = run_command_with_handles(&TwoHandles { a }, Pair { x: TpmHandle(x), y: TpmHandle(y) }, (), &mut t);
        let mut w = W::new(NONE, 0x148);
        w.u32(x);
        w.u32(y);
        w.u32((a >> 32) as u32);
        w.u32(a as u32);
        judge(&t, w);
    }
    one_session [40] {
        let (h, a, b) = (nd::u32(), nd::u16(), nd::u32());
        let s = Auth::<4>::any(3, 2);
        let mut t = dead();
        let mut w = W::new(SOME, 0x14E);
        w.u32(h);
        auths(&mut w, &[&s]);
        w.u16(a);
        w.u32(b);
        let _ = run_command_with_handles(&OneHandle { a, b }, TpmHandle(h), s, &mut t);
        judge(&t, w);
    }
    password [40] {
        let (h, a, b) = (nd::u32(), nd::u16(), nd::u32());
        let secret = nd::bytes::<5>();
        let s = PasswordSession::new(&secret).unwrap();
        let mut t = dead();
        let mut w = W::new(SOME, 0x14E);
        w.u32(h);
        w.u32(4 + 2 + 1 + 2 + 5);
        w.u32(0x4000_0009);
        w.u16(0);
        w.u8(0);
        w.bytes(&secret);
        w.u16(a);
        w.u32(b);
        let _ = run_command_with_handles(&OneHandle { a, b }, TpmHandle(h), s, &mut t);
        judge(&t, w);
    }
    two_sessions [40] {
        let (x, y, a) = (nd::u32(), nd::u32(), nd::u64());
        let (s1, s2) = (Auth::<4>::any(0, 4), Auth::any(2, 0));
        let mut t = dead();
        let mut w = W::new(SOME, 0x148);
        w.u32(x);
        w.u32(y);
        auths(&mut w, &[&s1, &s2]);
        w.u32((a >> 32) as u32);
        w.u32(a as u32);
        let _ = run_command_with_handles(&TwoHandles { a }, Pair { x: TpmHandle(x), y: TpmHandle(y) }, (s1, s2), &mut t);
        judge(&t, w);
    }
    three_sessions [40] {
        let n = nd::u16();
        let (s1, s2, s3) = (Auth::<4>::any(1, 1), Auth::any(2, 2), Auth::any(3, 3));
        let mut t = dead();
        let mut w = W::new(SOME, 0x17B);
        auths(&mut w, &[&s1, &s2, &s3]);
        w.u16(n);
        let _ = run_command_with_handles(&GetRandomCmd { bytes_requested: n }, (), (s1, s2, s3), &mut t);
        judge(&t, w);
    }
}
harness! {
    /// Authorizations of the largest size, the area is longer than 255 bytes.
    full_sessions [70] {
        let n = nd::u16();
        let (s1, s2, s3) = (Auth::<64>::any(64, 64), Auth::any(64, 64), Auth::any(64, 64));
        let mut t = dead();
        let mut w = W::new(SOME, 0x17B);
        auths(&mut w, &[&s1, &s2, &s3]);
        w.u16(n);
        let _ = run_command_with_handles(&GetRandomCmd { bytes_requested: n }, (), (s1, s2, s3), &mut t);
        judge(&t, w);
    }
}
/// Commands of fixed size.
macro_rules! big {
    ($($n:ident $size:expr;)*) => {$(
        #[repr(C)]
        #[derive(Marshalable)]
        struct $n([u8; $size]);
        impl TpmCommand for $n {
            const CMD_CODE: TpmCc = TpmCc::NVWrite;
            type Handles = ();
            type RespT = ();
            type RespHandles = ();
        }
    )*}
}
big! { Most CMD_BUFFER_SIZE - 10; Over CMD_BUFFER_SIZE - 9; OverWithSession CMD_BUFFER_SIZE - 24; }
harness! {
    largest [40] {
        let mut t = dead();
        let r = run_command(&Most([3; CMD_BUFFER_SIZE - 10]), &mut t);
        assert!(r == Err(Fault::Line(7)), "the largest command is sent");
        assert!(t.calls == 1 && t.cmd_len == CMD_BUFFER_SIZE, "command length");
        reached!();
    }
    too_large [40] {
        let mut t = dead();
        let r = run_command(&Over([3; CMD_BUFFER_SIZE - 9]), &mut t);
        assert!(matches!(r, Err(Fault::Tss(_))), "a command that does not fit is refused");
        assert!(t.calls == 0, "an incomplete command was sent");
        reached!();
    }
    too_large_with_session [40] {
        let mut t = dead();
        let s = PasswordSession::new(&[1, 2]).unwrap();
        let r = run_command_with_handles(&OverWithSession([3; CMD_BUFFER_SIZE - 24]), (), s, &mut t);
        assert!(matches!(r, Err(Fault::Tss(_))), "a command that does not fit is refused");
        assert!(t.calls == 0, "an incomplete command was sent");
        reached!();
    }
}
