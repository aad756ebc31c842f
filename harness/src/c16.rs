//! C16: authorization sessions.
use crate::client::*;
use crate::nd;
use core::cell::Cell;
use tpm2_client::sessions::*;
use tpm2_client::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::*;
use tpm2_rs_base::marshal::UnmarshalBuf;
use tpm2_rs_base::*;

/// A session that records the response authorization it is given.
#[derive(Default)]
struct Probe {
    tag: u8,
    seen: Cell<usize>,
    attrs: Cell<u8>,
    nonce0: Cell<u8>,
    hmac0: Cell<u8>,
    verdict: Option<TssError>,
}
impl Session for &Probe {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        TpmsAuthCommand {
            session_handle: TpmiShAuthSession::RS_PW,
            nonce: Tpm2bNonce::from_bytes(&[self.tag]).unwrap(),
            session_attributes: TpmaSession(self.tag),
            hmac: Tpm2bAuth::from_bytes(&[self.tag, self.tag]).unwrap(),
        }
    }
    fn validate_auth_response(&self, a: &TpmsAuthResponse) -> TssResult<()> {
        self.seen.set(self.seen.get() + 1);
        self.attrs.set(a.session_attributes.0);
        if a.nonce.get_size() == 1 {
            self.nonce0.set(a.nonce.get_buffer()[0]);
        }
        if a.hmac.get_size() == 2 {
            self.hmac0.set(a.hmac.get_buffer()[1]);
        }
        match self.verdict {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}
fn probe(tag: u8) -> Probe {
    let e = nd::u32();
    Probe { tag, verdict: TssError::try_from(e).ok(), ..Default::default() }
}
/// One response authorization: nonce of 1 byte, attributes, hmac of 2 bytes.
const ONE: usize = 8;
fn auth(b: &mut [u8], at: usize) -> [u8; 3] {
    let v = [nd::u8(), nd::u8(), nd::u8()];
    b[at..at + ONE].copy_from_slice(&[0, 1, v[0], v[1], 0, 2, 0, v[2]]);
    v
}
fn judge(p: &Probe, v: [u8; 3]) {
    assert!(p.seen.get() == 1, "every session validates its response once");
    assert!(p.nonce0.get() == v[0] && p.attrs.get() == v[1] && p.hmac0.get() == v[2], "a session validates its own response");
}
harness! {
    validation_order [40] {
        let mut b = [0u8; 30];
        let (v1, v2, v3) = (auth(&mut b, 0), auth(&mut b, ONE), auth(&mut b, 2 * ONE));
        let (p1, p2, p3) = (probe(1), probe(2), probe(3));
        let mut u = UnmarshalBuf::new(&b);
        let r = read_response_sessions(&(&p1, &p2, &p3), &mut u);
        judge(&p1, v1);
        if let Some(e) = p1.verdict {
            assert!(r == Err(e), "a failed validation is reported");
        } else {
            judge(&p2, v2);
            if let Some(e) = p2.verdict {
                assert!(r == Err(e), "a failed validation is reported");
            } else {
                judge(&p3, v3);
                match p3.verdict {
                    Some(e) => assert!(r == Err(e), "a failed validation is reported"),
                    None => assert!(r == Ok(()) && u.len() == 30 - 3 * ONE, "sessions consumed"),
                }
            }
        }
        reached!(r.is_ok());
        reached!(r.is_err() && p3.seen.get() == 1);
    }
    two_and_one [40] {
        let mut b = [0u8; 20];
        let (v1, v2) = (auth(&mut b, 0), auth(&mut b, ONE));
        let (p1, p2) = (probe(1), probe(2));
        let mut u = UnmarshalBuf::new(&b);
        let r = read_response_sessions(&(&p1, &p2), &mut u);
        judge(&p1, v1);
        if p1.verdict.is_none() {
            judge(&p2, v2);
        }
        assert!(r.is_ok() == (p1.verdict.is_none() && p2.verdict.is_none()), "all sessions have to validate");
        if r.is_ok() {
            assert!(u.len() == 20 - 2 * ONE, "sessions consumed");
        }
        let p = probe(4);
        let mut u = UnmarshalBuf::new(&b);
        let r = read_response_sessions(&&p, &mut u);
        judge(&p, v1);
        assert!(r.is_ok() == p.verdict.is_none() && u.len() == 20 - ONE, "one session consumed");
        let mut u = UnmarshalBuf::new(&b);
        assert!(read_response_sessions(&(), &mut u) == Ok(()) && u.len() == 20, "no session, nothing consumed");
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    missing [40] {
        // Fewer authorizations than sessions.
        let mut b = [0u8; 3 * ONE];
        auth(&mut b, 0);
        auth(&mut b, ONE);
        auth(&mut b, 2 * ONE);
        let n = nd::len(3 * ONE);
        let mut p = (probe(1), probe(2), probe(3));
        p.0.verdict = None;
        p.1.verdict = None;
        p.2.verdict = None;
        let mut u = UnmarshalBuf::new(&b[..n]);
        let r = read_response_sessions(&(&p.0, &p.1, &p.2), &mut u);
        assert!(r.is_ok() == (n == 3 * ONE), "a missing authorization is an error");
        reached!(r.is_ok());
        reached!(r.is_err() && p.1.seen.get() == 1);
    }
    password_validation [70] {
        // The response authorization, symbolic lengths.
        let mut a = TpmsAuthResponse::default();
        let (nn, hn) = (nd::len(8), nd::len(8));
        let (nb, hb) = (nd::bytes::<8>(), nd::bytes::<8>());
        a.nonce = Tpm2bNonce::from_bytes(&nb[..nn]).unwrap();
        a.hmac = Tpm2bData::from_bytes(&hb[..hn]).unwrap();
        a.session_attributes = TpmaSession(nd::u8());
        let s = PasswordSession::new(&nb).unwrap();
        let good = nn == 0 && hn == 0 && a.session_attributes.0 == 1;
        let r = s.validate_auth_response(&a);
        assert!(r.is_ok() == good, "only the empty, continuing authorization is valid for a password");
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    password_command [70] {
        let b = nd::bytes::<66>();
        let n = nd::len(66);
        match PasswordSession::new(&b[..n]) {
            Ok(s) => {
                assert!(n <= Tpm2bAuth::MAX_BUFFER_SIZE, "password too long");
                let i = nd::idx();
                assert!(s.get_secret().len() == n, "password length");
                let a = s.get_auth_command();
                assert!(a.session_handle == TpmiShAuthSession::RS_PW, "password handle");
                assert!(a.nonce.get_size() == 0, "empty nonce");
                assert!(a.session_attributes.0 == 0, "no attributes");
                assert!(a.hmac.get_size() as usize == n, "the password is the authorization");
                if i < n {
                    assert!(s.get_secret()[i] == b[i], "password byte");
                    assert!(a.hmac.get_buffer()[i] == b[i], "authorization byte");
                }
                reached!(n == 64);
            }
            Err(e) => {
                assert!(n > Tpm2bAuth::MAX_BUFFER_SIZE && e == TpmRcError::Size, "password rejected");
                reached!();
            }
        }
    }
    area [40] {
        // Any destination length, three sessions.
        let (p1, p2, p3) = (probe(1), probe(2), probe(3));
        const C: usize = 12;
        let mut out = [0xEEu8; 4 + 3 * C + 4];
        let m = nd::len(4 + 3 * C + 4);
        let r = write_command_sessions(&(&p1, &p2, &p3), &mut out[..m]);
        let total = 4 + 3 * C;
        let i = nd::idx();
        if m >= total {
            assert!(r == Ok(total), "authorization area size");
            assert!(out[0] == 0 && out[1] == 0 && out[2] == 0 && out[3] as usize == 3 * C, "authorization size field");
            if i < 3 * C {
                let t = 1 + (i / C) as u8;
                let want = [0x40, 0, 0, 9, 0, 1, t, t, 0, 2, t, t];
                assert!(out[4 + i] == want[i % C], "authorization byte");
            }
        } else {
            assert!(r.is_err(), "destination too small");
        }
        if i < 44 && i >= m {
            assert!(out[i] == 0xEE, "byte outside the destination was modified");
        }
        let mut none = [0xEEu8; 4];
        assert!(write_command_sessions(&(), &mut none) == Ok(0) && none == [0xEE; 4], "no sessions, no area");
        reached!(r.is_ok());
        reached!(r.is_err() && m < 4);
    }
    reject_in_command [70] {
        // A session that rejects the response fails the command.
        let p = probe(6);
        let mut reply = [0u8; 32];
        let total = 10 + 4 + 4 + 2 + ONE;
        reply[..20].copy_from_slice(&[0x80, 2, 0, 0, 0, total as u8, 0, 0, 0, 0, 1, 2, 3, 4, 0, 0, 0, 2, 7, 8]);
        let v = auth(&mut reply, 20);
        let mut t = Tpm::new(&reply[..total]);
        let r = run_command_with_handles(&OneHandle { a: 1, b: 2 }, TpmHandle(5), &p, &mut t);
        judge(&p, v);
        match p.verdict {
            Some(e) => assert!(r.err() == Some(Fault::Tss(e)), "a failed validation fails the command"),
            None => assert!(matches!(r, Ok((0x708, TpmHandle(0x01020304)))), "response"),
        }
        reached!(p.verdict.is_some());
        reached!(p.verdict.is_none());
    }
}
