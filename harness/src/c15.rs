//! C15: the caller gets exactly what the TPM said.
use crate::client::*;
use crate::nd;
use tpm2_client::sessions::*;
use tpm2_client::*;
use tpm2_rs_base::Tpm2bSimple;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::marshal::Marshalable;

const R: usize = 36;
fn be16(b: &[u8], at: usize) -> usize {
    (b[at] as usize) << 8 | b[at + 1] as usize
}
fn be32(b: &[u8], at: usize) -> u32 {
    (be16(b, at) << 16 | be16(b, at + 2)) as u32
}
/// Judges the header. True when the outcome depends on the body.
fn header(reply: &[u8], n: usize, failed: Option<Fault>) -> bool {
    if n < 10 {
        assert!(failed.is_some(), "a response without a header was accepted");
        return false;
    }
    let rc = be32(reply, 6);
    if rc != 0 {
        let Some(e) = failed else { panic!("an error response was taken for success") };
        assert!(e.code() == Some(rc), "the TPM's response code is what the caller sees");
        return false;
    }
    let size = be32(reply, 2) as usize;
    if size != n {
        assert!(failed.is_some(), "a response with a wrong size was accepted");
        return false;
    }
    if let Some(e) = failed {
        assert!(matches!(e, Fault::Tss(_)), "kind of error");
    }
    be16(reply, 0) == 0x8001
}
/// Which success responses of `n` bytes are accepted. The header is right here;
/// `startup` and `handles` have any header.
fn random_outcome(n: usize) {
    let mut reply = nd::bytes::<R>();
    reply[..10].copy_from_slice(&[0x80, 1, 0, 0, 0, n as u8, 0, 0, 0, 0]);
    let mut t = Tpm::new(&reply[..n]);
    let r = run_command(&GetRandomCmd { bytes_requested: 8 }, &mut t);
    assert!(t.calls == 1, "one transaction");
    let failed = match r {
        Ok(_) => None,
        Err(e) => Some(e),
    };
    if header(&reply, n, failed) {
        let ok = n >= 12 && be16(&reply, 10) == n - 12;
        assert!(failed.is_none() == ok, "success means the body is one sized buffer");
    }
    reached!(failed.is_none() || n < 12);
    reached!(failed.is_some() || n == 10);
}
/// What a successful response of `n` bytes gives.
fn random_value(n: usize) {
    let mut reply = nd::bytes::<R>();
    reply[..12].copy_from_slice(&[0x80, 1, 0, 0, 0, n as u8, 0, 0, 0, 0, 0, n as u8 - 12]);
    let mut t = Tpm::new(&reply[..n]);
    let r = run_command(&GetRandomCmd { bytes_requested: 8 }, &mut t);
    let Ok(v) = r else { panic!("a good response was rejected") };
    assert!(v.random_bytes.get_size() as usize == n - 12, "number of random bytes");
    let i = nd::idx();
    if i < n - 12 {
        assert!(v.random_bytes.get_buffer()[i] == reply[12 + i], "random byte");
    }
    reached!();
}
harness! {
    startup [50] {
        let reply = nd::bytes::<R>();
        let n = nd::len(R);
        let mut t = Tpm::new(&reply[..n]);
        let r = run_command(&StartupCmd { startup_type: TpmSu::Clear }, &mut t);
        assert!(t.calls == 1, "one transaction");
        if header(&reply, n, r.err()) {
            assert!(r.is_ok() == (n == 10), "success means an empty body");
        }
        reached!(r.is_ok());
        reached!(matches!(r, Err(Fault::Tss(e)) if e.get() == 0x922));
    }
    random_10 [70] { random_outcome(10); }
    random_11 [70] { random_outcome(11); }
    random_12 [70] { random_outcome(12); }
    random_13 [70] { random_outcome(13); }
    random_18 [70] { random_outcome(18); }
    random_value_a [70] { random_value(12); random_value(13); random_value(20); }
    random_value_b [70] { random_value(36); }
    handles [70] {
        let reply = nd::bytes::<R>();
        let n = nd::len(R);
        let mut t = Tpm::new(&reply[..n]);
        let r = run_command_with_handles(&OneHandle { a: 1, b: 2 }, TpmHandle(5), (), &mut t);
        if header(&reply, n, r.err()) {
            assert!(r.is_ok() == (n == 16), "success means one handle and one 16 bit parameter");
            if let Ok((v, h)) = r {
                assert!(h.0 == be32(&reply, 10), "response handle");
                assert!(v as usize == be16(&reply, 14), "response parameter");
            }
        }
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    with_session [70] {
        // One handle, parameter size, one parameter, one authorization.
        let reply = nd::bytes::<R>();
        let n = nd::len(R);
        let mut t = Tpm::new(&reply[..n]);
        let s = PasswordSession::new(&[1, 2]).unwrap();
        let r = run_command_with_handles(&OneHandle { a: 1, b: 2 }, TpmHandle(5), s, &mut t);
        header(&reply, n, r.err());
        if n >= 10 && be16(&reply, 0) == 0x8002 && be32(&reply, 2) as usize == n && be32(&reply, 6) == 0 {
            let good = n == 25 && be32(&reply, 14) == 2 && be16(&reply, 20) == 0 && reply[22] == 1 && be16(&reply, 23) == 0;
            assert!(r.is_ok() == good, "success means handle, parameter size, parameter and a valid authorization");
            if let Ok((v, h)) = r {
                assert!(h.0 == be32(&reply, 10), "response handle");
                assert!(v as usize == be16(&reply, 18), "response parameter");
            }
        }
        if n >= 10 && n < 21 {
            assert!(r.is_err(), "a response without authorization was accepted");
        }
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    line_failure [40] {
        let e = nd::u32();
        let mut t = Tpm::new(&OK_EMPTY);
        t.line = Some(e);
        let r = run_command(&StartupCmd { startup_type: TpmSu::Clear }, &mut t);
        assert!(r == Err(Fault::Line(e)), "a connection failure is passed on");
        assert!(t.calls == 1, "one transaction");
        let mut t = Tpm::new(&OK_EMPTY);
        t.line = Some(e);
        let r = run_command(&GetRandomCmd { bytes_requested: 3 }, &mut t);
        assert!(r.err() == Some(Fault::Line(e)), "a connection failure is passed on");
        reached!();
    }
    header_only [20] {
        let b = nd::bytes::<16>();
        let n = nd::len(16);
        match read_response_header(&b[..n]) {
            Ok((h, used)) => {
                assert!(n >= 10 && used == 10, "header size");
                assert!(h.rc == 0 && be32(&b, 6) == 0, "an error response was taken for success");
                assert!(h.tag.0 as usize == be16(&b, 0), "response tag");
                assert!(h.size == be32(&b, 2), "response size");
                reached!();
            }
            Err(e) => {
                assert!(n < 10 || be32(&b, 6) != 0, "a good header was rejected");
                if n >= 10 {
                    assert!(e.get() == be32(&b, 6), "response code");
                }
                reached!();
            }
        }
    }
}
harness! {
    /// Responses of every length up to the largest, with the given beginning.
    any_length_startup [50] {
        let reply = nd::bytes::<20>();
        let n = nd::len(RESP_BUFFER_SIZE);
        nd::assume(n >= 20);
        let mut t = Tpm::new(&reply);
        t.len = n;
        let r = run_command(&StartupCmd { startup_type: TpmSu::Clear }, &mut t);
        header(&reply, n, r.err());
        assert!(r.is_err(), "success means an empty body");
        reached!(n > 4000);
    }
    any_length_handles [70] {
        let reply = nd::bytes::<20>();
        let n = nd::len(RESP_BUFFER_SIZE);
        nd::assume(n >= 20);
        let mut t = Tpm::new(&reply);
        t.len = n;
        let r = run_command_with_handles(&OneHandle { a: 1, b: 2 }, TpmHandle(5), (), &mut t);
        header(&reply, n, r.err());
        assert!(r.is_ok() == (n == 20 && be16(&reply, 0) == 0x8002 && be32(&reply, 2) == 20 && be32(&reply, 6) == 0 && be32(&reply, 14) == 2),
            "success means one handle and one 16 bit parameter");
        reached!(r.is_err());
        reached!(n > 4000);
    }
}
/// A response that fills the client's buffer, and one that is a byte larger.
#[repr(C)]
#[derive(Marshalable)]
struct Full([u8; RESP_BUFFER_SIZE - 10]);
#[repr(C)]
#[derive(Marshalable)]
struct AskFull(u8);
impl TpmCommand for AskFull {
    const CMD_CODE: TpmCc = TpmCc::NVRead;
    type Handles = ();
    type RespT = Full;
    type RespHandles = ();
}
harness! {
    largest [40] {
        let mut reply = [0x5Au8; RESP_BUFFER_SIZE];
        reply[..10].copy_from_slice(&[0x80, 1, 0, 0, 0x10, 0, 0, 0, 0, 0]);
        let v = nd::bytes::<4>();
        reply[10] = v[0];
        reply[1033] = v[1];
        reply[2100] = v[2];
        reply[4095] = v[3];
        let mut t = Tpm::new(&reply);
        let Ok(r) = run_command(&AskFull(1), &mut t) else { panic!("the largest response was rejected") };
        assert!(r.0[0] == v[0] && r.0[1023] == v[1] && r.0[2090] == v[2] && r.0[4085] == v[3] && r.0[3000] == 0x5A, "response byte");
        reached!();
    }
    largest_size [40] {
        // The size field is arbitrary, the parameters fill the buffer.
        let mut reply = [0x5Au8; RESP_BUFFER_SIZE];
        let size = nd::u32();
        reply[..10].copy_from_slice(&[0x80, 1, (size >> 24) as u8, (size >> 16) as u8, (size >> 8) as u8, size as u8, 0, 0, 0, 0]);
        let mut t = Tpm::new(&reply);
        let r = run_command(&AskFull(1), &mut t);
        assert!(r.is_ok() == (size as usize == RESP_BUFFER_SIZE), "the size field has to be the size of the response");
        reached!(r.is_ok());
        reached!(r.is_err());
    }
}
#[cfg(feature = "thorough")]
harness! {
    random_sizes_a [70] { random_outcome(14); random_outcome(15); }
    random_sizes_b [70] { random_outcome(24); }
    random_sizes_c [70] { random_outcome(36); }
}
