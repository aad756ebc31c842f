//! C14: no response can make the client panic or read beyond what was received.
use crate::client::*;
use crate::nd;
use tpm2_client::sessions::*;
use tpm2_client::*;
use tpm2_rs_base::Tpm2bSimple;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::marshal::UnmarshalBuf;

const R: usize = 40;
harness! {
    startup [50] {
        let reply = nd::bytes::<R>();
        let n = nd::len(R);
        let mut t = Tpm::new(&reply[..n]);
        let r = run_command(&StartupCmd { startup_type: TpmSu::Clear }, &mut t);
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    random [70] {
        let reply = nd::bytes::<R>();
        let n = nd::len(R);
        let mut t = Tpm::new(&reply[..n]);
        let r = run_command(&GetRandomCmd { bytes_requested: 8 }, &mut t);
        if let Ok(v) = &r {
            assert!(v.random_bytes.get_size() as usize + 12 <= n, "more bytes than were received");
        }
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    handles_session [70] {
        let reply = nd::bytes::<R>();
        let n = nd::len(R);
        let mut t = Tpm::new(&reply[..n]);
        let s = PasswordSession::new(&[1, 2]).unwrap();
        let r = run_command_with_handles(&OneHandle { a: 1, b: 2 }, TpmHandle(5), s, &mut t);
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    header [20] {
        let b = nd::bytes::<16>();
        let n = nd::len(16);
        let r = read_response_header(&b[..n]);
        if n < 10 {
            assert!(r.is_err(), "a header needs ten bytes");
        }
        reached!(r.is_ok());
        reached!(r.is_err());
    }
    sessions [70] {
        let b = nd::bytes::<R>();
        let n = nd::len(R);
        let mut u = UnmarshalBuf::new(&b[..n]);
        let s = PasswordSession::new(&[1, 2]).unwrap();
        let s2 = PasswordSession::new(&[]).unwrap();
        let r = read_response_sessions(&(s, s2), &mut u);
        assert!(u.len() <= n, "bytes consumed");
        reached!(r.is_ok());
        reached!(r.is_err());
    }
}

#[cfg(feature = "thorough")]
/// Any body after the given capability selector.
fn capability(cap: u32) {
    let mut reply = nd::bytes::<R>();
    reply[..10].copy_from_slice(&[0x80, 0x01, 0, 0, 0, R as u8, 0, 0, 0, 0]);
    reply[11..15].copy_from_slice(&cap.to_be_bytes());
    let mut t = Tpm::new(&reply);
    let cmd = GetCapabilityCmd { capability: TpmCap(cap), property: TpmPt(0), property_count: 1 };
    let r = run_command(&cmd, &mut t);
    reached!(r.is_err());
}
#[cfg(feature = "thorough")]
harness! {
    capability_algs [40] { capability(0) }
    capability_commands [40] { capability(2) }
    capability_pcrs [40] { capability(5) }
    capability_props [40] { capability(6) }
    capability_unknown [40] { capability(0x1234) }
}
