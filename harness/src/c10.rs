//! C10: a handle is accepted as a session or NV index exactly when it lies in that range.
use crate::nd;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};

fn word<T: Marshalable>(v: &T) -> u32 {
    let mut b = [0; 4];
    assert!(v.try_marshal(&mut b) == Ok(4), "encoded size of a handle");
    u32::from_be_bytes(b)
}
harness! {
    session [8] {
        let h = nd::u32();
        let hmac = h >= 0x0200_0000 && h <= 0x0200_003F;
        let policy = h >= 0x0300_0000 && h <= 0x0300_003F;
        let password = h == 0x4000_0009;
        match TpmiShAuthSession::try_from(h) {
            Ok(s) => {
                assert!(hmac || policy || password, "handle that is no session was accepted");
                assert!(word(&s) == h, "handle that is sent");
                assert!((s == TpmiShAuthSession::RS_PW) == password, "password session");
            }
            Err(e) => {
                assert!(!hmac && !policy && !password, "session handle was rejected");
                assert!(e == TpmRcError::Value, "error for a handle out of range");
            }
        }
        assert!(TpmHc::is_hmac_session(h) == hmac, "HMAC session range");
        assert!(TpmHc::is_policy_session(h) == policy, "policy session range");
        reached!(hmac);
        reached!(policy);
        reached!(password);
        reached!(!hmac && !policy && !password);
    }
    nv_index [8] {
        let h = nd::u32();
        let nv = h >> 24 == 1;
        match TpmiRhNvIndex::try_from(h) {
            Ok(i) => {
                assert!(nv, "handle that is no NV index was accepted");
                assert!(word(&i) == h, "handle that is sent");
            }
            Err(e) => {
                assert!(!nv, "NV index was rejected");
                assert!(e == TpmRcError::Value, "error for a handle out of range");
            }
        }
        assert!(TpmHc::is_nv_index(h) == nv, "NV index range");
        reached!(nv);
        reached!(!nv);
    }
    /// Two handles give equal values exactly when they are the same handle.
    distinct [8] {
        let (a, b) = (nd::u32(), nd::u32());
        if let (Ok(x), Ok(y)) = (TpmiShAuthSession::try_from(a), TpmiShAuthSession::try_from(b)) {
            assert!((x == y) == (a == b), "equality of sessions");
            reached!(a == b);
        }
        if let (Ok(x), Ok(y)) = (TpmiRhNvIndex::try_from(a), TpmiRhNvIndex::try_from(b)) {
            assert!((x == y) == (a == b), "equality of NV indices");
            reached!(a == b);
        }
    }
    /// The ranges that Part 2 prescribes.
    ranges [8] {
        assert!(word(&TpmiShAuthSession::RS_PW) == 0x4000_0009, "TPM_RS_PW");
        assert!(TpmHc::HmacSessionFirst.get() == 0x0200_0000 && TpmHc::HmacSessionLast.get() == 0x0200_003F, "HMAC sessions");
        assert!(TpmHc::PolicySessionFirst.get() == 0x0300_0000 && TpmHc::PolicySessionLast.get() == 0x0300_003F, "policy sessions");
        assert!(TpmHc::NVIndexFirst.get() == 0x0100_0000 && TpmHc::NVIndexLast.get() == 0x01FF_FFFF, "NV indices");
        assert!(TpmHc::PersistentFirst.get() == 0x8100_0000 && TpmHc::PersistentLast.get() == 0x81FF_FFFF, "persistent objects");
        // A received handle is kept as it is.
        let b = nd::bytes::<4>();
        match TpmHc::try_unmarshal(&mut UnmarshalBuf::new(&b)) {
            Ok(h) => assert!(h.get() == u32::from_be_bytes(b), "handle received"),
            Err(_) => panic!("handle was rejected"),
        }
        reached!();
    }
}
