//! C11: attribute words put every attribute at the bit Part 2 gives it.
use crate::nd;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};

/// For any word: an attribute is reported exactly when its bit is set, and
/// setting or clearing it changes that bit only.
macro_rules! bits {
    ($($g:ident $T:ident($W:ty: $draw:ident) { $($F:ident = $bit:literal),* $(,)? })*) => {$(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind(40))]
        pub fn $g() {
            let w: $W = nd::$draw();
            let v = $T(w);
            assert!(v.bits() == w, "bits of the word");
            $({
                let bit: $W = 1 << $bit;
                assert!($T::$F.bits() == bit, concat!(stringify!($T), "::", stringify!($F)));
                assert!(v.contains($T::$F) == (w & bit != 0), concat!("test of ", stringify!($T), "::", stringify!($F)));
                let mut s = v;
                s.insert($T::$F);
                assert!(s.0 == w | bit, concat!("setting ", stringify!($T), "::", stringify!($F)));
                s = v;
                s.remove($T::$F);
                assert!(s.0 == w & !bit, concat!("clearing ", stringify!($T), "::", stringify!($F)));
                assert!((v | $T::$F).0 == w | bit, concat!("union with ", stringify!($T), "::", stringify!($F)));
            })*
            let x = $T(nd::$draw());
            assert!((v | x).0 == w | x.0 && (v & x).0 == w & x.0, "union and intersection");
            assert!(v.contains(x) == (w & x.0 == x.0), "containment");
            // Sent and received unchanged, reserved bits included.
            let mut b = [0; core::mem::size_of::<$W>()];
            assert!(v.try_marshal(&mut b) == Ok(core::mem::size_of::<$W>()), "encoded size");
            assert!(<$W>::from_be_bytes(b) == w, "encoded word");
            match $T::try_unmarshal(&mut UnmarshalBuf::new(&b)) {
                Ok(r) => assert!(r.0 == w && r == v, "word read back"),
                Err(_) => panic!("word was rejected"),
            }
            assert!($T::default().0 == 0 && $T::empty().0 == 0, "no attributes");
            reached!(w != 0);
        }
    )*}
}
bits! {
    locality TpmaLocality(u8: u8) { LOC_ZERO = 0, LOC_ONE = 1, LOC_TWO = 2, LOC_THREE = 3, LOC_FOUR = 4 }
    nv TpmaNv(u32: u32) {
        PPWRITE = 0, OWNERWRITE = 1, AUTHWRITE = 2, POLICYWRITE = 3, POLICY_DELETE = 10, WRITELOCKED = 11, WRITEALL = 12,
        WRITEDEFINE = 13, WRITE_STCLEAR = 14, GLOBALLOCK = 15, PPREAD = 16, OWNERREAD = 17, AUTHREAD = 18, POLICYREAD = 19,
        NO_DA = 25, ORDERLY = 26, CLEAR_STCLEAR = 27, READLOCKED = 28, WRITTEN = 29, PLATFORMCREATE = 30, READ_STCLEAR = 31,
    }
    object TpmaObject(u32: u32) {
        FIXED_TPM = 1, ST_CLEAR = 2, FIXED_PARENT = 4, SENSITIVE_DATA_ORIGIN = 5, USER_WITH_AUTH = 6, ADMIN_WITH_POLICY = 7,
        NO_DA = 10, ENCRYPTED_DUPLICATION = 11, RESTRICTED = 16, DECRYPT = 17, SIGN_ENCRYPT = 18, X509_SIGN = 19,
    }
    algorithm TpmaAlgorithm(u32: u32) { ASYMMETRIC = 0, SYMMETRIC = 1, HASH = 2, OBJECT = 3, SIGNING = 8, ENCRYPTING = 9, METHOD = 10 }
    session TpmaSession(u8: u8) { CONTINUE_SESSION = 0, AUDIT_EXCLUSIVE = 1, AUDIT_RESET = 2, DECRYPT = 5, ENCRYPT = 6, AUDIT = 7 }
    command TpmaCc(u32: u32) { NV = 22, EXTENSIVE = 23, FLUSHED = 24, R_HANDLE = 28, V = 29 }
}
harness! {
    /// The index type of NV attributes is a field of its own.
    nv_type [8] {
        let w = nd::u32();
        let t = nd::u8();
        let mut v = TpmaNv(w);
        assert!(v.get_index_type().0 as u32 == w >> 4 & 0xF, "type of an index");
        nd::assume(t <= 0xF);
        v.set_type(TpmNt(t));
        assert!(v.get_index_type().0 == t, "type that was set");
        assert!(v.0 == w & !0xF0 | (t as u32) << 4, "setting the type changed an attribute");
        let f = TpmaNv::from(TpmNt(t));
        assert!(f.0 == (t as u32) << 4, "attributes of a type");
        reached!(t == 9);
    }
    /// A type that does not fit leaves the attributes alone.
    nv_type_wide [8] {
        let w = nd::u32();
        let t = nd::u8();
        let mut v = TpmaNv(w);
        v.set_type(TpmNt(t));
        assert!(v.0 & !0xF0 == w & !0xF0, "setting the type changed an attribute");
        assert!(TpmaNv::from(TpmNt(t)).0 & !0xF0 == 0, "attributes of a type");
        reached!(t > 0xF);
    }
    nv_type_names [8] {
        assert!(TpmNt::Ordinary.0 == 0 && TpmNt::Counter.0 == 1 && TpmNt::Bits.0 == 2 && TpmNt::Extend.0 == 4, "NV index types");
        assert!(TpmNt::PinFail.0 == 8 && TpmNt::PinPass.0 == 9, "NV PIN index types");
        reached!();
    }
}
