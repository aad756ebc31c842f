//! C12: response codes carry exactly the TPM's error, position and warning information.
use crate::nd;
use tpm2::errors::*;

fn kind(k: u8) -> ErrorType {
    match k {
        0 => ErrorType::Handle,
        1 => ErrorType::Parameter,
        _ => ErrorType::Session,
    }
}
fn position(p: u8) -> ErrorPosition {
    use ErrorPosition::*;
    match p {
        1 => Pos1,
        2 => Pos2,
        3 => Pos3,
        4 => Pos4,
        5 => Pos5,
        6 => Pos6,
        7 => Pos7,
        8 => Pos8,
        9 => Pos9,
        10 => PosA,
        11 => PosB,
        12 => PosC,
        13 => PosD,
        14 => PosE,
        _ => PosF,
    }
}
harness! {
    /// Every error, kind and position: the code of Part 2, and back.
    format_one [8] {
        let (e, k, p) = (nd::u8() & 3, nd::u8() % 3, nd::u8());
        nd::assume(p >= 1 && p <= 15);
        // Handles and sessions are numbered 1 to 7.
        nd::assume(k == 1 || p <= 7);
        let (on, pos) = (kind(k), position(p));
        let (v, base) = match e {
            0 => (TpmRcError::AsymmetricFor(on, pos), 0x081),
            1 => (TpmRcError::ValueFor(on, pos), 0x084),
            2 => (TpmRcError::SizeFor(on, pos), 0x095),
            _ => (TpmRcError::SelectorFor(on, pos), 0x098),
        };
        let flag = match k { 0 => 0, 1 => 0x040, _ => 0x800 };
        assert!(v.get() == base | flag | (p as u32) << 8, "response code with a position");
        assert!(v.format1_parameter() == Some((on, pos)), "kind and position of a response code");
        assert!(!v.is_warning(), "an error with a position is no warning");
        assert!(TssError::from(v).get() == v.get(), "code seen by the caller");
        reached!(k == 0);
        reached!(k == 1 && p > 7);
        reached!(k == 2);
    }
    /// Different errors, kinds or positions have different codes.
    injective [8] {
        let make = |e: u8, k: u8, p: u8| {
            let (on, pos) = (kind(k), position(p));
            match e {
                0 => TpmRcError::AsymmetricFor(on, pos),
                1 => TpmRcError::ValueFor(on, pos),
                2 => TpmRcError::SizeFor(on, pos),
                _ => TpmRcError::SelectorFor(on, pos),
            }
        };
        let (e, k, p) = (nd::u8() & 3, nd::u8() % 3, nd::u8());
        let (f, l, q) = (nd::u8() & 3, nd::u8() % 3, nd::u8());
        nd::assume(p >= 1 && p <= 15 && (k == 1 || p <= 7));
        nd::assume(q >= 1 && q <= 15 && (l == 1 || q <= 7));
        let (a, b) = (make(e, k, p), make(f, l, q));
        assert!((a == b) == (e == f && k == l && p == q), "equality of response codes");
        assert!((a.get() == b.get()) == (a == b), "equality of response codes");
        reached!(a == b);
        reached!(a != b);
    }
    /// The codes of Part 2, what they are and how the caller sees them.
    codes [20] {
        let all = [
            (TpmRcError::Asymmetric, 0x081), (TpmRcError::Value, 0x084), (TpmRcError::Size, 0x095), (TpmRcError::Selector, 0x098),
            (TpmRcError::BadTag, 0x01E), (TpmRcError::Initialize, 0x100), (TpmRcError::Failure, 0x101), (TpmRcError::Sequence, 0x103),
            (TpmRcError::CommandSize, 0x142), (TpmRcError::CommandCode, 0x143), (TpmRcError::ContextGap, 0x901),
            (TpmRcError::ObjectMemory, 0x902), (TpmRcError::SessionMemory, 0x903), (TpmRcError::Memory, 0x904),
        ];
        let i = nd::idx();
        nd::assume(i < all.len());
        let (e, v) = all[i];
        assert!(e.get() == v, "response code");
        assert!(e.is_warning() == (v >= 0x900), "warning");
        assert!(e.format1_parameter().is_none(), "a code without a position has none");
        assert!(TssError::from(e).get() == v, "code seen by the caller");
        let j = nd::idx();
        nd::assume(j < all.len());
        assert!((all[j].0 == e) == (i == j), "equality of response codes");
        reached!(v == 0x904);
        reached!(v == 0x01E);
    }
    /// Every code but success is an error the caller sees unchanged.
    any_code [8] {
        let v = nd::u32();
        match TssError::try_from(v) {
            Ok(e) => assert!(v != 0 && e.get() == v, "code seen by the caller"),
            Err(TssErrorCannotBeZero) => assert!(v == 0, "error code was rejected"),
        }
        let w = nd::u32();
        if let (Ok(a), Ok(b)) = (TssError::try_from(v), TssError::try_from(w)) {
            assert!((a == b) == (v == w), "equality of codes");
            reached!(v == w);
        }
        reached!(v == 0);
    }
    /// Client side errors carry their layer.
    layers [20] {
        macro_rules! layer {
            ($T:ident, $l:expr) => {{
                let all = [
                    ($T::GeneralFailure, 2), ($T::BadParameter, 3), ($T::InternalError, 4), ($T::OutOfMemory, 5), ($T::NotImplemented, 6),
                    ($T::KeyAlredyRegistered, 8), ($T::TpmUnexpected, 16), ($T::CommFailure, 17), ($T::Timeout, 18), ($T::Unsupported, 20), ($T::Canceled, 22),
                ];
                let i = nd::idx();
                nd::assume(i < all.len());
                assert!(TssError::from(all[i].0).get() == all[i].1 | $l << 12, "client side error code");
            }};
        }
        layer!(TssTddlError, 1u32);
        layer!(TssTcsError, 2u32);
        layer!(TssTspError, 3u32);
        reached!();
    }
    /// Why (un)marshaling failed.
    marshaling [8] {
        use tpm2_rs_marshalable::Error as E;
        let (e, v) = match nd::u8() % 3 {
            0 => (E::ArrayLengthExceeded, 0x095),
            1 => (E::UnexpectedEndOfBuffer, 0x904),
            _ => (E::UnknownSelector, 0x098),
        };
        assert!(TpmRcError::from(e).get() == v && TssError::from(e).get() == v, "response code for a marshaling error");
        reached!(v == 0x098);
    }
}
