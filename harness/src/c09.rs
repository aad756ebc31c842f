//! C09: a structure placed in a sized buffer comes back unchanged.
use crate::nd;
use crate::spec::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};

/// The buffer holds the encoding of the structure, and the structure is recovered from it.
fn wrapped<B: Tpm2bStruct + Marshalable>(shape: &'static [u8])
where
    B::StructType: Spec,
{
    let mut w = W::new();
    let v = B::StructType::make(&mut Shape::new(shape), &mut w);
    let total = w.n;
    let b = match B::from_struct(&v) {
        Ok(b) => b,
        Err(_) => panic!("structure was rejected"),
    };
    assert!(b.get_size() as usize == total, "size of the buffer");
    let p = b.get_buffer();
    assert!(p.len() == total, "length of the payload");
    let i = nd::idx();
    if i < total {
        assert!(p[i] == w.b[i], "payload byte");
    }
    match b.to_struct() {
        Ok(r) => assert!(v.same(&r), "structure read back"),
        Err(_) => panic!("structure was not read back"),
    }
    reached!();
}
/// The structure is recovered from a buffer that came over the wire; a cut encoding is refused.
fn received<B: Tpm2bStruct + Marshalable>(shape: &'static [u8])
where
    B::StructType: Spec,
{
    let mut w = W::new();
    w.be16(0);
    let v = B::StructType::make(&mut Shape::new(shape), &mut w);
    let total = w.n - 2;
    w.b[1] = total as u8;
    let b = match B::try_unmarshal(&mut UnmarshalBuf::new(&w.b[..total + 2])) {
        Ok(b) => b,
        Err(_) => panic!("well-formed buffer was rejected"),
    };
    match b.to_struct() {
        Ok(r) => assert!(v.same(&r), "structure of a received buffer"),
        Err(_) => panic!("structure of a received buffer was rejected"),
    }
    // One byte short of the structure.
    w.b[1] = (total - 1) as u8;
    let b = match B::try_unmarshal(&mut UnmarshalBuf::new(&w.b[..total + 1])) {
        Ok(b) => b,
        Err(_) => panic!("well-formed buffer was rejected"),
    };
    assert!(b.to_struct().is_err(), "cut structure was accepted");
    reached!();
}
macro_rules! wraps {
    ($($g:ident $B:ident [$($s:expr),*];)*) => {$(
        pub mod $g {
            use super::*;
            harness! {
                wrapped [70] { super::wrapped::<$B>(&[$($s),*]); }
                received [70] { super::received::<$B>(&[$($s),*]); }
            }
        }
    )*}
}
wraps! {
    sensitive Tpm2bSensitiveCreate [];
    sensitive_empty Tpm2bSensitiveCreate [0, 0];
    sensitive_data Tpm2bSensitiveCreate [1, 4];
    keyed_hash Tpm2bPublic [0, 2, 0];
    keyed_hash_xor Tpm2bPublic [0, 0, 1];
    symmetric Tpm2bPublic [1, 2, 0];
    ecc Tpm2bPublic [3, 2, 0, 2, 4];
    creation Tpm2bCreationData [];
}
#[cfg(feature = "thorough")]
wraps! {
    rsa Tpm2bPublic [2, 2, 0, 7];
    creation_two Tpm2bCreationData [2, 2, 3, 1, 0, 2, 1];
}
harness! {
    /// An empty buffer is not a structure.
    nothing [70] {
        assert!(Tpm2bPublic::default().to_struct().is_err(), "empty buffer was accepted");
        assert!(Tpm2bCreationData::default().to_struct().is_err(), "empty buffer was accepted");
        assert!(Tpm2bSensitiveCreate::default().to_struct().is_err(), "empty buffer was accepted");
        reached!();
    }
}
#[cfg(feature = "thorough")]
harness! {
    /// The largest RSA public area fits, and comes back.
    largest_public [70] {
        let mut n = [0x9Cu8; 512];
        n[0] = nd::u8();
        n[511] = nd::u8();
        let exponent = nd::u32();
        let policy = nd::bytes::<64>();
        let v = TpmtPublic {
            name_alg: TpmiAlgHash(nd::u16()),
            object_attributes: TpmaObject(nd::u32()),
            auth_policy: Tpm2bDigest::from_bytes(&policy).unwrap(),
            parms_and_id: PublicParmsAndId::Rsa(
                TpmsRsaParms {
                    symmetric: TpmtSymDefObject::Null(TpmsEmpty, TpmsEmpty),
                    scheme: TpmtRsaScheme::Oaep(TpmsSchemeHash { hash_alg: TpmiAlgHash::SHA256 }),
                    key_bits: TpmiRsaKeyBits::default(),
                    exponent,
                },
                Tpm2bPublicKeyRsa::from_bytes(&n).unwrap(),
            ),
        };
        let b = match Tpm2bPublic::from_struct(&v) { Ok(b) => b, Err(_) => panic!("structure was rejected") };
        assert!(b.get_size() == 2 + 2 + 4 + 66 + 2 + 4 + 2 + 4 + 514, "size of the buffer");
        match b.to_struct() {
            Ok(r) => {
                assert!(r.auth_policy.get_buffer()[63] == policy[63], "policy read back");
                match r.parms_and_id {
                    PublicParmsAndId::Rsa(p, k) => {
                        assert!(p.exponent == exponent, "exponent read back");
                        assert!(k.get_size() == 512 && k.get_buffer()[0] == n[0] && k.get_buffer()[511] == n[511], "modulus read back");
                    }
                    _ => panic!("kind of key read back"),
                }
            }
            Err(_) => panic!("structure was not read back"),
        }
        reached!();
    }
}
