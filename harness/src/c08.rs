//! C08: a union is read and written by its selector, and only the selectors of its table are accepted.
use crate::nd;
use crate::spec::*;
use safe_discriminant::Discriminant;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error, Marshalable, MarshalableVariant, UnmarshalBuf};

const BODY: usize = 68;
/// A body that every member accepts: the 16-bit value `word`, repeated.
fn body(word: u8) -> [u8; BODY] {
    let mut b = [0; BODY];
    let mut i = 1;
    while i < BODY {
        b[i] = word;
        i += 2;
    }
    b
}
fn known<T: UnionSpec>(s: u32) -> bool {
    let mut i = 0;
    let mut k = false;
    while i < T::SELECTORS.len() {
        k |= T::SELECTORS[i] == s;
        i += 1;
    }
    k
}
trait Sel: Copy {
    const WIDTH: usize;
    fn of(s: u32) -> Self;
    fn get(self) -> u32;
}
impl Sel for u16 {
    const WIDTH: usize = 2;
    fn of(s: u32) -> u16 {
        s as u16
    }
    fn get(self) -> u32 {
        self as u32
    }
}
impl Sel for u32 {
    const WIDTH: usize = 4;
    fn of(s: u32) -> u32 {
        s
    }
    fn get(self) -> u32 {
        self
    }
}
/// Any selector outside the table.
fn foreign<T: UnionSpec + Marshalable + MarshalableVariant>(word: u8, len: usize)
where
    T::Repr: Sel,
{
    let s = nd::u32();
    nd::assume(T::Repr::WIDTH == 4 || s <= 0xFFFF);
    nd::assume(!known::<T>(s));
    let b = body(word);
    let mut u = UnmarshalBuf::new(&b[..len]);
    match T::try_unmarshal_variant(T::Repr::of(s), &mut u) {
        Ok(_) => panic!("selector outside the table was accepted"),
        Err(e) => assert!(e == Error::UnknownSelector, "error for an unknown selector"),
    }
    let mut b = b;
    let w = T::Repr::WIDTH;
    let be = s.to_be_bytes();
    let mut i = 0;
    while i < w {
        b[i] = be[4 - w + i];
        i += 1;
    }
    let mut u = UnmarshalBuf::new(&b[..w + len]);
    match T::try_unmarshal(&mut u) {
        Ok(_) => panic!("selector outside the table was accepted"),
        Err(e) => assert!(e == Error::UnknownSelector, "error for an unknown selector"),
    }
    reached!();
}
/// Every selector of the table, with and without the selector in front.
fn table<T: UnionSpec + Marshalable + MarshalableVariant>(word: u8, from: usize, to: usize, whole: bool)
where
    T::Repr: Sel,
{
    let b = body(word);
    let w = T::Repr::WIDTH;
    let mut k = from;
    while k < T::SELECTORS.len() && k < to {
        let s = T::SELECTORS[k];
        let mut u = UnmarshalBuf::new(&b);
        let v = match T::try_unmarshal_variant(T::Repr::of(s), &mut u) {
            Ok(v) => v,
            Err(_) => panic!("selector of the table was rejected"),
        };
        let used = BODY - u.len();
        assert!(v.discriminant().get() == s, "selector of what was read");
        let i = nd::idx();
        let mut out = [0x5A; BODY + 4];
        assert!(v.try_marshal_variant(&mut out[..BODY]) == Ok(used), "size of the member");
        if i < used {
            assert!(out[i] == b[i], "byte of the member");
        } else if i < BODY + 4 {
            assert!(out[i] == 0x5A, "byte after the member");
        }
        if whole {
            let mut out = [0x5A; BODY + 4];
            assert!(v.try_marshal(&mut out[..BODY + w]) == Ok(used + w), "size of the union");
            let be = s.to_be_bytes();
            if i < w {
                assert!(out[i] == be[4 - w + i], "encoded selector");
            }
            if i < used {
                assert!(out[w + i] == b[i], "byte of the member");
            }
            let mut u = UnmarshalBuf::new(&out[..BODY + w]);
            match T::try_unmarshal(&mut u) {
                Ok(v) => assert!(v.discriminant().get() == s && u.len() == BODY - used, "union read back"),
                Err(_) => panic!("well-formed union was rejected"),
            }
        }
        k += 1;
    }
    reached!();
}
macro_rules! unions {
    ($($g:ident $T:ident $word:literal;)*) => {$(
        pub mod $g {
            use super::*;
            harness! {
                foreign [70] { super::foreign::<$T>($word, BODY - 4); }
                table [70] { super::table::<$T>($word, 0, 99, true); }
            }
        }
    )*}
}
unions! {
    hash TpmtHa 0;
    keyed_hash TpmtKeyedHashScheme 0x10;
    sym TpmtSymDefObject 0x10;
    sig_scheme TpmtSigScheme 0x10;
    rsa_scheme TpmtRsaScheme 0x10;
    ecc_scheme TpmtEccScheme 0x10;
    kdf TpmtKdfScheme 0x10;
    asym_scheme TpmtAsymScheme 0x10;
}
macro_rules! big_unions {
    ($($g:ident $T:ident $word:literal;)*) => {$(
        pub mod $g {
            use super::*;
            const WHOLE: bool = cfg!(feature = "thorough");
            harness! {
                foreign [70] { super::foreign::<$T>($word, if WHOLE { BODY - 4 } else { 0 }); }
                table_0 [70] { super::table::<$T>($word, 0, 2, WHOLE); }
                table_2 [70] { super::table::<$T>($word, 2, 4, WHOLE); }
                table_4 [70] { super::table::<$T>($word, 4, 6, WHOLE); }
                table_6 [70] { super::table::<$T>($word, 6, 99, WHOLE); }
            }
        }
    )*}
}
big_unions! {
    attest TpmuAttest 0;
    signature TpmtSignature 0x04;
    public PublicParmsAndId 0x10;
    sensitive TpmuSensitiveComposite 0x10;
    capability TpmsCapabilityData 0;
}
/// The structures that keep the selector away from the member.
fn outer<T: Marshalable, U: UnionSpec>(at: usize, word: u8) {
    let s = nd::u16();
    nd::assume(!known::<U>(s as u32));
    let mut b = body(word);
    b[at] = (s >> 8) as u8;
    b[at + 1] = s as u8;
    match T::try_unmarshal(&mut UnmarshalBuf::new(&b)) {
        Ok(_) => panic!("selector outside the table was accepted"),
        Err(e) => assert!(e == Error::UnknownSelector, "error for an unknown selector"),
    }
    reached!();
}
harness! {
    public_area [70] { outer::<TpmtPublic, PublicParmsAndId>(0, 0); }
    sensitive_area [70] { outer::<TpmtSensitive, TpmuSensitiveComposite>(0, 0); }
    attestation [70] { outer::<TpmsAttest, TpmuAttest>(4, 0); }
}
