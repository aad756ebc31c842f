use crate::nd;
use crate::spec::*;
use tpm2_rs_marshalable::UnmarshalBuf;

/// The encoding of every value of the shape is the reference encoding.
pub fn layout<T: Spec>(shape: &'static [u8]) {
    let mut w = W::new();
    let v = T::make(&mut Shape::new(shape), &mut w);
    let total = w.n;
    let mut out = [0x5A; CAP];
    let r = v.try_marshal(&mut out[..total + 1]);
    assert!(r == Ok(total), "encoded size");
    let i = nd::idx();
    if i < total {
        assert!(out[i] == w.b[i], "encoded byte");
    } else if i < CAP {
        assert!(out[i] == 0x5A, "byte after the encoding was modified");
    }
    reached!(i < total || total == 0);
}

/// A destination of any length: exact error behaviour, nothing outside written.
pub fn short<T: Spec>(shape: &'static [u8]) {
    let mut w = W::fixed();
    let v = T::make(&mut Shape::new(shape), &mut w);
    let total = w.n;
    let m = nd::len(total + 2);
    let mut out = [0x5A; CAP];
    let r = v.try_marshal(&mut out[..m]);
    if m >= total {
        assert!(r == Ok(total), "encoded size");
    } else {
        assert!(r.is_err(), "destination too small");
    }
    let i = nd::idx();
    if i < CAP && i >= m {
        assert!(out[i] == 0x5A, "byte outside the destination was modified");
    }
    reached!(m >= total);
    reached!(m < total || total == 0);
}

/// As `short`, for a few destination lengths.
pub fn short_few<T: Spec>(shape: &'static [u8]) {
    let mut w = W::fixed();
    let v = T::make(&mut Shape::new(shape), &mut w);
    let total = w.n;
    let i = nd::idx();
    nd::assume(i < CAP);
    for m in [0, total / 2, total - 3, total - 1, total] {
        let mut out = [0x5A; CAP];
        let r = v.try_marshal(&mut out[..m]);
        if m >= total {
            assert!(r == Ok(total), "encoded size");
        } else {
            assert!(r.is_err(), "destination too small");
        }
        if i >= m {
            assert!(out[i] == 0x5A, "byte outside the destination was modified");
        }
    }
    reached!();
}

/// The reference encoding of every value of the shape reads back as that value.
pub fn parse<T: Spec>(shape: &'static [u8]) {
    let mut w = W::new();
    let v = T::make(&mut Shape::new(shape), &mut w);
    let total = w.n;
    w.b[total] = nd::u8();
    let mut u = UnmarshalBuf::new(&w.b[..total + 1]);
    let r = T::try_unmarshal(&mut u);
    assert!(u.len() == 1, "bytes consumed");
    match r {
        Ok(v2) => assert!(v.same(&v2), "value read back"),
        Err(_) => panic!("well-formed encoding was rejected"),
    }
    if total > 0 {
        let mut u = UnmarshalBuf::new(&w.b[..total - 1]);
        assert!(T::try_unmarshal(&mut u).is_err(), "truncated encoding was accepted");
    }
    reached!();
}

/// Every truncation of an encoding is rejected.
pub fn cut<T: Spec>(shape: &'static [u8]) {
    let mut w = W::fixed();
    let _v = T::make(&mut Shape::new(shape), &mut w);
    let total = w.n;
    let n = nd::len(total + 2);
    let mut u = UnmarshalBuf::new(&w.b[..n]);
    let r = T::try_unmarshal(&mut u);
    if n >= total {
        assert!(r.is_ok(), "well-formed encoding was rejected");
        assert!(u.len() == n - total, "bytes consumed");
    } else {
        assert!(r.is_err(), "truncated encoding was accepted");
    }
    reached!(n >= total);
    reached!(n < total || total == 0);
}

/// The case split over types, lengths, counts and variants: `$m! { group [unwind] Type [shape]; ... }`.
/// Shape: union variant / list count / buffer length choices in the order of the encoding.
macro_rules! light_cases {
    ($f:ident) => {
        cases! { $f
            scalars { u8 []; u16 []; u32 []; u64 []; i8 []; i16 []; i32 []; i64 []; () []; [u8; 5] [];
                TpmaLocality []; TpmaNv []; TpmaObject []; TpmaAlgorithm []; TpmaSession []; TpmaCc []; TpmiYesNo [];
                TpmiRhNvIndex []; TpmiShAuthSession []; TpmiEccCurve []; TpmiAesKeyBits []; TpmiSm4KeyBits [];
                TpmiCamelliaKeyBits []; TpmiRsaKeyBits []; TpmsEmpty []; }
            names { TpmiAlgHash []; TpmiAlgKdf []; TpmiAlgPublic []; TpmiAlgSymMode []; TpmiAlgSymObject [];
                TpmiAlgKeyedhashScheme []; TpmiAlgRsaScheme []; TpmiAlgSigScheme []; TpmiAlgEccScheme []; TpmiAlgAsymScheme [];
                TpmiStAttest []; TpmiStCommandTag []; TpmAlgId []; TpmEccCurve []; TpmCc []; TpmSt []; TpmCap []; TpmPt [];
                TpmPtPcr []; TpmHandle []; TpmGenerated []; TpmSu []; }
            buffers_a { Tpm2bDigest [0]; Tpm2bDigest [1]; Tpm2bDigest [8]; Tpm2bData [0]; Tpm2bData [5]; Tpm2bIv [3]; Tpm2bName [0]; Tpm2bName [4]; }
            buffers_b { Tpm2bEvent [3]; Tpm2bMaxBuffer [3]; Tpm2bMaxNvBuffer [0]; Tpm2bMaxNvBuffer [3]; Tpm2bSymKey [3]; Tpm2bLabel [3]; }
            buffers_c { Tpm2bAttest [4]; Tpm2bSensitiveData [3]; Tpm2bSensitiveCreate [4]; Tpm2bPublicKeyRsa [3]; Tpm2bPrivateKeyRsa [3]; Tpm2bEccParameter [3];
                Tpm2bEncryptedSecret [3]; Tpm2bPublic [4]; Tpm2bTemplate [3]; Tpm2bPrivateVendorSpecific [3]; }
            buffers_e { Tpm2bPrivate [3]; Tpm2bIdObject [3]; Tpm2bContextSensitive [3]; Tpm2bContextData [3]; Tpm2bCreationData [3]; }
            hashes { TpmtHa [0]; TpmtHa [1]; TpmtHa [2]; TpmtHa [3]; TpmtHa [4]; }
            clock { TpmsClockInfo []; TpmsTimeInfo []; TpmsTimeAttestInfo []; TpmsAlgProperty []; TpmsTaggedProperty []; }
            selections { TpmsPcrSelection [0]; TpmsPcrSelection [3]; TpmsPcrSelection [4]; TpmsTaggedPcrSelect [0]; TpmsTaggedPcrSelect [3]; TpmsTaggedPcrSelect [4]; }
            lists_a { TpmlPcrSelection [0]; TpmlPcrSelection [1, 3]; TpmlPcrSelection [2, 1, 4]; TpmlDigest [0]; TpmlDigest [1, 2]; TpmlDigest [3, 0, 1, 2]; }
            lists_b { TpmlHandle [0]; TpmlHandle [2]; TpmlCc [3]; TpmlEccCurve [2];
                TpmlCca [0]; TpmlCca [2]; TpmlAlgProperty [1]; TpmlAlgProperty [2]; }
            lists_d { TpmlTaggedTpmProperty [0]; TpmlTaggedTpmProperty [2]; TpmlTaggedPcrProperty [1, 3]; TpmlTaggedPcrProperty [2, 0, 2]; }
            lists_e { TpmlTaggedPolicy [1, 0]; TpmlTaggedPolicy [2, 4, 0]; }
            attested_a { TpmsQuoteInfo []; TpmsCreationInfo []; TpmsCertifyInfo []; TpmsCommandAuditInfo []; TpmsSessionAuditInfo []; }
            attested_b { TpmsNvCertifyInfo []; TpmsIdObject []; TpmsDerive []; TpmsNvPublic []; }
            objects { TpmsSensitiveCreate []; TpmsSensitiveCreate [0, 4]; TpmsEccPoint []; TpmsEccPoint [1, 3];
                TpmsContextData []; TpmsAuthCommand []; TpmsAuthCommand [3, 1]; TpmsAuthResponse []; TpmsAuthResponse [0, 3]; }
            creation_data { TpmsCreationData []; TpmsCreationData [2, 2, 3, 1, 0, 2, 1]; }
            schemes_a { TpmtKeyedHashScheme [0]; TpmtKeyedHashScheme [1]; TpmtKeyedHashScheme [2]; TpmsSchemeXor []; TpmsKeyedHashParms [1]; TpmsSchemeHash []; TpmsSchemeEcdaa [];
                TpmtSymDefObject [0]; TpmtSymDefObject [1]; TpmtSymDefObject [2]; TpmtSymDefObject [3]; TpmtSymDefObject [4]; TpmsSymCipherParms [0];
                TpmtKdfScheme [0]; TpmtKdfScheme [1]; TpmtKdfScheme [2]; TpmtKdfScheme [3]; TpmtKdfScheme [4]; }
            signatures_a { TpmtSignature [0]; TpmtSignature [1]; TpmtSignature [7]; TpmsSignatureRsa [];
                TpmtSignature [6, 0]; TpmtSignature [6, 1]; TpmtSignature [6, 3]; }
            signatures_b { TpmtSignature [2]; TpmtSignature [3]; TpmtSignature [4]; TpmtSignature [5]; TpmsSignatureEcc []; }
            schemes_b { TpmtSigScheme [0]; TpmtSigScheme [1]; TpmtSigScheme [2]; TpmtSigScheme [3]; TpmtSigScheme [4]; TpmtSigScheme [5]; TpmtSigScheme [6]; TpmtSigScheme [7];
                TpmtRsaScheme [0]; TpmtRsaScheme [1]; TpmtRsaScheme [2]; TpmtRsaScheme [3]; TpmtRsaScheme [4]; TpmtRsaScheme [5]; TpmtRsaScheme [6]; TpmtRsaScheme [7]; TpmtRsaScheme [8]; }
            schemes_c { TpmtEccScheme [0]; TpmtEccScheme [1]; TpmtEccScheme [2]; TpmtEccScheme [3]; TpmtEccScheme [4]; TpmtEccScheme [5]; TpmtEccScheme [6]; TpmtEccScheme [7]; TpmtEccScheme [8];
                TpmtAsymScheme [0]; TpmtAsymScheme [1]; TpmtAsymScheme [2]; TpmtAsymScheme [3]; TpmtAsymScheme [4]; TpmtAsymScheme [5];
                TpmtAsymScheme [6]; TpmtAsymScheme [7]; TpmtAsymScheme [8]; TpmtAsymScheme [9]; TpmtAsymScheme [10]; }
            parms { TpmsRsaParms [0, 0]; TpmsRsaParms [4, 8]; TpmsEccParms [0, 2, 1]; TpmsEccParms [4, 8, 4]; TpmsAsymParms [0, 0]; TpmsAsymParms [4, 10]; }
            public_id { PublicParmsAndId [0, 1]; PublicParmsAndId [1, 1]; PublicParmsAndId [3, 0, 3, 0]; }
            public_a { TpmtPublic [0, 2, 0]; TpmtPublic [0, 0, 1];
                TpmtPublic [1, 2, 0]; }
            public_ecc { TpmtPublic [3, 2, 0, 2, 4]; }
            sensitive { TpmtSensitive [1]; TpmtSensitive [2]; TpmtSensitive [3]; TpmuSensitiveComposite [2]; }
            capability_a { TpmsCapabilityData [0, 2];
                TpmsCapabilityData [1, 2];
                TpmsCapabilityData [2, 2]; }
            capability_b { TpmsCapabilityData [3, 1];
                TpmsCapabilityData [4, 1];
                TpmsCapabilityData [5, 1, 3]; }
            capability_c { TpmsCapabilityData [6, 2];
                TpmsCapabilityData [7, 1, 3]; }
            capability_d { TpmsCapabilityData [8, 2];
                TpmsCapabilityData [9, 1, 1]; }
        }
    };
}
/// Attestation structures: the largest union.
macro_rules! attest_cases {
    ($f:ident) => {
        cases! { $f
            attested_c { TpmuAttest [0]; TpmuAttest [1]; TpmuAttest [2]; TpmuAttest [3]; TpmuAttest [4]; TpmuAttest [5]; }
            attest_a { TpmsAttest [0];
                TpmsAttest [1]; }
            attest_quote { TpmsAttest [2, 2, 1, 1, 3]; }
            attest_b { TpmsAttest [3];
                TpmsAttest [4]; }
            attest_time { TpmsAttest [5]; }
        }
    };
}
/// Cases with very large buffers inside unions.
macro_rules! heavy_cases {
    ($f:ident) => {
        cases! { $f
            heavy_attest_nv { TpmsAttest [6]; }
            heavy_attested_nv { TpmuAttest [6]; }
            heavy_public_rsa { TpmtPublic [2, 2, 0, 7]; }
            heavy_public_id { PublicParmsAndId [2, 0, 1]; }
            heavy_sensitive_a { TpmtSensitive [0]; TpmuSensitiveComposite [0]; }
            heavy_sensitive_b { TpmtSensitive [4]; }
        }
    };
}
macro_rules! cases {
    ($f:ident $($g:ident { $($T:ty [$($s:expr),*];)* })*) => {$(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind(70))]
        pub fn $g() { $($f::<$T>(&[$($s),*]);)* }
    )*}
}

/// Reads a value from `b[..n]`: whatever the bytes are, this returns.
fn try_read<T: Spec>(b: &[u8], n: usize, canonical: bool) -> bool {
    let mut u = UnmarshalBuf::new(&b[..n]);
    let r = T::try_unmarshal(&mut u);
    let left = u.len();
    assert!(left <= n, "bytes consumed");
    let ok = r.is_ok();
    if canonical {
        if let Ok(v) = r {
            let used = n - left;
            let mut out = [0x5A; CAP];
            let w = v.try_marshal(&mut out[..used]);
            assert!(w == Ok(used), "size of the accepted encoding");
            let i = nd::idx();
            if i < used {
                assert!(out[i] == b[i], "byte of the accepted encoding");
            }
        }
    }
    ok
}
#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    Sizes,
    Selectors,
    All,
}
/// Every length and count and/or selector in turn is arbitrary, the other contents fixed.
fn hostile<T: Spec>(shape: &'static [u8], part: Part, canonical: bool) {
    let mut w = W::fixed();
    let _v = T::make(&mut Shape::new(shape), &mut w);
    let n = w.n;
    let mut k = 0;
    let mut any = false;
    while k < w.nctl {
        let (at, width, sel) = w.ctl[k];
        if part == Part::All || sel == (part == Part::Selectors) {
            let mut b = w.b;
            let mut j = 0;
            while j < width {
                b[at + j] = nd::u8();
                j += 1;
            }
            any |= try_read::<T>(&b, n, canonical);
        }
        k += 1;
    }
    reached!(any);
}
pub fn survives<T: Spec>(shape: &'static [u8]) {
    hostile::<T>(shape, Part::All, false)
}
pub fn survives_sizes<T: Spec>(shape: &'static [u8]) {
    hostile::<T>(shape, Part::Sizes, false)
}
pub fn canonical<T: Spec>(shape: &'static [u8]) {
    hostile::<T>(shape, Part::All, true)
}
pub fn canonical_sizes<T: Spec>(shape: &'static [u8]) {
    hostile::<T>(shape, Part::Sizes, true)
}
/// A well-formed encoding with arbitrary contents is what the value read from it is written as.
pub fn rewrite<T: Spec>(shape: &'static [u8]) {
    let mut w = W::new();
    let _v = T::make(&mut Shape::new(shape), &mut w);
    let total = w.n;
    let v = match T::try_unmarshal(&mut UnmarshalBuf::new(&w.b[..total])) {
        Ok(v) => v,
        Err(_) => panic!("well-formed encoding was rejected"),
    };
    let mut out = [0x5A; CAP];
    assert!(v.try_marshal(&mut out[..total]) == Ok(total), "size of the accepted encoding");
    let i = nd::idx();
    if i < total {
        assert!(out[i] == w.b[i], "byte of the accepted encoding");
    }
    reached!();
}
/// Every byte string of up to N bytes.
pub fn any_bytes<T: Spec, const N: usize>(canonical: bool) {
    let b = nd::bytes::<N>();
    let n = nd::len(N);
    let ok = try_read::<T>(&b, n, canonical);
    reached!(ok);
    reached!(!ok);
}

/// Cases with lengths, counts or selectors.
macro_rules! sized_cases {
    ($f:ident) => {
        cases! { $f
            buffers { Tpm2bDigest [8]; Tpm2bData [5]; Tpm2bMaxNvBuffer [3]; Tpm2bEccParameter [3]; Tpm2bPublic [4]; }
            selections { TpmsPcrSelection [4]; TpmsTaggedPcrSelect [4]; }
            lists_a { TpmlPcrSelection [2, 1, 4]; TpmlDigest [3, 0, 1, 2]; }
            lists_b { TpmlHandle [2]; TpmlCc [3]; TpmlEccCurve [2]; TpmlCca [2]; TpmlAlgProperty [2]; }
            lists_c { TpmlTaggedTpmProperty [2]; TpmlTaggedPcrProperty [2, 0, 2]; }
            lists_d { TpmlTaggedPolicy [1, 0]; }
            attested_a { TpmsQuoteInfo []; TpmsCreationInfo []; TpmsCertifyInfo []; }
            attested_b { TpmsCommandAuditInfo []; TpmsSessionAuditInfo []; TpmsNvPublic []; TpmsIdObject []; TpmsDerive []; }
            attest_session { TpmsAttest [4]; }
            objects { TpmsSensitiveCreate [0, 4]; TpmsEccPoint [1, 3]; TpmsAuthCommand [3, 1]; TpmsAuthResponse [0, 3]; }
            signatures { TpmtSignature [2]; TpmsSignatureRsa []; }
            keyed_hash { TpmtPublic [0, 2, 0]; }
            symmetric { TpmtPublic [1, 2, 0]; }
            sensitive { TpmtSensitive [1]; TpmtSensitive [2]; TpmtSensitive [3]; }
            capability { TpmsCapabilityData [6, 2]; }
            capability_pcr { TpmsCapabilityData [5, 1, 3]; }
        }
    };
}
macro_rules! big_cases {
    ($f:ident) => {
        cases! { $f
            attest_a { TpmsAttest [0]; }
            attest_b { TpmsAttest [1]; }
            attest_c { TpmsAttest [3]; }
            attest_quote { TpmsAttest [2, 2, 1, 1, 3]; }
            attest_time { TpmsAttest [5]; }
            creation { TpmsCreationData [2, 2, 3, 1, 0, 2, 1]; }
            creation_small { TpmsCreationData []; }
            ecc { TpmtPublic [3, 2, 0, 2, 4]; }
            public_id { PublicParmsAndId [0, 1]; PublicParmsAndId [1, 1]; PublicParmsAndId [3, 0, 3, 0]; }
            parms { TpmsRsaParms [4, 8]; TpmsEccParms [4, 8, 4]; TpmsAsymParms [4, 10]; }
            capability_alg { TpmsCapabilityData [0, 2]; }
            capability_handle { TpmsCapabilityData [1, 2]; }
            capability_cc { TpmsCapabilityData [2, 2]; }
            capability_pp { TpmsCapabilityData [3, 1]; }
            capability_curve { TpmsCapabilityData [8, 2]; }
            capability_policy { TpmsCapabilityData [9, 1, 1]; }
        }
    };
}

/// Lists that are completely full: `part` is 0 (written), 1 (read) of the list type.
macro_rules! full_list_cases {
    ($part:literal) => {
        full_list! { $part
            full_pcr [20] TpmlPcrSelection, pcr_selections, TpmsPcrSelection, [3], 16;
            full_digest [70] TpmlDigest, digests, Tpm2bDigest, [2], 8;
            full_policy [70] TpmlTaggedPolicy, policies, TpmsTaggedPolicy, [0], 14;
        }
        #[cfg(feature = "thorough")]
        full_list! { $part
            full_alg [140] TpmlAlgProperty, alg_properties, TpmsAlgProperty, [], 127;
            full_handle [260] TpmlHandle, handle, TpmHandle, [], 254;
            full_cc [260] TpmlCc, command_codes, TpmCc, [], 254;
            full_property [140] TpmlTaggedTpmProperty, tpm_property, TpmsTaggedProperty, [], 127;
            full_pcr_property [90] TpmlTaggedPcrProperty, pcr_property, TpmsTaggedPcrSelect, [3], 84;
            full_curve [520] TpmlEccCurve, ecc_curves, TpmEccCurve, [], 508;
        }
    };
}
macro_rules! full_list {
    ($part:literal $($g:ident [$u:literal] $T:ident, $field:ident, $E:ident, [$($s:expr),*], $cap:literal;)*) => {$(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($u))]
        pub fn $g() {
            // First, middle and last element arbitrary, the others fixed.
            const E: &[u8] = &[$($s),*];
            let (mut w0, mut w1, mut w2, mut w3) = (W::fixed(), W::new(), W::new(), W::new());
            let (e0, e1, e2, e3): ($E, $E, $E, $E) =
                ($E::make(&mut Shape::new(E), &mut w0), $E::make(&mut Shape::new(E), &mut w1), $E::make(&mut Shape::new(E), &mut w2), $E::make(&mut Shape::new(E), &mut w3));
            let e = w0.n;
            let mut src = [e0; $cap];
            src[0] = e1;
            src[$cap / 2] = e2;
            src[$cap - 1] = e3;
            let total = 4 + e * $cap;
            // Reference encoding.
            let mut want = [0u8; 1040];
            want[2] = ($cap as u32 >> 8) as u8;
            want[3] = $cap as u32 as u8;
            let mut i = 0;
            while i < $cap {
                let w = if i == 0 { &w1 } else if i == $cap / 2 { &w2 } else if i == $cap - 1 { &w3 } else { &w0 };
                let mut j = 0;
                while j < e {
                    want[4 + e * i + j] = w.b[j];
                    j += 1;
                }
                i += 1;
            }
            if $part == 0 {
                let v = match $T::new(&src) { Ok(v) => v, Err(_) => panic!("elements within the capacity were rejected") };
                let mut out = [0x5Au8; 1040];
                assert!(v.try_marshal(&mut out[..total + 1]) == Ok(total), "encoded size of a full list");
                let i = nd::idx();
                if i < total {
                    assert!(out[i] == want[i], "encoded byte of a full list");
                } else if i < 1040 {
                    assert!(out[i] == 0x5A, "byte after the encoding was modified");
                }
                reached!(i == total - 1);
            } else {
                let mut u = UnmarshalBuf::new(&want[..total + 1]);
                let v = match $T::try_unmarshal(&mut u) { Ok(v) => v, Err(_) => panic!("well-formed full list was rejected") };
                assert!(u.len() == 1, "bytes consumed");
                assert!(v.count() == $cap && v.$field().len() == $cap, "count of a full list");
                assert!(v.$field()[0].same(&e1) && v.$field()[$cap / 2].same(&e2) && v.$field()[$cap - 1].same(&e3), "element of a full list");
                assert!(v.$field()[1].same(&e0) && v.$field()[$cap - 2].same(&e0), "element of a full list");
                // One more than the capacity is refused.
                let mut more = want;
                more[2] = ($cap as u32 + 1 >> 8) as u8;
                more[3] = ($cap as u32 + 1) as u8;
                assert!($T::try_unmarshal(&mut UnmarshalBuf::new(&more[..total + e])).is_err(), "a list above the capacity was accepted");
                reached!();
            }
        }
    )*}
}
