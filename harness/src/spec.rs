//! Reference description of the TPM 2.0 wire format (TCG Part 2), written
//! independently of the repository's marshaling code.
//!
//! `Spec::make` draws a symbolic value of the type, and appends to `w` the
//! bytes that Part 2 prescribes for it.  Lengths, counts and union selectors
//! are taken from a concrete `Shape` (the case split); everything else is
//! symbolic.
use crate::nd;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};

pub const CAP: usize = 120;

pub struct W {
    pub b: [u8; CAP],
    pub n: usize,
    /// Contents are fixed instead of symbolic.
    pub fixed: bool,
    /// Where the lengths, counts and selectors are: position, width, is it a selector?
    pub ctl: [(usize, usize, bool); 12],
    pub nctl: usize,
}
impl W {
    pub fn new() -> W {
        W { b: [0; CAP], n: 0, fixed: false, ctl: [(0, 0, false); 12], nctl: 0 }
    }
    pub fn fixed() -> W {
        W { fixed: true, ..W::new() }
    }
    pub fn u8(&mut self) -> u8 {
        if self.fixed { 0xA1 } else { nd::u8() }
    }
    pub fn u16(&mut self) -> u16 {
        if self.fixed { 0xB1B2 } else { nd::u16() }
    }
    pub fn u32(&mut self) -> u32 {
        if self.fixed { 0xC1C2_C3C4 } else { nd::u32() }
    }
    pub fn u64(&mut self) -> u64 {
        if self.fixed { 0xD1D2_D3D4_D5D6_D7D8 } else { nd::u64() }
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        if self.fixed { [0xE1; N] } else { nd::bytes() }
    }
    pub fn put(&mut self, v: u8) {
        self.b[self.n] = v;
        self.n += 1;
    }
    /// The next field is a length, count or selector of this width.
    pub fn mark(&mut self, width: usize) {
        self.note(width, false)
    }
    pub fn mark_selector(&mut self, width: usize) {
        self.note(width, true)
    }
    fn note(&mut self, width: usize, selector: bool) {
        if self.nctl < 12 {
            self.ctl[self.nctl] = (self.n, width, selector);
            self.nctl += 1;
        }
    }
    pub fn be16(&mut self, v: u16) {
        self.put((v >> 8) as u8);
        self.put(v as u8);
    }
    pub fn be32(&mut self, v: u32) {
        self.be16((v >> 16) as u16);
        self.be16(v as u16);
    }
    pub fn be64(&mut self, v: u64) {
        self.be32((v >> 32) as u32);
        self.be32(v as u32);
    }
}

/// Concrete choices (buffer lengths, element counts, union variants).
pub struct Shape {
    c: &'static [u8],
    i: usize,
}
impl Shape {
    pub fn new(c: &'static [u8]) -> Shape {
        Shape { c, i: 0 }
    }
    pub fn pick(&mut self, default: usize) -> usize {
        if self.i < self.c.len() {
            let v = self.c[self.i] as usize;
            self.i += 1;
            v
        } else {
            default
        }
    }
}

pub trait Spec: Sized + Marshalable {
    fn make(sh: &mut Shape, w: &mut W) -> Self;
    /// Field-wise equality.
    fn same(&self, o: &Self) -> bool;
}

macro_rules! int_spec {
    ($($T:ty, $draw:ident, $put:ident, $as:ty;)*) => {$(
        impl Spec for $T {
            fn make(_: &mut Shape, w: &mut W) -> Self {
                let v = w.$draw();
                w.$put(v);
                v as $T
            }
            fn same(&self, o: &Self) -> bool { *self == *o }
        }
    )*}
}
int_spec! {
    u8, u8, put, u8; u16, u16, be16, u16; u32, u32, be32, u32; u64, u64, be64, u64;
    i8, u8, put, u8; i16, u16, be16, u16; i32, u32, be32, u32; i64, u64, be64, u64;
}
impl Spec for () {
    fn make(_: &mut Shape, _: &mut W) -> Self {}
    fn same(&self, _: &Self) -> bool {
        true
    }
}
impl<const N: usize> Spec for [u8; N] {
    fn make(_: &mut Shape, w: &mut W) -> Self {
        let v = w.bytes::<N>();
        let mut i = 0;
        while i < N {
            w.put(v[i]);
            i += 1;
        }
        v
    }
    fn same(&self, o: &Self) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i < N {
            ok &= self[i] == o[i];
            i += 1;
        }
        ok
    }
}

/// Newtypes around one integer with a public field.
macro_rules! new_spec {
    ($($T:ident($I:ty);)*) => {$(
        impl Spec for $T {
            fn make(sh: &mut Shape, w: &mut W) -> Self { $T(<$I>::make(sh, w)) }
            fn same(&self, o: &Self) -> bool { self.0 == o.0 }
        }
    )*}
}
new_spec! {
    TpmaLocality(u8); TpmaNv(u32); TpmaObject(u32); TpmaAlgorithm(u32); TpmaSession(u8); TpmaCc(u32);
    TpmiAlgHash(u16); TpmiAlgKdf(u16); TpmiAlgPublic(u16); TpmiAlgSymMode(u16); TpmiAlgSymObject(u16);
    TpmiAlgKeyedhashScheme(u16); TpmiAlgRsaScheme(u16); TpmiAlgSigScheme(u16); TpmiAlgEccScheme(u16);
    TpmiAlgAsymScheme(u16); TpmiYesNo(u8); TpmiStAttest(u16); TpmiStCommandTag(u16);
    TpmAlgId(u16); TpmEccCurve(u16); TpmCc(u32); TpmSt(u16); TpmCap(u32); TpmPt(u32); TpmPtPcr(u32);
    TpmHandle(u32); TpmGenerated(u32); TpmSu(u16);
}

/// Types whose content is private: made by unmarshaling the reference bytes.
macro_rules! opaque_spec {
    ($($T:ident, |$sh:ident, $w:ident| $body:block;)*) => {$(
        impl Spec for $T {
            fn make($sh: &mut Shape, $w: &mut W) -> Self {
                let start = $w.n;
                $body;
                let mut u = UnmarshalBuf::new(&$w.b[start..$w.n]);
                match $T::try_unmarshal(&mut u) {
                    Ok(v) => v,
                    Err(_) => panic!("well-formed encoding was rejected"),
                }
            }
            fn same(&self, o: &Self) -> bool { *self == *o }
        }
    )*}
}
opaque_spec! {
    TpmiRhNvIndex, |sh, w| { u32::make(sh, w); };
    TpmiShAuthSession, |sh, w| { u32::make(sh, w); };
    TpmiEccCurve, |sh, w| { u16::make(sh, w); };
    TpmiAesKeyBits, |sh, w| { u16::make(sh, w); };
    TpmiSm4KeyBits, |sh, w| { u16::make(sh, w); };
    TpmiCamelliaKeyBits, |sh, w| { u16::make(sh, w); };
    TpmiRsaKeyBits, |sh, w| { u16::make(sh, w); };
    TpmsTaggedPcrSelect, |sh, w| {
        u32::make(sh, w);
        let n = sh.pick(3);
        w.mark(1);
        w.put(n as u8);
        let mut i = 0;
        while i < n { u8::make(sh, w); i += 1; }
    };
    TpmsTaggedPolicy, |sh, w| { u32::make(sh, w); TpmtHa::make(sh, w); };
}
impl Spec for TpmlCca {
    fn make(sh: &mut Shape, w: &mut W) -> Self {
        let start = w.n;
        let n = sh.pick(1);
        w.mark(4);
                w.be32(n as u32);
        let mut i = 0;
        while i < n {
            u32::make(sh, w);
            i += 1;
        }
        match TpmlCca::try_unmarshal(&mut UnmarshalBuf::new(&w.b[start..w.n])) {
            Ok(v) => v,
            Err(_) => panic!("well-formed encoding was rejected"),
        }
    }
    /// The elements are private: compared through their encoding (at most 3 of them).
    fn same(&self, o: &Self) -> bool {
        let (mut a, mut b) = ([0; 16], [0; 16]);
        let (n, m) = (self.try_marshal(&mut a), o.try_marshal(&mut b));
        n.is_ok() & (n == m) & a.same(&b)
    }
}

/// Longest payload a shape may ask for.
pub const MAXP: usize = 8;
macro_rules! tpm2b_spec {
    ($($T:ident)*) => {$(
        impl Spec for $T {
            fn make(sh: &mut Shape, w: &mut W) -> Self {
                let n = sh.pick(2);
                let p = w.bytes::<MAXP>();
                w.mark(2);
                w.be16(n as u16);
                let mut i = 0;
                while i < n { w.put(p[i]); i += 1; }
                match $T::from_bytes(&p[..n]) {
                    Ok(v) => v,
                    Err(_) => panic!("payload within capacity was rejected"),
                }
            }
            fn same(&self, o: &Self) -> bool {
                let n = self.get_size() as usize;
                if n != o.get_size() as usize || n > MAXP { return false; }
                let (a, b) = (self.get_buffer(), o.get_buffer());
                if a.len() != n || b.len() != n { return false; }
                let mut ok = true;
                let mut i = 0;
                while i < MAXP {
                    if i < n { ok &= a[i] == b[i]; }
                    i += 1;
                }
                ok
            }
        }
    )*}
}
tpm2b_spec! {
    Tpm2bDigest Tpm2bData Tpm2bEvent Tpm2bMaxBuffer Tpm2bMaxNvBuffer Tpm2bIv Tpm2bName Tpm2bAttest
    Tpm2bSymKey Tpm2bLabel Tpm2bSensitiveData Tpm2bSensitiveCreate Tpm2bPublicKeyRsa
    Tpm2bPrivateKeyRsa Tpm2bEccParameter Tpm2bEncryptedSecret Tpm2bPublic Tpm2bTemplate
    Tpm2bPrivateVendorSpecific Tpm2bPrivate Tpm2bIdObject Tpm2bContextSensitive Tpm2bContextData
    Tpm2bCreationData
}

/// The specification's integer in the field the code has for it, whatever its width.
pub trait Fit<T> {
    fn fit(self) -> T;
}
impl<T> Fit<T> for T {
    fn fit(self) -> T {
        self
    }
}
macro_rules! fit {
    ($($A:ident => $($B:ident)*;)*) => {$($(impl Fit<$B> for $A { fn fit(self) -> $B { self as $B } })*)*}
}
fit! { u8 => u16 u32 u64 i8; u16 => u8 u32 u64 i16; u32 => u8 u16 u64 i32; u64 => u8 u16 u32 i64; }

macro_rules! struct_spec {
    ($($T:ident { $($f:ident: $F:ty),* };)*) => {$(
        impl Spec for $T {
            #[allow(unused_variables)]
            fn make(sh: &mut Shape, w: &mut W) -> Self {
                // In the order of Part 2's table.
                $(let $f = <$F>::make(sh, w);)*
                $T { $($f: $f.fit()),* }
            }
            #[allow(unused_variables)]
            fn same(&self, o: &Self) -> bool { true $(& self.$f.same(&o.$f))* }
        }
    )*}
}
impl Spec for TpmsEmpty {
    fn make(_: &mut Shape, _: &mut W) -> Self {
        TpmsEmpty
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
struct_spec! {
    TpmsClockInfo { clock: u64, reset_count: u32, restart_count: u32, safe: TpmiYesNo };
    TpmsQuoteInfo { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest };
    TpmsCreationInfo { object_name: Tpm2bName, creation_hash: Tpm2bDigest };
    TpmsCertifyInfo { name: Tpm2bName, qualified_name: Tpm2bName };
    TpmsCommandAuditInfo { audit_counter: u64, digest_alg: u16, audit_digest: Tpm2bDigest, command_digest: Tpm2bDigest };
    TpmsSessionAuditInfo { exclusive_session: TpmiYesNo, session_digest: Tpm2bDigest };
    TpmsTimeInfo { time: u64, clock_info: TpmsClockInfo };
    TpmsTimeAttestInfo { time: TpmsTimeInfo, firmware_version: u64 };
    TpmsNvCertifyInfo { index_name: Tpm2bName, offset: u16, nv_contents: Tpm2bMaxNvBuffer };
    TpmsDerive { label: Tpm2bLabel, context: Tpm2bLabel };
    TpmsSensitiveCreate { user_auth: Tpm2bAuth, data: Tpm2bSensitiveData };
    TpmsEccPoint { x: Tpm2bEccParameter, y: Tpm2bEccParameter };
    TpmsSchemeXor { hash_alg: TpmiAlgHash, kdf: TpmiAlgKdf };
    TpmsKeyedHashParms { scheme: TpmtKeyedHashScheme };
    TpmsSymCipherParms { sym: TpmtSymDefObject };
    TpmsSignatureRsa { hash: TpmiAlgHash, sig: Tpm2bPublicKeyRsa };
    TpmsSignatureEcc { hash: TpmiAlgHash, signature_r: Tpm2bEccParameter, signature_s: Tpm2bEccParameter };
    TpmsSchemeHash { hash_alg: TpmiAlgHash };
    TpmsSchemeEcdaa { hash_alg: TpmiAlgHash, count: u16 };
    TpmsRsaParms { symmetric: TpmtSymDefObject, scheme: TpmtRsaScheme, key_bits: TpmiRsaKeyBits, exponent: u32 };
    TpmsEccParms { symmetric: TpmtSymDefObject, scheme: TpmtEccScheme, curve_id: TpmiEccCurve, kdf: TpmtKdfScheme };
    TpmsAsymParms { symmetric: TpmtSymDefObject, scheme: TpmtAsymScheme };
    TpmsAlgProperty { alg: TpmAlgId, alg_properties: TpmaAlgorithm };
    TpmsTaggedProperty { property: TpmPt, value: u32 };
    TpmsAuthCommand { session_handle: TpmiShAuthSession, nonce: Tpm2bNonce, session_attributes: TpmaSession, hmac: Tpm2bAuth };
    TpmsAuthResponse { nonce: Tpm2bNonce, session_attributes: TpmaSession, hmac: Tpm2bData };
    TpmsIdObject { integrity_hmac: Tpm2bDigest, enc_identity: Tpm2bDigest };
    TpmsNvPublic { nv_index: TpmiRhNvIndex, name_alg: TpmiAlgHash, attributes: TpmaNv, auth_policy: Tpm2bDigest, data_size: u16 };
    TpmsContextData { integrity: Tpm2bDigest, encrypted: Tpm2bContextSensitive };
    TpmsCreationData { pcr_select: TpmlPcrSelection, pcr_digest: Tpm2bDigest, locality: TpmaLocality,
        parent_name_alg: TpmAlgId, parent_name: Tpm2bName, parent_qualified_name: Tpm2bName, outside_info: Tpm2bData };
}

impl Spec for TpmsPcrSelection {
    fn make(sh: &mut Shape, w: &mut W) -> Self {
        let hash = TpmiAlgHash::make(sh, w);
        let n = sh.pick(3);
        w.mark(1);
        w.put(n as u8);
        let mut v = TpmsPcrSelection { hash, sizeof_select: n as u8, pcr_select: [0; 4] };
        let mut i = 0;
        while i < n {
            v.pcr_select[i] = u8::make(sh, w);
            i += 1;
        }
        v
    }
    fn same(&self, o: &Self) -> bool {
        self.hash.same(&o.hash)
            & (self.sizeof_select == o.sizeof_select)
            & self.pcr_select.same(&o.pcr_select)
    }
}

macro_rules! list_spec {
    ($($T:ident.$f:ident: $E:ty;)*) => {$(
        impl Spec for $T {
            fn make(sh: &mut Shape, w: &mut W) -> Self {
                let n = sh.pick(1);
                w.mark(4);
                w.be32(n as u32);
                let mut v = $T::default();
                let mut i = 0;
                while i < n {
                    let e = <$E>::make(sh, w);
                    if v.add(&e).is_err() { panic!("element within capacity was rejected"); }
                    i += 1;
                }
                v
            }
            fn same(&self, o: &Self) -> bool {
                let (a, b) = (self.$f(), o.$f());
                if a.len() != b.len() || a.len() > 3 { return false; }
                let mut ok = true;
                let mut i = 0;
                while i < 3 {
                    if i < a.len() { ok &= a[i].same(&b[i]); }
                    i += 1;
                }
                ok
            }
        }
    )*}
}
list_spec! {
    TpmlPcrSelection.pcr_selections: TpmsPcrSelection;
    TpmlAlgProperty.alg_properties: TpmsAlgProperty;
    TpmlHandle.handle: TpmHandle;
    TpmlCc.command_codes: TpmCc;
    TpmlTaggedTpmProperty.tpm_property: TpmsTaggedProperty;
    TpmlTaggedPcrProperty.pcr_property: TpmsTaggedPcrSelect;
    TpmlEccCurve.ecc_curves: TpmEccCurve;
    TpmlTaggedPolicy.policies: TpmsTaggedPolicy;
    TpmlDigest.digests: Tpm2bDigest;
}

/// Tagged unions.  `variant` makes the body only and returns the selector;
/// `make` puts the selector in front of the body.
pub trait UnionSpec: Sized {
    /// Known selector values.
    const SELECTORS: &'static [u32];
    fn make_variant(v: usize, sh: &mut Shape, w: &mut W) -> Self;
    fn same_variant(&self, o: &Self) -> bool;
}
macro_rules! union_spec {
    ($($T:ident: $put:ident $R:ty { $($sel:literal => $V:ident($($a:ident | $b:ident: $F:ty),*)),* $(,)? };)*) => {$(
        impl UnionSpec for $T {
            const SELECTORS: &'static [u32] = &[$($sel),*];
            fn make_variant(v: usize, sh: &mut Shape, w: &mut W) -> Self {
                let s = Self::SELECTORS[v];
                match s {
                    $($sel => { $(let $a = <$F>::make(sh, w);)* $T::$V($($a),*) })*
                    _ => unreachable!(),
                }
            }
            fn same_variant(&self, o: &Self) -> bool {
                match (self, o) {
                    $(($T::$V($($a),*), $T::$V($($b),*)) => true $(& $a.same($b))*,)*
                    #[allow(unreachable_patterns)]
                    _ => false,
                }
            }
        }
        impl Spec for $T {
            fn make(sh: &mut Shape, w: &mut W) -> Self {
                let v = sh.pick(0);
                w.mark_selector(core::mem::size_of::<$R>());
                w.$put(Self::SELECTORS[v] as $R);
                Self::make_variant(v, sh, w)
            }
            fn same(&self, o: &Self) -> bool { self.same_variant(o) }
        }
    )*}
}
union_spec! {
    TpmtHa: be16 u16 { 0x0004 => Sha1(a|b: [u8; TPM2_SHA_DIGEST_SIZE as usize]), 0x000B => Sha256(a|b: [u8; TPM2_SHA256_DIGEST_SIZE as usize]), 0x000C => Sha384(a|b: [u8; TPM2_SHA384_DIGEST_SIZE as usize]),
        0x000D => Sha512(a|b: [u8; TPM2_SHA512_DIGEST_SIZE as usize]), 0x0012 => Sm3_256(a|b: [u8; TPM2_SM3_256_DIGEST_SIZE as usize]) };
    TpmuAttest: be16 u16 { 0x8017 => Certify(a|b: TpmsCertifyInfo), 0x801A => Creation(a|b: TpmsCreationInfo),
        0x8018 => Quote(a|b: TpmsQuoteInfo), 0x8015 => CommandAudit(a|b: TpmsCommandAuditInfo),
        0x8016 => SessionAudit(a|b: TpmsSessionAuditInfo), 0x8019 => Time(a|b: TpmsTimeAttestInfo),
        0x8014 => Nv(a|b: TpmsNvCertifyInfo) };
    TpmtKeyedHashScheme: be16 u16 { 0x0005 => Hmac(a|b: TpmsSchemeHash), 0x000A => ExclusiveOr(a|b: TpmsSchemeXor), 0x0010 => Null(a|b: TpmsEmpty) };
    TpmtSymDefObject: be16 u16 { 0x0006 => Aes(a|b: TpmiAesKeyBits, c|d: TpmiAlgSymMode), 0x0013 => Sm4(a|b: TpmiSm4KeyBits, c|d: TpmiAlgSymMode),
        0x0026 => Camellia(a|b: TpmiCamelliaKeyBits, c|d: TpmiAlgSymMode), 0x000A => ExclusiveOr(a|b: TpmiAlgHash, c|d: TpmsEmpty),
        0x0010 => Null(a|b: TpmsEmpty, c|d: TpmsEmpty) };
    TpmtSignature: be16 u16 { 0x0014 => Rsassa(a|b: TpmsSignatureRsa), 0x0016 => Rsapss(a|b: TpmsSignatureRsa), 0x0018 => Ecdsa(a|b: TpmsSignatureEcc),
        0x001A => Ecdaa(a|b: TpmsSignatureEcc), 0x001B => Sm2(a|b: TpmsSignatureEcc), 0x001C => Ecschnorr(a|b: TpmsSignatureEcc),
        0x0005 => Hmac(a|b: TpmtHa), 0x0010 => Null(a|b: TpmsEmpty) };
    TpmtSigScheme: be16 u16 { 0x0014 => Rsassa(a|b: TpmsSchemeHash), 0x0016 => Rsapss(a|b: TpmsSchemeHash), 0x0018 => Ecdsa(a|b: TpmsSchemeHash),
        0x001A => Ecdaa(a|b: TpmsSchemeEcdaa), 0x001B => Sm2(a|b: TpmsSchemeHash), 0x001C => Ecschnorr(a|b: TpmsSchemeHash),
        0x0005 => Hmac(a|b: TpmsSchemeHash), 0x0010 => Null(a|b: TpmsEmpty) };
    TpmtRsaScheme: be16 u16 { 0x0016 => Rsapss(a|b: TpmsSchemeHash), 0x0014 => Rsassa(a|b: TpmsSchemeHash), 0x0018 => Ecdsa(a|b: TpmsSchemeHash),
        0x001A => Ecdaa(a|b: TpmsSchemeEcdaa), 0x001B => Sm2(a|b: TpmsSchemeHash), 0x001C => Ecschnorr(a|b: TpmsSchemeHash),
        0x0015 => Rsaes(a|b: TpmsEmpty), 0x0017 => Oaep(a|b: TpmsSchemeHash), 0x0010 => Null(a|b: TpmsEmpty) };
    TpmtEccScheme: be16 u16 { 0x0016 => Rsapss(a|b: TpmsSchemeHash), 0x0014 => Rsassa(a|b: TpmsSchemeHash), 0x0018 => Ecdsa(a|b: TpmsSchemeHash),
        0x001A => Ecdaa(a|b: TpmsSchemeEcdaa), 0x001B => Sm2(a|b: TpmsSchemeHash), 0x001C => Ecschnorr(a|b: TpmsSchemeHash),
        0x0019 => Ecdh(a|b: TpmsSchemeHash), 0x001D => Ecmqv(a|b: TpmsSchemeHash), 0x0010 => Null(a|b: TpmsEmpty) };
    TpmtKdfScheme: be16 u16 { 0x0007 => Mgf1(a|b: TpmsSchemeHash), 0x0020 => Kdf1Sp800_56a(a|b: TpmsSchemeHash), 0x0021 => Kdf2(a|b: TpmsSchemeHash),
        0x0022 => Kdf1Sp800_108(a|b: TpmsSchemeHash), 0x0010 => Null(a|b: TpmsEmpty) };
    TpmtAsymScheme: be16 u16 { 0x0019 => Ecdh(a|b: TpmsSchemeHash), 0x001D => Ecmqv(a|b: TpmsSchemeHash), 0x001B => Sm2(a|b: TpmsSchemeHash),
        0x0016 => Rsapss(a|b: TpmsSchemeHash), 0x0014 => Rsassa(a|b: TpmsSchemeHash), 0x0018 => Ecdsa(a|b: TpmsSchemeHash),
        0x001A => Ecdaa(a|b: TpmsSchemeEcdaa), 0x001C => Ecschnorr(a|b: TpmsSchemeHash), 0x0015 => Rsaes(a|b: TpmsEmpty),
        0x0017 => Oaep(a|b: TpmsSchemeHash), 0x0010 => Null(a|b: TpmsEmpty) };
    PublicParmsAndId: be16 u16 { 0x0008 => KeyedHash(a|b: TpmsKeyedHashParms, c|d: Tpm2bDigest), 0x0025 => Sym(a|b: TpmsSymCipherParms, c|d: Tpm2bDigest),
        0x0001 => Rsa(a|b: TpmsRsaParms, c|d: Tpm2bPublicKeyRsa), 0x0023 => Ecc(a|b: TpmsEccParms, c|d: TpmsEccPoint) };
    TpmuSensitiveComposite: be16 u16 { 0x0001 => Rsa(a|b: Tpm2bPrivateKeyRsa), 0x0023 => Ecc(a|b: Tpm2bEccParameter), 0x0008 => Bits(a|b: Tpm2bSensitiveData),
        0x0025 => Sym(a|b: Tpm2bSymKey), 0x0010 => Any(a|b: Tpm2bPrivateVendorSpecific) };
    TpmsCapabilityData: be32 u32 { 0x0 => Algorithms(a|b: TpmlAlgProperty), 0x1 => Handles(a|b: TpmlHandle), 0x2 => Command(a|b: TpmlCca),
        0x3 => PpCommands(a|b: TpmlCc), 0x4 => AuditCommands(a|b: TpmlCc), 0x5 => AssignedPcr(a|b: TpmlPcrSelection),
        0x6 => TpmProperties(a|b: TpmlTaggedTpmProperty), 0x7 => PcrProperties(a|b: TpmlTaggedPcrProperty), 0x8 => EccCurves(a|b: TpmlEccCurve),
        0x9 => AuthPolicies(a|b: TpmlTaggedPolicy) };
}

impl Spec for TpmsAttest {
    fn make(sh: &mut Shape, w: &mut W) -> Self {
        let v = sh.pick(0);
        let magic = TpmGenerated::make(sh, w);
        w.mark_selector(2);
        w.be16(TpmuAttest::SELECTORS[v] as u16);
        let qualified_signer = Tpm2bName::make(sh, w);
        let extra_data = Tpm2bData::make(sh, w);
        let clock_info = TpmsClockInfo::make(sh, w);
        let firmware_version = u64::make(sh, w);
        let attested = TpmuAttest::make_variant(v, sh, w);
        TpmsAttest { magic, qualified_signer, extra_data, clock_info, firmware_version, attested }
    }
    fn same(&self, o: &Self) -> bool {
        self.magic.same(&o.magic)
            & self.qualified_signer.same(&o.qualified_signer)
            & self.extra_data.same(&o.extra_data)
            & self.clock_info.same(&o.clock_info)
            & (self.firmware_version == o.firmware_version)
            & self.attested.same_variant(&o.attested)
    }
}
impl Spec for TpmtPublic {
    fn make(sh: &mut Shape, w: &mut W) -> Self {
        let v = sh.pick(0);
        w.mark_selector(2);
        w.be16(PublicParmsAndId::SELECTORS[v] as u16);
        let name_alg = TpmiAlgHash::make(sh, w);
        let object_attributes = TpmaObject::make(sh, w);
        let auth_policy = Tpm2bDigest::make(sh, w);
        let parms_and_id = PublicParmsAndId::make_variant(v, sh, w);
        TpmtPublic { name_alg, object_attributes, auth_policy, parms_and_id }
    }
    fn same(&self, o: &Self) -> bool {
        self.name_alg.same(&o.name_alg)
            & self.object_attributes.same(&o.object_attributes)
            & self.auth_policy.same(&o.auth_policy)
            & self.parms_and_id.same_variant(&o.parms_and_id)
    }
}
impl Spec for TpmtSensitive {
    fn make(sh: &mut Shape, w: &mut W) -> Self {
        let v = sh.pick(0);
        w.mark_selector(2);
        w.be16(TpmuSensitiveComposite::SELECTORS[v] as u16);
        let auth_value = Tpm2bAuth::make(sh, w);
        let seed_value = Tpm2bDigest::make(sh, w);
        let sensitive = TpmuSensitiveComposite::make_variant(v, sh, w);
        TpmtSensitive { auth_value, seed_value, sensitive }
    }
    fn same(&self, o: &Self) -> bool {
        self.auth_value.same(&o.auth_value)
            & self.seed_value.same(&o.seed_value)
            & self.sensitive.same_variant(&o.sensitive)
    }
}
