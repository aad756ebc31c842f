//! C05: an accepted encoding is the encoding of the value it was read as.
use crate::wire::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;

macro_rules! all_bytes {
    ($($g:ident { $($T:ty, $n:literal;)* })*) => {$(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind(70))]
        pub fn $g() { $(any_bytes::<$T, $n>(true);)* }
    )*}
}
all_bytes! {
    any_scalar { u8, 3; u16, 3; u32, 5; u64, 9; i8, 2; i16, 3; i32, 5; i64, 9; [u8; 5], 6; TpmaNv, 5; TpmiYesNo, 2; TpmiAlgHash, 3; TpmHandle, 5; }
    any_attribute { TpmaLocality, 2; TpmaObject, 5; TpmaAlgorithm, 5; TpmaSession, 2; TpmaCc, 5; TpmiRhNvIndex, 5; TpmiShAuthSession, 5; TpmiStCommandTag, 3; }
    any_buffer_a { Tpm2bDigest, 70; }
    any_buffer_d { Tpm2bData, 70; Tpm2bName, 10; }
    any_buffer_b { Tpm2bIv, 20; Tpm2bLabel, 36; Tpm2bSymKey, 36; }
    any_buffer_c { Tpm2bEccParameter, 8; }
    any_selection { TpmsPcrSelection, 8; TpmsTaggedPcrSelect, 10; }
    any_scheme_a { TpmtSymDefObject, 7; TpmtKeyedHashScheme, 7; }
    any_scheme_c { TpmtKdfScheme, 5; TpmtSigScheme, 7; }
    any_scheme_b { TpmtRsaScheme, 7; TpmtEccScheme, 7; TpmtAsymScheme, 7; }
    any_hash { TpmtHa, 70; }
    any_clock { TpmsClockInfo, 18; TpmsAlgProperty, 7; TpmsTaggedProperty, 9; }
    any_auth { TpmsAuthResponse, 9; }
    any_point { TpmsEccPoint, 6; }
}
#[cfg(feature = "thorough")]
all_bytes! {
    any_list { TpmlPcrSelection, 12; }
    any_list_digest { TpmlDigest, 12; }
    any_buffer_f { Tpm2bPublicKeyRsa, 6; }
    any_buffer_g { Tpm2bMaxNvBuffer, 6; }
}
light_cases!(rewrite);
#[cfg(feature = "thorough")]
attest_cases!(rewrite);
#[cfg(feature = "thorough")]
heavy_cases!(rewrite);
