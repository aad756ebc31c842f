//! C01: reading any bytes ends with a value or an error.
use crate::wire::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;

macro_rules! all_bytes {
    ($($g:ident { $($T:ty, $n:literal;)* })*) => {$(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind(70))]
        pub fn $g() { $(any_bytes::<$T, $n>(false);)* }
    )*}
}
all_bytes! {
    any_scalar { u8, 3; u16, 3; u32, 5; u64, 9; i8, 2; i16, 3; i32, 5; i64, 9; [u8; 5], 6; TpmaNv, 5; TpmiYesNo, 2; TpmiAlgHash, 3; TpmHandle, 5; }
    any_buffer_a { Tpm2bDigest, 70; Tpm2bData, 70; Tpm2bName, 10; }
    any_buffer_b { Tpm2bIv, 20; Tpm2bLabel, 36; Tpm2bSymKey, 36; Tpm2bPublicKeyRsa, 10; Tpm2bEccParameter, 10; Tpm2bMaxNvBuffer, 10; Tpm2bContextData, 10; }
    any_buffer_c { Tpm2bEvent, 10; Tpm2bMaxBuffer, 10; Tpm2bAttest, 10; Tpm2bSensitiveData, 10; Tpm2bSensitiveCreate, 10; Tpm2bPrivateKeyRsa, 10;
        Tpm2bEncryptedSecret, 10; Tpm2bPublic, 10; Tpm2bTemplate, 10; Tpm2bPrivate, 10; Tpm2bIdObject, 10; Tpm2bContextSensitive, 10; Tpm2bCreationData, 10; }
    any_selection { TpmsPcrSelection, 8; TpmsTaggedPcrSelect, 10; }
    any_scheme_a { TpmtSymDefObject, 7; TpmtKeyedHashScheme, 7; TpmtKdfScheme, 5; TpmtSigScheme, 7; }
    any_scheme_b { TpmtRsaScheme, 7; TpmtEccScheme, 7; TpmtAsymScheme, 7; }
    any_hash { TpmtHa, 70; }
    any_clock { TpmsClockInfo, 18; TpmsAlgProperty, 7; TpmsTaggedProperty, 9; }
    any_list { TpmlPcrSelection, 20; }
    any_auth { TpmsAuthResponse, 12; }
    any_point { TpmsEccPoint, 10; }
}
#[cfg(feature = "thorough")]
sized_cases!(survives);
#[cfg(feature = "thorough")]
big_cases!(survives);
#[cfg(not(feature = "thorough"))]
sized_cases!(survives_sizes);
