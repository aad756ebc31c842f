use crate::nd;
use crate::spec::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};
use crate::wire::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
light_cases!(layout);
attest_cases!(layout);
heavy_cases!(layout);
full_list_cases!(0);
harness! {
    /// Digests have the size of their algorithm.
    digest_sizes [70] {
        let mut b = [0u8; 70];
        macro_rules! size {
            ($($v:ident $c:ident $n:literal),*) => {$(
                let h = TpmtHa::$v([0x11; $c as usize]);
                assert!(h.try_marshal(&mut b) == Ok(2 + $n), "encoded size of a digest");
                assert!(h.try_marshal(&mut b[..2 + $n - 1]).is_err(), "encoded size of a digest");
            )*}
        }
        size!(Sha1 TPM2_SHA_DIGEST_SIZE 20, Sha256 TPM2_SHA256_DIGEST_SIZE 32, Sha384 TPM2_SHA384_DIGEST_SIZE 48,
            Sha512 TPM2_SHA512_DIGEST_SIZE 64, Sm3_256 TPM2_SM3_256_DIGEST_SIZE 32);
        reached!();
    }
}
