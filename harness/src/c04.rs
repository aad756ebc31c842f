use crate::wire::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
light_cases!(short);
attest_cases!(short);
#[cfg(not(feature = "thorough"))]
heavy_cases!(short_few);
#[cfg(feature = "thorough")]
heavy_cases!(short);
