use crate::nd;
use crate::spec::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};
use crate::wire::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
light_cases!(parse);
attest_cases!(parse);
heavy_cases!(parse);
full_list_cases!(1);
