//! C07: lists hold exactly the elements they were given, in order, up to their capacity.
use crate::nd;
use crate::spec::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Marshalable, UnmarshalBuf};

/// An arbitrary element.
fn draw<E: Spec>(shape: &'static [u8]) -> E {
    E::make(&mut Shape::new(shape), &mut W::new())
}
fn size_error<T>(r: TpmRcResult<T>) -> bool {
    match r {
        Ok(_) => false,
        Err(e) => e == TpmRcError::Size,
    }
}

macro_rules! lists {
    ($($g:ident [$u:literal] $T:ident, $field:ident, $E:ident, $shape:expr;)*) => {$(
        /// Up to three elements by `new` and by `add`.
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($u))]
        pub fn $g() {
            let all: [$E; 3] = [draw(&$shape), draw(&$shape), draw(&$shape)];
            let mut d = $T::default();
            assert!(d.count() == 0 && d.$field().is_empty(), "default list is empty");
            for n in [0, 1, 2, 3] {
                if n > 0 {
                    assert!(d.add(&all[n - 1]).is_ok(), "add below the capacity");
                }
                let v = match $T::new(&all[..n]) { Ok(v) => v, Err(_) => panic!("elements within the capacity were rejected") };
                for l in [&v, &d] {
                    assert!(l.count() == n, "count");
                    assert!(l.$field().len() == n, "elements");
                    let mut i = 0;
                    while i < n {
                        assert!(l.$field()[i].same(&all[i]), "element");
                        i += 1;
                    }
                }
                // What the list is written as reads back as the same list, and can be extended.
                let mut out = [0; 64];
                let used = match v.try_marshal(&mut out) { Ok(u) => u, Err(_) => panic!("list was not written") };
                let mut r = match $T::try_unmarshal(&mut UnmarshalBuf::new(&out[..used])) { Ok(r) => r, Err(_) => panic!("well-formed list was rejected") };
                assert!(r.count() == n && r.$field().len() == n, "count read back");
                assert!(r.add(&all[2]).is_ok(), "add to a list that was read");
                assert!(r.count() == n + 1 && r.$field().len() == n + 1, "count after add");
                let mut i = 0;
                while i < n {
                    assert!(r.$field()[i].same(&all[i]), "element of a list that was read and extended");
                    i += 1;
                }
                assert!(r.$field()[n].same(&all[2]), "added element");
            }
            reached!();
        }
    )*}
}
/// Capacity: new() of capacity elements, one more by add() and by new().
macro_rules! full_lists {
    ($($g:ident [$u:literal] $T:ident, $field:ident, $E:ident, $shape:expr, $cap:literal;)*) => {$(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($u))]
        pub fn $g() {
            let (first, last, extra): ($E, $E, $E) = (draw(&$shape), draw(&$shape), draw(&$shape));
            let mut src = [<$E>::default(); $cap + 1];
            src[0] = first;
            src[$cap - 1] = last;
            let mut v = match $T::new(&src[..$cap - 1]) { Ok(v) => v, Err(_) => panic!("elements within the capacity were rejected") };
            assert!(v.count() == $cap - 1, "count");
            assert!(v.add(&last).is_ok(), "add at capacity - 1");
            assert!(v.count() == $cap && v.$field().len() == $cap, "count");
            assert!(v.$field()[0].same(&first) && v.$field()[$cap - 1].same(&last), "element");
            assert!(size_error(v.add(&extra)), "add to a full list");
            assert!(v.count() == $cap && v.$field().len() == $cap, "a refused add changed the list");
            assert!(v.$field()[0].same(&first) && v.$field()[$cap - 1].same(&last), "a refused add changed the list");
            match $T::new(&src[..$cap]) {
                Ok(f) => assert!(f.count() == $cap && f.$field()[$cap - 1].same(&last), "full list"),
                Err(_) => panic!("elements within the capacity were rejected"),
            }
            assert!(size_error($T::new(&src)), "more elements than the capacity");
            reached!();
        }
    )*}
}
lists! {
    pcr [20] TpmlPcrSelection, pcr_selections, TpmsPcrSelection, [3];
    digest [70] TpmlDigest, digests, Tpm2bDigest, [2];
    alg [70] TpmlAlgProperty, alg_properties, TpmsAlgProperty, [];
    handle [70] TpmlHandle, handle, TpmHandle, [];
    cc [70] TpmlCc, command_codes, TpmCc, [];
    property [70] TpmlTaggedTpmProperty, tpm_property, TpmsTaggedProperty, [];
    pcr_property [70] TpmlTaggedPcrProperty, pcr_property, TpmsTaggedPcrSelect, [3];
    curve [70] TpmlEccCurve, ecc_curves, TpmEccCurve, [];

}
/// A count set by hand, whatever it is, never takes the accessor out of the list.
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(140))]
pub fn count_by_hand() {
    let mut v = TpmlTaggedTpmProperty::default();
    v.count = nd::u32();
    let n = v.tpm_property().len();
    if v.count <= 127 {
        assert!(n == v.count as usize, "elements");
    } else {
        assert!(n == v.tpm_property.len(), "elements beyond the capacity");
        assert!(size_error(v.add(&TpmsTaggedProperty::default())), "add beyond the capacity");
    }
    reached!(v.count > 127);
    reached!(v.count <= 127);
}
full_lists! {
    full_pcr [20] TpmlPcrSelection, pcr_selections, TpmsPcrSelection, [3], 16;
    full_digest [70] TpmlDigest, digests, Tpm2bDigest, [2], 8;
    full_alg [140] TpmlAlgProperty, alg_properties, TpmsAlgProperty, [], 127;
    full_handle [260] TpmlHandle, handle, TpmHandle, [], 254;
    full_cc [260] TpmlCc, command_codes, TpmCc, [], 254;
    full_property [140] TpmlTaggedTpmProperty, tpm_property, TpmsTaggedProperty, [], 127;
    full_pcr_property [90] TpmlTaggedPcrProperty, pcr_property, TpmsTaggedPcrSelect, [3], 84;
    full_policy [70] TpmlTaggedPolicy, policies, TpmsTaggedPolicy, [0], 14;
    full_curve [520] TpmlEccCurve, ecc_curves, TpmEccCurve, [], 508;
}
