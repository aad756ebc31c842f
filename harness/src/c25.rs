//! C25: fixed size values of the core crate.
use crate::nd;
use tpm2::errors::*;
use tpm2::*;

/// An arbitrary set of supported algorithms; it has no influence here.
#[derive(Clone, Copy)]
struct Set(u8);
impl Limits for Set {
    fn supports_hash(self, h: TpmiAlgHash) -> bool {
        self.0 & 1 << h as u16 % 8 != 0
    }
}
/// Written as the reference bytes into a destination of any length.
fn written<T: Marshal, const N: usize>(v: &T, want: [u8; N]) {
    let limits = Set(nd::u8());
    let mut out = [0x5A; 12];
    let m = nd::len(12);
    let i = nd::idx();
    match v.marshal(limits, &mut out[..m]) {
        Ok(rest) => {
            assert!(m >= N, "destination too small");
            assert!(rest.len() == m - N, "room left");
            if !rest.is_empty() {
                assert!(rest[0] == 0x5A, "byte after the encoding was modified");
                rest[0] = 0xC3;
                assert!(out[N] == 0xC3, "the room left follows the encoding");
                out[N] = 0x5A;
            }
            if i < N {
                assert!(out[i] == want[i], "encoded byte");
            }
        }
        Err(MarshalError) => assert!(m < N, "destination is large enough"),
    }
    if i < 12 && (i >= m || i >= N) {
        assert!(out[i] == 0x5A, "byte outside the destination was modified");
    }
    assert!(v.marshaled_size() == N && T::marshaled_size_max(limits) == N, "encoded size");
    reached!(m >= N);
    reached!(m < N || N == 0);
}
/// Read from a source of any length; refused sources leave the value alone.
fn read<T: for<'a> Unmarshal<'a> + PartialEq + Copy, const N: usize>(mut v: T, good: impl Fn(&[u8; 12]) -> Option<T>) {
    let limits = Set(nd::u8());
    let b = nd::bytes::<12>();
    let n = nd::len(12);
    let before = v;
    let r = v.unmarshal(limits, &b[..n]);
    let want = if n >= N { good(&b) } else { None };
    match r {
        Ok(rest) => {
            let Some(w) = want else { panic!("malformed source was accepted") };
            assert!(v == w, "value");
            assert!(rest.len() == n - N, "bytes left");
            let i = nd::idx();
            if i < n - N {
                assert!(rest[i] == b[N + i], "byte left");
            }
        }
        Err(UnmarshalError) => {
            assert!(want.is_none(), "well-formed source was rejected");
            assert!(v == before, "a rejected source changed the value");
        }
    }
    reached!(r.is_ok());
    reached!(r.is_err());
}
fn be(b: &[u8; 12], n: usize) -> u64 {
    let mut v = 0;
    let mut i = 0;
    while i < n {
        v = v << 8 | b[i] as u64;
        i += 1;
    }
    v
}
macro_rules! ints {
    ($($g:ident $T:ty, $draw:ident, $n:literal;)*) => {harness! {$(
        $g [14] {
            let v = nd::$draw();
            let b = [(v as u64 >> 56) as u8, (v as u64 >> 48) as u8, (v as u64 >> 40) as u8, (v as u64 >> 32) as u8,
                (v as u64 >> 24) as u8, (v as u64 >> 16) as u8, (v as u64 >> 8) as u8, v as u8];
            let mut want = [0; $n];
            let mut i = 0;
            while i < $n {
                want[i] = b[8 - $n + i];
                i += 1;
            }
            written::<$T, $n>(&(v as $T), want);
            read::<$T, $n>(nd::$draw() as $T, |b| Some(be(b, $n) as $T));
        }
    )*}}
}
ints! {
    int_u8 u8, u8, 1;
    int_u16 u16, u16, 2;
    int_u32 u32, u32, 4;
    int_u64 u64, u64, 8;
    int_i8 i8, u8, 1;
    int_i16 i16, u16, 2;
    int_i32 i32, u32, 4;
    int_i64 i64, u64, 8;
}
fn hash(v: u16) -> Option<TpmiAlgHash> {
    Some(match v {
        0x0004 => TpmiAlgHash::Sha1,
        0x000B => TpmiAlgHash::Sha256,
        0x000C => TpmiAlgHash::Sha384,
        0x000D => TpmiAlgHash::Sha512,
        0x0012 => TpmiAlgHash::Sm3_256,
        0x0027 => TpmiAlgHash::Sha3_256,
        0x0028 => TpmiAlgHash::Sha3_384,
        0x0029 => TpmiAlgHash::Sha3_512,
        _ => return None,
    })
}
harness! {
    array [14] {
        written::<[u8; 0], 0>(&[], []);
        let a = nd::bytes::<5>();
        written::<[u8; 5], 5>(&a, a);
        let a = nd::bytes::<9>();
        written::<[u8; 9], 9>(&a, a);
    }
    algorithm [14] {
        let v = nd::u16();
        written::<Alg, 2>(&Alg(v), [(v >> 8) as u8, v as u8]);
        read::<Alg, 2>(Alg(nd::u16()), |b| Some(Alg(be(b, 2) as u16)));
    }
    hash_algorithm [14] {
        let v = nd::u16();
        if let Some(h) = hash(v) {
            written::<TpmiAlgHash, 2>(&h, [(v >> 8) as u8, v as u8]);
        }
        let Some(start) = hash(nd::u16()) else { return };
        read::<TpmiAlgHash, 2>(start, |b| hash(be(b, 2) as u16));
    }
    hash_conversion [14] {
        let v = nd::u16();
        let want = hash(v);
        match TpmiAlgHash::try_from(Alg(v)) {
            Ok(h) => {
                assert!(want == Some(h), "algorithm that is no hash was accepted");
                assert!(Alg::from(h) == Alg(v) && h as u16 == v, "identifier of a hash algorithm");
                let size = match v {
                    0x04 => 20,
                    0x0C | 0x28 => 48,
                    0x0D | 0x29 => 64,
                    _ => 32,
                };
                assert!(h.digest_size() == size, "digest size");
                reached!();
            }
            Err(HashError) => {
                assert!(want.is_none(), "hash algorithm was rejected");
                reached!();
            }
        }
    }
}
