//! C26: tagged digests of the core crate, restricted to the supported algorithms.
use crate::nd;
use tpm2::errors::*;
use tpm2::*;

/// An arbitrary set of supported algorithms.
#[derive(Clone, Copy)]
struct Set(u8);
fn number(h: TpmiAlgHash) -> u32 {
    match h as u16 {
        0x0004 => 0,
        0x000B => 1,
        0x000C => 2,
        0x000D => 3,
        0x0012 => 4,
        0x0027 => 5,
        0x0028 => 6,
        0x0029 => 7,
        _ => panic!("unknown hash algorithm"),
    }
}
impl Limits for Set {
    fn supports_hash(self, h: TpmiAlgHash) -> bool {
        self.0 >> number(h) & 1 == 1
    }
}
impl Set {
    /// Sizes by number: SHA-1, SHA2 256/384/512, SM3, SHA3 256/384/512.
    fn largest(self) -> usize {
        let s = self.0;
        if s & 0b1000_1000 != 0 {
            64
        } else if s & 0b0100_0100 != 0 {
            48
        } else if s & 0b0011_0010 != 0 {
            32
        } else if s & 1 != 0 {
            20
        } else {
            0
        }
    }
}
const ID: [u16; 4] = [0x0004, 0x000B, 0x000C, 0x000D];
const SIZE: [usize; 4] = [20, 32, 48, 64];
struct Data {
    a: [u8; TpmiAlgHash::Sha1.digest_size()],
    b: [u8; TpmiAlgHash::Sha256.digest_size()],
    c: [u8; TpmiAlgHash::Sha384.digest_size()],
    d: [u8; TpmiAlgHash::Sha512.digest_size()],
}
impl Data {
    fn any() -> Data {
        Data { a: nd::bytes(), b: nd::bytes(), c: nd::bytes(), d: nd::bytes() }
    }
    fn value(&self, k: usize) -> TpmtHa<'_> {
        match k {
            0 => TpmtHa::Sha1(&self.a),
            1 => TpmtHa::Sha256(&self.b),
            2 => TpmtHa::Sha384(&self.c),
            _ => TpmtHa::Sha512(&self.d),
        }
    }
    fn bytes(&self, k: usize) -> &[u8] {
        match k {
            0 => &self.a,
            1 => &self.b,
            2 => &self.c,
            _ => &self.d,
        }
    }
}
fn write(k: usize) {
    let set = Set(nd::u8());
    let data = Data::any();
    let v = data.value(k);
    let total = 2 + SIZE[k];
    assert!(number(v.hash_alg()) as usize == k, "algorithm of a digest");
    assert!(v.digest().len() == SIZE[k], "digest length");
    assert!(v.marshaled_size() == total, "encoded size");
    let mut out = [0x5A; 70];
    let m = nd::len(70);
    let i = nd::idx();
    let supported = set.0 >> k & 1 == 1;
    match v.marshal(set, &mut out[..m]) {
        Ok(rest) => {
            assert!(supported, "unsupported digest was written");
            assert!(m >= total, "destination too small");
            assert!(rest.len() == m - total, "room left");
            assert!(out[0] == 0 && out[1] == ID[k] as u8, "encoded algorithm");
            if i < SIZE[k] {
                assert!(out[2 + i] == data.bytes(k)[i] && v.digest()[i] == out[2 + i], "encoded digest byte");
            }
            if i >= total && i < 70 {
                assert!(out[i] == 0x5A, "byte after the encoding was modified");
            }
            assert!(total <= TpmtHa::marshaled_size_max(set), "largest encoded size");
            reached!();
        }
        Err(MarshalError) => {
            assert!(!supported || m < total, "supported digest was not written");
            reached!(!supported && m == 70);
        }
    }
    if i < 70 && i >= m {
        assert!(out[i] == 0x5A, "byte outside the destination was modified");
    }
}
fn judge(r: Result<&[u8], UnmarshalError>, v: TpmtHa, before: TpmtHa, set: Set, b: &[u8; 68], n: usize) {
    let mut want = None;
    let mut k = 0;
    while k < 4 {
        if n >= 2 + SIZE[k] && b[0] == 0 && b[1] == ID[k] as u8 && set.0 >> k & 1 == 1 {
            want = Some(k);
        }
        k += 1;
    }
    match (r, want) {
        (Ok(rest), Some(k)) => {
            assert!(number(v.hash_alg()) as usize == k, "algorithm read");
            assert!(v.digest().len() == SIZE[k], "digest length read");
            assert!(rest.len() == n - 2 - SIZE[k], "bytes left");
            let i = nd::idx();
            if i < SIZE[k] {
                assert!(v.digest()[i] == b[2 + i], "digest byte read");
            }
            if i < rest.len() {
                assert!(rest[i] == b[2 + SIZE[k] + i], "byte left");
            }
        }
        (Ok(_), None) => panic!("malformed or unsupported digest was accepted"),
        (Err(_), Some(_)) => panic!("well-formed digest was rejected"),
        (Err(_), None) => {
            assert!(v.hash_alg() == before.hash_alg(), "a rejected digest changed the value");
            assert!(v.digest().as_ptr() == before.digest().as_ptr(), "a rejected digest changed the value");
        }
    }
    reached!(r.is_ok());
    reached!(r.is_err());
}
harness! {
    write_sha1 [70] { write(0); }
    write_sha256 [70] { write(1); }
    write_sha384 [70] { write(2); }
    write_sha512 [70] { write(3); }
    /// Every source of up to 68 bytes.
    read [70] {
        let set = Set(nd::u8());
        let data = Data::any();
        let start = nd::u8() as usize & 3;
        let before = data.value(start);
        let mut v = before;
        let b = nd::bytes::<68>();
        let n = nd::len(68);
        let r = v.unmarshal(set, &b[..n]);
        judge(r, v, before, set, &b, n);
    }
    /// Digests have the size of their algorithm.
    sizes [12] {
        use TpmiAlgHash::*;
        let all = [(Sha1, 20), (Sha256, 32), (Sha384, 48), (Sha512, 64), (Sm3_256, 32), (Sha3_256, 32), (Sha3_384, 48), (Sha3_512, 64)];
        let i = nd::idx();
        nd::assume(i < all.len());
        assert!(all[i].0.digest_size() == all[i].1, "digest size");
        let k = i % 4;
        let d = Data::any();
        assert!(d.value(k).digest().len() == SIZE[k] && d.value(k).marshaled_size() == 2 + SIZE[k], "digest length");
        reached!(i == 7);
    }
    /// The largest digest of any set of supported algorithms.
    largest [12] {
        let set = Set(nd::u8());
        assert!(set.max_digest_size() == set.largest(), "largest digest");
        assert!(TpmtHa::marshaled_size_max(set) == 2 + set.largest(), "largest encoded size");
        reached!(set.largest() == 48);
        reached!(set.0 == 0);
    }
}
