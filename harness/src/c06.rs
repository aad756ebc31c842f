//! C06: sized buffers hold exactly the bytes they were given, up to their capacity.
use crate::nd;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error, Marshalable, UnmarshalBuf};

/// A payload of concrete length with one arbitrary byte at an arbitrary place.
fn held<T: Tpm2bSimple + AsRef<[u8]> + Marshalable>(src: &[u8], n: usize, at: &[usize]) {
    match T::from_bytes(&src[..n]) {
        Ok(v) => {
            assert!(n <= T::MAX_BUFFER_SIZE, "payload above the capacity was accepted");
            assert!(v.get_size() as usize == n, "size");
            assert!(v.get_buffer().len() == n, "length of the payload");
            assert!(v.as_ref().len() == n, "length of the payload as a slice");
            for &i in at {
                if i < n {
                    assert!(v.get_buffer()[i] == src[i], "payload byte");
                    assert!(v.as_ref()[i] == src[i], "payload byte as a slice");
                }
            }
        }
        Err(e) => {
            assert!(n > T::MAX_BUFFER_SIZE, "payload within the capacity was rejected");
            assert!(e == Error::ArrayLengthExceeded, "error for a payload above the capacity");
        }
    }
}
/// Written and read back at a concrete length.
fn carried<T: Tpm2bSimple + AsRef<[u8]> + Marshalable, const M: usize>(src: &mut [u8; M], n: usize, at: &[usize]) {
    let v = match T::from_bytes(&src[..n]) {
        Ok(v) => v,
        Err(_) => panic!("payload within the capacity was rejected"),
    };
    let mut out = [0x5Au8; M];
    assert!(v.try_marshal(&mut out[..n + 2]) == Ok(n + 2), "encoded size");
    assert!(out[0] == (n >> 8) as u8 && out[1] == n as u8, "encoded length");
    for &i in at {
        assert!(i >= n || out[i + 2] == src[i], "encoded payload byte");
    }
    assert!(v.try_marshal(&mut src[..n + 1]).is_err(), "destination too small");
    let mut u = UnmarshalBuf::new(&out[..n + 2]);
    match T::try_unmarshal(&mut u) {
        Ok(r) => {
            assert!(u.is_empty(), "bytes consumed");
            assert!(r.get_size() as usize == n && r.get_buffer().len() == n, "size read back");
            for &i in at {
                assert!(i >= n || r.get_buffer()[i] == out[i + 2], "payload byte read back");
            }
        }
        Err(_) => panic!("well-formed buffer was rejected"),
    }
    assert!(T::try_unmarshal(&mut UnmarshalBuf::new(&out[..n + 1])).is_err(), "truncated buffer was accepted");
}
/// A size above the capacity is rejected even when the bytes are there.
fn refused<T: Tpm2bSimple + Marshalable, const M: usize>(b: &mut [u8; M], n: usize) {
    b[0] = (n >> 8) as u8;
    b[1] = n as u8;
    let mut u = UnmarshalBuf::new(&b[..n + 2]);
    assert!(T::try_unmarshal(&mut u).is_err(), "size above the capacity was accepted");
}
fn empty<T: Tpm2bSimple + AsRef<[u8]> + Marshalable + Default>() {
    let v = T::default();
    assert!(v.get_size() == 0 && v.get_buffer().is_empty() && v.as_ref().is_empty(), "default value is empty");
    let mut out = [1u8; 2];
    assert!(v.try_marshal(&mut out) == Ok(2) && out == [0, 0], "encoding of the default value");
    match T::from_bytes(&[]) {
        Ok(e) => assert!(e.get_size() == 0 && e.get_buffer().is_empty(), "empty payload"),
        Err(_) => panic!("empty payload was rejected"),
    }
}

macro_rules! buffers {
    ($($g:ident $T:ident >= $need:literal <= $M:literal;)*) => {$(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind(70))]
        pub fn $g() {
            type T = $T;
            const MAX: usize = <T as Tpm2bSimple>::MAX_BUFFER_SIZE;
            assert!(MAX >= $need, "capacity required by the specification");
            assert!(MAX + 4 <= $M);
            empty::<T>();
            if MAX > 5000 && !cfg!(feature = "thorough") {
                reached!();
                return;
            }
            let mut src = PATTERN.$g;
            // An arbitrary byte at the start, in the middle and at the end.
            for at in [0, MAX / 2, MAX - 1, MAX] {
                src[at] = nd::u8();
            }
            // The largest buffers: fewer lengths in the quick tier.
            let few = MAX > 1500 && !cfg!(feature = "thorough");
            let lengths: &[usize] = if few { &[MAX, MAX + 1] } else { &[1, MAX / 2 + 1, MAX - 1, MAX, MAX + 1, MAX + 3] };
            for &n in lengths {
                held::<T>(&src, n, &[0, 1, MAX / 2, MAX - 2, MAX - 1]);
            }
            let lengths: &[usize] = if few { &[MAX] } else { &[MAX / 2 + 1, MAX] };
            for &n in lengths {
                let mut b = src;
                carried::<T, $M>(&mut b, n, &[0, 1, MAX / 2, n - 1]);
            }
            refused::<T, $M>(&mut src, MAX + 1);
            reached!();
        }
    )*
    struct Pattern { $($g: [u8; $M]),* }
    const PATTERN: Pattern = Pattern { $($g: pattern::<$M>()),* };
    }
}
const fn pattern<const M: usize>() -> [u8; M] {
    let mut p = [0; M];
    let mut i = 0;
    while i < M {
        p[i] = (i * 7 + (i >> 8) * 13 + 1) as u8;
        i += 1;
    }
    p
}
buffers! {
    digest Tpm2bDigest >= 64 <= 80;
    data Tpm2bData >= 64 <= 80;
    iv Tpm2bIv >= 16 <= 24;
    label Tpm2bLabel >= 32 <= 40;
    sym_key Tpm2bSymKey >= 32 <= 40;
    name Tpm2bName >= 66 <= 80;
    ecc Tpm2bEccParameter >= 66 <= 140;
    rsa Tpm2bPublicKeyRsa >= 512 <= 520;
    rsa_private Tpm2bPrivateKeyRsa >= 256 <= 264;
    sensitive_data Tpm2bSensitiveData >= 128 <= 264;
    id_object Tpm2bIdObject >= 132 <= 140;
    secret Tpm2bEncryptedSecret >= 512 <= 520;
    nv Tpm2bMaxNvBuffer >= 2048 <= 2056;
    event Tpm2bEvent >= 1024 <= 1032;
    max_buffer Tpm2bMaxBuffer >= 1024 <= 1032;
    sensitive_create Tpm2bSensitiveCreate >= 324 <= 330;
    public Tpm2bPublic >= 604 <= 700;
    template Tpm2bTemplate >= 604 <= 700;
    creation Tpm2bCreationData >= 387 <= 600;
    vendor Tpm2bPrivateVendorSpecific >= 1280 <= 1288;
    attest Tpm2bAttest >= 2285 <= 2500;
    private Tpm2bPrivate >= 1550 <= 1700;
    context Tpm2bContextSensitive >= 5120 <= 5128;
    context_data Tpm2bContextData >= 5188 <= 5300;
}

/// Every payload length of the small buffers.
fn any_length<T: Tpm2bSimple + AsRef<[u8]> + Marshalable, const M: usize>() {
    let src = nd::bytes::<M>();
    let n = nd::len(M);
    let i = nd::idx();
    held::<T>(&src, n, &[i]);
    reached!(n == T::MAX_BUFFER_SIZE);
    reached!(n > T::MAX_BUFFER_SIZE);
}
harness! {
    length_digest [70] { any_length::<Tpm2bDigest, 70>(); }
    length_small [70] { any_length::<Tpm2bIv, 20>(); any_length::<Tpm2bLabel, 36>(); any_length::<Tpm2bSymKey, 36>(); }
    length_data [70] { any_length::<Tpm2bData, 70>(); }
    /// Two buffers are equal exactly when their payloads are.
    equality [70] {
        let (a, b) = (nd::bytes::<3>(), nd::bytes::<3>());
        let (n, m) = (nd::len(3), nd::len(3));
        let (x, y) = (Tpm2bIv::from_bytes(&a[..n]).unwrap(), Tpm2bIv::from_bytes(&b[..m]).unwrap());
        let mut eq = n == m;
        let mut i = 0;
        while i < 3 {
            eq &= i >= n || i >= m || a[i] == b[i];
            i += 1;
        }
        assert!((x == y) == eq, "equality");
        reached!(eq);
        reached!(!eq);
    }
    /// A buffer that was read equals the buffer made from the same payload.
    equality_read [70] {
        let mut a = [0u8; 8];
        let p = nd::bytes::<6>();
        let n = nd::len(6);
        a[1] = n as u8;
        a[2..].copy_from_slice(&p);
        let x = match Tpm2bIv::try_unmarshal(&mut UnmarshalBuf::new(&a)) { Ok(v) => v, Err(_) => panic!("well-formed buffer was rejected") };
        let y = match Tpm2bIv::from_bytes(&p[..n]) { Ok(v) => v, Err(_) => panic!("payload within the capacity was rejected") };
        assert!(x == y, "equality of what was read");
        reached!(n == 6);
    }
}
