//! C27: a reading cursor hands out the source bytes once each, in order.
use crate::nd;
use tpm2_rs_marshalable::UnmarshalBuf;

const N: usize = 24;
harness! {
    any_length [8] {
        let n = nd::u32() as usize;
        nd::assume(n > 0);
        let b = nd::heap(n);
        // One arbitrary byte of the source is looked at.
        let (i, x) = (nd::u32() as usize, nd::u8());
        nd::assume(i < n);
        b[i] = x;
        let mut u = UnmarshalBuf::new(b);
        let mut at = 0;
        let mut k = 0;
        while k < 4 {
            assert!(u.len() == n - at && u.is_empty() == (at == n), "bytes left");
            let want = nd::u64() as usize;
            match u.get(want) {
                Some(s) => {
                    assert!(want <= n - at && s.len() == want, "number of bytes");
                    if i >= at && i - at < want {
                        assert!(s[i - at] == x, "byte");
                    }
                    at += want;
                }
                None => assert!(want > n - at, "bytes that are there were refused"),
            }
            k += 1;
        }
        reached!(at == n && n > 0x1_0000);
        reached!(at < n && at > 0x1_0000);
    }
    history [8] {
        let b = nd::bytes::<N>();
        let n = nd::len(N);
        let mut u = UnmarshalBuf::new(&b[..n]);
        let mut at = 0;
        let mut k = 0;
        while k < 5 {
            assert!(u.len() == n - at && u.is_empty() == (at == n), "bytes left");
            let want = nd::u64() as usize;
            match u.get(want) {
                Some(s) => {
                    assert!(want <= n - at, "more bytes than there are");
                    assert!(s.len() == want, "number of bytes");
                    let i = nd::idx();
                    if i < want {
                        assert!(s[i] == b[at + i], "byte");
                    }
                    at += want;
                }
                None => assert!(want > n - at, "bytes that are there were refused"),
            }
            k += 1;
        }
        assert!(u.len() == n - at && u.is_empty() == (at == n), "bytes left");
        reached!(at == n && n > 4);
        reached!(at < n);
    }
}
#[cfg(feature = "thorough")]
harness! {
    long_history [16] {
        let b = nd::bytes::<64>();
        let n = nd::len(64);
        let mut u = UnmarshalBuf::new(&b[..n]);
        let mut at = 0;
        let mut k = 0;
        while k < 12 {
            let want = nd::u64() as usize;
            match u.get(want) {
                Some(s) => {
                    assert!(want <= n - at && s.len() == want, "number of bytes");
                    let i = nd::idx();
                    if i < want {
                        assert!(s[i] == b[at + i], "byte");
                    }
                    at += want;
                }
                None => assert!(want > n - at, "bytes that are there were refused"),
            }
            k += 1;
        }
        assert!(u.len() == n - at, "bytes left");
        reached!(at == n && n > 4);
    }
}
