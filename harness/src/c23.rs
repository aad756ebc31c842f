//! C23: random access buffers stay inside their bounds.
use crate::nd;
use tpm2_impl::platform::*;

const CAP: usize = 24;
fn off() -> usize {
    nd::u64() as usize
}
/// A reader that only has the two required operations.
struct Only<'a>(&'a [u8]);
impl TpmReadBuffer for Only<'_> {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn read_into(&self, offset: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        self.0.read_into(offset, out)
    }
}
harness! {
    read_into [30] {
        let buf = nd::bytes::<CAP>();
        let cap = nd::len(CAP);
        let b = &buf[..cap];
        assert!(TpmReadBuffer::len(b) == cap && TpmReadBuffer::is_empty(b) == (cap == 0), "length");
        let at = off();
        let n = nd::len(CAP + 2);
        let mut out = [0x77; CAP + 2];
        let r = b.read_into(at, &mut out[..n]);
        let fits = at <= cap && n <= cap - at;
        assert!(r == if fits { Ok(()) } else { Err(ReadOutOfBounds) }, "read inside the bounds succeeds, outside fails");
        let i = nd::idx();
        if i < n && fits {
            assert!(out[i] == buf[at + i], "byte read");
        } else if i < CAP + 2 && i >= n {
            assert!(out[i] == 0x77, "byte outside the destination was modified");
        }
        reached!(fits && n > 3 && at > 0);
        reached!(!fits && at > usize::MAX - 8);
        reached!(!fits && at < cap);
    }
    read_be [30] {
        let buf = nd::bytes::<CAP>();
        let cap = nd::len(CAP);
        let at = off();
        for custom in [false, true] {
            let b = &buf[..cap];
            let (r2, r4) = if custom {
                let o = Only(b);
                assert!(o.is_empty() == (cap == 0), "length");
                (o.read_be_u16(at), o.read_be_u32(at))
            } else {
                (b.read_be_u16(at), b.read_be_u32(at))
            };
            match r2 {
                Ok(v) => {
                    assert!(at <= cap && cap - at >= 2, "16 bit read outside the bounds");
                    assert!(v == (buf[at] as u16) << 8 | buf[at + 1] as u16, "16 bit value");
                }
                Err(ReadOutOfBounds) => assert!(!(at <= cap && cap - at >= 2), "16 bit read inside the bounds failed"),
            }
            match r4 {
                Ok(v) => {
                    assert!(at <= cap && cap - at >= 4, "32 bit read outside the bounds");
                    let want = (buf[at] as u32) << 24 | (buf[at + 1] as u32) << 16 | (buf[at + 2] as u32) << 8 | buf[at + 3] as u32;
                    assert!(v == want, "32 bit value");
                }
                Err(ReadOutOfBounds) => assert!(!(at <= cap && cap - at >= 4), "32 bit read inside the bounds failed"),
            }
            reached!(r4.is_ok());
            reached!(r4.is_err() && r2.is_ok());
        }
    }
    write [30] {
        let mut buf = nd::bytes::<CAP>();
        let before = buf;
        let data = nd::bytes::<{ CAP + 2 }>();
        let cap = nd::len(CAP);
        let at = off();
        let n = nd::len(CAP + 2);
        let r = buf[..cap].write(at, &data[..n]);
        let fits = at <= cap && n <= cap - at;
        assert!(r == if fits { Ok(()) } else { Err(WriteOutOfBounds) }, "write inside the bounds succeeds, outside fails");
        let i = nd::idx();
        if i < CAP {
            if fits && i >= at && i - at < n {
                assert!(buf[i] == data[i - at], "byte written");
            } else {
                assert!(buf[i] == before[i], "byte outside the written range was modified");
            }
        }
        reached!(fits && n > 3 && at > 0);
        reached!(!fits && at > usize::MAX - 8);
        reached!(!fits && at < cap);
    }
    write_callback [30] {
        let mut buf = nd::bytes::<CAP>();
        let before = buf;
        let data = nd::bytes::<CAP>();
        let cap = nd::len(CAP);
        let at = off();
        let n = off();
        let mut calls = 0;
        let r = buf[..cap].write_callback(at, n, |b| {
            calls += 1;
            assert!(b.len() == n, "callback slice length");
            b.copy_from_slice(&data[..n]);
        });
        let fits = at <= cap && n <= cap - at;
        assert!(r == if fits { Ok(()) } else { Err(WriteOutOfBounds) }, "write inside the bounds succeeds, outside fails");
        assert!(calls == fits as usize, "the callback runs exactly when the write fits");
        let i = nd::idx();
        if i < CAP {
            if fits && i >= at && i - at < n {
                assert!(buf[i] == data[i - at], "byte written");
            } else {
                assert!(buf[i] == before[i], "byte outside the written range was modified");
            }
        }
        reached!(fits && n > 3 && at > 0);
        reached!(!fits && at > 2 && n > usize::MAX - 2);
    }
}
/// Buffers of any length up to 2^32.
fn any_length() -> (&'static mut [u8], usize) {
    let cap = nd::u32() as usize;
    nd::assume(cap > 0);
    (nd::heap(cap), cap)
}
harness! {
    any_length_read [30] {
        let (b, cap) = any_length();
        let at = off();
        let v = nd::bytes::<4>();
        let fits = at <= cap && 4 <= cap - at;
        if fits {
            b[at..at + 4].copy_from_slice(&v);
        }
        let mut out = [0; 4];
        assert!(b.read_into(at, &mut out) == if fits { Ok(()) } else { Err(ReadOutOfBounds) }, "read inside the bounds succeeds, outside fails");
        let r = b.read_be_u32(at);
        assert!(r.is_ok() == fits, "read inside the bounds succeeds, outside fails");
        if fits {
            assert!(out == v, "bytes read");
            assert!(r == Ok(u32::from_be_bytes(v)), "32 bit value");
            assert!(b.read_be_u16(at) == Ok(u16::from_be_bytes([v[0], v[1]])), "16 bit value");
        }
        reached!(fits && at > 0x1_0000);
        reached!(!fits && at < cap && cap > 0x1_0000);
    }
    any_length_write [30] {
        let (b, cap) = any_length();
        let at = off();
        let v = nd::bytes::<4>();
        let fits = at <= cap && 4 <= cap - at;
        let i = off();
        let x = nd::u8();
        if i < cap {
            b[i] = x;
        }
        let r = b.write(at, &v);
        assert!(r == if fits { Ok(()) } else { Err(WriteOutOfBounds) }, "write inside the bounds succeeds, outside fails");
        if i < cap {
            if fits && i >= at && i - at < 4 {
                assert!(b[i] == v[i - at], "byte written");
            } else {
                assert!(b[i] == x, "byte outside the written range was modified");
            }
        }
        reached!(fits && at > 0x1_0000);
        reached!(!fits && at < cap && cap > 0x1_0000);
    }
    any_length_callback [30] {
        let (b, cap) = any_length();
        let (at, n, i) = (off(), off(), off());
        let (x, y) = (nd::u8(), nd::u8());
        if i < cap {
            b[i] = x;
        }
        let fits = at <= cap && n <= cap - at;
        let mut calls = 0;
        let r = b.write_callback(at, n, |s| {
            calls += 1;
            assert!(s.len() == n, "callback slice length");
            if n > 0 {
                s[n - 1] = y;
            }
        });
        assert!(r == if fits { Ok(()) } else { Err(WriteOutOfBounds) }, "write inside the bounds succeeds, outside fails");
        assert!(calls == fits as usize, "the callback runs exactly when the write fits");
        if i < cap {
            let want = if fits && n > 0 && i == at + (n - 1) { y } else { x };
            assert!(b[i] == want, "byte outside the written range was modified");
        }
        reached!(fits && n > 0x1_0000);
        reached!(!fits && n < cap && at < cap);
    }
}
