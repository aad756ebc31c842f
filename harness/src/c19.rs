//! C19: the server answers every request with a well-formed response or nothing.
use crate::nd;
use crate::server::*;

const REQ: usize = 20;
const RESP: usize = 40;
const FILL: u8 = 0xA7;

fn well_formed(out: &[u8], cap: usize, n: usize) {
    assert!(n <= cap, "returned size exceeds the response buffer");
    if cap < 10 {
        assert!(n == 0, "response without room for a header");
    } else {
        assert!(n >= 10, "response shorter than a header");
        assert!(be16(out, 0) == 0x8001, "response tag");
        assert!(be32(out, 2) as usize == n, "response size field");
        if n > 10 {
            assert!(be32(out, 6) == 0, "error response with a body");
        }
    }
}
harness! {
    separate [8] {
        let mut t = tpm();
        arbitrary_platform();
        let req = nd::bytes::<REQ>();
        let rn = nd::len(REQ);
        let cap = nd::len(RESP);
        let mut out = [FILL; RESP];
        let n = t.execute_command_separate(&req[..rn], &mut out[..cap]);
        well_formed(&out, cap, n);
        let i = nd::idx();
        if i < RESP && i >= cap {
            assert!(out[i] == FILL, "byte outside the response buffer was modified");
        }
        let failed = log().fail_gen && log().n > 0;
        if i < cap && i >= n && !failed {
            assert!(out[i] == FILL, "byte after the response was modified");
        }
        reached!(n == 0);
        reached!(n == 10 && be32(&out, 6) == 0x143);
        reached!(n > 20);
    }
    in_place [8] {
        let mut t = tpm();
        arbitrary_platform();
        let mut buf = nd::bytes::<RESP>();
        let before = buf;
        let cap = nd::len(RESP);
        let size = nd::u64() as usize;
        let n = t.execute_command_in_place(&mut buf[..cap], size);
        well_formed(&buf, cap, n);
        let i = nd::idx();
        if i < RESP && i >= cap {
            assert!(buf[i] == before[i], "byte outside the buffer was modified");
        }
        reached!(n == 0);
        reached!(n == 10 && size > RESP);
        reached!(n > 20);
    }
}
/// Requests and response buffers of every length.
fn any_length(in_place: bool) {
    let mut t = bulk_tpm();
    let head = nd::bytes::<12>();
    let (rn, cap) = (nd::u32() as usize, nd::u32() as usize);
    nd::assume(rn >= 12 && rn <= BULK_ROOM && cap >= 1 && cap <= BULK_ROOM);
    let req = nd::heap(rn);
    req[..12].copy_from_slice(&head);
    let (out, cap, n): (&[u8], usize, usize) = if in_place {
        let size = nd::u64() as usize;
        let n = t.execute_command_in_place(req, size);
        (req, rn, n)
    } else {
        let out = nd::heap(cap);
        let n = t.execute_command_separate(req, out);
        (out, cap, n)
    };
    well_formed(out, cap, n);
    reached!(n > 60000);
    reached!(n == 10);
}
harness! {
    any_length_separate [12] { any_length(false); }
    any_length_in_place [12] { any_length(true); }
}
