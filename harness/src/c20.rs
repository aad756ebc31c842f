//! C20: requests are validated exactly.
use crate::nd;
use crate::server::*;

const REQ: usize = 16;
const RESP: usize = 32;

/// What a request without sessions has to be answered with. None: left open.
fn expected(req: &[u8], rn: usize, cap: usize) -> Option<u32> {
    if rn < 10 || be32(req, 2) as usize != rn {
        return Some(0x142);
    }
    if be32(req, 6) != 0x17B {
        return Some(0x143);
    }
    if be16(req, 0) != 0x8001 {
        return None;
    }
    if rn < 12 {
        return Some(0x142);
    }
    if rn > 12 {
        return None;
    }
    if 10 + be16(req, 10) as usize > cap {
        return Some(0x904);
    }
    Some(0)
}
fn judge(req: &[u8], rn: usize, cap: usize, out: &[u8], n: usize) {
    if cap >= 10 {
        if let Some(rc) = expected(req, rn, cap) {
            assert!(n >= 10, "no response");
            assert!(be32(out, 6) == rc, "response code");
            let size = if rc == 0 { 10 + be16(req, 10) as usize } else { 10 };
            assert!(n == size && be32(out, 2) as usize == n, "response size");
            if rc != 0 {
                assert!(log().n == 0 && log().asked == 0, "a rejected request reached the random generator");
            }
        }
    }
    reached!(n >= 10 && be32(out, 6) == 0);
    reached!(n == 10 && be32(out, 6) == 0x142);
    reached!(n == 10 && be32(out, 6) == 0x143);
    reached!(n == 10 && be32(out, 6) == 0x904);
}
harness! {
    separate [8] {
        let mut t = tpm();
        let req = nd::bytes::<REQ>();
        let rn = nd::len(REQ);
        let cap = nd::len(RESP);
        let mut out = [0x3C; RESP];
        let n = t.execute_command_separate(&req[..rn], &mut out[..cap]);
        judge(&req, rn, cap, &out, n);
    }
    in_place [8] {
        let mut t = tpm();
        let mut buf = nd::bytes::<RESP>();
        let req = buf;
        let cap = nd::len(RESP);
        let size = nd::u64() as usize;
        let n = t.execute_command_in_place(&mut buf[..cap], size);
        judge(&req, size.min(cap), cap, &buf, n);
    }
}
/// Requests and responses of every length.
fn any_length(in_place: bool) {
    let mut t = bulk_tpm();
    let head = nd::bytes::<12>();
    let (rn, cap) = (nd::u32() as usize, nd::u32() as usize);
    nd::assume(rn >= 12 && rn <= BULK_ROOM && cap >= 10 && cap <= BULK_ROOM);
    let req = nd::heap(rn);
    req[..12].copy_from_slice(&head);
    let code;
    let n;
    if in_place {
        n = t.execute_command_in_place(req, rn);
        code = be32(req, 6);
    } else {
        let out = nd::heap(cap);
        n = t.execute_command_separate(req, out);
        code = be32(out, 6);
    }
    let cap = if in_place { rn } else { cap };
    if be32(&head, 2) as usize != rn {
        assert!(code == 0x142 && n == 10, "a size field that is not the length");
    } else if be32(&head, 6) != 0x17B {
        assert!(code == 0x143 && n == 10, "an unknown command");
    } else if be16(&head, 0) == 0x8001 && rn == 12 {
        let ask = be16(&head, 10) as usize;
        if 10 + ask > cap {
            assert!(code == 0x904 && n == 10, "a response that does not fit");
        } else {
            assert!(code == 0 && n == 10 + ask, "a valid request succeeds");
        }
    }
    if code != 0 {
        assert!(bulk().calls == 0, "a rejected request reached the random generator");
    }
    reached!(code == 0);
    reached!(code == 0x142 && rn > 60000);
    reached!(code == 0x143 && rn > 256);
}
harness! {
    any_length_separate [12] { any_length(false); }
    any_length_in_place [12] { any_length(true); }
}
