//! C21: executing in place gives the response that separate buffers give.
use crate::nd;
use crate::server::*;

const CAP: usize = 34;
harness! {
    same_response [8] {
        let mut t = tpm();
        // The generator's output is the same in both runs.
        let l = log();
        l.want = nd::flag();
        l.fail_reseed = nd::flag();
        l.fail_gen = nd::flag();
        let mut buf = nd::bytes::<CAP>();
        let req = buf;
        let cap = nd::len(CAP);
        let rn = nd::len(CAP);
        nd::assume(rn <= cap);
        let n1 = t.execute_command_in_place(&mut buf[..cap], rn);
        let k1 = log().n;
        let g1 = last_generated();
        forget();
        let mut out = [0u8; CAP];
        let n2 = t.execute_command_separate(&req[..rn], &mut out[..cap]);
        assert!(n1 == n2, "response size");
        assert!(k1 == log().n, "platform calls");
        let i = nd::idx();
        if i < n1 && i < 10 {
            assert!(buf[i] == out[i], "response header byte");
        }
        if i >= 10 && i < n1 {
            let (a, b) = (g1, last_generated());
            assert!(buf[i] == a[i - 10] && out[i] == b[i - 10], "response body byte");
        }
        reached!(n1 == 0);
        reached!(n1 == 10);
        reached!(n1 > 20);
    }
}
fn last_generated() -> [u8; GEN] {
    let l = log();
    if l.n > 0 {
        if let Ev::Generate(_, b, _, _) = l.ev[l.n - 1] {
            return b;
        }
    }
    [0; GEN]
}
harness! {
    any_length [12] {
        let mut t = bulk_tpm();
        let head = nd::bytes::<12>();
        let (rn, cap) = (nd::u32() as usize, nd::u32() as usize);
        nd::assume(rn >= 12 && rn <= cap && cap <= BULK_ROOM);
        let (one, req, out) = (nd::heap(cap), nd::heap(rn), nd::heap(cap));
        one[..12].copy_from_slice(&head);
        req[..12].copy_from_slice(&head);
        let n1 = t.execute_command_in_place(one, rn);
        let l = bulk();
        let (k1, len1) = (l.calls, l.len);
        l.calls = 0;
        l.len = 0;
        let n2 = t.execute_command_separate(req, out);
        let l = bulk();
        assert!(n1 == n2, "response size");
        assert!(k1 == l.calls && len1 == l.len, "platform calls");
        let i = nd::idx();
        if i < 10 {
            assert!(one[i] == out[i], "response header byte");
        }
        reached!(n1 == 10);
        reached!(n1 > 60000);
    }
}
