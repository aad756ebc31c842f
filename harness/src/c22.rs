//! C22: random bytes are what the generator produced, reseeded when it asks.
use crate::nd;
use crate::server::*;
use tpm2_impl::TpmContext;

const RESP: usize = 50;

/// One GetRandom command under arbitrary platform behaviour.
fn step(t: &mut TpmContext<Deps>, in_place: bool) {
    forget();
    arbitrary_platform();
    let ask = nd::len(GEN);
    let req = get_random(ask as u16);
    let mut out = [0x3C; RESP];
    let n = if in_place {
        out[..12].copy_from_slice(&req);
        t.execute_command_in_place(&mut out, 12)
    } else {
        t.execute_command_separate(&req, &mut out)
    };
    let l = log();
    let mut k = 0;
    let mut failed = false;
    if l.want && ask > 0 {
        let Ev::Entropy(len, seed) = l.ev[0] else { panic!("no fresh entropy for the reseed") };
        assert!(len == SEED, "the whole seed is fresh entropy");
        let Ev::Reseed(used, add, f) = l.ev[1] else { panic!("the generator asked for a reseed and got none") };
        assert!(used == seed, "the reseed uses the fresh entropy");
        assert!(add == 0, "no additional input on a reseed");
        failed = f;
        k = 2;
    }
    if ask > 0 {
        if failed {
            assert!(l.n == k, "bytes were generated although the reseed failed");
        } else {
            let Ev::Generate(len, bytes, add, f) = l.ev[k] else { panic!("the generator was not asked") };
            assert!(l.n == k + 1, "platform calls for one command");
            assert!(len == ask, "bytes generated");
            assert!(add == 0, "no additional input");
            failed = f;
            if !failed {
                let i = nd::idx();
                if i < ask {
                    assert!(out[10 + i] == bytes[i], "returned random byte");
                }
            }
        }
        let rc = be32(&out, 6);
        if failed {
            assert!(n == 10 && rc == 0x101, "a failing generator is reported as TPM_RC_FAILURE");
        } else {
            assert!(n == 10 + ask && rc == 0, "random bytes returned");
        }
    }
    reached!(failed && l.want);
    reached!(!failed && n > 30);
    reached!(!failed && l.want);
}
harness! {
    separate_one [12] {
        let mut t = tpm();
        step(&mut t, false);
    }
    in_place_one [12] {
        let mut t = tpm();
        step(&mut t, true);
    }
    history [12] {
        let mut t = tpm();
        step(&mut t, false);
        step(&mut t, true);
        step(&mut t, false);
    }
}
#[cfg(feature = "thorough")]
harness! {
    long_history [12] {
        let mut t = tpm();
        for i in 0..6 {
            step(&mut t, i % 2 == 1);
        }
    }
}

/// Requests of every size, up to the largest.
fn any_size(in_place: bool) {
    let mut t = bulk_tpm();
    let ask = nd::u16() as usize;
    let cap = nd::u32() as usize;
    nd::assume(cap >= 12 && cap <= BULK_ROOM);
    let req = get_random(ask as u16);
    let out = nd::heap(cap);
    let n = if in_place {
        out[..12].copy_from_slice(&req);
        t.execute_command_in_place(out, 12)
    } else {
        t.execute_command_separate(&req, out)
    };
    let l = bulk();
    if 10 + ask <= cap {
        assert!(n == 10 + ask && be32(out, 2) as usize == n && be32(out, 6) == 0, "as many random bytes as asked for");
        if ask > 0 {
            assert!(l.calls == 1 && l.len == ask, "bytes generated");
            assert!(out[10] == l.first, "first random byte");
            assert!(ask == 1 || out[10 + ask - 1] == l.last, "last random byte");
        }
    } else {
        assert!(n == 10 && be32(out, 6) == 0x904, "a response that does not fit");
        assert!(l.calls == 0, "a rejected request reached the random generator");
    }
    reached!(n == 10 + 65535);
    reached!(n == 10 && ask == 5000);
}
harness! {
    any_size_separate [12] { any_size(false); }
    any_size_in_place [12] { any_size(true); }
}
