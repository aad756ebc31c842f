//! C18: control operations speak the simulator protocol.
use crate::nd;
use crate::net::*;
use std::io::Result;
use tpm2_client::connection::*;

fn conn() -> TcpConnection {
    link();
    match TcpConnection::connect("127.0.0.1", None, None) {
        Ok(c) => c,
        Err(e) => {
            core::mem::forget(e);
            panic!("connection to a listening simulator failed")
        }
    }
}
fn put32(b: &mut [u8], at: usize, v: u32) {
    b[at] = (v >> 24) as u8;
    b[at + 1] = (v >> 16) as u8;
    b[at + 2] = (v >> 8) as u8;
    b[at + 3] = v as u8;
}
fn get32(b: &[u8], at: usize) -> u32 {
    (b[at] as u32) << 24 | (b[at + 1] as u32) << 16 | (b[at + 2] as u32) << 8 | b[at + 3] as u32
}
fn ok<T>(r: Result<T>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            core::mem::forget(e);
            None
        }
    }
}
/// The simulator answers with `words` once it has `need` bytes, perhaps not completely.  -> complete?
fn answers(port: usize, need: usize, words: &[u32]) -> bool {
    let p = &mut net().port[port];
    let mut i = 0;
    while i < words.len() {
        put32(&mut p.reply, 4 * i, words[i]);
        i += 1;
    }
    let whole = 4 * words.len();
    p.gate = [(IN, need); 4];
    let n = nd::len(whole);
    p.replies = n;
    n == whole
}
/// What was sent, word by word, and nothing on the other port.
fn sent(port: usize, words: &[u32]) {
    let t = net();
    assert!(t.port[port].n == 4 * words.len(), "bytes sent");
    let mut i = 0;
    while i < words.len() {
        assert!(get32(&t.port[port].out, 4 * i) == words[i], "word sent");
        i += 1;
    }
    assert!(t.port[1 - port].n == 0 && t.port[1 - port].read == 0, "the other port was used");
}
/// An operation without an answer but the end marker.
fn simple(port: usize, words: &[u32], f: impl FnOnce(&mut TcpConnection) -> Result<()>) {
    let mut c = conn();
    let end = nd::u32();
    let whole = answers(port, 4 * words.len(), &[end]);
    let r = ok(f(&mut c));
    sent(port, words);
    assert!(r.is_some() == (whole && end == 0), "success means the end marker was received and zero");
    if r.is_some() {
        assert!(net().port[port].read == 4, "the answer is consumed");
    }
    reached!(r.is_some());
    reached!(r.is_none() && whole);
    reached!(r.is_none() && !whole);
}
fn signal(k: u8) -> (SimulatorPlatformSignal, u32) {
    use SimulatorPlatformSignal::*;
    match k {
        0 => (PowerOn, 1),
        1 => (PowerOff, 2),
        2 => (PhysicalPresenceOn, 3),
        3 => (PhysicalPresenceOff, 4),
        4 => (CancelOn, 9),
        5 => (CancelOff, 10),
        6 => (NvOn, 11),
        7 => (NvOff, 12),
        8 => (KeyCacheOn, 13),
        9 => (KeyCacheOff, 14),
        10 => (Reset, 17),
        _ => (Restart, 18),
    }
}
fn finish(code: u32, f: impl FnOnce(&mut TcpConnection) -> Result<()>) {
    let mut c = conn();
    let r = ok(f(&mut c));
    assert!(r.is_some(), "the operation succeeds");
    let t = net();
    let mut k = 0;
    while k < 2 {
        assert!(t.port[k].n == 4 && get32(&t.port[k].out, 0) == code, "code sent on both ports");
        assert!(t.port[k].shut && !t.port[k].late, "both ports are closed, after the code");
        k += 1;
    }
    reached!();
}
harness! {
    platform_signal [6] {
        let (s, code) = signal(nd::u8() % 12);
        simple(1, &[code], |c| c.platform_signal(s));
        reached!(code == 18);
    }
    failure_mode [6] { simple(1, &[30], |c| c.test_failure_mode()); }
    firmware_hash [6] { let v = nd::u32(); simple(1, &[35, v], |c| c.set_firmware_hash(v)); }
    firmware_svn [6] { let v = nd::u32(); simple(1, &[36, v], |c| c.set_firmware_svn(v)); }
    alternative_result [6] { let v = nd::u32(); simple(0, &[16, v], |c| c.set_alternative_result(v)); }
    handshake [9] {
        let mut c = conn();
        let (v, a, b, end) = (nd::u32(), nd::u32(), nd::u32(), nd::u32());
        let whole = answers(0, 8, &[a, b, end]);
        let r = ok(c.remote_handshake(v));
        sent(0, &[15, v]);
        assert!(r.is_some() == (whole && end == 0), "success means a complete answer");
        if let Some(r) = r {
            assert!(r.server_version() == a && r.endpoint_info() == b, "values in the answer");
        }
        reached!(r.is_some());
        reached!(r.is_none());
    }
    act [6] {
        let mut c = conn();
        let (v, a, end) = (nd::u32(), nd::u32(), nd::u32());
        let whole = answers(1, 8, &[a, end]);
        let r = ok(c.act_get_signaled(v));
        sent(1, &[26, v]);
        assert!(r.is_some() == (whole && end == 0), "success means a complete answer");
        assert!(r.is_none() || r == Some(a), "value in the answer");
        reached!(r.is_some());
        reached!(r.is_none());
    }
    session_end [6] { finish(20, |c| c.session_end()); }
    stop [6] { finish(21, |c| c.stop_simulator()); }
    reinit [6] {
        let mut c = conn();
        let e = [nd::u32(), nd::u32(), nd::u32(), nd::u32()];
        let whole = answers(1, 0, &e);
        net().port[1].gate = [(4, 4), (8, 8), (12, 12), (IN, 16)];
        let r = ok(c.reinit());
        let n = net().port[1].replies;
        // Off, off, on, on: each step only after the one before was confirmed.
        let mut k = 0;
        while k < 4 && n >= 4 * k + 4 && e[k] == 0 { k += 1; }
        let steps = if k < 4 { k + 1 } else { 4 };
        sent(1, &[12, 2, 1, 11][..steps]);
        assert!(r.is_some() == (whole && k == 4), "success means every step was confirmed");
        reached!(r.is_some());
        reached!(steps == 1);
        reached!(r.is_none() && steps == 4);
    }
    hash_sequence [6] {
        let mut c = conn();
        let data = nd::bytes::<4>();
        let n = nd::len(4);
        let e = [nd::u32(), nd::u32(), nd::u32()];
        let whole = answers(0, 0, &e);
        net().port[0].gate = [(4, 4), (8, 12 + n), (IN, 16 + n), (IN, 0)];
        let r = ok(c.hcrtm_sequence(&data[..n]));
        let t = net();
        let got = t.port[0].replies;
        let p = &t.port[0];
        assert!(get32(&p.out, 0) == 5, "start of the sequence");
        let first = got >= 4 && e[0] == 0;
        let second = first && got >= 8 && e[1] == 0;
        if first {
            assert!(p.n >= 12 + n && get32(&p.out, 4) == 6 && get32(&p.out, 8) as usize == n, "data of the sequence");
            let i = nd::idx();
            if i < n {
                assert!(p.out[12 + i] == data[i], "byte of the data");
            }
        } else {
            assert!(p.n == 4, "data although the start was not confirmed");
        }
        if second {
            assert!(p.n == 16 + n && get32(&p.out, 12 + n) == 7, "end of the sequence");
        } else if first {
            assert!(p.n == 12 + n, "end although the data was not confirmed");
        }
        assert!(r.is_some() == (second && whole && e[2] == 0), "success means every step was confirmed");
        assert!(t.port[1].n == 0, "the other port was used");
        reached!(r.is_some());
        reached!(first && !second);
    }
    /// Sizes in the simulator's byte order, codes in network order.
    largest [18] { largest_of(16, 24); }
    largest_cut_in_size [18] { largest_of(16, 3); }
    largest_cut_in_data [18] { largest_of(16, 19); }
    largest_cut_in_end [18] { largest_of(16, 23); }
    largest_shorter [18] { largest_of(15, 24); }
    largest_longer [18] { largest_of(17, 24); }
    largest_other_size [6] {
        let len = nd::u32();
        nd::assume(len != 16);
        let mut c = conn();
        let p = &mut net().port[1];
        put32(&mut p.reply, 0, len);
        p.gate = [(IN, 4); 4];
        p.replies = 4;
        assert!(ok(c.get_command_response_sizes()).is_none(), "an answer of another size is refused");
        reached!(len == 0);
        reached!(len == 32);
    }
}
/// The simulator announces `len` bytes and sends `n` bytes altogether.
fn largest_of(len: u32, n: usize) {
    let mut c = conn();
    let (a, b, x, y, end) = (nd::u32(), nd::u32(), nd::u32(), nd::u32(), nd::u32());
    let words = [len, a.swap_bytes(), b, x.swap_bytes(), y, end];
    let p = &mut net().port[1];
    let mut i = 0;
    while i < words.len() {
        put32(&mut p.reply, 4 * i, words[i]);
        i += 1;
    }
    p.gate = [(IN, 4); 4];
    p.replies = n;
    let r = ok(c.get_command_response_sizes());
    sent(1, &[25]);
    assert!(r.is_some() == (n == 24 && len == 16 && end == 0), "success means a complete answer");
    if let Some(r) = &r {
        assert!(r.largest_command_size() == a && r.largest_command() == b, "largest command");
        assert!(r.largest_response_size() == x && r.largest_response() == y, "largest response");
    }
    reached!(r.is_some() == (n == 24 && len == 16));
    reached!(r.is_none());
}
/// Connecting.
fn connected(r: Result<TcpConnection>) -> bool {
    match ok(r) {
        Some(c) => {
            core::mem::forget(c);
            true
        }
        None => false,
    }
}
harness! {
    default_ports [6] {
        let c = conn();
        let t = net();
        assert!(t.open == 2 && t.port[0].port == 2321 && t.port[1].port == 2322, "ports of the simulator");
        core::mem::forget(c);
        reached!();
    }
    chosen_ports [6] {
        link();
        let (a, b) = (nd::u16(), nd::u16());
        net().refuse = nd::u8() as usize % 3;
        let done = connected(TcpConnection::connect("127.0.0.1", Some(a), Some(b)));
        let t = net();
        assert!(done == (t.refuse == 0), "connected exactly when both connections are accepted");
        if done {
            assert!(t.port[0].port == a && t.port[1].port == b && t.closed == 0, "chosen ports");
        }
        reached!(done);
        reached!(!done);
    }
}
