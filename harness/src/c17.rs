//! C17: the simulator connection carries commands and responses unchanged.
use crate::nd;
use crate::net::*;
use tpm2_client::connection::*;

/// Connected to the simulator, nothing sent yet.
pub fn conn() -> TcpConnection {
    link();
    match TcpConnection::connect("127.0.0.1", None, None) {
        Ok(c) => c,
        Err(e) => {core::mem::forget(e); panic!("connection to a listening simulator failed")}
    }
}
pub fn put32(b: &mut [u8], at: usize, v: u32) {
    b[at] = (v >> 24) as u8;
    b[at + 1] = (v >> 16) as u8;
    b[at + 2] = (v >> 8) as u8;
    b[at + 3] = v as u8;
}
pub fn get32(b: &[u8], at: usize) -> u32 {
    (b[at] as u32) << 24 | (b[at + 1] as u32) << 16 | (b[at + 2] as u32) << 8 | b[at + 3] as u32
}
const CMD: usize = 5;
const RSP: usize = 5;
const ROOM: usize = 8;

/// One transaction.  -> did it succeed?
fn transaction(c: &mut TcpConnection, locality: u8, cn: usize, rn: usize, cut: bool) -> bool {
    let p = &mut net().port[0];
    let (s0, r0) = (p.n, p.read);
    let cmd = nd::bytes::<CMD>();
    let rsp = nd::bytes::<RSP>();
    let end = nd::u32();
    // The answer, after the whole command.
    put32(&mut p.reply, r0, rn as u32);
    let mut i = 0;
    while i < rn {
        p.reply[r0 + 4 + i] = rsp[i];
        i += 1;
    }
    put32(&mut p.reply, r0 + 4 + rn, end);
    let whole = 8 + rn;
    p.gate = [(IN, s0 + 9 + cn); 4];
    let given = if cut { nd::len(whole) } else { whole };
    p.replies = r0 + given;
    let mut out = [0x6B; ROOM];
    let room = nd::len(ROOM);
    let ok = match c.transact(&cmd[..cn], &mut out[..room]) {
        Ok(x) => {
            assert!(x.len() == rn, "size of the response");
            let i = nd::idx();
            if i < rn {
                assert!(x[i] == rsp[i], "byte of the response");
            }
            true
        }
        Err(e) => {
            core::mem::forget(e);
            false
        }
    };
    let t = net();
    let p = &t.port[0];
    let i = nd::idx();
    if i >= room && i < ROOM || ok && i >= rn && i < ROOM {
        assert!(out[i] == 0x6B, "byte outside the response was modified");
    }
    if !t.failed && !t.short || ok {
        // The frame of the simulator protocol.
        assert!(p.n == s0 + 9 + cn, "bytes sent");
        assert!(get32(&p.out, s0) == 8 && p.out[s0 + 4] == locality && get32(&p.out, s0 + 5) as usize == cn, "command frame");
        let i = nd::idx();
        if i < cn {
            assert!(p.out[s0 + 9 + i] == cmd[i], "byte of the command");
        }
    }
    if ok {
        assert!(rn <= room && given == whole && end == 0 && !t.failed, "a failed transaction was taken for success");
        assert!(p.read == r0 + whole, "the answer is consumed to its end");
    } else if !t.failed && !t.short {
        assert!(rn > room || given < whole || end != 0, "a good transaction failed");
    }
    assert!(t.port[1].n == 0 && t.port[1].read == 0, "the platform port was used");
    ok
}
harness! {
    /// Responses that arrive in any number of pieces.
    pieces [6] {
        let mut c = conn();
        net().chunks = true;
        let ok = transaction(&mut c, 0, 3, 2, false);
        reached!(ok);
        reached!(!ok);
    }
    /// Calls that are interrupted.
    interruptions [6] {
        let mut c = conn();
        net().interrupts = true;
        let ok = transaction(&mut c, 0, 3, 2, false);
        reached!(ok && net().interrupted == 2);
        reached!(!ok);
    }
    /// Several sizes, one after the other, at any locality.
    history [6] {
        let mut c = conn();
        let a = transaction(&mut c, 0, 0, 4, false);
        if a {
            let l = nd::u8();
            c.set_locality(l);
            let b = transaction(&mut c, l, 4, 0, false);
            reached!(b);
            reached!(!b);
        }
        reached!(!a);
    }
    /// The simulator stops answering at any point.
    silence [6] {
        let mut c = conn();
        let ok = transaction(&mut c, 0, 4, 4, true);
        reached!(ok);
        reached!(!ok);
    }
    /// Any system call fails.
    faults [6] {
        let mut c = conn();
        net().fault = true;
        let ok = transaction(&mut c, 0, 2, 3, false);
        reached!(ok);
        reached!(!ok && net().failed && net().port[0].read == 4);
    }
    /// The command does not fit into the socket at once.
    partial_write [6] {
        let mut c = conn();
        net().short_writes = true;
        let ok = transaction(&mut c, 0, 4, 1, false);
        reached!(ok);
        reached!(!ok && net().short);
    }
    /// A response size above the room for it, whatever it is.
    oversized [6] {
        let mut c = conn();
        let size = nd::u32();
        let room = nd::len(4);
        nd::assume(size as usize > room);
        let p = &mut net().port[0];
        put32(&mut p.reply, 0, size);
        p.replies = 20;
        let mut out = [0x6B; 6];
        match c.transact(&[1, 2], &mut out[..room]) {
            Ok(_) => panic!("a response larger than the room for it was accepted"),
            Err(e) => core::mem::forget(e),
        }
        let i = nd::idx();
        if i < 6 {
            assert!(out[i] == 0x6B, "byte of the buffer was modified");
        }
        reached!(size == u32::MAX);
    }
}
/// Commands of any length up to 320 bytes, responses of one length.
fn long_messages(size: usize, pieces: usize) {
    let mut c = conn();
    let l = long();
    const MAX: usize = 320;
    let (mut cbuf, mut obuf) = ([0; MAX], [0; MAX]);
    let (cn, room, locality) = (nd::u32() as usize, nd::u32() as usize, nd::u8());
    nd::assume(cn >= 1 && cn <= MAX && room >= 1 && room <= MAX);
    let (wc, vc) = (nd::u32() as usize, nd::u8());
    nd::assume(wc < cn);
    let cmd = &mut cbuf[..cn];
    cmd[wc] = vc;
    l.on = true;
    l.watch = 9 + wc;
    l.size = size;
    l.end = nd::u32();
    l.at = nd::u32() as usize;
    l.val = nd::u8();
    l.pieces = pieces;
    let out = &mut obuf[..room];
    // A byte of the buffer that is not part of the response.
    let (o, x) = (nd::u32() as usize, nd::u8());
    let other = o < room && (o >= l.size || l.size > room);
    if other {
        out[o] = x;
    }
    c.set_locality(locality);
    let ok = match c.transact(cmd, out) {
        Ok(r) => {
            assert!(r.len() == l.size, "size of the response");
            if l.at < l.size {
                assert!(r[l.at] == l.val, "byte of the response");
            }
            true
        }
        Err(e) => {
            core::mem::forget(e);
            false
        }
    };
    if other {
        assert!(out[o] == x, "byte outside the response was modified");
    }
    let p = &net().port[0];
    assert!(ok == (l.size <= room && l.end == 0), "the transaction succeeds exactly when the answer is good");
    assert!(p.n == 9 + cn, "bytes sent");
    assert!(get32(&p.out, 0) == 8 && p.out[4] == locality && get32(&p.out, 5) as usize == cn, "command frame");
    assert!(l.seen == Some(vc), "byte of the command");
    if ok {
        assert!(p.read == 8 + l.size, "the answer is consumed to its end");
    }
    assert!(net().port[1].n == 0 && net().port[1].read == 0, "the platform port was used");
    reached!(ok && cn > 256);
    reached!(!ok && l.size > room);
}
harness! {
    long_300 [6] { long_messages(300, 0); }
}
#[cfg(feature = "thorough")]
harness! {
    long_256 [6] { long_messages(256, 0); }
    long_pieces [6] { long_messages(300, 2); }
}
