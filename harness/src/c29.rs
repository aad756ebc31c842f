//! C29: the client and the server of this repository understand each other.
use crate::client::Fault;
use crate::nd;
use crate::server::*;
use tpm2_client::connection::Connection;
use tpm2_client::*;
use tpm2_impl::TpmContext;
use tpm2_rs_base::Tpm2bSimple;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;

/// The server behind the client's connection.
struct Line {
    tpm: TpmContext<Deps>,
    in_place: bool,
    calls: usize,
    size: usize,
}
const ROOM: usize = 28;
impl Connection for Line {
    type Error = Fault;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], Fault> {
        self.calls += 1;
        let mut b = [0u8; ROOM];
        let n = if self.in_place {
            b[..cmd.len()].copy_from_slice(cmd);
            self.tpm.execute_command_in_place(&mut b, cmd.len())
        } else {
            self.tpm.execute_command_separate(cmd, &mut b)
        };
        rsp[..ROOM].copy_from_slice(&b);
        self.size = n;
        Ok(&mut rsp[..n])
    }
}
fn line(in_place: bool) -> Line {
    Line { tpm: tpm(), in_place, calls: 0, size: 0 }
}
/// A command the server does not have is reported to the caller as such.
fn unknown(in_place: bool) {
    let mut l = line(in_place);
    let su = TpmSu(nd::u16());
    let r = run_command(&StartupCmd { startup_type: su }, &mut l);
    assert!(r.err().and_then(|e| e.code()) == Some(0x143), "an unknown command is reported to the caller");
    if !in_place {
    let r = run_command(&GetCapabilityCmd { capability: TpmCap(nd::u32()), property: TpmPt(nd::u32()), property_count: nd::u32() }, &mut l);
    assert!(matches!(r, Err(Fault::Tss(e)) if e.get() == 0x143), "an unknown command is reported to the caller");
    }
    assert!(l.calls == if in_place { 1 } else { 2 } && log().n == 0, "one transaction each");
    reached!();
}
/// The server takes the client's command for what it is.
fn asked(in_place: bool) {
    let mut l = line(in_place);
    log().fail_gen = nd::flag();
    let ask = nd::len(ROOM - 10);
    nd::assume(ask > 0);
    let r = run_command(&GetRandomCmd { bytes_requested: ask as u16 }, &mut l);
    let Ev::Generate(n, _, _, failed) = log().ev[0] else { panic!("the generator was not asked") };
    assert!(n == ask && log().n == 1, "bytes generated for the caller");
    assert!(l.calls == 1, "one transaction");
    if failed {
        assert!(r.err().and_then(|e| e.code()) == Some(0x101), "a failing generator is reported to the caller");
    } else {
        assert!(l.size == 10 + ask || l.size == 12 + ask, "size of the response");
    }
    reached!(failed);
    reached!(!failed && ask == 18);
}
/// More than fits is refused, and the caller sees it.
fn too_many(in_place: bool) {
    let mut l = line(in_place);
    let ask = nd::u16();
    nd::assume(ask as usize > ROOM - 10);
    let r = run_command(&GetRandomCmd { bytes_requested: ask }, &mut l);
    assert!(r.err().and_then(|e| e.code()) == Some(0x904), "a request that cannot be answered is reported to the caller");
    assert!(log().n == 0, "the generator was asked");
    reached!(ask == 0xFFFF);
}
harness! {
    unknown_separate [60] { unknown(false); }
    unknown_in_place [60] { unknown(true); }
    asked_separate [60] { asked(false); }
    asked_in_place [60] { asked(true); }
    too_many_separate [60] { too_many(false); }
    too_many_in_place [60] { too_many(true); }
    /// The caller gets the bytes that were generated for it.
    random_bytes [60] {
        let mut l = line(false);
        let r = run_command(&GetRandomCmd { bytes_requested: 4 }, &mut l);
        let Ev::Generate(_, bytes, _, _) = log().ev[0] else { panic!("the generator was not asked") };
        let good = match &r {
            Ok(v) => v.random_bytes.get_size() == 4 && v.random_bytes.get_buffer() == &bytes[..4],
            Err(_) => false,
        };
        reached!();
        assert!(good, "the caller gets the random bytes");
    }
}
