//! A scripted connection: records the command and answers with given bytes.
use tpm2_client::connection::Connection;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::errors::*;
use tpm2_rs_base::marshal::Marshalable;

/// Longest command looked at.
pub const CMD: usize = if cfg!(feature = "c13") { 480 } else { 128 };

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Tss(TssError),
    Line(u32),
}
impl core::fmt::Display for Fault {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl core::error::Error for Fault {}
impl From<TssError> for Fault {
    fn from(e: TssError) -> Self {
        Fault::Tss(e)
    }
}
impl Fault {
    pub fn code(&self) -> Option<u32> {
        match self {
            Fault::Tss(e) => Some(e.get()),
            Fault::Line(_) => None,
        }
    }
}
pub struct Tpm<'a> {
    pub cmd: [u8; CMD],
    pub cmd_len: usize,
    pub calls: usize,
    pub room: usize,
    pub reply: &'a [u8],
    pub line: Option<u32>,
    /// Length of the response, when it is longer than `reply` (the rest is whatever is there).
    pub len: usize,
}
impl<'a> Tpm<'a> {
    pub fn new(reply: &'a [u8]) -> Self {
        Tpm { cmd: [0; CMD], cmd_len: 0, calls: 0, room: 0, reply, line: None, len: 0 }
    }
}
impl Connection for Tpm<'_> {
    type Error = Fault;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], Fault> {
        self.calls += 1;
        self.cmd_len = cmd.len();
        if cmd.len() <= CMD {
            self.cmd[..cmd.len()].copy_from_slice(cmd);
        }
        self.room = rsp.len();
        if let Some(e) = self.line {
            return Err(Fault::Line(e));
        }
        let n = self.reply.len();
        rsp[..n].copy_from_slice(self.reply);
        Ok(&mut rsp[..if self.len > n { self.len } else { n }])
    }
}
/// A connection that takes the command and then fails.
pub fn dead() -> Tpm<'static> {
    let mut t = Tpm::new(&[]);
    t.line = Some(7);
    t
}
/// An answer without sessions and parameters.
pub const OK_EMPTY: [u8; 10] = [0x80, 0x01, 0, 0, 0, 10, 0, 0, 0, 0];

/// Commands with handles, to see handle areas of several sizes.
#[derive(Clone, Copy, Marshalable)]
#[repr(C)]
pub struct OneHandle {
    pub a: u16,
    pub b: u32,
}
impl TpmCommand for OneHandle {
    const CMD_CODE: TpmCc = TpmCc::NVRead;
    type Handles = TpmHandle;
    type RespT = u16;
    type RespHandles = TpmHandle;
}
#[derive(Clone, Copy, Default, Marshalable)]
#[repr(C)]
pub struct Pair {
    pub x: TpmHandle,
    pub y: TpmHandle,
}
#[derive(Clone, Copy, Marshalable)]
#[repr(C)]
pub struct TwoHandles {
    pub a: u64,
}
impl TpmCommand for TwoHandles {
    const CMD_CODE: TpmCc = TpmCc::Certify;
    type Handles = Pair;
    type RespT = u32;
    type RespHandles = ();
}
