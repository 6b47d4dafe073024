//! A plan is everything one run does, as plain data. `run = f(plan, code)`.
use crate::cat::Cat;
use serde::{Deserialize, Serialize};

fn is_def<T: Default + PartialEq>(v: &T) -> bool {
    *v == T::default()
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub hash_seed: u64,
    /// > 0: every task repeats its lanes this many times, each time with slightly different texts
    #[serde(default, skip_serializing_if = "is_def")]
    pub rounds: u32,
    #[serde(default, skip_serializing_if = "is_def")]
    pub cpu_ms: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub grow: Option<Grow>,
    pub sched: SchedSpec,
    pub tasks: Vec<Task>,
    /// catalogues read from inside another reader's source
    #[serde(default, skip_serializing_if = "is_def")]
    pub nested: Vec<Lane>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct SchedSpec {
    pub seed: u64,
    /// permille of scheduling points at which the running task goes on
    pub stick: u32,
    /// explicit schedule (choices in order, 0 = go on); replaces the seed
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub list: Option<Vec<u32>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Task {
    /// uses the parser shared by all tasks, or one of its own
    pub shared: bool,
    /// lanes one after another, or interleaved step by step
    pub sequential: bool,
    /// allocations inside library code between forced preemptions (last one first)
    #[serde(default, skip_serializing_if = "is_def")]
    pub gaps: Vec<u32>,
    pub lanes: Vec<Lane>,
}

/// One catalogue and everything that happens to it.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Lane {
    pub src: Src,
    #[serde(default, skip_serializing_if = "is_def")]
    pub dmg: Vec<Dmg>,
    pub del: Delivery,
    /// abandon the reader after that many items
    #[serde(default, skip_serializing_if = "is_def")]
    pub take: Option<u32>,
    /// further requests after the end
    #[serde(default, skip_serializing_if = "is_def")]
    pub post: u32,
    /// counts looked up in every unit
    #[serde(default, skip_serializing_if = "is_def")]
    pub counts: Vec<u64>,
    /// keep the units and look at them again later
    #[serde(default, skip_serializing_if = "is_def")]
    pub hold: bool,
    /// keep clones as well
    #[serde(default, skip_serializing_if = "is_def")]
    pub clones: bool,
    /// count units instead of recording them
    #[serde(default, skip_serializing_if = "is_def")]
    pub light: bool,
    /// compare every unit of a long stream with the model on the way
    #[serde(default, skip_serializing_if = "is_def")]
    pub long: bool,
    /// how the iteration is driven (cyclic); empty: by next() alone
    #[serde(default, skip_serializing_if = "is_def")]
    pub drive: Vec<Drive>,
    /// blank lines in front of the stored bytes; positions of damage, reads and events do not count them
    #[serde(default, skip_serializing_if = "is_def")]
    pub lead: u32,
    /// that many more in the reference run
    #[serde(default, skip_serializing_if = "is_def")]
    pub shift: u32,
    /// drop the reader before (false) or after (true) the units
    #[serde(default, skip_serializing_if = "is_def")]
    pub reader_last: bool,
}

/// A way of asking an iterator for items.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Drive {
    Next,
    Hint,
    Nth(u32),
    /// by_ref().take(k)
    Take(u32),
    /// by_ref().skip(k).next()
    Skip(u32),
    /// by_ref().step_by(k).take(n)
    Step(u32, u32),
    /// by_ref().peekable(), peeked before every item
    Peek(u32),
    /// find the item k further on by a closure
    Find(u32),
    /// position of the item k further on
    Position(u32),
    /// try_fold stopped after k items
    TryFold(u32),
    /// k items through a trait object
    Dyn(u32),
    /// a size hint and nth(k) through a trait object
    DynNth(u32),
    /// the reader moves to another place in memory
    Move,
    /// the rest of the iteration, one way or another
    Count,
    Last,
    Fold,
    Collect,
    CollectResult,
    ForEach,
    DynCount,
    Chain,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Src {
    Cat(Cat),
    /// arbitrary bytes, one char per byte (latin-1)
    Raw(String),
    /// header and entries of a catalogue, the entries repeated until `total` bytes
    Cycle(Cat, u64),
    /// one thing so many times
    Rep(Rep),
}

/// `{i}` in the body stands for the number of the repetition.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Rep {
    pub what: String,
    pub head: String,
    pub body: String,
    pub n: u32,
    pub tail: String,
}

impl Rep {
    pub fn text(&self) -> String {
        let parts: Vec<&str> = self.body.split("{i}").collect();
        let mut s = self.head.clone();
        for i in 0..self.n {
            s.push_str(parts[0]);
            for p in &parts[1..] {
                s.push_str(&i.to_string());
                s.push_str(p);
            }
        }
        s.push_str(&self.tail);
        s
    }
}

/// What the reference run of C19 has four times as much of.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Grow {
    /// Rep::n of every lane
    Text,
    /// readers of the same parser, one after another
    Rounds,
    /// lookups in every unit
    Counts,
    /// requests after the end
    Post,
    /// interruptions of one read
    Intr,
}

impl Default for Src {
    fn default() -> Src {
        Src::Raw(String::new())
    }
}

/// Storage damage, applied in order to the stored bytes. Positions are taken modulo the length.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Dmg {
    Cut(u64),
    Flip(u64, u8),
    Fill(u64, u32, u8),
    Del(u64, u32),
    Dup(u64, u32),
    Ins(u64, String),
    /// line operations (line index in the bytes at hand)
    LineDel(u32),
    LineDup(u32),
    LineSwap(u32),
    LineIns(u32, String),
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Delivery {
    /// sizes of successive reads (cyclic); empty: as much as asked for
    #[serde(default, skip_serializing_if = "is_def")]
    pub sizes: Vec<u32>,
    /// positions no read crosses
    #[serde(default, skip_serializing_if = "is_def")]
    pub cuts: Vec<u64>,
    /// every n-th read is interrupted (n >= 2)
    #[serde(default, skip_serializing_if = "is_def")]
    pub intr_every: u32,
    /// every n-th read takes that long
    #[serde(default, skip_serializing_if = "is_def")]
    pub delay_every: (u32, u64),
    #[serde(default, skip_serializing_if = "is_def")]
    pub events: Vec<Ev>,
}

/// Something that happens when the source is asked for the byte at position `at`.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Ev {
    pub at: u64,
    pub k: EvK,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum EvK {
    Intr(u32),
    Delay(u64),
    Stall,
    /// the read fails
    Err(ErrSpec, After),
    /// the read reports the end of the file
    Eof(After),
    /// the source panics
    Panic,
    /// the source reads plan.nested[i] to its end with the same parser
    Reenter(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ErrSpec {
    /// an operating system error code
    Os(i32),
    /// kind (index into ERR_KINDS) and a payload
    Custom(u32, String),
    /// kind only
    Simple(u32),
    /// kind, and as payload another I/O error of the second kind with a payload
    Nest(u32, u32, String),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum After {
    /// the same again
    Same,
    /// the data goes on
    Resume,
    /// end of file
    Eof,
    /// an error (another one)
    OtherErr,
}

use std::io::ErrorKind;
pub const ERR_KINDS: [ErrorKind; 38] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
    ErrorKind::InvalidInput,
    ErrorKind::OutOfMemory,
    ErrorKind::NotConnected,
    ErrorKind::Unsupported,
    ErrorKind::ConnectionRefused,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::AlreadyExists,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::CrossesDevices,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
];

/// The payload of a custom error; downcasting to it proves that the error came through unharmed.
#[derive(Debug, PartialEq)]
pub struct Payload(pub String);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "payload {}", self.0)
    }
}
impl std::error::Error for Payload {}

impl ErrSpec {
    pub fn make(&self) -> std::io::Error {
        match self {
            ErrSpec::Os(c) => std::io::Error::from_raw_os_error(*c),
            ErrSpec::Custom(k, p) => {
                std::io::Error::new(ERR_KINDS[*k as usize % ERR_KINDS.len()], Payload(p.clone()))
            }
            ErrSpec::Nest(k, i, p) => {
                let inner = ErrSpec::Custom(*i, p.clone()).make();
                std::io::Error::new(ERR_KINDS[*k as usize % ERR_KINDS.len()], inner)
            }
            ErrSpec::Simple(k) => std::io::Error::from(ERR_KINDS[*k as usize % ERR_KINDS.len()]),
        }
    }
}

impl EvK {
    /// ends the data of the source for good (as far as the reader may care)
    pub fn terminal(&self) -> bool {
        matches!(self, EvK::Err(..) | EvK::Eof(_) | EvK::Panic)
    }
    pub fn name(&self) -> &'static str {
        match self {
            EvK::Intr(_) => "interrupted_read",
            EvK::Delay(_) => "delayed_read",
            EvK::Stall => "stall",
            EvK::Err(..) => "read_error",
            EvK::Eof(_) => "early_eof",
            EvK::Panic => "source_panic",
            EvK::Reenter(_) => "reentrant_parse",
        }
    }
}

pub fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
pub fn to_latin1(b: &[u8]) -> String {
    b.iter().map(|&c| c as char).collect()
}

fn line_starts(b: &[u8]) -> Vec<usize> {
    let mut v = vec![0];
    for (i, c) in b.iter().enumerate() {
        if *c == b'\n' && i + 1 < b.len() {
            v.push(i + 1);
        }
    }
    v
}

impl Dmg {
    pub fn name(&self) -> &'static str {
        match self {
            Dmg::Cut(_) => "torn_write(truncated)",
            Dmg::Flip(..) => "bit_flip",
            Dmg::Fill(..) => "overwritten_block",
            Dmg::Del(..) => "lost_bytes",
            Dmg::Dup(..) => "duplicated_bytes",
            Dmg::Ins(..) => "foreign_bytes",
            Dmg::LineDel(_) => "lost_line",
            Dmg::LineDup(_) => "duplicated_line",
            Dmg::LineSwap(_) => "reordered_lines",
            Dmg::LineIns(..) => "foreign_line",
        }
    }

    /// Applies the damage; returns the position of the first byte that may differ.
    pub fn apply(&self, b: &mut Vec<u8>) -> usize {
        let n = b.len();
        let pos = |at: u64| (at % (n as u64 + 1)) as usize;
        match self {
            Dmg::Cut(at) => {
                let p = pos(*at);
                b.truncate(p);
                p
            }
            Dmg::Flip(at, x) => {
                let p = pos(*at);
                if p < n {
                    b[p] ^= x;
                }
                p
            }
            Dmg::Fill(at, len, v) => {
                let p = pos(*at);
                let e = (p + *len as usize).min(n);
                b[p..e].fill(*v);
                p
            }
            Dmg::Del(at, len) => {
                let p = pos(*at);
                let e = (p + *len as usize).min(n);
                b.drain(p..e);
                p
            }
            Dmg::Dup(at, len) => {
                let p = pos(*at);
                let e = (p + *len as usize).min(n);
                let seg = b[p..e].to_vec();
                let _ = b.splice(e..e, seg);
                e
            }
            Dmg::Ins(at, s) => {
                let p = pos(*at);
                let _ = b.splice(p..p, latin1(s));
                p
            }
            Dmg::LineDel(l) => {
                let st = line_starts(b);
                let i = *l as usize % st.len();
                let e = st.get(i + 1).copied().unwrap_or(n);
                b.drain(st[i]..e);
                st[i]
            }
            Dmg::LineDup(l) => {
                let st = line_starts(b);
                let i = *l as usize % st.len();
                let e = st.get(i + 1).copied().unwrap_or(n);
                let mut seg = b[st[i]..e].to_vec();
                if !seg.ends_with(b"\n") {
                    seg.insert(0, b'\n');
                }
                let _ = b.splice(e..e, seg);
                e
            }
            Dmg::LineSwap(l) => {
                let st = line_starts(b);
                if st.len() < 3 {
                    return n;
                }
                let i = *l as usize % (st.len() - 2);
                let e = st.get(i + 2).copied().unwrap_or(n);
                let mut seg = b[st[i + 1]..e].to_vec();
                if !seg.ends_with(b"\n") {
                    seg.push(b'\n');
                }
                seg.extend_from_slice(&b[st[i]..st[i + 1]]);
                let _ = b.splice(st[i]..e, seg);
                st[i]
            }
            Dmg::LineIns(l, s) => {
                let st = line_starts(b);
                let i = *l as usize % st.len();
                let mut seg = latin1(s);
                seg.push(b'\n');
                let at = st[i];
                let _ = b.splice(at..at, seg);
                at
            }
        }
    }
}
