//! Executes one plan (in a forked child) and records its history.
use crate::arena;
use crate::cat::*;
use crate::plan::*;
use crate::sched;
use crate::seams::{self, lib, OutGuard};
use posim_hook::live;
use poreader::{comment::Comment, error::Error, note::Note, unit::Unit, CatalogueReader, Message, Origin, PoParser, PoReader};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Read;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering::*;

// ---------------------------------------------------------------------------------------- history

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct History {
    pub lanes: Vec<LaneHist>,
    pub trace: u64,
    pub sim_us: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub futex_waits: u64,
    /// atomic operations of library code (each one a scheduling point)
    pub atomics: u64,
    pub randoms: u64,
    pub stalls_lifted: u64,
    pub blocked_behind_stall: Vec<u32>,
    pub deadlock: Vec<u32>,
    pub choices: Vec<u32>,
    pub lib_allocs: u64,
    /// own steps, steps of the crates below, allocations, bytes requested, reads (only in the build for counting)
    #[serde(default)]
    pub work: Vec<u64>,
    /// library memory after each round (see Plan::rounds), everything dropped
    pub round_live: Vec<i64>,
    /// library memory at the very end
    pub final_live: i64,
    pub log: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct LaneHist {
    pub lane: u32,
    pub task: u32,
    pub nested: bool,
    pub opened: Option<bool>,
    pub open_err: Option<ESnap>,
    pub open_pos: Pos,
    pub header: Option<HSnap>,
    pub header_changed: Vec<(String, HSnap)>,
    pub items: Vec<Item>,
    pub units: u64,
    /// "end", "error", "abandoned", "source-panic", "panic: ..", "" (never finished)
    pub end: String,
    pub end_pos: Pos,
    pub post: Vec<String>,
    /// what the calls of Lane::drive brought
    #[serde(default)]
    pub driven: Vec<Driven>,
    pub mutated: Vec<(u32, String, USnap)>,
    pub sources: u32,
    pub src: SrcHist,
    /// peak of the library's memory in each 1/32 of a long stream
    pub mem: Vec<i64>,
    pub unit_max: u64,
    /// units of a long stream that are not what the model says: (what, index, expected, got), round numbers taken out
    #[serde(default)]
    pub wrong: Vec<(String, u64, USnap, USnap)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Driven {
    pub op: Drive,
    /// items consumed before
    pub at: u64,
    /// (index of the item if all is well, the item)
    pub got: Vec<(u64, Option<ItemV>)>,
    /// items left, as counted by the call
    pub count: Option<u64>,
    pub hint: Option<(u64, Option<u64>)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Pos {
    /// bytes supplied so far
    pub bytes: u64,
    /// bytes supplied before the latest read
    pub asked_at: u64,
    pub reads: u64,
    pub t: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Item {
    pub pos: Pos,
    pub v: ItemV,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ItemV {
    Unit(USnap),
    Err(ESnap),
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct ESnap {
    pub variant: String,
    pub line: u64,
    pub got: String,
    pub exp: String,
    pub display: String,
    pub debug: String,
    pub io_kind: String,
    pub os: Option<i32>,
    pub payload: Option<String>,
    /// Error::source leads to the same io::Error
    pub cause_ok: bool,
    /// after conversion into io::Error (the `?` of a function returning io::Result) the cause is still there
    #[serde(default)]
    pub conv_ok: bool,
    /// the text of that io::Error
    #[serde(default)]
    pub conv: String,
    /// the text of the source's error
    #[serde(default)]
    pub io_text: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct SrcHist {
    pub reads: u64,
    pub bytes: u64,
    pub drops: u32,
    pub reads_after_end: u64,
    pub fired: BTreeMap<String, u64>,
    pub terminal: bool,
    /// position of the terminal event that fired
    pub terminal_at: u64,
}

pub fn snap_err(e: &Error) -> ESnap {
    let mut s = ESnap { display: format!("{e}"), debug: format!("{e:?}"), ..ESnap::default() };
    match e {
        Error::Io(l, io) => {
            s.variant = "Io".into();
            s.line = *l as u64;
            s.io_kind = format!("{:?}", io.kind());
            s.os = io.raw_os_error();
            s.io_text = io.to_string();
            s.payload = io.get_ref().map(|p| match p.downcast_ref::<Payload>() {
                Some(p) => format!("payload:{}", p.0),
                None => format!("other:{p}"),
            });
            s.cause_ok = match std::error::Error::source(e).and_then(|c| c.downcast_ref::<std::io::Error>()) {
                Some(c) => c.kind() == io.kind() && c.raw_os_error() == io.raw_os_error() && c.to_string() == io.to_string(),
                None => false,
            };
        }
        Error::Parse(l, g, x) => {
            s.variant = "Parse".into();
            s.line = *l as u64;
            s.got = g.clone();
            s.exp = x.clone();
        }
        Error::Unexpected(l, m) => {
            s.variant = "Unexpected".into();
            s.line = *l as u64;
            s.got = m.clone();
        }
        Error::PluralForms(m) => {
            s.variant = "PluralForms".into();
            s.got = m.clone();
        }
    }
    s
}

/// Converts the error the way `?` does and looks for the source's own error in the result.
fn convert(e: Error, s: &mut ESnap) {
    let io: std::io::Error = lib(|| e.into());
    s.conv = format!("{io}");
    if s.variant != "Io" {
        return lib(|| drop(io));
    }
    let same = |c: &std::io::Error| {
        format!("{:?}", c.kind()) == s.io_kind
            && c.raw_os_error() == s.os
            && c.get_ref().map(|p| match p.downcast_ref::<Payload>() {
                Some(p) => format!("payload:{}", p.0),
                None => format!("other:{p}"),
            }) == s.payload
    };
    let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(&io);
    while let Some(c) = cur {
        match c.downcast_ref::<std::io::Error>() {
            Some(c) if same(c) => {
                s.conv_ok = true;
                break;
            }
            // an io::Error's source() is its payload's; the payload itself comes first
            Some(c) => cur = c.get_ref().map(|p| p as &(dyn std::error::Error + 'static)),
            None => cur = c.source(),
        }
    }
    lib(|| drop(io));
}

fn snap_msg(m: &Message, counts: &[u64]) -> MSnap {
    let mut s = MSnap {
        simple: lib(|| m.is_simple()),
        plural: lib(|| m.is_plural()),
        blank: lib(|| m.is_blank()),
        id: lib(|| m.get_id()).to_string(),
        text: lib(|| m.get_text()).to_string(),
        opt: None,
        pid: lib(|| m.get_plural_id()).map(String::from),
        vals: None,
        look: counts.iter().map(|c| lib(|| m.get_plural_text(*c as usize)).map(String::from)).collect(),
        forms: None,
    };
    if let Message::Simple { text, .. } = m {
        s.opt = text.clone();
    }
    if let Some(p) = lib(|| m.plural()) {
        s.vals = Some(lib(|| p.values()).clone());
        // the same answers through the other doors
        for (i, c) in counts.iter().enumerate() {
            let v = lib(|| p.get(*c as usize)).map(String::from);
            if v != s.look[i] {
                s.look[i] = Some(format!("get_plural_text and Plural::get differ: {:?} / {:?}", s.look[i], v));
            }
        }
        let doors = lib(|| {
            p.singular() == m.get_id()
                && Some(p.plural()) == m.get_plural_id()
                && p.first() == m.get_text()
                && p.is_blank() == m.is_blank()
        });
        if !doors {
            s.id = format!("Message and Plural differ: {:?} / {:?}", s, p);
        }
        if let Some(f) = lib(|| p.get_forms()) {
            s.forms = Some(Forms {
                count: lib(|| f.get_count()) as u64,
                definition: lib(|| f.get_definition()).to_string(),
                formula: lib(|| f.get_formula()).to_string(),
                look: counts.iter().map(|c| lib(|| f.get_value(*c as usize)).map(|v| v as u64)).collect(),
            });
        }
    }
    s
}

fn snap_notes(v: &[Note]) -> Vec<(char, String)> {
    v.iter()
        .map(|n| (if *n.origin() == Origin::Developer { 'D' } else { 'T' }, n.value().to_string()))
        .collect()
}
fn snap_comments(v: &[Comment]) -> Vec<(char, String)> {
    v.iter().map(|c| (c.kind(), c.comment().to_string())).collect()
}

pub fn snap_unit(u: &Unit, counts: &[u64]) -> USnap {
    let mut flags: Vec<String> = lib(|| u.flags()).iter().cloned().collect();
    flags.sort();
    USnap {
        ctx: lib(|| u.context()).map(String::from),
        msg: snap_msg(lib(|| u.message()), counts),
        pctx: lib(|| u.prev_context()).map(String::from),
        prev: snap_msg(lib(|| u.prev_message()), counts),
        flags,
        notes: snap_notes(lib(|| u.notes())),
        locs: lib(|| u.locations()).clone(),
        comments: snap_comments(lib(|| u.comments())),
        state: format!("{:?}", lib(|| u.state())),
        obsolete: lib(|| u.is_obsolete()),
        translated: lib(|| u.is_translated()),
    }
}

fn snap_header<R: Read>(r: &PoReader<R>) -> HSnap {
    let mut props: Vec<(String, String)> =
        lib(|| r.header_properties()).iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    props.sort();
    HSnap {
        lang: lib(|| r.target_language()).to_string(),
        notes: snap_notes(lib(|| r.header_notes())),
        comments: snap_comments(lib(|| r.header_comments())),
        props,
    }
}

// ----------------------------------------------------------------------------------------- source

pub struct SimPanic;
pub struct Runaway(&'static str);

/// In a catalogue that goes round and round, the digits of this text are the number of the round.
pub const ROUND: &str = "r000000r";

pub enum Data {
    Fixed(Vec<u8>),
    /// `marks`: where the body carries the number of the round (see `ROUND`)
    Cycle { head: Vec<u8>, body: Vec<u8>, len: u64, marks: Vec<usize> },
}

impl Data {
    pub fn len(&self) -> u64 {
        match self {
            Data::Fixed(v) => v.len() as u64,
            Data::Cycle { len, .. } => *len,
        }
    }
    fn copy(&self, pos: u64, out: &mut [u8]) {
        match self {
            Data::Fixed(v) => out.copy_from_slice(&v[pos as usize..pos as usize + out.len()]),
            Data::Cycle { head, body, marks, .. } => {
                let mut p = pos;
                let mut done = 0;
                while done < out.len() {
                    let rest: &[u8] = if p < head.len() as u64 {
                        &head[p as usize..]
                    } else {
                        &body[((p - head.len() as u64) % body.len() as u64) as usize..]
                    };
                    let k = rest.len().min(out.len() - done);
                    out[done..done + k].copy_from_slice(&rest[..k]);
                    if p >= head.len() as u64 && !marks.is_empty() {
                        let at = p - head.len() as u64;
                        let (round, off) = (at / body.len() as u64, (at % body.len() as u64) as usize);
                        let n = format!("{:06}", round % 1_000_000);
                        for m in &marks[marks.partition_point(|m| m + 6 <= off)..] {
                            if *m >= off + k {
                                break;
                            }
                            for i in 0..6 {
                                if m + i >= off && m + i < off + k {
                                    out[done + m + i - off] = n.as_bytes()[i];
                                }
                            }
                        }
                    }
                    done += k;
                    p += k as u64;
                }
            }
        }
    }
    /// The stored bytes of a lane, damage included.
    pub fn of(l: &Lane, salt: u32) -> Data {
        let mut d = Data::stored(l, salt);
        if let (Data::Fixed(v), true) = (&mut d, l.lead > 0) {
            let _ = v.splice(0..0, std::iter::repeat_n(b'\n', l.lead as usize));
        }
        d
    }
    fn stored(l: &Lane, salt: u32) -> Data {
        match &l.src {
            Src::Cat(c) => {
                let mut b = if salt > 0 { c.salted(salt).render().bytes } else { c.render().bytes };
                for d in &l.dmg {
                    d.apply(&mut b);
                }
                Data::Fixed(b)
            }
            Src::Raw(s) => {
                let mut b = latin1(s);
                if salt > 0 {
                    b.extend_from_slice(format!("\n# {salt:03}\n").as_bytes());
                }
                for d in &l.dmg {
                    d.apply(&mut b);
                }
                Data::Fixed(b)
            }
            Src::Rep(rep) => {
                let mut b = rep.text().into_bytes();
                if salt > 0 {
                    b.extend_from_slice(format!("\n# {salt:03}\n").as_bytes());
                }
                Data::Fixed(b)
            }
            Src::Cycle(c, total) => {
                let mut h = c.clone();
                h.entries.clear();
                h.tail.clear();
                h.style.no_final_nl = false;
                let mut b = c.clone();
                b.header = None;
                b.style.no_final_nl = false;
                let (head, body) = (h.render().bytes, b.render().bytes);
                if body.is_empty() {
                    return Data::Fixed(head);
                }
                let k = (total / body.len() as u64).max(1);
                let len = head.len() as u64 + k * body.len() as u64;
                let marks = body.windows(8).enumerate().filter(|(_, w)| *w == ROUND.as_bytes()).map(|(i, _)| i + 1).collect();
                Data::Cycle { head, body, len, marks }
            }
        }
    }
}

struct SrcState {
    h: SrcHist,
    pos: u64,
    asked_at: u64,
    ev: usize,
    sub: u32,
    ended: bool,
    forced: Option<After>,
    idle: u32,
    was_intr: bool,
}

pub struct SimSource<'a> {
    st: Rc<RefCell<SrcState>>,
    data: Rc<Data>,
    spec: &'a Lane,
    evs: Vec<Ev>,
    /// where reads end, sorted
    cuts: Vec<u64>,
    ctx: Ctx<'a>,
}

impl Drop for SimSource<'_> {
    fn drop(&mut self) {
        self.st.borrow_mut().h.drops += 1;
    }
}

impl SimSource<'_> {
    fn fired(&self, name: &str) {
        *self.st.borrow_mut().h.fired.entry(name.to_string()).or_default() += 1;
    }

    fn fail(&self, e: std::io::Error) -> std::io::Result<usize> {
        self.idle();
        Err(e)
    }

    /// counts reads that bring nothing new; a reader that goes on for ever is stopped here
    fn idle(&self) {
        let mut st = self.st.borrow_mut();
        st.idle += 1;
        if st.idle > 20_000 {
            drop(st);
            resume_unwind(Box::new(Runaway("the source is read again and again after its end or failure")));
        }
    }

    fn step(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        sched::yield_point("read");
        {
            let mut st = self.st.borrow_mut();
            st.h.reads += 1;
            st.asked_at = st.pos;
            if st.ended {
                st.h.reads_after_end += 1;
            }
        }
        let (reads, forced) = {
            let st = self.st.borrow();
            (st.h.reads, st.forced)
        };
        match forced {
            Some(After::Eof) => {
                self.idle();
                return Ok(0);
            }
            Some(After::OtherErr) => {
                return self.fail(std::io::Error::new(std::io::ErrorKind::Other, Payload("later error".into())));
            }
            _ => (),
        }
        let d = &self.spec.del;
        if d.intr_every >= 2 && reads % d.intr_every as u64 == 0 && !self.st.borrow().was_intr {
            self.st.borrow_mut().was_intr = true;
            self.fired("interrupted_read");
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        self.st.borrow_mut().was_intr = false;
        if d.delay_every.0 > 0 && reads % d.delay_every.0 as u64 == 0 {
            self.fired("delayed_read");
            sched::sleep(d.delay_every.1);
        }
        let len = self.data.len();
        loop {
            let (pos, ev) = {
                let st = self.st.borrow();
                (st.pos, st.ev)
            };
            let Some(e) = self.evs.get(ev) else { break };
            if e.at.min(len) > pos {
                break;
            }
            match &e.k {
                EvK::Intr(n) => {
                    let mut st = self.st.borrow_mut();
                    if st.sub < *n {
                        st.sub += 1;
                        drop(st);
                        self.fired("interrupted_read");
                        let os = self.evs[ev].at % 2 == 0;
                        return Err(if os {
                            std::io::Error::from_raw_os_error(libc::EINTR)
                        } else {
                            std::io::Error::from(std::io::ErrorKind::Interrupted)
                        });
                    }
                    st.sub = 0;
                    st.ev += 1;
                }
                EvK::Delay(us) => {
                    let us = *us;
                    self.st.borrow_mut().ev += 1;
                    self.fired("delayed_read");
                    sched::sleep(us);
                }
                EvK::Stall => {
                    self.st.borrow_mut().ev += 1;
                    self.fired("stall");
                    sched::stall();
                }
                EvK::Reenter(i) => {
                    let i = *i;
                    self.st.borrow_mut().ev += 1;
                    self.fired("reentrant_parse");
                    run_nested(&self.ctx, i);
                }
                EvK::Panic => {
                    let at = self.st.borrow().pos;
                    {
                        let mut st = self.st.borrow_mut();
                        st.ev += 1;
                        st.h.terminal = true;
                        st.h.terminal_at = at;
                        st.forced = Some(After::Eof);
                    }
                    self.fired("source_panic");
                    resume_unwind(Box::new(SimPanic));
                }
                EvK::Err(..) | EvK::Eof(_) => {
                    let after = match &e.k {
                        EvK::Err(_, a) | EvK::Eof(a) => *a,
                        _ => unreachable!(),
                    };
                    {
                        let mut st = self.st.borrow_mut();
                        if !st.h.terminal {
                            st.h.terminal = true;
                            st.h.terminal_at = pos;
                        }
                        match after {
                            After::Same => (),
                            After::Resume => st.ev += 1,
                            a => st.forced = Some(a),
                        }
                    }
                    self.fired(e.k.name());
                    return match &e.k {
                        EvK::Err(s, _) => {
                            let e = s.make();
                            self.fail(e)
                        }
                        _ => {
                            self.idle();
                            Ok(0)
                        }
                    };
                }
            }
        }
        let pos = self.st.borrow().pos;
        let mut n = (buf.len() as u64).min(len - pos);
        if !d.sizes.is_empty() {
            n = n.min(d.sizes[(reads as usize - 1) % d.sizes.len()].max(1) as u64);
        }
        if let Some(c) = self.cuts.get(self.cuts.partition_point(|c| *c <= pos)) {
            n = n.min(c - pos);
        }
        if let Some(e) = self.evs.get(self.st.borrow().ev) {
            n = n.min((e.at - pos).max(1));
        }
        if buf.is_empty() || n == 0 {
            if !buf.is_empty() {
                self.idle();
            }
            return Ok(0);
        }
        if n < (buf.len() as u64).min(len - pos) {
            self.fired("short_read");
        }
        self.data.copy(pos, &mut buf[..n as usize]);
        let mut st = self.st.borrow_mut();
        st.pos += n;
        st.h.bytes = st.pos;
        st.idle = 0;
        if st.pos > 96 << 20 {
            drop(st);
            resume_unwind(Box::new(Runaway("an endless source is read for ever")));
        }
        Ok(n as usize)
    }
}

const SCRATCH: &[u8] = b"\"\nmsgid \"scratch\"\nmsgstr \"\xff\"\n\n";

impl Read for SimSource<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let _o = OutGuard::enter();
        let r = self.step(buf);
        // a source may use the rest of the buffer as scratch space
        let used = *r.as_ref().unwrap_or(&0);
        for (b, c) in buf[used..].iter_mut().zip(SCRATCH) {
            *b = *c;
        }
        let code = match &r {
            Ok(n) => *n as u64,
            Err(_) => u64::MAX,
        };
        sched::trace("read", code);
        r
    }
}

// ------------------------------------------------------------------------------------------ lanes

#[derive(Clone)]
struct Ctx<'a> {
    plan: &'a Plan,
    task: u32,
    salt: u32,
    depth: u32,
    parser: *const PoParser,
    sink: Rc<RefCell<Vec<LaneHist>>>,
    /// the source may switch tasks, stall and so on only where the plan says so
    _p: (),
}

struct Held {
    unit: Unit,
    clone: Option<Unit>,
    snap: USnap,
    idx: u32,
}

struct LaneRun<'p> {
    spec: &'p Lane,
    reader: Option<PoReader<'p, SimSource<'p>>>,
    st: Rc<RefCell<SrcState>>,
    data: Rc<Data>,
    h: LaneHist,
    /// a round of a long stream by the model, also as text
    model: Vec<(USnap, String)>,
    held: Vec<Held>,
    phase: u8, // 0 new, 1 open, 2 ended, 3 finished
    left: u32,
    ops: usize,
    used: u64,
}

type Res = Result<Unit, Error>;

/// What one call of Lane::drive brings.
#[derive(Default)]
struct Got {
    items: Vec<(u64, Option<Res>)>,
    count: Option<u64>,
    hint: Option<(usize, Option<usize>)>,
    /// items consumed (as far as the caller can tell)
    used: u64,
    over: bool,
}

impl Got {
    fn put(&mut self, skipped: u64, v: Option<Res>) {
        self.over |= v.is_none();
        self.items.push((self.used + skipped, v));
        self.used += skipped + 1;
    }
}

fn terminal_op(op: Drive) -> bool {
    use Drive::*;
    matches!(op, Count | Last | Fold | Collect | CollectResult | ForEach | DynCount | Chain)
}

/// Calls that leave the reader usable.
fn drive_ref<R: Read>(r: &mut PoReader<R>, op: Drive) -> Got {
    let mut g = Got::default();
    match op {
        Drive::Hint => g.hint = Some(r.size_hint()),
        Drive::Nth(k) => {
            let v = r.nth(k as usize);
            g.put(k as u64, v);
        }
        Drive::Take(k) => {
            let v: Vec<Res> = r.by_ref().take(k as usize).collect();
            let short = v.len() < k as usize;
            v.into_iter().for_each(|v| g.put(0, Some(v)));
            if short {
                g.put(0, None);
            }
        }
        Drive::Skip(k) => {
            let v = r.by_ref().skip(k as usize).next();
            g.put(k as u64, v);
        }
        Drive::Step(k, n) => {
            let k = k.max(1) as u64;
            let v: Vec<Res> = r.by_ref().step_by(k as usize).take(n as usize).collect();
            let short = v.len() < n as usize;
            for (i, v) in v.into_iter().enumerate() {
                g.put(if i == 0 { 0 } else { k - 1 }, Some(v));
            }
            if short {
                g.put(if g.items.is_empty() { 0 } else { k - 1 }, None);
            }
        }
        Drive::Peek(n) => {
            let mut p = r.by_ref().peekable();
            for _ in 0..n {
                let there = p.peek().is_some();
                let v = p.next();
                if there != v.is_some() {
                    g.count = Some(u64::MAX); // never right
                }
                g.put(0, v);
                if g.over {
                    break;
                }
            }
        }
        Drive::Find(k) => {
            let mut i = 0;
            let v = r.find(|_| {
                i += 1;
                i > k
            });
            g.put(k as u64, v);
        }
        Drive::Position(k) => {
            let mut i = 0;
            let at = r.position(|_| {
                i += 1;
                i > k
            });
            match at {
                Some(p) if p == k as usize => g.used = k as u64 + 1,
                Some(_) => g.count = Some(u64::MAX),
                None => g.put(k as u64, None),
            }
        }
        Drive::TryFold(k) => {
            let mut v: Vec<Res> = vec![];
            let r = r.try_fold(0, |n, x| {
                v.push(x);
                if n == k {
                    Err(())
                } else {
                    Ok(n + 1)
                }
            });
            v.into_iter().for_each(|v| g.put(0, Some(v)));
            if r.is_ok() {
                g.put(0, None);
            }
        }
        Drive::Dyn(n) => {
            let d: &mut dyn CatalogueReader = r;
            for _ in 0..n.max(1) {
                let v = d.next();
                g.put(0, v);
                if g.over {
                    break;
                }
            }
        }
        Drive::DynNth(k) => {
            let d: &mut dyn CatalogueReader = r;
            g.hint = Some(d.size_hint());
            let v = d.nth(k as usize);
            g.put(k as u64, v);
        }
        _ => {
            let v = r.next();
            g.put(0, v);
        }
    }
    g
}

/// Calls that use the reader up.
fn drive_own<'x, R: Read + 'x>(r: PoReader<'x, R>, op: Drive) -> Got {
    let mut g = Got::default();
    match op {
        Drive::Count => g.count = Some(r.count() as u64),
        Drive::DynCount => {
            let d: Box<dyn CatalogueReader + 'x> = Box::new(r);
            g.count = Some(d.count() as u64);
        }
        Drive::Last => {
            // the index is known only to the oracle
            let v = r.last();
            g.items.push((u64::MAX, v));
        }
        Drive::Fold => {
            let v = r.fold(vec![], |mut v, x| {
                v.push(x);
                v
            });
            v.into_iter().for_each(|v| g.put(0, Some(v)));
            g.put(0, None);
        }
        Drive::ForEach => {
            r.for_each(|v| g.put(0, Some(v)));
            g.put(0, None);
        }
        Drive::Chain => {
            let v: Vec<Res> = r.chain(std::iter::empty()).fuse().collect();
            v.into_iter().for_each(|v| g.put(0, Some(v)));
            g.put(0, None);
        }
        Drive::CollectResult => match r.collect::<Result<Vec<Unit>, Error>>() {
            Ok(v) => {
                v.into_iter().for_each(|v| g.put(0, Some(Ok(v))));
                g.put(0, None);
            }
            // the first error, which is the last item
            Err(e) => g.items.push((u64::MAX, Some(Err(e)))),
        },
        _ => {
            let v: Vec<Res> = r.collect();
            v.into_iter().for_each(|v| g.put(0, Some(v)));
            g.put(0, None);
        }
    }
    g.over = true;
    g
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _o = OutGuard::enter();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if seams::TLS.with(|t| t.task.get()) == 0 {
            eprintln!("posim: internal panic: {msg} ({loc})");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} ({loc})"));
    }));
}

enum Call<T> {
    Ok(T),
    SourcePanic,
    Panic(String),
}

fn call<T>(f: impl FnOnce() -> T) -> Call<T> {
    match catch_unwind(AssertUnwindSafe(|| lib(f))) {
        Ok(v) => Call::Ok(v),
        Err(p) => {
            if p.is::<SimPanic>() {
                Call::SourcePanic
            } else if let Some(r) = p.downcast_ref::<Runaway>() {
                Call::Panic(format!("runaway: {}", r.0))
            } else {
                Call::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
            }
        }
    }
}

/// Without what the model says nothing about.
fn modelled(mut u: USnap, want: &USnap) -> USnap {
    (u.msg.forms, u.prev.forms) = (None, None);
    u.prev.look.clear();
    if want.msg.look.is_empty() {
        u.msg.look.clear();
    }
    u
}

impl<'p> LaneRun<'p> {
    fn new(spec: &'p Lane, idx: u32, nested: bool, ctx: &Ctx<'p>) -> LaneRun<'p> {
        LaneRun {
            spec,
            reader: None,
            st: Rc::new(RefCell::new(SrcState {
                h: SrcHist::default(),
                pos: 0,
                asked_at: 0,
                ev: 0,
                sub: 0,
                ended: false,
                forced: None,
                idle: 0,
                was_intr: false,
            })),
            data: Rc::new(Data::of(spec, ctx.salt)),
            h: LaneHist { lane: idx, task: ctx.task, nested, ..LaneHist::default() },
            model: match &spec.src {
                Src::Cycle(c, _) if spec.long => {
                    let one = |e: &Entry| {
                        let mut u = c.expect(e);
                        u.msg.look = c.expect_look(e, &spec.counts);
                        let u = modelled(u.clone(), &u);
                        let s = serde_json::to_string(&u).unwrap();
                        (u, s)
                    };
                    c.entries.iter().map(one).collect()
                }
                _ => vec![],
            },
            held: vec![],
            phase: 0,
            left: spec.take.unwrap_or(u32::MAX),
            ops: 0,
            used: 0,
        }
    }

    fn pos(&self) -> Pos {
        let st = self.st.borrow();
        Pos { bytes: st.pos, asked_at: st.asked_at, reads: st.h.reads, t: sched::now_us() }
    }

    fn check_header(&mut self, when: &str) {
        if self.spec.light {
            return;
        }
        if let (Some(r), Some(h)) = (&self.reader, &self.h.header) {
            let now = snap_header(r);
            if now != *h && self.h.header_changed.len() < 3 {
                self.h.header_changed.push((when.to_string(), now));
            }
        }
    }

    fn look_again(&mut self, when: &str, which: Option<usize>) {
        for (i, held) in self.held.iter().enumerate() {
            if which.is_some_and(|w| w != i) || self.h.mutated.len() >= 3 {
                continue;
            }
            let mut s = snap_unit(&held.unit, &self.spec.counts);
            if s == held.snap {
                if let Some(c) = &held.clone {
                    s = snap_unit(c, &self.spec.counts);
                }
            }
            if s != held.snap {
                self.h.mutated.push((held.idx, when.to_string(), s));
            }
        }
    }

    fn drop_reader(&mut self) {
        if let Some(r) = self.reader.take() {
            if let Call::Panic(m) = call(move || drop(r)) {
                self.h.end = format!("panic: {m}");
            }
        }
    }

    fn finish_end(&mut self, end: &str) {
        self.h.end = end.to_string();
        self.h.end_pos = self.pos();
        self.phase = if end == "end" || end == "error" { 2 } else { 3 };
        if self.phase == 2 {
            self.st.borrow_mut().ended = true;
        }
        sched::trace(end.split(':').next().unwrap(), self.h.units);
    }

    /// One API call.
    fn step(&mut self, ctx: &Ctx<'p>) {
        sched::yield_point("call");
        match self.phase {
            0 => {
                let src = SimSource {
                    st: self.st.clone(),
                    data: self.data.clone(),
                    spec: self.spec,
                    cuts: {
                        let mut c = self.spec.del.cuts.clone();
                        c.iter_mut().for_each(|c| *c += self.spec.lead as u64);
                        c.sort();
                        c
                    },
                    evs: {
                        let mut e = self.spec.del.events.clone();
                        e.iter_mut().for_each(|e| e.at = e.at.saturating_add(self.spec.lead as u64));
                        e.sort_by_key(|e| e.at);
                        e
                    },
                    ctx: ctx.clone(),
                };
                self.h.sources += 1;
                let parser: &'p PoParser = unsafe { &*ctx.parser };
                let r = call(move || parser.parse(src));
                self.h.open_pos = self.pos();
                match r {
                    Call::Ok(Ok(r)) => {
                        self.h.opened = Some(true);
                        self.reader = Some(r);
                        if !self.spec.light {
                            self.h.header = self.reader.as_ref().map(snap_header);
                        }
                        self.phase = 1;
                        sched::trace("open", 1);
                        if self.left == 0 {
                            self.finish_end("abandoned");
                        }
                    }
                    Call::Ok(Err(e)) => {
                        self.h.opened = Some(false);
                        let mut s = snap_err(&e);
                        convert(e, &mut s);
                        self.h.open_err = Some(s);
                        self.finish_end("error");
                    }
                    Call::SourcePanic => self.finish_end("source-panic"),
                    Call::Panic(m) => self.finish_end(&format!("panic: {m}")),
                }
            }
            1 if !self.spec.drive.is_empty() => self.drive(),
            1 => {
                let reader = self.reader.as_mut().unwrap();
                let r = call(|| reader.next());
                let pos = self.pos();
                match r {
                    Call::Ok(None) => {
                        self.check_header("at the end");
                        self.finish_end("end");
                    }
                    Call::Ok(Some(Ok(u))) => {
                        self.h.units += 1;
                        sched::trace("unit", self.h.units);
                        if self.spec.long && !self.model.is_empty() {
                            let k = self.h.units - 1;
                            let s = match catch_unwind(AssertUnwindSafe(|| snap_unit(&u, &self.spec.counts))) {
                                Ok(s) => s,
                                Err(_) => {
                                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                                    return self.finish_end(&format!("panic: in a lookup: {m}"));
                                }
                            };
                            let n = self.model.len() as u64;
                            let (want, text) = &self.model[(k % n) as usize];
                            let round = format!("r{:06}r", k / n % 1_000_000);
                            let s = serde_json::to_string(&modelled(s, want)).unwrap().replace(&round, ROUND);
                            if s != *text {
                                let got: USnap = serde_json::from_str(&s).unwrap();
                                for what in want.unlike(&got) {
                                    if !self.h.wrong.iter().any(|w| w.0 == what) {
                                        self.h.wrong.push((what.into(), k, want.clone(), got.clone()));
                                    }
                                }
                            }
                        }
                        if self.spec.light {
                            let before = live();
                            lib(|| drop(u));
                                                        let k = (pos.bytes * 32 / self.data.len().max(1)).min(31) as usize;
                            let now = live();
                            if self.h.mem.len() <= k {
                                self.h.mem.resize(k + 1, now);
                            }
                            self.h.mem[k] = self.h.mem[k].max(now);
                            self.h.unit_max = self.h.unit_max.max((before - now).max(0) as u64);
                        } else {
                            let snap = match catch_unwind(AssertUnwindSafe(|| snap_unit(&u, &self.spec.counts))) {
                                Ok(s) => s,
                                Err(_) => {
                                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                                    return self.finish_end(&format!("panic: in a lookup: {m}"));
                                }
                            };
                            self.h.items.push(Item { pos, v: ItemV::Unit(snap.clone()) });
                            if self.spec.hold {
                                let clone = if self.spec.clones { Some(lib(|| u.clone())) } else { None };
                                self.held.push(Held { unit: u, clone, snap, idx: self.h.units as u32 - 1 });
                                let n = self.held.len() as u32;
                                let k = sched::choose(n, 500);
                                self.look_again("during the iteration", Some(k as usize));
                            } else {
                                lib(|| drop(u));
                            }
                            self.check_header("during the iteration");
                        }
                        self.left -= 1;
                        if self.left == 0 {
                            self.finish_end("abandoned");
                        }
                    }
                    Call::Ok(Some(Err(e))) => {
                        let mut s = snap_err(&e);
                        convert(e, &mut s);
                        self.h.items.push(Item { pos, v: ItemV::Err(s) });
                        self.check_header("after a failure");
                        self.finish_end("error");
                    }
                    Call::SourcePanic => self.finish_end("source-panic"),
                    Call::Panic(m) => self.finish_end(&format!("panic: {m}")),
                }
            }
            2 => {
                // further requests after the end
                if let Some(reader) = self.reader.as_mut() {
                    for _ in 0..self.spec.post {
                        let what = match call(|| reader.next()) {
                            Call::Ok(None) => "none".to_string(),
                            Call::Ok(Some(Ok(u))) => {
                                let id = u.message().get_id().to_string();
                                lib(|| drop(u));
                                format!("unit {id}")
                            }
                            Call::Ok(Some(Err(e))) => format!("error {}", snap_err(&e).display),
                            Call::SourcePanic => "source panic".into(),
                            Call::Panic(m) => format!("panic {m}"),
                        };
                        self.h.post.push(what);
                    }
                    self.check_header("after further requests");
                }
                self.phase = 3;
            }
            _ => {
                if self.spec.reader_last {
                    self.look_again("before the reader was dropped", None);
                } else {
                    self.drop_reader();
                    self.look_again("after the reader was dropped", None);
                }
                self.phase = 4;
            }
        }
    }

    fn drive(&mut self) {
        let op = self.spec.drive[self.ops % self.spec.drive.len()];
        self.ops += 1;
        let mut reader = self.reader.take().unwrap();
        if op == Drive::Move || self.ops % 5 == 0 {
            // another address, and something else where it was
            let mut b = lib(|| Box::new(reader));
            let mut list = lib(|| Vec::with_capacity(2));
            let r = call(|| b.next());
            match r {
                Call::Ok(v) => {
                    lib(|| list.push(*b));
                    reader = list.pop().unwrap();
                    let mut g = Got::default();
                    g.put(0, v);
                    self.reader = Some(reader);
                    return self.driven(Drive::Move, g);
                }
                Call::SourcePanic => return self.finish_end("source-panic"),
                Call::Panic(m) => return self.finish_end(&format!("panic: {m}")),
            }
        }
        let r = if terminal_op(op) {
            call(move || drive_own(reader, op))
        } else {
            let r = call(|| drive_ref(&mut reader, op));
            self.reader = Some(reader);
            r
        };
        match r {
            Call::Ok(g) => self.driven(op, g),
            Call::SourcePanic => self.finish_end("source-panic"),
            Call::Panic(m) => self.finish_end(&format!("panic: in {op:?}: {m}")),
        }
    }

    fn driven(&mut self, op: Drive, g: Got) {
        let snap = |v: &Res| match v {
            Ok(u) => ItemV::Unit(snap_unit(u, &self.spec.counts)),
            Err(e) => ItemV::Err(snap_err(e)),
        };
        let got = g.items.iter().map(|(i, v)| (i.saturating_add(self.used), v.as_ref().map(snap))).collect();
        self.h.driven.push(Driven {
            op,
            at: self.used,
            got,
            count: g.count,
            hint: g.hint.map(|(a, b)| (a as u64, b.map(|b| b as u64))),
        });
        self.used += g.used;
        self.h.units = self.used;
        sched::trace("driven", self.used);
        self.check_header("during the iteration");
        let over = g.over;
        lib(move || drop(g));
        if over {
            self.finish_end("end");
        }
    }

    fn run(&mut self, ctx: &Ctx<'p>) {
        while self.phase < 4 && !sched::is_stopped() {
            self.step(ctx);
        }
    }

    /// Everything of this lane is gone afterwards.
    fn close(mut self) -> LaneHist {
        let held = std::mem::take(&mut self.held);
        if let Call::Panic(m) = call(move || drop(held)) {
            self.h.end = format!("panic: while units were dropped: {m}");
        }
        self.drop_reader();
        let st = self.st.borrow();
        self.h.src = st.h.clone();
        drop(st);
        self.h
    }
}

fn run_nested(ctx: &Ctx, i: u32) {
    if ctx.depth >= 3 || ctx.plan.nested.is_empty() {
        return;
    }
    let i = i as usize % ctx.plan.nested.len();
    // inner lanes may only nest into later ones
    let inner = Ctx { depth: ctx.depth + 1, ..ctx.clone() };
    let id = ctx.plan.tasks.iter().map(|t| t.lanes.len()).sum::<usize>() + i;
    let mut l = LaneRun::new(&ctx.plan.nested[i], id as u32, true, &inner);
    l.run(&inner);
    let h = l.close();
    ctx.sink.borrow_mut().push(h);
}

// ------------------------------------------------------------------------------------------ tasks

struct ParserRef(*const PoParser);
unsafe impl Sync for ParserRef {}
unsafe impl Send for ParserRef {}

/// One of everything, so that tables made on first use are there.
const WARM: &str = "# a\n#. b\n#: c:1\n#, fuzzy\nmsgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\\t\\\"\"\nmsgstr[0] \"é\"\nmsgstr[1] \"\"\n\n#~ msgid \"c\"\n#~ msgstr \"d\"\n\n?\n";

/// The work done before the part that is measured.
static WORK0: std::sync::Mutex<[u64; 4]> = std::sync::Mutex::new([0; 4]);

fn warm_up(p: &PoParser) {
    lib(|| {
        if let Ok(r) = p.parse(WARM.as_bytes()) {
            r.for_each(drop);
        }
    })
}

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSync for Probe<T> {}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
/// Whether a parser can be shared by reference between threads (decided by the compiler).
pub const PARSER_SYNC: bool = <Probe<PoParser>>::SYNC;

fn run_task<'p>(plan: &'p Plan, id: usize, shared: *const PoParser, out: &mut Vec<LaneHist>, round_live: &mut Vec<i64>) {
    let task = &plan.tasks[id];
    let base: usize = plan.tasks[..id].iter().map(|t| t.lanes.len()).sum();
    let rounds = plan.rounds.max(1);
    for round in 0..rounds {
        let own: Option<PoParser> = if task.shared && !shared.is_null() { None } else { Some(lib(PoParser::new)) };
        let own = own.map(Box::new);
        if plan.grow.is_some() && round == 0 {
            warm_up(own.as_ref().map_or_else(|| unsafe { &*shared }, |p| p));
            *WORK0.lock().unwrap() = posim_hook::work();
        }
        let sink = Rc::new(RefCell::new(vec![]));
        let ctx = Ctx {
            plan,
            task: id as u32,
            salt: if plan.rounds > 0 { round + 1 } else { 0 },
            depth: 0,
            parser: own.as_ref().map_or(shared, |p| &**p as *const PoParser),
            sink: sink.clone(),
            _p: (),
        };
        let mut lanes: Vec<LaneRun<'p>> = vec![];
        if task.sequential {
            for (k, l) in task.lanes.iter().enumerate() {
                let mut run = LaneRun::new(l, (base + k) as u32, false, &ctx);
                run.run(&ctx);
                lanes.push(run);
            }
        } else {
            lanes = task
                .lanes
                .iter()
                .enumerate()
                .map(|(k, l)| LaneRun::new(l, (base + k) as u32, false, &ctx))
                .collect();
            loop {
                let live: Vec<usize> = (0..lanes.len()).filter(|i| lanes[*i].phase < 4).collect();
                if live.is_empty() || sched::is_stopped() {
                    break;
                }
                let k = sched::choose(live.len() as u32, 1000 / live.len() as u32) as usize;
                lanes[live[k]].step(&ctx);
            }
        }
        // the readers go, then the parser, then the units
        let mut rest = vec![];
        for mut l in lanes {
            if !l.spec.reader_last {
                l.drop_reader();
                rest.push(l);
            } else {
                let held = std::mem::take(&mut l.held);
                lib(|| drop(held));
                l.drop_reader();
                rest.push(l);
            }
        }
        lib(|| drop(own));
        for l in &mut rest {
            l.look_again("after the parser was dropped", None);
        }
        let mut hists: Vec<LaneHist> = rest.into_iter().map(LaneRun::close).collect();
        hists.append(&mut sink.borrow_mut());
        if plan.rounds > 0 {
            round_live.push(live());
            // every round must release its sources
            if round + 1 < rounds {
                if let Some(h) = hists.iter().find(|h| h.src.drops != h.sources) {
                    out.push(h.clone());
                }
                continue;
            }
        }
        out.append(&mut hists);
    }
}

fn wait_done(cpu_ms: u64) -> Result<bool, ()> {
    loop {
        match sched::ALL_DONE.load(SeqCst) {
            1 => return Ok(true),
            2 => return Ok(false),
            _ => (),
        }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 50_000_000 };
        unsafe {
            seams::raw(
                libc::SYS_futex,
                sched::ALL_DONE.as_ptr() as i64,
                (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64,
                0,
                &ts as *const _ as i64,
                0,
                0,
            );
            let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
            seams::raw(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID as i64, &mut t as *mut _ as i64, 0, 0, 0, 0);
            if t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000 > cpu_ms {
                return Err(());
            }
        }
    }
}

struct Out(RefCell<Vec<(usize, Vec<LaneHist>, Vec<i64>)>>);
unsafe impl Sync for Out {}

/// Runs the plan. Err: the run was ended from outside (no progress within the CPU limit).
pub fn run(plan: &'static Plan, keep_log: bool) -> Result<History, String> {
    seams::HASH_SEED.store(plan.hash_seed, SeqCst);
    posim_hook::set_limit(1 << 30);
    let cpu = if plan.cpu_ms > 0 { plan.cpu_ms } else { 15_000 };
    // a parser for everybody, made inside the simulation as well
    let n = plan.tasks.len();
    let mut shared: *const PoParser = std::ptr::null();
    let want = plan.tasks.iter().filter(|t| t.shared).count();
    if want > 1 && PARSER_SYNC || want == 1 {
        static PTR: std::sync::atomic::AtomicPtr<PoParser> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
        sched::init(1, 0, 1000, Some(vec![]), vec![vec![]], false);
        arena::spawn(
            0,
            || {
                sched::task_begin(0);
                let p = lib(|| Box::new(PoParser::new()));
                PTR.store(Box::into_raw(p), SeqCst);
                sched::task_end();
            },
        );
        sched::start();
        wait_done(cpu).map_err(|_| "hang".to_string())?;
        sched::finish();
        shared = PTR.load(SeqCst);
    }
    let sp = &plan.sched;
    sched::init(n, sp.seed, sp.stick, sp.list.clone(), plan.tasks.iter().map(|t| t.gaps.clone()).collect(), keep_log);
    let out: &'static Out = Box::leak(Box::new(Out(RefCell::new(vec![]))));
    for id in 0..n {
        let sref = ParserRef(shared);
        arena::spawn(
            id + 1,
            move || {
                let sref = sref;
                sched::task_begin(id);
                let mut lanes = vec![];
                let mut live = vec![];
                let shared = sref.0;
                if let Err(p) = catch_unwind(AssertUnwindSafe(|| run_task(plan, id, shared, &mut lanes, &mut live))) {
                    let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default();
                    lanes.push(LaneHist {
                        task: id as u32,
                        lane: u32::MAX,
                        end: format!("panic: {} {}", LAST_PANIC.with(|p| p.borrow().clone()), msg),
                        ..LaneHist::default()
                    });
                }
                out.0.borrow_mut().push((id, lanes, live));
                sched::task_end();
            },
        );
    }
    sched::start();
    let r = wait_done(cpu);
    if r.is_err() {
        return Err("hang".into());
    }
    let mut res = std::mem::take(&mut *out.0.borrow_mut());
    res.sort_by_key(|x| x.0);
    let mut h = History::default();
    for (_, lanes, live) in res {
        h.lanes.extend(lanes);
        h.round_live.extend(live);
    }
    h.lanes.sort_by_key(|l| l.lane);
    let sc = sched::finish();
    h.trace = sc.trace;
    h.sim_us = sc.now();
    h.steps = sc.stats.steps;
    h.switches = sc.stats.switches;
    h.preempts = sc.stats.preempts;
    h.futex_waits = sc.stats.futex_waits;
    h.atomics = sc.stats.atomics;
    h.randoms = sc.stats.randoms;
    h.stalls_lifted = sc.stats.stalls_lifted;
    h.blocked_behind_stall = sc.stats.blocked_behind_stall;
    h.deadlock = sc.stats.deadlock;
    h.choices = sc.choices;
    h.log = sc.log.unwrap_or_default();
    h.lib_allocs = posim_hook::lib_allocs();
    if plan.grow.is_some() && posim_hook::counting() {
        let (w, w0) = (posim_hook::work(), *WORK0.lock().unwrap());
        h.work = w.iter().zip(w0).map(|(a, b)| a - b).collect();
        h.work.push(h.lanes.iter().map(|l| l.src.reads).sum());
    }
    if !shared.is_null() {
        // not a simulated task any more: only memory accounting matters here
        drop(unsafe { Box::from_raw(shared as *mut PoParser) });
    }
    h.final_live = live();
    Ok(h)
}
