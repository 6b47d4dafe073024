//! The properties, as checks over the history of a run (and, for differential ones, of a second run).
use crate::cat::*;
use crate::child::Outcome;
use crate::exec::*;
use crate::plan::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

fn viol<T>(class: &str, detail: String) -> Result<T, Viol> {
    Err(Viol { class: class.into(), detail })
}

pub type Probes = BTreeMap<String, u64>;

/// What a check learned besides the verdict.
#[derive(Default)]
pub struct Facts {
    /// the run put the property to the test
    pub nontrivial: bool,
    pub probes: Probes,
}
impl Facts {
    pub fn hit(&mut self, p: &str) {
        *self.probes.entry(p.to_string()).or_default() += 1;
    }
}

// ------------------------------------------------------------------------------- plan transformations

pub fn lane_of<'a>(plan: &'a Plan, id: u32) -> Option<&'a Lane> {
    let mut i = id as usize;
    for t in &plan.tasks {
        if i < t.lanes.len() {
            return Some(&t.lanes[i]);
        }
        i -= t.lanes.len();
    }
    plan.nested.get(i)
}

fn all_lanes(plan: &Plan) -> Vec<Lane> {
    plan.tasks.iter().flat_map(|t| t.lanes.iter().cloned()).chain(plan.nested.iter().cloned()).collect()
}

/// Every lane alone: own parser, own task, one after another. Lane numbers are kept.
fn solo(plan: &Plan, seed: u64, f: impl Fn(&mut Lane)) -> Plan {
    let mut lanes = all_lanes(plan);
    for l in &mut lanes {
        l.del.events.retain(|e| e.k.terminal());
        l.del.delay_every = (0, 0);
        f(l);
    }
    Plan {
        prop: plan.prop.clone(),
        hash_seed: seed,
        rounds: 0,
        grow: None,
        cpu_ms: plan.cpu_ms,
        sched: SchedSpec { seed: 0, stick: 1000, list: Some(vec![]) },
        tasks: lanes.into_iter().map(|l| Task { shared: false, sequential: true, gaps: vec![], lanes: vec![l] }).collect(),
        nested: vec![],
    }
}

fn plain_delivery(l: &mut Lane) {
    l.del.sizes.clear();
    l.del.cuts.clear();
    l.del.intr_every = 0;
}

/// Four times as much of one thing.
pub const FACTOR: u32 = 4;
fn grown(plan: &Plan) -> Plan {
    let mut p = plan.clone();
    let Some(g) = p.grow else { return p };
    if g == Grow::Rounds {
        p.rounds *= FACTOR;
    }
    for l in p.tasks.iter_mut().flat_map(|t| &mut t.lanes) {
        match g {
            Grow::Text => {
                if let Src::Rep(r) = &mut l.src {
                    r.n *= FACTOR;
                }
            }
            Grow::Rounds => (),
            Grow::Counts => l.counts = l.counts.repeat(FACTOR as usize),
            Grow::Post => l.post *= FACTOR,
            Grow::Intr => {
                for e in &mut l.del.events {
                    if let EvK::Intr(n) = &mut e.k {
                        *n *= FACTOR;
                    }
                }
            }
        }
    }
    p
}

/// The second run that a property compares with.
pub fn baseline(plan: &Plan) -> Option<Plan> {
    if all_lanes(plan).iter().any(|l| l.long) {
        return None;
    }
    match plan.prop.as_str() {
        "C01" => Some(solo(plan, plan.hash_seed ^ 0x1234_5678_9abc, plain_delivery)),
        "C04" => Some(solo(plan, plan.hash_seed, |_| ())),
        "C02" => Some(solo(plan, plan.hash_seed, |l| {
            plain_delivery(l);
            l.del.events.clear();
            l.take = None;
        })),
        "C03" | "C12" => Some(solo(plan, plan.hash_seed, |l| {
            plain_delivery(l);
            l.del.events.clear();
            l.dmg.clear();
        })),
        "C08" => Some(solo(plan, plan.hash_seed, |l| {
            plain_delivery(l);
            l.del.events.clear();
            l.take = None;
            if let Src::Cat(c) = &mut l.src {
                for e in &mut c.entries {
                    e.comments.clear();
                    (e.pctx, e.pid, e.ppl, e.obsolete) = (None, None, None, false);
                }
                if let Some(h) = &mut c.header {
                    h.comments.clear();
                }
                c.tail.clear();
            }
        })),
        "C15" => Some(solo(plan, plan.hash_seed, |_| ())),
        "C17" => Some(solo(plan, plan.hash_seed ^ 0x1234_5678_9abc, |l| {
            plain_delivery(l);
            l.lead += l.shift;
        })),
        "C19" => Some(grown(plan)),
        "C18" => Some(solo(plan, plan.hash_seed, |l| {
            l.drive.clear();
            l.take = None;
        })),
        _ => None,
    }
}

// ------------------------------------------------------------------------------------- common part

fn common(o: &Outcome, who: &str) -> Result<(), Viol> {
    match o {
        Outcome::Signal(s) => viol("crash", format!("{who}: the process died of signal {s} (abort or stack overflow)")),
        Outcome::Abort(a) => viol(
            if a == "memory" { "memory-runaway" } else { "hang" },
            format!("{who}: the run was stopped: {a} (no end in sight)"),
        ),
        Outcome::Broken(_) => Ok(()),
        Outcome::Hist(h) => {
            for l in &h.lanes {
                if l.end.starts_with("panic: runaway") {
                    return viol("hang", format!("{who}: catalogue {}: {}", l.lane, l.end));
                }
                if l.end.starts_with("panic") {
                    return viol("panic", format!("{who}: catalogue {}: {}", l.lane, l.end));
                }
                if let Some(p) = l.post.iter().find(|p| p.starts_with("panic")) {
                    return viol("panic", format!("{who}: catalogue {}: request after the end: {}", l.lane, p));
                }
            }
            if !h.deadlock.is_empty() {
                return viol("deadlock", format!("{who}: tasks {:?} wait for each other for ever", h.deadlock));
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------ catalogue view

pub struct View<'a> {
    pub cat: &'a Cat,
    pub r: Rendered,
    /// bytes before this position are as written
    pub intact: usize,
    pub bytes: Vec<u8>,
}

impl<'a> View<'a> {
    pub fn of(l: &'a Lane) -> Option<View<'a>> {
        let Src::Cat(cat) = &l.src else { return None };
        let r = cat.render();
        let mut bytes = r.bytes.clone();
        let mut intact = bytes.len();
        for d in &l.dmg {
            intact = intact.min(d.apply(&mut bytes));
        }
        Some(View { cat, r, intact, bytes })
    }
    fn first_entry(&self) -> usize {
        self.r.has_header as usize
    }
    /// the next non-blank line behind unit u
    fn behind(&self, u: usize) -> Option<&Line> {
        self.r.lines[self.r.spans[u].1 + 1..].iter().find(|l| l.owner != Owner::Blank)
    }
    /// unit u and the line behind it lie, line ends included, before `limit`
    fn must(&self, u: usize, limit: usize) -> bool {
        self.behind(u).is_some_and(|l| l.end <= limit && l.end > l.content)
    }
    /// all lines of unit u lie before `limit`, line ends included
    fn stored(&self, u: usize, limit: usize) -> bool {
        let l = &self.r.lines[self.r.spans[u].1];
        l.end <= limit && l.end > l.content
    }
    /// the visible content of unit u lies before `limit`
    fn content(&self, u: usize, limit: usize) -> bool {
        self.r.lines[self.r.spans[u].1].content <= limit
    }
    fn units(&self) -> usize {
        self.r.spans.len()
    }
    pub fn entries(&self) -> usize {
        self.cat.entries.len()
    }
    /// number of entries (a prefix) for which f holds
    fn count(&self, f: impl Fn(usize) -> bool) -> usize {
        (self.first_entry()..self.units()).take_while(|u| f(*u)).count()
    }
}

fn units_of(l: &LaneHist) -> Vec<&USnap> {
    l.items
        .iter()
        .filter_map(|i| match &i.v {
            ItemV::Unit(u) => Some(u),
            _ => None,
        })
        .collect()
}

fn err_of(l: &LaneHist) -> Option<&ESnap> {
    l.open_err.as_ref().or_else(|| {
        l.items.iter().find_map(|i| match &i.v {
            ItemV::Err(e) => Some(e),
            _ => None,
        })
    })
}

fn base_lane<'a>(b: Option<&'a Outcome>, id: u32) -> Option<&'a LaneHist> {
    b.and_then(|b| b.hist()).and_then(|h| h.lanes.iter().find(|l| l.lane == id))
}

fn diff(a: &USnap, b: &USnap) -> String {
    let (x, y) = (serde_json::to_value(a).unwrap(), serde_json::to_value(b).unwrap());
    let mut out = vec![];
    for (k, v) in x.as_object().unwrap() {
        if y[k] != *v {
            out.push(format!("{k}: expected {v}, got {}", y[k]));
        }
    }
    let s = out.join("; ");
    if s.len() > 700 {
        s.chars().take(700).collect()
    } else {
        s
    }
}

fn newlines(b: &[u8]) -> u64 {
    b.iter().filter(|c| **c == b'\n').count() as u64
}

fn terminal(l: &Lane) -> Option<&Ev> {
    l.del.events.iter().filter(|e| e.k.terminal()).min_by_key(|e| e.at)
}

/// Where a position falls, for the probes.
fn place(v: &View, at: usize, f: &mut Facts, what: &str) {
    let b = &v.r.bytes;
    if at == 0 {
        f.hit(&format!("{what} at the very start"));
    }
    if at >= b.len() {
        f.hit(&format!("{what} behind the last byte"));
        return;
    }
    if b[at] & 0xc0 == 0x80 {
        f.hit(&format!("{what} inside a multi-byte character"));
    }
    if at > 0 && b[at - 1] == b'\r' && b[at] == b'\n' {
        f.hit(&format!("{what} between CR and LF"));
    }
    if at > 0 && b[at - 1] == b'\\' {
        f.hit(&format!("{what} inside an escape"));
    }
    if let Some(l) = v.r.lines.iter().find(|l| l.start <= at && at < l.end) {
        let k = match l.owner {
            Owner::Blank => "in a blank line",
            Owner::Tail => "in trailing comments",
            Owner::Cmt(0) | Owner::Key(0) | Owner::Str(0, ..) if v.r.has_header => "in the header",
            Owner::Cmt(_) => "in an entry's comments",
            Owner::Key(_) => "in an entry's keys",
            Owner::Str(_, 0, 0) => "in an entry's first translation line",
            Owner::Str(_, i, _) if i > 0 => "in a later plural variant",
            Owner::Str(..) => "in a continuation line",
        };
        f.hit(&format!("{what} {k}"));
        if at == l.start {
            f.hit(&format!("{what} at a line start"));
        }
    }
}

// -------------------------------------------------------------------------------------- the verdict

pub fn check(plan: &Plan, out: &Outcome, base: Option<&Outcome>, f: &mut Facts) -> Result<(), Viol> {
    common(out, "run")?;
    if let Some(b) = base {
        common(b, "reference run")?;
    }
    let Some(h) = out.hist() else { return Ok(()) };
    if let Some(b) = base {
        if b.hist().is_none() {
            return Ok(());
        }
    }
    match plan.prop.as_str() {
        "C04" if !PARSER_SYNC => {
            return viol("not-sync", "PoParser is no longer Sync: it cannot be shared by reference between threads".into());
        }
        "C15" => {
            if !h.blocked_behind_stall.is_empty() {
                return viol(
                    "blocked",
                    format!("tasks {:?} could not go on while another reader waited in its source", h.blocked_behind_stall),
                );
            }
            if h.stalls_lifted > 0 && plan.tasks.len() > 1 {
                f.nontrivial = true;
            }
        }
        "C13" => c13_run(plan, h, f)?,
        "C19" => c19(plan, h, base.and_then(|b| b.hist()), f)?,
        _ => (),
    }
    if h.switches > 0 {
        f.hit("task switches in the run");
    }
    if h.preempts > 0 {
        f.hit("run with preemption inside library code");
    }
    for l in &h.lanes {
        let Some(spec) = lane_of(plan, l.lane) else { continue };
        let b = base_lane(base, l.lane);
        match plan.prop.as_str() {
            "C01" | "C04" => same(spec, l, b, &plan.prop, f)?,
            "C02" => c02(spec, l, b, f)?,
            "C03" => c03(spec, l, b, f)?,
            "C05" => c05(spec, l, f)?,
            "C06" => c06(spec, l, f)?,
            "C07" => c07(spec, l, f)?,
            "C08" => c08(spec, l, b, f)?,
            "C09" => c09(spec, l, f)?,
            "C10" => c10(spec, l, f)?,
            "C11" => c11(l, f)?,
            "C12" => c12(spec, l, b, f)?,
            "C13" => c13(spec, l, f)?,
            "C14" => c14(l, f)?,
            "C15" => {
                if let Some(b) = b {
                    if l.end != b.end || l.units != b.units {
                        return viol(
                            "not-complete",
                            format!("catalogue {}: {} units and '{}', alone {} and '{}'", l.lane, l.units, l.end, b.units, b.end),
                        );
                    }
                }
            }
            "C17" => c17(spec, l, b, f)?,
            "C18" => c18(spec, l, b, f)?,
            "C19" => (),
            p => panic!("no check for {p}"),
        }
    }
    Ok(())
}

// C01, C04: two runs agree
fn same(spec: &Lane, l: &LaneHist, b: Option<&LaneHist>, prop: &str, f: &mut Facts) -> Result<(), Viol> {
    let Some(b) = b else { return Ok(()) };
    f.nontrivial |= l.src.fired.values().sum::<u64>() > 0 || prop == "C04";
    if let Some(v) = View::of(spec) {
        for c in spec.del.cuts.iter().take(200) {
            place(&v, *c as usize, f, "read boundary");
        }
    }
    let who = format!("catalogue {}", l.lane);
    if l.opened != b.opened {
        return viol("open", format!("{who}: opened {:?}, alone {:?} ({:?} / {:?})", l.opened, b.opened, l.open_err, b.open_err));
    }
    if l.open_err != b.open_err {
        return viol("error", format!("{who}: open error {:?}, alone {:?}", l.open_err, b.open_err));
    }
    if l.header != b.header {
        return viol("header", format!("{who}: header {:?}, alone {:?}", l.header, b.header));
    }
    for (i, (x, y)) in l.items.iter().zip(&b.items).enumerate() {
        match (&x.v, &y.v) {
            (ItemV::Unit(p), ItemV::Unit(q)) if p != q => {
                return viol("unit", format!("{who}: unit {i}: {}", diff(q, p)));
            }
            (ItemV::Err(p), ItemV::Err(q)) if p != q => {
                return viol("error", format!("{who}: item {i}: error {}, alone {}", p.debug, q.debug));
            }
            (ItemV::Unit(p), ItemV::Err(q)) => {
                return viol("items", format!("{who}: item {i} is unit {:?}, alone error {}", p.msg.id, q.debug));
            }
            (ItemV::Err(p), ItemV::Unit(q)) => {
                return viol("items", format!("{who}: item {i} is error {}, alone unit {:?}", p.debug, q.msg.id));
            }
            _ => (),
        }
    }
    if l.items.len() != b.items.len() || l.end != b.end {
        return viol(
            "items",
            format!("{who}: {} items and '{}', alone {} items and '{}'", l.items.len(), l.end, b.items.len(), b.end),
        );
    }
    if l.post != b.post {
        return viol("post", format!("{who}: after the end {:?}, alone {:?}", l.post, b.post));
    }
    if l.header_changed != b.header_changed || l.mutated.len() != b.mutated.len() {
        return viol("later", format!("{who}: later answers differ: {:?} {:?}", l.header_changed, l.mutated));
    }
    f.hit(&format!("lane ended: {}", l.end));
    Ok(())
}

// C18: driven by other methods than next
fn c18(spec: &Lane, l: &LaneHist, b: Option<&LaneHist>, f: &mut Facts) -> Result<(), Viol> {
    let Some(b) = b else { return Ok(()) };
    if spec.drive.is_empty() {
        return Ok(());
    }
    let who = format!("catalogue {}", l.lane);
    if l.opened != b.opened || l.open_err != b.open_err || l.header != b.header {
        return viol("open", format!("{who}: opened {:?}, with next() alone {:?}", l.opened, b.opened));
    }
    let all: Vec<ItemV> = b
        .items
        .iter()
        .map(|i| match &i.v {
            // the conversion of the error is not tried here
            ItemV::Err(e) => ItemV::Err(ESnap { conv_ok: false, conv: String::new(), ..e.clone() }),
            v => v.clone(),
        })
        .collect();
    let n = all.len() as u64;
    let show = |v: &Option<ItemV>| match v {
        None => "nothing".to_string(),
        Some(ItemV::Unit(u)) => format!("unit {:?}", u.msg.id),
        Some(ItemV::Err(e)) => format!("error {}", e.debug),
    };
    for d in &l.driven {
        f.nontrivial |= d.op != Drive::Next;
        let name = format!("{:?}", d.op);
        f.hit(&format!("driven by {}", name.split('(').next().unwrap()));
        for (i, v) in &d.got {
            let want = if *i < u64::MAX {
                all.get(*i as usize).cloned()
            } else if d.at >= n {
                None
            } else {
                all.last().cloned()
            };
            let v = match v {
                Some(ItemV::Err(e)) => Some(ItemV::Err(ESnap { conv_ok: false, conv: String::new(), ..e.clone() })),
                v => v.clone(),
            };
            if v != want {
                let more = match (&v, &want) {
                    (Some(ItemV::Unit(x)), Some(ItemV::Unit(y))) => format!(" ({})", diff(y, x)),
                    _ => String::new(),
                };
                return viol(
                    "driven",
                    format!("{who}: {name} after {} items: item {i} is {}, by next() alone {}{more}", d.at, show(&v), show(&want)),
                );
            }
        }
        if let Some(c) = d.count {
            if d.at + c.min(1 << 40) != n {
                return viol("count", format!("{who}: {name} after {} items: counted {c}, by next() alone {} are left", d.at, n - d.at.min(n)));
            }
        }
        if let Some((lo, hi)) = d.hint {
            let left = n - d.at.min(n);
            if lo > left || hi.is_some_and(|h| h < left) {
                return viol("hint", format!("{who}: size hint {lo}..{hi:?} after {} items, {left} are left", d.at));
            }
        }
    }
    if l.end != "end" && l.end != "error" && l.opened == Some(true) {
        return viol("not-complete", format!("{who}: ended '{}', by next() alone '{}'", l.end, b.end));
    }
    if l.post.iter().any(|p| p != "none") {
        return viol("post", format!("{who}: items after the end: {:?}", l.post));
    }
    if !l.header_changed.is_empty() {
        return viol("header", format!("{who}: the header data changed: {:?}", l.header_changed));
    }
    Ok(())
}

/// The number stands in the text, not as a part of another one.
fn tells(text: &str, n: u64) -> bool {
    let s = n.to_string();
    text.match_indices(&s).any(|(i, _)| {
        !text[..i].ends_with(|c: char| c.is_ascii_digit()) && !text[i + s.len()..].starts_with(|c: char| c.is_ascii_digit())
    })
}

/// `b` is `a` with the number `x` replaced by `y` in one place.
fn renumbered(a: &str, x: u64, b: &str, y: u64) -> bool {
    let s = x.to_string();
    a.match_indices(&s).any(|(i, _)| format!("{}{y}{}", &a[..i], &a[i + s.len()..]) == b)
}

// C17: reports say where and what
/// Where the position of what is wrong is known, the error names it.
fn where_it_is(spec: &Lane, l: &LaneHist, e: &ESnap, f: &mut Facts) -> Result<(), Viol> {
    let Data::Fixed(bytes) = Data::of(spec, 0) else { return Ok(()) };
    let who = format!("catalogue {}", l.lane);
    if let Some(Ev { k: EvK::Err(es, _), .. }) = terminal(spec) {
        let want = es.make();
        if l.src.terminal && e.variant == "Io" && e.io_kind == format!("{:?}", want.kind()) && e.io_text == want.to_string() {
            let p = (l.src.terminal_at as usize).min(bytes.len());
            let line = 1 + newlines(&bytes[..p]);
            f.hit("line of a failure known");
            if e.line != line {
                return viol("where", format!("{who}: the source failed at byte {p}, in line {line}, reported line {}", e.line));
            }
        }
        return Ok(());
    }
    if terminal(spec).is_some() || spec.take.is_some() {
        return Ok(());
    }
    // a malformed line (the existing tests have its number reported one too high)
    if e.variant == "Parse" && e.exp.is_empty() {
        let lines: Vec<&[u8]> = bytes.split(|c| *c == b'\n').collect();
        let bad = |l: &&[u8]| malformed(l.strip_suffix(b"\r").unwrap_or(l));
        let at = lines.iter().position(|l| bad(l) == Some(true));
        if let Some((at, t)) = at.and_then(|i| Some((i, std::str::from_utf8(lines[i]).ok()?))) {
            let doubtful = lines[..at].iter().any(|l| bad(l).is_none());
            if !doubtful && e.got.trim() == t.trim() {
                f.hit("line of a malformed line known");
                if ![at as u64 + 1, at as u64 + 2].contains(&e.line) {
                    return viol("where", format!("{who}: line {} is malformed, reported line {}", at + 1, e.line));
                }
            }
        }
    }
    let Some(v) = View::of(spec) else { return Ok(()) };
    if let ([Dmg::LineIns(_, text)], Some(true)) = (&spec.dmg[..], certainly_misplaced(&v, spec)) {
        let (p, lead) = (v.intact, spec.lead as u64);
        if p < v.r.spans.first().map_or(0, |s| v.r.lines[s.1].end) {
            // (the header it cuts short may be what is reported)
            return Ok(());
        }
        let at = 1 + newlines(&v.bytes[..p]) + lead;
        // what is inserted, or the line it collides with
        let k = text.matches('\n').count() + 1;
        let rest = v.bytes[p..].split(|c| *c == b'\n').enumerate().skip(k);
        let last = rest.filter(|(_, l)| !String::from_utf8_lossy(l).trim().is_empty()).map(|(i, _)| i as u64).next();
        let last = last.map_or(u64::MAX, |i| at + i);
        f.hit("line of a misplaced line known");
        if e.line < at || e.line > last {
            return viol("where", format!("{who}: {text:?} in line {at} does not belong there (next: line {last}), reported line {}: {}", e.line, e.debug));
        }
    }
    Ok(())
}

fn c17(spec: &Lane, l: &LaneHist, b: Option<&LaneHist>, f: &mut Facts) -> Result<(), Viol> {
    let who = format!("catalogue {}", l.lane);
    if let Some(e) = err_of(l) {
        f.nontrivial = true;
        f.hit(&format!("error: {}", e.variant));
        if l.open_err.is_some() {
            f.hit("error when opening");
        }
        for (form, text) in [("Display", &e.display), ("Debug", &e.debug), ("converted into io::Error", &e.conv)] {
            let missing = if e.line > 0 && !tells(text, e.line) {
                format!("the line {}", e.line)
            } else if let Some(w) = [&e.got, &e.exp].iter().find(|w| !text.contains(w.as_str())) {
                format!("{w:?}")
            } else if form != "Debug" && !text.contains(&e.io_text) {
                format!("{:?}", e.io_text)
            } else {
                continue;
            };
            return viol("text", format!("{who}: the error text ({form}) {text:?} lacks {missing}"));
        }
        if ["Io", "Parse"].contains(&e.variant.as_str()) && e.line == 0 {
            return viol("no-line", format!("{who}: the error {} has no line", e.debug));
        }
        where_it_is(spec, l, e, f)?;
    }
    let Some(b) = b else { return Ok(()) };
    if spec.shift > 0 {
        f.hit("lines inserted in the reference run");
    }
    match (err_of(l), err_of(b)) {
        (None, None) => (),
        (Some(x), Some(y)) => {
            let k = spec.shift as u64;
            let bare = |e: &ESnap| ESnap { line: 0, display: String::new(), debug: String::new(), conv: String::new(), ..e.clone() };
            if bare(x) != bare(y) {
                return viol("content", format!("{who}: error {:?}, with {k} lines in front of it {:?}", x.debug, y.debug));
            }
            let k = if x.line > 0 { k } else { 0 };
            if y.line != x.line + k {
                return viol("position", format!("{who}: error at line {}, with {k} more lines in front of it at line {}", x.line, y.line));
            }
            for (p, q) in [(&x.display, &y.display), (&x.debug, &y.debug), (&x.conv, &y.conv)] {
                if p != q && !renumbered(p, x.line, q, y.line) {
                    return viol("text", format!("{who}: error text {p:?}, with {k} more lines in front of it {q:?}"));
                }
            }
        }
        (x, y) => {
            return viol("content", format!("{who}: error {:?}, with {} lines in front {:?}", x.map(|e| &e.debug), spec.shift, y.map(|e| &e.debug)));
        }
    }
    if l.header != b.header || units_of(l) != units_of(b) || l.end != b.end {
        return viol("units", format!("{who}: other results with {} lines in front: '{}' / '{}'", spec.shift, l.end, b.end));
    }
    Ok(())
}

fn usable(v: &View, b: Option<&LaneHist>) -> bool {
    b.is_some_and(|b| b.end == "end" && b.items.len() == v.entries() && units_of(b).len() == v.entries())
}

fn units_prefix(v: &View, l: &LaneHist, b: &LaneHist, must: usize) -> Result<(), Viol> {
    let (u, w) = (units_of(l), units_of(b));
    for i in 0..must {
        match u.get(i) {
            None => {
                return viol(
                    "lost-unit",
                    format!("catalogue {}: entry {i} of {} was complete, but only {} units were delivered (error: {:?})",
                        l.lane, v.entries(), u.len(), err_of(l).map(|e| &e.debug)),
                );
            }
            Some(x) if **x != *w[i] => {
                return viol("changed-unit", format!("catalogue {}: unit {i}: {}", l.lane, diff(w[i], x)));
            }
            _ => (),
        }
    }
    Ok(())
}

// C02
fn c02(spec: &Lane, l: &LaneHist, b: Option<&LaneHist>, f: &mut Facts) -> Result<(), Viol> {
    let Some(v) = View::of(spec) else { return Ok(()) };
    let Some(Ev { k: EvK::Err(es, _), .. }) = terminal(spec) else { return Ok(()) };
    if !spec.dmg.is_empty() || spec.take.is_some() {
        return Ok(());
    }
    if !usable(&v, b) {
        f.hit("reference run unusable");
        return Ok(());
    }
    let b = b.unwrap();
    let who = format!("catalogue {}", l.lane);
    if !l.src.terminal {
        return viol("fault-not-reached", format!("{who}: ended '{}' without reading up to the failure", l.end));
    }
    let p = l.src.terminal_at as usize;
    f.nontrivial = true;
    place(&v, p, f, "failure");
    let n_units = v.units();
    if n_units > 0 && v.must(0, p) && l.opened != Some(true) {
        return viol("open", format!("{who}: failure at byte {p}, the first unit was complete, but opening failed: {:?}", l.open_err));
    }
    if (n_units == 0 || !v.stored(0, p)) && l.opened != Some(false) {
        return viol("open", format!("{who}: failure at byte {p} before the first unit was complete, but the catalogue was opened"));
    }
    let mut errors = l.open_err.iter().count();
    if l.opened == Some(true) {
        let must = v.count(|u| v.must(u, p));
        let may = v.count(|u| v.stored(u, p));
        units_prefix(&v, l, b, must)?;
        let got = units_of(l).len();
        if got > may {
            return viol("incomplete-unit", format!("{who}: failure at byte {p}: {got} units, but only {may} were stored completely"));
        }
        units_prefix(&v, l, b, got)?;
        if l.header != b.header {
            return viol("header", format!("{who}: header {:?}, without the failure {:?}", l.header, b.header));
        }
        errors += l.items.len() - got;
    }
    errors += l.post.iter().filter(|p| p.starts_with("error")).count();
    if l.end != "error" || errors == 0 {
        return viol("swallowed", format!("{who}: the source failed at byte {p}, but the iteration ended '{}' after {} units", l.end, l.units));
    }
    if errors != 1 {
        return viol("repeated", format!("{who}: {errors} errors for one failure"));
    }
    let e = err_of(l).unwrap();
    let want = es.make();
    let payload = match es {
        ErrSpec::Custom(_, p) => Some(format!("payload:{p}")),
        ErrSpec::Nest(_, _, p) => Some(format!("other:payload {p}")),
        _ => None,
    };
    if e.variant != "Io" || e.io_kind != format!("{:?}", want.kind()) || e.os != want.raw_os_error() || e.payload != payload {
        return viol("identity", format!("{who}: the source failed with {want:?} ({es:?}), reported was {e:?}"));
    }
    if !e.cause_ok {
        return viol("cause", format!("{who}: the source's error is not reachable as the cause of {e:?}"));
    }
    if !e.conv_ok {
        return viol("conversion", format!("{who}: after conversion into io::Error the source's error is lost: {e:?}"));
    }
    let line = 1 + newlines(&v.bytes[..p.min(v.bytes.len())]);
    if e.line != line {
        return viol("line", format!("{who}: failure at byte {p} is in line {line}, reported line {}", e.line));
    }
    Ok(())
}

/// The texts that survive if only content before `cut` is stored; None: not even the first one.
fn cut_texts(v: &View, u: usize, cut: usize) -> Option<Vec<String>> {
    let e = &v.cat.entries[u - v.first_entry()];
    let mut vals: Vec<String> = vec![];
    for l in &v.r.lines[v.r.spans[u].0..=v.r.spans[u].1] {
        if l.content > cut {
            break;
        }
        if let Owner::Str(_, i, j) = l.owner {
            if vals.len() <= i {
                vals.push(String::new());
            }
            vals[i].push_str(&e.strs[i][j]);
        }
    }
    if vals.is_empty() {
        None
    } else {
        Some(vals)
    }
}

// C03
fn c03(spec: &Lane, l: &LaneHist, b: Option<&LaneHist>, f: &mut Facts) -> Result<(), Viol> {
    let Some(v) = View::of(spec) else { return Ok(()) };
    let [Dmg::Cut(_)] = spec.dmg[..] else { return Ok(()) };
    if terminal(spec).is_some() || spec.take.is_some() {
        return Ok(());
    }
    if !usable(&v, b) {
        f.hit("reference run unusable");
        return Ok(());
    }
    let b = b.unwrap();
    let cut = v.intact;
    f.nontrivial = true;
    place(&v, cut, f, "cut");
    let who = format!("catalogue {} cut at byte {cut} of {}", l.lane, v.r.bytes.len());
    let h = v.first_entry();
    let full = v.count(|u| v.content(u, cut));
    let (got, want) = (units_of(l), units_of(b));
    for (i, u) in got.iter().enumerate() {
        if i >= want.len() {
            return viol("extra-unit", format!("{who}: unit {i} ({:?}) was never stored", u.msg.id));
        }
        if i < full {
            if **u != *want[i] {
                return viol("changed-unit", format!("{who}: unit {i}: {}", diff(want[i], u)));
            }
            continue;
        }
        let Some(vals) = (if i == full { cut_texts(&v, h + i, cut) } else { None }) else {
            return viol("incomplete-unit", format!("{who}: unit {i} ({:?}) was delivered without its texts being stored", u.msg.id));
        };
        f.hit("cut unit delivered");
        let mut x = want[i].clone();
        if x.msg.plural {
            x.msg.text = vals[0].clone();
            x.msg.blank = vals.iter().all(String::is_empty);
            x.msg.vals = Some(vals);
        } else {
            x.msg.text = vals[0].clone();
            x.msg.blank = vals[0].is_empty();
            x.msg.opt = if x.msg.blank { None } else { Some(vals[0].clone()) };
        }
        let mut y = (*u).clone();
        // the state follows from the texts; lookups from the texts and the count
        y.msg.look = x.msg.look.clone();
        x.state = y.state.clone();
        x.translated = y.translated;
        if x != y {
            return viol("wrong-cut-unit", format!("{who}: unit {i}: {}", diff(&x, &y)));
        }
    }
    if l.end == "end" && got.len() < full {
        return viol("lost-unit", format!("{who}: {full} entries were stored completely, {} were delivered, and no error", got.len()));
    }
    // does the cut fall between two entries?
    let before = (0..v.units()).take_while(|u| v.content(*u, cut)).count();
    let next = if before < v.units() {
        Some(&v.r.lines[v.r.spans[before].0])
    } else {
        v.r.lines.iter().find(|l| l.owner == Owner::Tail)
    };
    let lim = next.map_or(v.r.bytes.len(), |l| {
        let mut p = l.start;
        while matches!(v.r.bytes.get(p), Some(b' ' | b'\t')) {
            p += 1;
        }
        p
    });
    if cut <= lim {
        f.hit("cut between entries");
        if l.end != "end" || l.opened != Some(true) {
            return viol("error-between", format!("{who}, which is between two entries, but reading failed: {:?}", err_of(l)));
        }
        if got.len() != full {
            return viol("lost-unit", format!("{who}: {full} entries were stored completely, {} were delivered", got.len()));
        }
    }
    if l.opened == Some(true) && before > 0 && l.header != b.header {
        return viol("header", format!("{who}: header {:?}, uncut {:?}", l.header, b.header));
    }
    Ok(())
}

/// First byte position that is certainly enough for the delivery of entry k (u64::MAX: the end of the data).
fn need(spec: &Lane, k: usize) -> Option<u64> {
    match &spec.src {
        Src::Cat(_) => {
            let v = View::of(spec)?;
            let u = v.first_entry() + k;
            if u >= v.units() {
                return Some(u64::MAX);
            }
            Some(match v.behind(u) {
                Some(l) if l.end > l.content => l.end as u64,
                _ => u64::MAX,
            })
        }
        Src::Cycle(c, _) => {
            let mut h = c.clone();
            h.entries.clear();
            h.tail.clear();
            h.style.no_final_nl = false;
            let head = h.render().bytes.len() as u64;
            let mut b = c.clone();
            b.header = None;
            b.tail.clear();
            b.style.no_final_nl = false;
            if !c.tail.is_empty() || b.entries.is_empty() {
                return None;
            }
            let n = b.entries.len();
            let r = b.render();
            let at = |k: usize| (k / n) as u64 * r.bytes.len() as u64 + head;
            // the line behind entry k: in this round or the first of the next one
            let last = r.spans[k % n].1;
            Some(match r.lines[last + 1..].iter().find(|l| l.owner != Owner::Blank) {
                Some(l) => at(k) + l.end as u64,
                None => at(k) + r.bytes.len() as u64 + r.lines.iter().find(|l| l.owner != Owner::Blank)?.end as u64,
            })
        }
        _ => None,
    }
}

// C05
fn c05(spec: &Lane, l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    if !spec.dmg.is_empty() || terminal(spec).is_some() {
        return Ok(());
    }
    let total = Data::of(spec, 0).len();
    let who = format!("catalogue {}", l.lane);
    if let Some(n) = need(spec, 0) {
        if l.opened.is_some() && l.open_pos.asked_at >= n {
            return viol(
                "read-ahead",
                format!("{who}: opening needs the first {n} of {total} bytes, but more was asked for after {}", l.open_pos.asked_at),
            );
        }
    }
    for (i, it) in l.items.iter().enumerate() {
        if !matches!(it.v, ItemV::Unit(_)) {
            continue;
        }
        let Some(n) = need(spec, i + 1) else { continue };
        if n < total {
            f.nontrivial = true;
            f.hit("deliveries while data was outstanding");
        }
        if n != u64::MAX && it.pos.asked_at >= n {
            return viol(
                "read-ahead",
                format!("{who}: unit {i} needs the first {n} of {total} bytes, but more was asked for after {}", it.pos.asked_at),
            );
        }
    }
    Ok(())
}

// C06
fn c06(spec: &Lane, l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    f.nontrivial = true;
    f.hit(&format!("lane ended: {}", l.end));
    if l.end.is_empty() {
        return viol("hang", format!("catalogue {}: never finished", l.lane));
    }
    let lines = match Data::of(spec, 0) {
        Data::Fixed(b) => newlines(&b) + 1,
        d => d.len(),
    };
    // a source that pretends to end in the middle of a line makes two lines of it
    let lines = lines + spec.del.events.len() as u64;
    if l.items.len() as u64 > lines {
        return viol("too-many-items", format!("catalogue {}: {} items from {lines} lines", l.lane, l.items.len()));
    }
    Ok(())
}

fn clean(spec: &Lane) -> bool {
    spec.dmg.is_empty() && terminal(spec).is_none()
}

/// A stream of tens of thousands of units, compared with the model on the way.
fn long(spec: &Lane, l: &LaneHist, what: &str, f: &mut Facts) -> Result<(), Viol> {
    let Src::Cycle(c, _) = &spec.src else { return Ok(()) };
    if c.entries.is_empty() || !clean(spec) {
        return Ok(());
    }
    let Data::Cycle { head, body, len, .. } = Data::of(spec, 0) else { return Ok(()) };
    let want = (len - head.len() as u64) / body.len() as u64 * c.entries.len() as u64;
    let who = format!("catalogue {}: stream of {want} entries", l.lane);
    f.nontrivial = true;
    f.hit(if want > 65_536 { "stream of more than 65536 units" } else { "long stream" });
    if let Some((_, k, want, got)) = l.wrong.iter().find(|w| w.0 == what) {
        return viol("unit", format!("{who}: {what} of unit {k}: {}", diff(want, got)));
    }
    if what == "texts" {
        if l.end != "end" {
            return viol("error", format!("{who}: ended '{}' after {} units: {:?}", l.end, l.units, err_of(l).map(|e| &e.debug)));
        }
        if l.units != want {
            return viol("lost-unit", format!("{who}: {} units were delivered", l.units));
        }
    }
    Ok(())
}

// C07
fn c07(spec: &Lane, l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    if spec.long {
        return long(spec, l, "texts", f);
    }
    let Some(v) = View::of(spec) else { return Ok(()) };
    if !clean(spec) {
        return Ok(());
    }
    f.nontrivial = true;
    let who = format!("catalogue {}", l.lane);
    if l.opened != Some(true) {
        return viol("open", format!("{who}: opening failed: {:?}", l.open_err));
    }
    let got = units_of(l);
    for (i, u) in got.iter().enumerate() {
        let Some(e) = v.cat.entries.get(i) else {
            return viol("extra-unit", format!("{who}: unit {i} ({:?}) is not stored", u.msg.id));
        };
        let x = v.cat.expect(e);
        let mut y = (*u).clone();
        if !x.same_texts(&y) {
            y.msg.look.clear();
            y.msg.forms = x.msg.forms.clone();
            return viol("unit", format!("{who}: unit {i}: {}", diff(&USnap { ctx: x.ctx.clone(), msg: x.msg.clone(), ..y.clone() }, &y)));
        }
    }
    if let Some(e) = err_of(l) {
        return viol("error", format!("{who}: failed after {} of {} units: {}", got.len(), v.entries(), e.debug));
    }
    let want = spec.take.map_or(v.entries(), |t| v.entries().min(t as usize));
    if got.len() != want {
        return viol("lost-unit", format!("{who}: {} of {want} units were delivered", got.len()));
    }
    if l.post.iter().any(|p| p != "none") {
        return viol("extra-unit", format!("{who}: more items after the end: {:?}", l.post));
    }
    Ok(())
}

// C08
fn c08(spec: &Lane, l: &LaneHist, b: Option<&LaneHist>, f: &mut Facts) -> Result<(), Viol> {
    if spec.long {
        return long(spec, l, "annotations", f);
    }
    let Some(v) = View::of(spec) else { return Ok(()) };
    if !clean(spec) {
        return Ok(());
    }
    let Some(b) = b else { return Ok(()) };
    if b.end != "end" || b.items.len() != v.entries() {
        f.hit("reference run unusable");
        return Ok(());
    }
    f.nontrivial = true;
    let who = format!("catalogue {}", l.lane);
    let (got, bare) = (units_of(l), units_of(b));
    let want = spec.take.map_or(bare.len(), |t| bare.len().min(t as usize));
    if l.opened != Some(true) || got.len() != l.items.len() {
        return viol("comment-fails", format!("{who}: reading fails because of its comments: {:?}", err_of(l)));
    }
    if got.len() != want {
        return viol("comment-entry", format!("{who}: {} units with comments, {want} without", got.len()));
    }
    for (i, u) in got.iter().enumerate() {
        let (p, q) = (&u.msg, &bare[i].msg);
        if u.ctx != bare[i].ctx || p.id != q.id || p.pid != q.pid || p.text != q.text || p.vals != q.vals {
            return viol("comment-text", format!("{who}: unit {i}: a comment changed the texts: {}", diff(bare[i], u)));
        }
        let x = v.cat.expect(&v.cat.entries[i]);
        if !x.same_annotations(u) {
            let mut y = (*u).clone();
            y.msg = x.msg.clone();
            return viol("annotation", format!("{who}: unit {i} ({:?}): {}", u.msg.id, diff(&x, &y)));
        }
        if x.state != u.state || x.translated != u.translated {
            return viol("state", format!("{who}: unit {i} ({:?}): {} translated={}, expected {}", u.msg.id, u.state, u.translated, x.state));
        }
    }
    Ok(())
}

// C09
fn c09(spec: &Lane, l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    let Some(v) = View::of(spec) else { return Ok(()) };
    let who = format!("catalogue {}", l.lane);
    let limit = match terminal(spec) {
        Some(e) => v.intact.min(e.at as usize),
        None => v.intact,
    };
    let known = if clean(spec) { true } else { v.units() > 0 && v.must(0, limit) };
    if known {
        if l.opened != Some(true) {
            return viol("open", format!("{who}: opening failed: {:?}", l.open_err));
        }
        f.nontrivial = true;
        let x = v.cat.expect_header();
        let got = l.header.clone().unwrap_or_default();
        if got != x {
            return viol("header", format!("{who}: header {got:?}, stored {x:?}"));
        }
        if v.cat.header.is_none() {
            f.hit("catalogue without header");
            if let (Some(u), Some(e)) = (units_of(l).first(), v.cat.entries.first()) {
                if u.msg.id != join(&e.id) {
                    return viol("first-unit", format!("{who}: first unit {:?}, stored {:?}", u.msg.id, join(&e.id)));
                }
            }
            if clean(spec) && spec.take != Some(0) && v.entries() > 0 && units_of(l).is_empty() {
                return viol("first-unit", format!("{who}: first entry is not delivered"));
            }
        }
    }
    if let Some((when, h)) = l.header_changed.first() {
        return viol("changed", format!("{who}: header data changed {when}: {:?}, before {:?}", h, l.header));
    }
    f.hit(&format!("header observed until: {}", l.end));
    Ok(())
}

// C10
fn c10(spec: &Lane, l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    if spec.long {
        return long(spec, l, "lookups", f);
    }
    let Some(v) = View::of(spec) else { return Ok(()) };
    let who = format!("catalogue {}", l.lane);
    if let Some(e) = err_of(l) {
        if e.variant == "PluralForms" && v.must(0, v.intact) {
            return viol("rule-rejected", format!("{who}: {:?}: {}", v.cat.plural().map(|p| p.text()), e.debug));
        }
    }
    // rules of a damaged header are not known
    if !v.r.spans.is_empty() && v.r.has_header && !v.must(0, v.intact) && !clean(spec) {
        return Ok(());
    }
    let by_id: BTreeMap<String, &Entry> = v.cat.entries.iter().map(|e| (join(&e.id), e)).collect();
    let damaged = !clean(spec);
    let all: Vec<(u32, &str, &USnap)> = units_of(l)
        .into_iter()
        .enumerate()
        .map(|(i, u)| (i as u32, "when delivered", u))
        .chain(l.mutated.iter().map(|(i, w, u)| (*i, w.as_str(), u)))
        .collect();
    let rule = v.cat.plural().map(|p| p.text());
    for (i, when, u) in all {
        let Some(e) = by_id.get(&u.msg.id) else { continue };
        let stored: Vec<String> = e.strs.iter().map(join).collect();
        for (c, look) in spec.counts.iter().zip(&u.msg.look) {
            let x: Option<&String> = match (&e.pl, v.cat.selected(*c)) {
                (None, _) => {
                    if damaged || stored[0].is_empty() {
                        continue;
                    }
                    Some(&stored[0])
                }
                (_, Err(())) => {
                    f.hit("count left open by C");
                    continue;
                }
                (_, Ok(None)) => None,
                (_, Ok(Some(k))) => stored.get(k),
            };
            f.nontrivial = true;
            f.hit(if x.is_some() { "lookup with a stored text" } else { "lookup without a text" });
            if damaged && look.is_none() {
                f.hit("lookup finds nothing after damage");
                continue;
            }
            if look.as_ref() != x {
                return viol(
                    if damaged { "wrong-variant-after-damage" } else { "wrong-variant" },
                    format!("{who}: unit {i} ({:?}) {when}: count {c} under {rule:?}: got {look:?}, expected {x:?}", u.msg.id),
                );
            }
        }
        if let (Some(vals), Some(_)) = (&u.msg.vals, &e.pl) {
            for (k, t) in vals.iter().enumerate() {
                if stored.get(k) != Some(t) {
                    return viol("wrong-values", format!("{who}: unit {i}: form {k} is {t:?}, stored {stored:?}"));
                }
            }
        }
        if let (Some(fo), Some(p)) = (&u.msg.forms, v.cat.plural()) {
            if fo.count != p.count() {
                return viol("form-count", format!("{who}: unit {i}: {} forms, stored {rule:?}", fo.count));
            }
            for (c, g) in spec.counts.iter().zip(&fo.look) {
                if let Ok(x) = v.cat.selected(*c) {
                    if x.map(|v| v as u64) != *g {
                        return viol("wrong-form", format!("{who}: count {c} under {rule:?}: form {g:?}, expected {x:?}"));
                    }
                }
            }
        }
        if u.msg.plural && u.msg.forms.is_some() != v.cat.plural().is_some() {
            return viol("rules", format!("{who}: unit {i} has rules {:?}, stored {rule:?}", u.msg.forms));
        }
    }
    Ok(())
}

// C11
fn c11(l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    if l.units > 0 {
        f.nontrivial = true;
        f.hit(&format!("units kept past: {}", l.end));
    }
    if let Some((i, when, u)) = l.mutated.first() {
        let old = units_of(l).get(*i as usize).map(|o| diff(o, u)).unwrap_or_default();
        return viol("mutated", format!("catalogue {}: unit {i} changed {when}: {old}", l.lane));
    }
    Ok(())
}

/// Lines that are neither blank, comments nor string or keyword lines, by the grammar of the format.
pub const JUNK: &[&str] = &[
    "junk",
    "<<<<<<< HEAD",
    "=======",
    "msgid",
    "msgid \"abc",
    "msgid abc\"",
    "msgid abc",
    "\"abc",
    "abc\"",
    "\"",
    "msgstr[x] \"a\"",
    "msgstr[-1] \"a\"",
    "msgstr[] \"a\"",
    "msgstr \"open \\\"",
    "\"open \\\"",
    "\"ends in a backslash\\",
    "msgid \"a\" x",
    "\"a\" # not a comment",
    "domain \"x\"",
    "MSGID \"x\"",
    "msgidx \"x\"",
    "msg id \"x\"",
    "-# no comment",
    "// comment",
    "msgid 'a'",
    "\u{1}\u{2}\u{0}",
    "x msgid \"a\"",
    "~ msgid \"a\"",
    "| msgid \"a\"",
];
/// A line that is not UTF-8 (latin-1 notation).
pub const JUNK8: &[&str] = &["msgid \"\u{e9}t\u{e9}\"", "# comment \u{ff}\u{fe}", "\u{80}", "\"\u{c3}\"", "\u{c3}"];

/// Some(true): certainly malformed by the grammar of the format; Some(false): certainly not; None: left open.
pub fn malformed(line: &[u8]) -> Option<bool> {
    let Ok(l) = std::str::from_utf8(line) else { return Some(true) };
    let l = l.trim();
    if l.is_empty() || l.starts_with('#') {
        return Some(false);
    }
    if l.contains('\u{feff}') || l.contains('\r') {
        return None;
    }
    // keyword
    let rest = match l.find('"') {
        None => return Some(true),
        Some(q) => {
            let key = l[..q].trim();
            let ok = match key {
                "" | "msgid" | "msgid_plural" | "msgctxt" | "msgstr" => true,
                _ => match key.strip_prefix("msgstr[").and_then(|k| k.strip_suffix(']')) {
                    Some(n) if !n.is_empty() && n.chars().all(char::is_numeric) => {
                        if n.len() > 1 && n.starts_with('0') || !n.is_ascii() {
                            return None;
                        }
                        true
                    }
                    Some(n) if n.trim() != n || n.starts_with('+') => return None,
                    _ => {
                        if key.starts_with("msgstr") && key.contains(char::is_whitespace) {
                            return None;
                        }
                        false
                    }
                },
            };
            if !ok {
                return Some(true);
            }
            &l[q + 1..]
        }
    };
    // string: up to a quote that no backslash escapes
    let mut it = rest.char_indices();
    while let Some((i, c)) = it.next() {
        match c {
            '\\' => {
                if it.next().is_none() {
                    return Some(true);
                }
            }
            '"' => {
                let behind = &rest[i + 1..];
                return if behind.is_empty() {
                    Some(false)
                } else if behind.ends_with('"') {
                    // quotes inside a string: lenient readers take them
                    None
                } else {
                    Some(true)
                };
            }
            _ => (),
        }
    }
    Some(true)
}

/// The first certainly malformed line of the stored bytes must end the iteration with exactly one error.
/// String lines without a keyword, in every spelling.
pub const STRAY: [&str; 4] = ["\"stray-mark\"", "#~ \"stray-mark\"", "#| \"stray-mark\"", "#~| \"stray-mark\""];
/// Lines of the format that nothing can stand in front of an entry for.
pub const PLACED: [&str; 16] = [
    STRAY[0],
    STRAY[1],
    STRAY[2],
    STRAY[3],
    "msgstr \"stray-mark\"",
    "#~ msgstr \"stray-mark\"",
    "msgstr[200] \"stray-mark\"",
    "msgid_plural \"stray-mark\"",
    "#~ msgid_plural \"stray-mark\"",
    "msgid \"stray-mark\"",
    "#~ msgid \"stray-mark\"",
    "msgid \"stray-mark\"\nmsgid_plural \"strays\"",
    "msgid \"\"\nmsgstr \"stray-mark\"",
    "msgid \"\"\nmsgstr \"\"",
    "#~ msgid \"\"\n#~ msgstr \"stray-mark\"",
    "msgctxt \"stray-mark\"",
];

/// What kind of line: the spelling of a string line, or something else.
fn spelling(line: &[u8]) -> &'static str {
    let t = String::from_utf8_lossy(line);
    let t = t.trim();
    for p in ["#~|", "#|", "#~"] {
        if t.starts_with(p) {
            return p;
        }
    }
    match t.chars().next() {
        None => "blank",
        Some('#') => "comment",
        _ => "",
    }
}

/// Is a line of the format inserted where it certainly does not belong?
fn certainly_misplaced(v: &View, spec: &Lane) -> Option<bool> {
    let [Dmg::LineIns(_, text)] = &spec.dmg[..] else { return None };
    if !PLACED.contains(&text.as_str()) {
        return None;
    }
    let p = v.intact;
    Some(if STRAY.contains(&text.as_str()) {
        let own = spelling(text.as_bytes());
        let before = v.r.bytes[..p].split(|c| *c == b'\n').rev().map(spelling).find(|s| *s != "blank");
        // (a line like `#~|x` need not be a comment)
        before != Some(own)
    } else {
        let u = (1..v.units()).find(|u| v.r.lines[v.r.spans[*u].0].start == p);
        match (u, text.starts_with("msgctxt")) {
            (None, _) => false,
            (Some(_), false) => true,
            (Some(u), true) => {
                let e = &v.cat.entries[u - v.first_entry()];
                e.ctx.is_some() || !e.comments.is_empty() || e.pid.is_some() || e.pctx.is_some() || e.obsolete
            }
        }
    })
}

// A line of the format in a place where it certainly does not belong: one error, and its text is nobody's.
fn misplaced(v: &View, spec: &Lane, l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    let [Dmg::LineIns(_, text)] = &spec.dmg[..] else { return Ok(()) };
    if !PLACED.contains(&text.as_str()) {
        return Ok(());
    }
    let p = v.intact;
    let certain = certainly_misplaced(v, spec).unwrap_or(false);
    if !certain {
        f.hit("line perhaps not misplaced");
        return Ok(());
    }
    f.hit("misplaced line");
    let who = format!("catalogue {}: misplaced line {text:?} at byte {p}", l.lane);
    let got = units_of(l);
    let started = (v.first_entry()..v.units()).filter(|u| v.r.lines[v.r.spans[*u].0].start < p).count();
    if got.len() > started {
        return viol("behind", format!("{who}: {} units, only {started} begin before it", got.len()));
    }
    if let Some(u) = got.iter().find(|u| serde_json::to_string(u).unwrap().contains("stray-mark")) {
        return viol("stray", format!("{who}: its text turns up in unit {:?}", u.msg.id));
    }
    let errors = l.open_err.iter().count() + l.items.len() - got.len() + l.post.iter().filter(|p| p.starts_with("error")).count();
    if errors == 0 {
        return viol("skipped", format!("{who}: was accepted, the iteration ended '{}' after {} units", l.end, got.len()));
    }
    if errors != 1 || l.post.iter().any(|p| p != "none") {
        return viol("repeated", format!("{who}: {errors} errors, then {:?}", l.post));
    }
    Ok(())
}

fn malformed_line(spec: &Lane, l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    let Data::Fixed(bytes) = Data::of(spec, 0) else { return Ok(()) };
    let lines: Vec<&[u8]> = bytes.split(|c| *c == b'\n').collect();
    let Some(at) = lines.iter().position(|l| malformed(l.strip_suffix(b"\r").unwrap_or(l)) == Some(true)) else {
        f.hit("no malformed line in the damaged bytes");
        return Ok(());
    };
    f.nontrivial = true;
    f.hit("malformed line in the damaged bytes");
    let text = String::from_utf8_lossy(lines[at]).trim().chars().take(200).collect::<String>();
    let who = format!("catalogue {}: malformed line {} {text:?}", l.lane, at + 1);
    let got = units_of(l).len();
    let Some(e) = err_of(l) else {
        return viol("skipped", format!("{who}: no error, the iteration ended '{}' after {got} units", l.end));
    };
    let errors = l.open_err.iter().count() + l.items.len() - got + l.post.iter().filter(|p| p.starts_with("error")).count();
    if errors != 1 || l.post.iter().any(|p| p != "none") {
        return viol("repeated", format!("{who}: {errors} errors, then {:?}", l.post));
    }
    if e.line > at as u64 + 2 {
        return viol("behind", format!("{who}: the error is reported in line {}: {}", e.line, e.debug));
    }
    let doubtful = lines[..at].iter().any(|l| malformed(l.strip_suffix(b"\r").unwrap_or(l)).is_none());
    if e.line > at as u64 && !doubtful {
        // this line is the one reported
        let quoted = match std::str::from_utf8(lines[at]) {
            Ok(t) => e.variant == "Parse" && (t.len() > 200 || e.got.contains(t.trim())),
            Err(_) => e.variant == "Io" && e.io_kind == "InvalidData",
        };
        if !quoted {
            return viol("report", format!("{who}: is reported as {}", e.debug));
        }
        f.hit("malformed line reported");
    }
    let most = lines[..at].iter().filter(|l| l.windows(5).any(|w| w == b"msgid")).count();
    if got > most {
        return viol("behind", format!("{who}: {got} units, but only {most} sources before it"));
    }
    Ok(())
}

// C12
fn c12(spec: &Lane, l: &LaneHist, b: Option<&LaneHist>, f: &mut Facts) -> Result<(), Viol> {
    if terminal(spec).is_some() || spec.take.is_some() {
        return Ok(());
    }
    malformed_line(spec, l, f)?;
    let Some(v) = View::of(spec) else { return Ok(()) };
    if spec.dmg.is_empty() {
        return Ok(());
    }
    if !usable(&v, b) {
        f.hit("reference run unusable");
        return Ok(());
    }
    let b = b.unwrap();
    let p = v.intact;
    let who = format!("catalogue {} damaged from byte {p}", l.lane);
    f.nontrivial = true;
    place(&v, p, f, "damage");
    if v.units() > 0 && v.must(0, p) {
        if l.opened != Some(true) {
            return viol("open", format!("{who}: the first unit was complete, but opening failed: {:?}", l.open_err));
        }
        if l.header != b.header {
            return viol("header", format!("{who}: header {:?}, undamaged {:?}", l.header, b.header));
        }
    }
    let must = v.count(|u| v.must(u, p));
    if must > 0 {
        f.hit("damage behind complete units");
    }
    units_prefix(&v, l, b, must)?;
    misplaced(&v, spec, l, f)?;
    if let [Dmg::LineIns(_, junk)] = &spec.dmg[..] {
        let plain = JUNK.contains(&junk.trim_matches(|c| c == ' ' || c == '\t'));
        let raw = JUNK8.contains(&junk.as_str());
        if plain || raw {
            f.hit("malformed line");
            let got = units_of(l).len();
            let started = (v.first_entry()..v.units()).filter(|u| v.r.lines[v.r.spans[*u].0].start < p).count();
            if got > started {
                return viol("behind", format!("{who}: malformed line {junk:?}: {got} units, only {started} begin before it"));
            }
            let errors = l.open_err.iter().count() + l.items.len() - got
                + l.post.iter().filter(|p| p.starts_with("error")).count();
            let Some(e) = err_of(l) else {
                return viol("skipped", format!("{who}: malformed line {junk:?} was accepted, the iteration ended '{}' after {got} units", l.end));
            };
            if errors != 1 || l.post.iter().any(|p| p != "none") {
                return viol("repeated", format!("{who}: malformed line {junk:?}: {errors} errors, then {:?}", l.post));
            }
            if plain && malformed(junk.as_bytes()) != Some(true) || raw && malformed(&latin1(junk)) != Some(true) {
                panic!("the line classifier accepts {junk:?}");
            }
            if plain {
                let at = newlines(&v.bytes[..p]) + 1;
                let near = e.line == at || e.line == at + 1;
                if e.variant != "Parse" || !near || !e.got.contains(junk.trim()) {
                    return viol("report", format!("{who}: malformed line {at} {junk:?} is reported as {}", e.debug));
                }
            }
        }
    }
    Ok(())
}

// C13
fn c13(spec: &Lane, l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    f.nontrivial = true;
    f.hit(&format!("lane ended: {}", l.end));
    if l.src.drops != l.sources {
        return viol("source-kept", format!("catalogue {}: {} of {} sources released ('{}')", l.lane, l.src.drops, l.sources, l.end));
    }
    if spec.light && l.mem.len() == 32 && l.end == "end" {
        f.hit("long stream measured");
        let first = *l.mem[1..9].iter().max().unwrap();
        let last = *l.mem[24..].iter().max().unwrap();
        if last > first + 32_768 {
            return viol(
                "growth",
                format!("catalogue {}: the reader held {first} bytes in the first quarter of {} bytes, {last} in the last", l.lane, l.src.bytes),
            );
        }
    }
    Ok(())
}

fn c13_run(plan: &Plan, h: &History, f: &mut Facts) -> Result<(), Viol> {
    let r = &h.round_live;
    if plan.rounds >= 6 && plan.tasks.len() == 1 && r.len() == plan.rounds as usize {
        f.hit("repeated rounds measured");
        // the first rounds may fill one-time caches
        if r[1..].windows(2).all(|w| w[1] > w[0]) {
            return viol("leak", format!("memory of the library left after each round, everything dropped: {r:?}"));
        }
    }
    Ok(())
}

// C19
const MEASURES: [&str; 5] = ["steps", "steps in regex and lalrpop", "allocations", "bytes requested", "reads"];
fn c19(plan: &Plan, h: &History, b: Option<&History>, f: &mut Facts) -> Result<(), Viol> {
    let (Some(b), Some(g)) = (b, plan.grow) else { return Ok(()) };
    let what = plan.tasks.iter().flat_map(|t| &t.lanes).find_map(|l| match &l.src {
        Src::Rep(r) if g == Grow::Text => Some(r.what.clone()),
        _ => None,
    });
    let what = what.unwrap_or_else(|| format!("{g:?}"));
    f.nontrivial = true;
    f.hit(&format!("grown: {what}"));
    if std::env::var_os("POSIM_WORK").is_some() {
        let q: Vec<String> = h.work.iter().zip(&b.work).map(|(x, y)| format!("{x:>9} {:5.2}", *y as f64 / (*x).max(1) as f64)).collect();
        eprintln!("WORK {what:<40} {}", q.join(" | "));
    }
    let bytes: u64 = b.lanes.iter().map(|l| l.src.bytes).sum();
    for ((m, x), y) in MEASURES.iter().zip(&h.work).zip(&b.work) {
        // (the engines in regex are chosen by the length of the line, and differ by constant factors)
        if *m == MEASURES[1] && g == Grow::Text && *y < bytes * 3000 {
            continue;
        }
        // linear growth gives 4 at most, quadratic growth 16
        let (tenths, slack) = match *m {
            "reads" => (55, 20),
            // (tables that double, and the caches of those engines)
            "bytes requested" => (90, 100_000),
            "steps in regex and lalrpop" => (70, 100_000),
            _ => (55, 2000),
        };
        if *y > x * tenths / 10 + slack {
            return viol("superlinear", format!("{what}: {m}: {x}, and {y} for four times as much"));
        }
    }
    Ok(())
}

// C14
fn c14(l: &LaneHist, f: &mut Facts) -> Result<(), Viol> {
    if l.opened != Some(true) || l.post.is_empty() {
        return Ok(());
    }
    f.nontrivial = true;
    f.hit(&format!("requests after: {}", l.end));
    if let Some(p) = l.post.iter().find(|p| *p != "none") {
        return viol("revived", format!("catalogue {}: after the {} a further request gave {p}", l.lane, l.end));
    }
    if l.src.reads_after_end > 0 {
        return viol("read-after-end", format!("catalogue {}: the source was read {} times after the {}", l.lane, l.src.reads_after_end, l.end));
    }
    if let Some((when, h)) = l.header_changed.first() {
        return viol("header", format!("catalogue {}: header data changed {when}: {h:?}, before {:?}", l.lane, l.header));
    }
    Ok(())
}

/// Structural sanity of a plan (kept by the shrinker): what the checks above rely on.
pub fn valid(plan: &Plan) -> bool {
    if plan.tasks.is_empty() || plan.tasks.iter().any(|t| t.lanes.is_empty()) {
        return false;
    }
    let strict = plan.prop == "C10";
    // a byte order mark stands at the very start or not at all
    if all_lanes(plan).iter().any(|l| l.lead + l.shift > 0 && matches!(Data::of(&Lane { lead: 0, ..l.clone() }, 0), Data::Fixed(b) if b.starts_with(b"\xef\xbb\xbf"))) {
        return false;
    }
    all_lanes(plan).iter().all(|l| match &l.src {
        Src::Raw(_) | Src::Rep(_) => true,
        Src::Cat(c) | Src::Cycle(c, _) => {
            let mut ids = BTreeSet::new();
            let n = c.plural().map_or(2, |p| p.count());
            c.entries.iter().all(|e| {
                let full = |t: &Txt| !t.is_empty();
                let vals: Vec<String> = e.strs.iter().map(join).collect();
                let distinct = vals.iter().collect::<BTreeSet<_>>().len() == vals.len() || vals.iter().all(|v| v.is_empty());
                !join(&e.id).is_empty()
                    && (!strict || ids.insert(join(&e.id)))
                    && !e.strs.is_empty()
                    && e.strs.iter().all(full)
                    && (e.pl.is_some() || e.strs.len() == 1)
                    && (e.strs.len() as u64 <= n)
                    && (!strict || e.pl.is_none() || distinct)
                    && e.pl.as_ref().map_or(true, full)
                    && e.ctx.as_ref().map_or(true, full)
                    && e.pctx.as_ref().map_or(true, full)
                    && e.pid.as_ref().map_or(true, |p| full(p) && !join(p).is_empty())
                    && e.ppl.as_ref().map_or(true, full)
                    && (e.ppl.is_none() || e.pid.is_some())
                    && e.comments.iter().all(valid_cmt)
            }) && c.tail.iter().all(valid_cmt)
                && c.header.as_ref().map_or(true, |h| {
                    h.comments.iter().all(valid_cmt)
                        && h.fields.iter().filter(|f| **f == Field::Plural).count() <= 1
                        && h.fields.iter().filter(|f| matches!(f, Field::Kv(k, _) if k == "Language")).count() <= 1
                        && (!h.fields.contains(&Field::Plural) || h.plural.is_some())
                })
        }
    })
}

fn valid_cmt(c: &Cmt) -> bool {
    let ok = |s: &str| s.trim() == s && !s.contains(['\n', '\r']);
    match c {
        Cmt::Flags(f) => !f.is_empty() && f.iter().all(|s| ok(s) && !s.is_empty() && !s.contains(',')),
        Cmt::Locs(f) => !f.is_empty() && f.iter().all(|s| !s.is_empty() && !s.contains(char::is_whitespace)),
        Cmt::Dev(s) | Cmt::Tr(s) => ok(s),
        Cmt::Other(k, s) => ok(s) && !k.is_whitespace() && !" ,:.~|#\"".contains(*k),
    }
}
