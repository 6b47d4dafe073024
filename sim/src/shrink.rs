//! Minimises a failing plan: greedy, typed reductions that keep the class of the violation.
use crate::cat::*;
use crate::formula::E;
use crate::oracle::valid;
use crate::plan::*;
use std::time::{Duration, Instant};

/// Of longer lists, not every element is tried on its own: the variants of a plan are all in memory.
const MANY: usize = 48;

fn size(p: &Plan) -> usize {
    serde_json::to_vec(p).map_or(0, |v| v.len())
}

fn each_lane(p: &Plan, out: &mut Vec<Plan>, f: impl Fn(&Lane) -> Vec<Lane>) {
    for t in 0..p.tasks.len() {
        for l in 0..p.tasks[t].lanes.len() {
            for v in f(&p.tasks[t].lanes[l]) {
                let mut q = p.clone();
                q.tasks[t].lanes[l] = v;
                out.push(q);
            }
        }
    }
    for l in 0..p.nested.len() {
        for v in f(&p.nested[l]) {
            let mut q = p.clone();
            q.nested[l] = v;
            out.push(q);
        }
    }
}

/// Versions of a list with a part removed: halves first, single elements last.
fn fewer<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let n = v.len();
    let mut out = vec![];
    if n == 0 {
        return out;
    }
    out.push(vec![]);
    let mut k = n / 2;
    // long lists lose large parts first; single elements once they are short
    let least = if n > 64 { n / 16 } else { 1 };
    while k >= least {
        let mut a = 0;
        while a < n {
            let mut w = v[..a].to_vec();
            w.extend_from_slice(&v[(a + k).min(n)..]);
            out.push(w);
            a += k;
        }
        k /= 2;
    }
    out
}

fn shorter(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![String::new(), "a".to_string()];
    if c.len() <= 12 {
        for i in 0..c.len() {
            out.push(c[..i].iter().chain(&c[i + 1..]).collect());
        }
    } else {
        out.push(c[..c.len() / 2].iter().collect());
        out.push(c[c.len() / 2..].iter().collect());
        out.push(c[..c.len() - 1].iter().collect());
        out.push(c[1..].iter().collect());
    }
    out
}

fn txts(t: &Txt) -> Vec<Txt> {
    let mut out = vec![];
    if t.len() > 1 {
        out.push(vec![t.concat()]);
        out.extend(fewer(t).into_iter().filter(|v| !v.is_empty()));
    }
    for i in 0..t.len().min(MANY) {
        for s in shorter(&t[i]) {
            let mut v = t.clone();
            v[i] = s;
            out.push(v);
        }
    }
    out
}

fn opt(t: &Option<Txt>) -> Vec<Option<Txt>> {
    match t {
        None => vec![],
        Some(t) => std::iter::once(None).chain(txts(t).into_iter().map(Some)).collect(),
    }
}

fn cmts(v: &[Cmt]) -> Vec<Vec<Cmt>> {
    let mut out = fewer(v);
    for i in 0..v.len().min(MANY) {
        let alts: Vec<Cmt> = match &v[i] {
            Cmt::Flags(f) => fewer(f).into_iter().map(Cmt::Flags).collect(),
            Cmt::Locs(f) => fewer(f).into_iter().map(Cmt::Locs).collect(),
            Cmt::Dev(s) => shorter(s).into_iter().map(Cmt::Dev).collect(),
            Cmt::Tr(s) => shorter(s).into_iter().map(Cmt::Tr).collect(),
            Cmt::Other(k, s) => shorter(s).into_iter().map(|s| Cmt::Other(*k, s)).collect(),
        };
        for a in alts {
            let mut w = v.to_vec();
            w[i] = a;
            out.push(w);
        }
    }
    out
}

fn exprs(e: &E) -> Vec<E> {
    let mut out = vec![E::Num(0), E::Num(1), E::N];
    match e {
        E::N | E::Num(_) => (),
        E::Neg(a) | E::Not(a) => {
            out.push((**a).clone());
            for x in exprs(a) {
                out.push(if matches!(e, E::Neg(_)) { E::Neg(x.into()) } else { E::Not(x.into()) });
            }
        }
        E::Bin(o, a, b) => {
            out.push((**a).clone());
            out.push((**b).clone());
            out.extend(exprs(a).into_iter().map(|x| E::Bin(o.clone(), x.into(), b.clone())));
            out.extend(exprs(b).into_iter().map(|x| E::Bin(o.clone(), a.clone(), x.into())));
        }
        E::Cond(a, b, c) => {
            out.extend([(**a).clone(), (**b).clone(), (**c).clone()]);
            out.extend(exprs(a).into_iter().map(|x| E::Cond(x.into(), b.clone(), c.clone())));
            out.extend(exprs(b).into_iter().map(|x| E::Cond(a.clone(), x.into(), c.clone())));
            out.extend(exprs(c).into_iter().map(|x| E::Cond(a.clone(), b.clone(), x.into())));
        }
    }
    out
}

fn entries(e: &Entry) -> Vec<Entry> {
    let mut out = vec![];
    macro_rules! alt {
        ($f:ident, $v:expr) => {
            for x in $v {
                let mut y = e.clone();
                y.$f = x;
                out.push(y);
            }
        };
    }
    alt!(comments, cmts(&e.comments));
    if e.ppl.is_none() {
        alt!(pid, opt(&e.pid));
    } else {
        alt!(ppl, opt(&e.ppl));
        alt!(pid, opt(&e.pid).into_iter().filter(|p| p.is_some()));
    }
    alt!(pctx, opt(&e.pctx));
    alt!(ctx, opt(&e.ctx));
    alt!(id, txts(&e.id));
    if e.obsolete {
        alt!(obsolete, [false]);
    }
    if let Some(t) = &e.pl {
        let mut y = e.clone();
        y.pl = None;
        y.strs.truncate(1);
        out.push(y);
        alt!(pl, txts(t).into_iter().map(Some));
        if e.strs.len() > 1 {
            alt!(strs, fewer(&e.strs).into_iter().filter(|s| !s.is_empty()));
        }
    }
    for i in 0..e.strs.len() {
        for t in txts(&e.strs[i]) {
            let mut y = e.clone();
            y.strs[i] = t;
            out.push(y);
        }
    }
    out
}

fn cats(c: &Cat) -> Vec<Cat> {
    let mut out = vec![];
    for v in fewer(&c.entries) {
        out.push(Cat { entries: v, ..c.clone() });
    }
    if let Some(h) = &c.header {
        let mut hs: Vec<Option<Header>> = vec![None];
        let mut put = |h: Header| hs.push(Some(h));
        for f in fewer(&h.fields) {
            put(Header { fields: f, ..h.clone() });
        }
        for f in cmts(&h.comments) {
            put(Header { comments: f, ..h.clone() });
        }
        put(Header { split: 0, ..h.clone() });
        put(Header { open_end: false, ..h.clone() });
        for i in 0..h.fields.len() {
            let alts: Vec<Field> = match &h.fields[i] {
                Field::Kv(k, v) => shorter(v)
                    .into_iter()
                    .map(|v| Field::Kv(k.clone(), v))
                    .chain(if k == "Language" { vec![] } else { shorter(k) }.into_iter().map(|k| Field::Kv(k, v.clone())))
                    .collect(),
                Field::Line(l) => shorter(l).into_iter().map(Field::Line).collect(),
                Field::Plural => vec![],
            };
            for a in alts {
                let mut x = h.clone();
                x.fields[i] = a;
                put(x);
            }
        }
        if let Some(p) = &h.plural {
            for e in exprs(&p.rule) {
                put(Header { plural: Some(Plural { rule: e, ..p.clone() }), ..h.clone() });
            }
            put(Header { plural: Some(Plural { style: 0, swapped: false, ..p.clone() }), ..h.clone() });
            if !h.fields.contains(&Field::Plural) {
                put(Header { plural: None, ..h.clone() });
            }
        }
        for h in hs {
            out.push(Cat { header: h, ..c.clone() });
        }
    }
    for t in cmts(&c.tail) {
        out.push(Cat { tail: t, ..c.clone() });
    }
    let s = &c.style;
    for v in [
        Style::default(),
        Style { seed: 0, ..s.clone() },
        Style { crlf: 0, ..s.clone() },
        Style { no_final_nl: false, ..s.clone() },
        Style { indent: false, ..s.clone() },
        Style { sep: false, ..s.clone() },
        Style { trail: false, ..s.clone() },
        Style { blanks: 0, ..s.clone() },
        Style { blank_inside: false, ..s.clone() },
        Style { raw_tab: false, ..s.clone() },
        Style { gap: 0, ..s.clone() },
        Style { gap: s.gap / 2, ..s.clone() },
    ] {
        out.push(Cat { style: v, ..c.clone() });
    }
    for i in 0..c.entries.len().min(MANY) {
        for e in entries(&c.entries[i]) {
            let mut x = c.clone();
            x.entries[i] = e;
            out.push(x);
        }
    }
    out
}

/// Moves everything that is bound to a position along with the bytes behind it.
fn moved(l: &Lane, old: &[u8], new: &[u8]) -> Option<Lane> {
    let d = new.len() as i64 - old.len() as i64;
    let same = old.iter().zip(new).take_while(|(a, b)| a == b).count() as u64;
    let mv = |at: u64| if at > same { (at as i64 + d).max(same as i64) as u64 } else { at };
    let mut m = l.clone();
    for e in &mut m.del.events {
        e.at = mv(e.at);
    }
    for c in &mut m.del.cuts {
        *c = mv(*c);
    }
    for x in &mut m.dmg {
        match x {
            Dmg::Cut(a) | Dmg::Flip(a, _) | Dmg::Fill(a, ..) | Dmg::Del(a, _) | Dmg::Dup(a, _) | Dmg::Ins(a, _) => {
                *a = mv(*a % (old.len() as u64 + 1))
            }
            Dmg::LineDel(i) | Dmg::LineDup(i) | Dmg::LineSwap(i) | Dmg::LineIns(i, _) => {
                let n = old.iter().filter(|c| **c == b'\n').count() as u32;
                let lost = n as i64 - new.iter().filter(|c| **c == b'\n').count() as i64;
                *i = (*i as i64 - lost).max(0) as u32;
            }
        }
    }
    if m == *l {
        None
    } else {
        Some(m)
    }
}

fn lanes(l: &Lane) -> Vec<Lane> {
    let mut out = vec![];
    macro_rules! alt {
        ($($f:ident).+, $v:expr) => {
            for x in $v {
                let mut y = l.clone();
                y.$($f).+ = x;
                out.push(y);
            }
        };
    }
    alt!(del, [Delivery::default()]);
    alt!(del, [Delivery { events: l.del.events.clone(), ..Delivery::default() }]);
    alt!(del.events, fewer(&l.del.events));
    alt!(dmg, fewer(&l.dmg));
    alt!(del.cuts, fewer(&l.del.cuts));
    alt!(del.sizes, [vec![], vec![1]]);
    alt!(del.sizes, fewer(&l.del.sizes));
    alt!(del.intr_every, [0]);
    alt!(del.delay_every, [(0, 0)]);
    alt!(drive, fewer(&l.drive));
    for i in 0..l.drive.len() {
        use crate::plan::Drive::*;
        let less = match l.drive[i] {
            Nth(k) if k > 0 => Nth(k - 1),
            Take(k) if k > 1 => Take(k - 1),
            Skip(k) if k > 0 => Skip(k - 1),
            Step(k, n) if n > 1 => Step(k, n - 1),
            Step(k, n) if k > 1 => Step(k - 1, n),
            Peek(k) if k > 1 => Peek(k - 1),
            Find(k) if k > 0 => Find(k - 1),
            Position(k) if k > 0 => Position(k - 1),
            TryFold(k) if k > 0 => TryFold(k - 1),
            Dyn(k) if k > 1 => Dyn(k - 1),
            DynNth(k) if k > 0 => DynNth(k - 1),
            _ => continue,
        };
        let mut y = l.clone();
        y.drive[i] = less;
        out.push(y);
    }
    alt!(post, [0, 1]);
    alt!(lead, [0, l.lead / 2, l.lead.saturating_sub(1)]);
    alt!(shift, [0, 1, l.shift / 2, l.shift.saturating_sub(1)]);
    alt!(hold, [false]);
    alt!(clones, [false]);
    alt!(reader_last, [false]);
    alt!(counts, fewer(&l.counts));
    if let Some(t) = l.take {
        alt!(take, [None, Some(0), Some(t / 2), Some(t.saturating_sub(1))]);
    }
    match &l.src {
        Src::Cat(c) => {
            let old = c.render().bytes;
            for x in cats(c) {
                let new = x.render().bytes;
                let y = Lane { src: Src::Cat(x), ..l.clone() };
                if let Some(m) = moved(&y, &old, &new) {
                    out.push(m);
                }
                out.push(y);
            }
        }
        Src::Cycle(c, n) => {
            for x in cats(c) {
                out.push(Lane { src: Src::Cycle(x, *n), ..l.clone() });
            }
            alt!(src, [Src::Cycle(c.clone(), n / 2)]);
        }
        Src::Rep(r) => {
            for n in [r.n / 2, r.n - r.n / 4, r.n.saturating_sub(1)] {
                alt!(src, [Src::Rep(Rep { n, ..r.clone() })]);
            }
            alt!(src, [Src::Rep(Rep { tail: String::new(), ..r.clone() }), Src::Rep(Rep { head: String::new(), ..r.clone() })]);
            for (i, _) in r.head.match_indices('\n') {
                alt!(src, [Src::Rep(Rep { head: r.head[i + 1..].into(), ..r.clone() })]);
            }
        }
        Src::Raw(s) => {
            let old = latin1(s);
            let n = old.len();
            let mut k = n / 2;
            while k >= 1 {
                let mut a = 0;
                while a < n && out.len() < 4000 {
                    let mut w = old[..a].to_vec();
                    w.extend_from_slice(&old[(a + k).min(n)..]);
                    let y = Lane { src: Src::Raw(to_latin1(&w)), ..l.clone() };
                    if let Some(m) = moved(&y, &old, &w) {
                        out.push(m);
                    }
                    out.push(y);
                    a += k;
                }
                k /= 2;
            }
        }
    }
    out
}

fn variants(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    if let Some(l) = &p.sched.list {
        for v in fewer(l).into_iter().take(200) {
            let mut q = p.clone();
            q.sched.list = Some(v);
            out.push(q);
        }
        for i in 0..l.len().min(300) {
            if l[i] != 0 {
                let mut q = p.clone();
                q.sched.list.as_mut().unwrap()[i] = 0;
                out.push(q);
            }
        }
    }
    if p.tasks.len() > 1 {
        for t in fewer(&p.tasks) {
            out.push(Plan { tasks: t, ..p.clone() });
        }
    }
    for n in fewer(&p.nested) {
        out.push(Plan { nested: n, ..p.clone() });
    }
    for i in 0..p.tasks.len() {
        for l in fewer(&p.tasks[i].lanes).into_iter().filter(|l| !l.is_empty()) {
            let mut q = p.clone();
            q.tasks[i].lanes = l;
            out.push(q);
        }
        for g in fewer(&p.tasks[i].gaps) {
            let mut q = p.clone();
            q.tasks[i].gaps = g;
            out.push(q);
        }
    }
    if p.rounds > 0 {
        out.push(Plan { rounds: 0, ..p.clone() });
    }
    out.push(Plan { hash_seed: 1, ..p.clone() });
    each_lane(p, &mut out, lanes);
    out
}

/// `fails` tells whether a plan shows the same class of violation.
pub fn shrink(start: &Plan, time: Duration, mut fails: impl FnMut(&Plan) -> bool) -> (Plan, u64) {
    let t0 = Instant::now();
    let mut cur = start.clone();
    let mut tries = 0;
    loop {
        let mut progress = false;
        let mut i = 0;
        let mut vs = variants(&cur);
        let mut best = size(&cur);
        while i < vs.len() {
            if t0.elapsed() > time {
                return (cur, tries);
            }
            let v = &vs[i];
            let s = size(v);
            if s < best && valid(v) {
                tries += 1;
                if fails(v) {
                    cur = v.clone();
                    best = s;
                    progress = true;
                    vs = variants(&cur);
                    continue;
                }
            }
            i += 1;
        }
        if !progress {
            return (cur, tries);
        }
    }
}
