//! Catalogues as structures, the writer that renders them, and what each entry must look like when read.
use crate::formula::E;
use crate::rng::{hash_str, Rng};
use serde::{Deserialize, Serialize};

fn is_def<T: Default + PartialEq>(v: &T) -> bool {
    *v == T::default()
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Cat {
    #[serde(default, skip_serializing_if = "is_def")]
    pub style: Style,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub header: Option<Header>,
    pub entries: Vec<Entry>,
    /// comment lines behind the last entry
    #[serde(default, skip_serializing_if = "is_def")]
    pub tail: Vec<Cmt>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Style {
    pub seed: u64,
    /// 0 LF, 1 CRLF, 2 mixed
    pub crlf: u8,
    pub no_final_nl: bool,
    pub indent: bool,
    pub sep: bool,
    pub trail: bool,
    /// blank lines at most between entries
    pub blanks: u8,
    pub blank_inside: bool,
    pub raw_tab: bool,
    /// so many more blank lines before the first entry
    #[serde(default, skip_serializing_if = "is_def")]
    pub gap: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Header {
    #[serde(default, skip_serializing_if = "is_def")]
    pub comments: Vec<Cmt>,
    /// lines of the header text: key and value as written (blanks included), or a line without a colon
    pub fields: Vec<Field>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub plural: Option<Plural>,
    /// how the text is cut into string lines: 0 one per field, 1 one line, other: random cuts
    #[serde(default, skip_serializing_if = "is_def")]
    pub split: u64,
    /// the text does not end with a line end
    #[serde(default, skip_serializing_if = "is_def")]
    pub open_end: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Field {
    Kv(String, String),
    Line(String),
    /// the Plural-Forms field of `Header::plural`
    Plural,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plural {
    pub n: Option<u64>,
    pub rule: E,
    pub style: u64,
    /// "plural=..; nplurals=..;" instead of the other way round
    #[serde(default, skip_serializing_if = "is_def")]
    pub swapped: bool,
}

/// A stored string: one element per string line, in decoded form.
pub type Txt = Vec<String>;

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Entry {
    #[serde(default, skip_serializing_if = "is_def")]
    pub comments: Vec<Cmt>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pctx: Option<Txt>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pid: Option<Txt>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ppl: Option<Txt>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ctx: Option<Txt>,
    pub id: Txt,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pl: Option<Txt>,
    pub strs: Vec<Txt>,
    #[serde(default, skip_serializing_if = "is_def")]
    pub obsolete: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Cmt {
    Flags(Vec<String>),
    Locs(Vec<String>),
    Dev(String),
    Tr(String),
    Other(char, String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Owner {
    Blank,
    Tail,
    /// comment of unit u (0 is the header if there is one)
    Cmt(usize),
    /// string line of unit u: not one of its translations
    Key(usize),
    /// string line of unit u: translation i, part j
    Str(usize, usize, usize),
}

#[derive(Clone, Debug)]
pub struct Line {
    pub start: usize,
    /// end of the visible content
    pub content: usize,
    /// end including the line end
    pub end: usize,
    pub owner: Owner,
}

#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub bytes: Vec<u8>,
    pub lines: Vec<Line>,
    /// per unit (header first, if any): first and last own line (comments included)
    pub spans: Vec<(usize, usize)>,
    pub has_header: bool,
}

// ------------------------------------------------------------------------------------- snapshots

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct MSnap {
    pub simple: bool,
    pub plural: bool,
    pub blank: bool,
    pub id: String,
    pub text: String,
    /// text of a simple message
    pub opt: Option<String>,
    pub pid: Option<String>,
    pub vals: Option<Vec<String>>,
    pub look: Vec<Option<String>>,
    pub forms: Option<Forms>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Forms {
    pub count: u64,
    pub definition: String,
    pub formula: String,
    pub look: Vec<Option<u64>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct USnap {
    pub ctx: Option<String>,
    pub msg: MSnap,
    pub pctx: Option<String>,
    pub prev: MSnap,
    pub flags: Vec<String>,
    pub notes: Vec<(char, String)>,
    pub locs: Vec<String>,
    pub comments: Vec<(char, String)>,
    pub state: String,
    pub obsolete: bool,
    pub translated: bool,
}

impl USnap {
    pub fn same_texts(&self, o: &USnap) -> bool {
        let (a, b) = (&self.msg, &o.msg);
        self.ctx == o.ctx
            && a.id == b.id
            && a.pid == b.pid
            && a.text == b.text
            && a.opt == b.opt
            && a.vals == b.vals
            && a.simple == b.simple
            && a.plural == b.plural
            && a.blank == b.blank
    }
    pub fn same_annotations(&self, o: &USnap) -> bool {
        let (a, b) = (&self.prev, &o.prev);
        self.flags == o.flags
            && self.notes == o.notes
            && self.locs == o.locs
            && self.comments == o.comments
            && self.obsolete == o.obsolete
            && self.pctx == o.pctx
            && a.id == b.id
            && a.pid == b.pid
            && a.simple == b.simple
            && a.plural == b.plural
    }
    /// In what the two differ.
    pub fn unlike(&self, o: &USnap) -> Vec<&'static str> {
        let mut v = vec![];
        if !self.same_texts(o) {
            v.push("texts");
        }
        if !self.same_annotations(o) || self.state != o.state || self.translated != o.translated {
            v.push("annotations");
        }
        if self.msg.look != o.msg.look {
            v.push("lookups");
        }
        v
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct HSnap {
    pub lang: String,
    pub notes: Vec<(char, String)>,
    pub comments: Vec<(char, String)>,
    pub props: Vec<(String, String)>,
}

// ----------------------------------------------------------------------------------------- model

pub fn join(t: &Txt) -> String {
    t.concat()
}

impl Plural {
    pub fn count(&self) -> u64 {
        self.n.unwrap_or(2)
    }
    /// Form for a count: Err(()) if C leaves it open, Ok(None) if out of range.
    pub fn form(&self, count: u64) -> Result<Option<usize>, ()> {
        if count > i64::MAX as u64 {
            return Err(());
        }
        match self.rule.eval(count as i64) {
            None => Err(()),
            Some(v) if v >= 0 && (v as u64) < self.count() => Ok(Some(v as usize)),
            Some(_) => Ok(None),
        }
    }
    pub fn formula_text(&self) -> String {
        self.rule.text(self.style)
    }
    pub fn text(&self) -> String {
        let mut r = Rng::new(self.style ^ 77);
        let f = self.formula_text();
        let eq = *r.pick(&["=", "=", " = ", "= "]);
        let a = self.n.map(|n| format!("nplurals{eq}{n};"));
        let b = format!("plural{eq}{f};");
        match a {
            None => b,
            Some(a) if self.swapped => format!("{b} {a}"),
            Some(a) => format!("{a} {b}"),
        }
    }
}

impl Header {
    fn field_text(&self, f: &Field) -> String {
        match f {
            Field::Kv(k, v) => format!("{k}:{v}"),
            Field::Line(l) => l.clone(),
            Field::Plural => match &self.plural {
                Some(p) => format!("Plural-Forms: {}", p.text()),
                None => "X-None: ".into(),
            },
        }
    }

    fn parts(&self) -> Txt {
        let mut lines: Vec<String> = self.fields.iter().map(|f| self.field_text(f) + "\n").collect();
        if self.open_end {
            if let Some(l) = lines.last_mut() {
                l.pop();
            }
        }
        match self.split {
            0 => {
                let mut v = vec![String::new()];
                v.extend(lines);
                v
            }
            1 => vec![lines.concat()],
            s => {
                let all: Vec<char> = lines.concat().chars().collect();
                let mut r = Rng::new(s);
                let mut v = vec![String::new()];
                let len = r.range(2, 40);
                for c in all {
                    v.last_mut().unwrap().push(c);
                    if r.p(1, len) {
                        v.push(String::new());
                    }
                }
                v
            }
        }
    }

    pub fn expect(&self) -> HSnap {
        let mut props: Vec<(String, String)> = vec![];
        for f in &self.fields {
            let t = self.field_text(f);
            if let Some((k, v)) = t.split_once(':') {
                let (k, v) = (k.trim().to_string(), v.trim().to_string());
                match props.iter_mut().find(|(x, _)| *x == k) {
                    Some((_, o)) => {
                        o.push(' ');
                        o.push_str(&v);
                    }
                    None => props.push((k, v)),
                }
            }
        }
        props.sort();
        let lang = props.iter().find(|(k, _)| k == "Language").map(|(_, v)| v.replace('_', "-").replace("@latin", "-Latn")).unwrap_or_default();
        let (notes, comments) = notes_and_comments(&self.comments);
        HSnap { lang, notes, comments, props }
    }
}

fn notes_and_comments(c: &[Cmt]) -> (Vec<(char, String)>, Vec<(char, String)>) {
    let (mut notes, mut comments) = (vec![], vec![]);
    for c in c {
        match c {
            Cmt::Dev(s) => notes.push(('D', s.clone())),
            Cmt::Tr(s) => notes.push(('T', s.clone())),
            Cmt::Other(k, s) => comments.push((*k, s.clone())),
            _ => (),
        }
    }
    (notes, comments)
}

impl Cat {
    pub fn plural(&self) -> Option<&Plural> {
        self.header.as_ref().and_then(|h| if h.fields.contains(&Field::Plural) { h.plural.as_ref() } else { None })
    }

    pub fn expect_header(&self) -> HSnap {
        self.header.as_ref().map(|h| h.expect()).unwrap_or_default()
    }

    /// Forms that a plural lookup of the entry selects, per count: Err(()) = open.
    pub fn selected(&self, count: u64) -> Result<Option<usize>, ()> {
        match self.plural() {
            None => Ok(None),
            Some(p) => p.form(count),
        }
    }

    /// What lookups in the unit of entry `e` give; nothing if C or the property leaves one of them open.
    pub fn expect_look(&self, e: &Entry, counts: &[u64]) -> Vec<Option<String>> {
        let stored: Vec<String> = e.strs.iter().map(join).collect();
        if e.pl.is_none() {
            return if stored[0].is_empty() { vec![] } else { vec![Some(stored[0].clone()); counts.len()] };
        }
        let one = |c: &u64| self.selected(*c).map(|f| f.and_then(|k| stored.get(k).cloned()));
        counts.iter().map(one).collect::<Result<_, ()>>().unwrap_or_default()
    }

    /// The unit that entry `e` must be read as (lookups are checked elsewhere: left empty).
    pub fn expect(&self, e: &Entry) -> USnap {
        let forms = self.plural().map(|p| Forms {
            count: p.count(),
            definition: p.text(),
            formula: p.formula_text().trim().to_string(),
            look: vec![],
        });
        let msg = match &e.pl {
            None => {
                let t = join(&e.strs[0]);
                MSnap {
                    simple: true,
                    plural: false,
                    blank: t.is_empty(),
                    id: join(&e.id),
                    text: t.clone(),
                    opt: if t.is_empty() { None } else { Some(t) },
                    pid: None,
                    vals: None,
                    look: vec![],
                    forms: None,
                }
            }
            Some(pl) => {
                let vals: Vec<String> = e.strs.iter().map(join).collect();
                MSnap {
                    simple: false,
                    plural: true,
                    blank: vals.iter().all(|v| v.is_empty()),
                    id: join(&e.id),
                    text: vals.first().cloned().unwrap_or_default(),
                    opt: None,
                    pid: Some(join(pl)),
                    vals: Some(vals),
                    look: vec![],
                    forms: forms.clone(),
                }
            }
        };
        let prev = match (&e.pid, &e.ppl) {
            (None, _) => MSnap { blank: true, ..MSnap::default() },
            (Some(i), None) => MSnap { simple: !join(i).is_empty(), blank: true, id: join(i), ..MSnap::default() },
            (Some(i), Some(p)) => MSnap {
                plural: true,
                blank: true,
                id: join(i),
                pid: Some(join(p)),
                vals: Some(vec![]),
                forms,
                ..MSnap::default()
            },
        };
        let (notes, comments) = notes_and_comments(&e.comments);
        let (mut flags, mut locs): (Vec<String>, Vec<String>) = (vec![], vec![]);
        for c in &e.comments {
            match c {
                Cmt::Flags(f) => flags.extend(f.iter().cloned()),
                Cmt::Locs(l) => locs.extend(l.iter().cloned()),
                _ => (),
            }
        }
        flags.sort();
        flags.dedup();
        let fuzzy = flags.iter().any(|f| f == "fuzzy");
        let state = if fuzzy {
            "NeedsWork"
        } else if !msg.blank {
            "Final"
        } else {
            "Empty"
        };
        USnap {
            ctx: e.ctx.as_ref().map(join),
            pctx: e.pctx.as_ref().map(join),
            prev,
            flags,
            notes,
            locs,
            comments,
            state: state.into(),
            obsolete: e.obsolete,
            translated: state == "Final",
            msg,
        }
    }

    // ------------------------------------------------------------------------------------ writer

    /// A variant of the catalogue with other texts of the same length class.
    pub fn salted(&self, salt: u32) -> Cat {
        let mut c = self.clone();
        let s = format!(" #{salt:03}");
        for e in &mut c.entries {
            let filled = |t: &mut Txt| {
                if t.iter().any(|p| !p.is_empty()) {
                    t.last_mut().unwrap().push_str(&s)
                }
            };
            filled(&mut e.id);
            for t in e.strs.iter_mut().chain(e.pl.iter_mut()).chain(e.ctx.iter_mut()) {
                filled(t);
            }
            for c in &mut e.comments {
                match c {
                    Cmt::Dev(t) | Cmt::Tr(t) | Cmt::Other(_, t) => t.push_str(&s),
                    Cmt::Flags(f) => f.push(format!("s{salt:03}")),
                    Cmt::Locs(f) => f.push(format!("s.c:{salt:03}")),
                }
            }
        }
        if let Some(h) = &mut c.header {
            h.fields.push(Field::Kv(format!("X-S{salt:03}"), format!(" {salt:03}")));
        }
        c
    }

    pub fn render(&self) -> Rendered {
        let mut w = Writer { out: Rendered::default(), st: &self.style, n: 0 };
        w.out.has_header = self.header.is_some();
        let mut u = 0;
        if let Some(h) = &self.header {
            let first = w.out.lines.len();
            for c in &h.comments {
                w.comment(c, Owner::Cmt(0));
            }
            w.string("", "msgid", &vec![String::new()], |_| Owner::Key(0));
            w.string("", "msgstr", &h.parts(), |j| Owner::Str(0, 0, j));
            w.out.spans.push((first, w.out.lines.len() - 1));
            u = 1;
        }
        for _ in 0..self.style.gap {
            let mut r = Rng::new(self.style.seed);
            w.line("", Owner::Blank, &mut r);
        }
        for e in &self.entries {
            w.blanks();
            let first = w.out.lines.len();
            for c in &e.comments {
                w.comment(c, Owner::Cmt(u));
            }
            let (p, q) = if e.obsolete { ("#~", "#~|") } else { ("", "#|") };
            let key = |_: usize| Owner::Key(u);
            if let Some(t) = &e.pctx {
                w.string(q, "msgctxt", t, key);
            }
            if let Some(t) = &e.pid {
                w.string(q, "msgid", t, key);
                if let Some(t) = &e.ppl {
                    w.string(q, "msgid_plural", t, key);
                }
            }
            if let Some(t) = &e.ctx {
                w.string(p, "msgctxt", t, key);
            }
            w.string(p, "msgid", &e.id, key);
            match &e.pl {
                None => w.string(p, "msgstr", &e.strs[0], |j| Owner::Str(u, 0, j)),
                Some(t) => {
                    w.string(p, "msgid_plural", t, key);
                    for (i, s) in e.strs.iter().enumerate() {
                        w.string(p, &format!("msgstr[{i}]"), s, |j| Owner::Str(u, i, j));
                    }
                }
            }
            // blank lines inside may follow the last own line; the span ends at the last own one
            let mut last = w.out.lines.len() - 1;
            while w.out.lines[last].owner == Owner::Blank {
                last -= 1;
            }
            w.out.spans.push((first, last));
            u += 1;
        }
        if !self.tail.is_empty() {
            w.blanks();
        }
        for c in &self.tail {
            w.comment(c, Owner::Tail);
        }
        let mut out = w.out;
        // spans start at the first own line
        for s in &mut out.spans {
            while out.lines[s.0].owner == Owner::Blank {
                s.0 += 1;
            }
        }
        if self.style.no_final_nl {
            if let Some(l) = out.lines.last_mut() {
                l.end = l.content;
                out.bytes.truncate(l.end);
            }
        }
        out
    }
}

struct Writer<'a> {
    out: Rendered,
    st: &'a Style,
    n: u64,
}

impl Writer<'_> {
    fn rng(&mut self, s: &str) -> Rng {
        self.n += 1;
        Rng::new(self.st.seed ^ hash_str(s) ^ self.n << 32)
    }

    fn line(&mut self, text: &str, owner: Owner, r: &mut Rng) {
        let start = self.out.bytes.len();
        self.out.bytes.extend_from_slice(text.as_bytes());
        let content = start + text.trim_end_matches([' ', '\t']).len();
        let crlf = match self.st.crlf {
            0 => false,
            1 => true,
            _ => r.coin(),
        };
        self.out.bytes.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
        self.out.lines.push(Line { start, content: content.max(start), end: self.out.bytes.len(), owner });
    }

    fn blanks(&mut self) {
        let mut r = self.rng("blanks");
        let n = if self.st.blanks == 0 { 0 } else { r.range(0, self.st.blanks as u64) };
        for _ in 0..n {
            let t = if self.st.trail && r.p(1, 3) { *r.pick(&[" ", "\t", "   ", " \t "]) } else { "" };
            self.line(t, Owner::Blank, &mut r);
        }
    }

    fn indent(&self, r: &mut Rng) -> &'static str {
        if self.st.indent && r.p(1, 3) {
            *r.pick(&[" ", "  ", "\t", "    "])
        } else {
            ""
        }
    }

    fn string(&mut self, prefix: &str, key: &str, t: &Txt, owner: impl Fn(usize) -> Owner) {
        for (j, part) in t.iter().enumerate() {
            let mut r = self.rng(part);
            let mut l = self.indent(&mut r).to_string();
            l.push_str(prefix);
            if !prefix.is_empty() {
                l.push_str(if self.st.sep { r.pick(&[" ", "  ", "\t", ""]) } else { " " });
            }
            if j == 0 {
                l.push_str(key);
                l.push_str(if self.st.sep { r.pick(&[" ", "  ", "\t", ""]) } else { " " });
            }
            l.push('"');
            for c in part.chars() {
                match c {
                    '\n' => l.push_str("\\n"),
                    '\r' => l.push_str("\\r"),
                    '\t' if !self.st.raw_tab => l.push_str("\\t"),
                    '"' => l.push_str("\\\""),
                    '\\' => l.push_str("\\\\"),
                    c => l.push(c),
                }
            }
            l.push('"');
            if self.st.trail && r.p(1, 4) {
                l.push_str(r.pick(&[" ", "\t", "  "]));
            }
            self.line(&l, owner(j), &mut r);
            if self.st.blank_inside && r.p(1, 6) {
                self.line("", Owner::Blank, &mut r);
            }
        }
    }

    fn comment(&mut self, c: &Cmt, owner: Owner) {
        let mut r = self.rng("comment");
        let mut l = self.indent(&mut r).to_string();
        let sp = if self.st.sep { *r.pick(&[" ", "  ", "\t"]) } else { " " };
        match c {
            Cmt::Flags(f) => {
                l.push_str("#,");
                for (i, x) in f.iter().enumerate() {
                    if i > 0 {
                        l.push(',');
                    }
                    if !(self.st.sep && r.p(1, 4)) {
                        l.push_str(sp);
                    }
                    l.push_str(x);
                }
            }
            Cmt::Locs(f) => {
                l.push_str("#:");
                for x in f {
                    l.push_str(sp);
                    l.push_str(x);
                }
            }
            Cmt::Dev(s) => {
                l.push_str("#.");
                if !s.is_empty() {
                    l.push_str(sp);
                    l.push_str(s);
                }
            }
            Cmt::Tr(s) => {
                l.push('#');
                if !s.is_empty() {
                    l.push_str(if sp == "\t" { " " } else { sp });
                    l.push_str(s);
                }
            }
            Cmt::Other(k, s) => {
                l.push('#');
                l.push(*k);
                if !s.is_empty() {
                    l.push_str(sp);
                    l.push_str(s);
                }
            }
        }
        self.line(&l, owner, &mut r);
        if self.st.blank_inside && r.p(1, 8) {
            self.line("", Owner::Blank, &mut r);
        }
    }
}

