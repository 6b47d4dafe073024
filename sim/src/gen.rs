//! Generates one plan per (property, seed), swarm style: every run enables its own subset of features.
use crate::cat::*;
use crate::exec::ROUND;
use crate::formula::{self, E};
use crate::oracle::{malformed, valid, JUNK, JUNK8, PLACED, STRAY};
use crate::plan::*;
use crate::rng::{hash_str, Rng};
use std::collections::BTreeSet;

/// Features of the texts and structures of one run.
#[derive(Clone)]
struct K {
    /// enabled text classes
    classes: Vec<u8>,
    words: u64,
    parts: u64,
    entries: u64,
    header: u64, // percent
    ctx: u64,
    plural: u64,
    prev: u64,
    obsolete: u64,
    cmts: u64,
    kinds: Vec<u8>,
    empty: u64,
    long: u64,   // permille
    single: bool, // one string line per text
    dup_ids: bool,
    rule: u8, // 0 none, 1 known, 2 random, 3 mixed
    distinct: bool,
    /// nothing much larger than usual
    calm: bool,
}

fn pct(r: &mut Rng, p: u64) -> bool {
    r.p(p, 100)
}

fn subset(r: &mut Rng, n: u8, keep: u64) -> Vec<u8> {
    let v: Vec<u8> = (0..n).filter(|_| pct(r, keep)).collect();
    if v.is_empty() {
        vec![r.below(n as u64) as u8]
    } else {
        v
    }
}

impl K {
    fn new(r: &mut Rng) -> K {
        K {
            classes: subset(r, 11, 45),
            words: *r.pick(&[1, 2, 3, 6]),
            parts: *r.pick(&[1, 2, 3, 5]),
            entries: *r.pick(&[1, 2, 3, 5, 8, 8, 14, 40]),
            header: *r.pick(&[0, 50, 85, 100, 100]),
            ctx: *r.pick(&[0, 20, 60]),
            plural: *r.pick(&[0, 30, 60, 100]),
            prev: *r.pick(&[0, 0, 20, 60]),
            obsolete: *r.pick(&[0, 0, 20, 60]),
            cmts: *r.pick(&[0, 1, 2, 4]),
            kinds: subset(r, 5, 55),
            empty: *r.pick(&[0, 10, 40]),
            long: if pct(r, 6) { 60 } else { 0 },
            single: pct(r, 30),
            dup_ids: pct(r, 15),
            rule: r.below(4) as u8,
            distinct: false,
            calm: false,
        }
    }
}

const W0: &[&str] = &["open", "file", "the", "Save", "all", "x", "Übung", "error:", "%d", "%s", "a", "b1"];
const W1: &[&str] = &["héllo", "ñandú", "ß", "żółw", "файл", "ошибка"];
const W2: &[&str] = &["日本語", "文件", "ไทย", "שלום", "한글", "ｆｕｌｌ"];
const W3: &[&str] = &["😀", "👩‍👩‍👧", "🇫🇷", "e\u{301}", "\u{200d}x", "\u{feff}mid", "\u{10ffff}", "\u{fffd}", "x\u{fffd}y"];
const W4: &[&str] = &["\"", "say \"hi\"", "\\", "c:\\dir\\new", "\\n", "\\\"", "\\\\", "ends\\", "\"q", "q\"", "\\t"];
const W5: &[&str] = &["\n", "line\nline", "\t", "a\tb", "\r", "\r\n", "\n\n", "end\n"];
const W6: &[&str] = &["#", "# x", "#~ msgid \"z\"", "#, fuzzy", "msgid", "msgid \"x\"", "msgstr[1] \"y\"", "msgctxt", "#| msgid", "\"", "~", "|"];
const W7: &[&str] = &[" ", "  ", " lead", "trail ", "\u{a0}", "\u{2003}x", "a  b"];
const W8: &[&str] = &["\u{1}", "\u{7f}", "\u{85}x", "\u{2028}", "\u{c}ff", "\u{b}", "\u{0}nul", "\u{1b}[0m", "x\u{ad}y", "\u{202e}abc\u{202c}", "\u{200b}", "\u{fffe}", "\u{ffff}z", "\u{e000}"];
const W9: &[&str] = &["Key: value", "a=b;", "nplurals=2;", "%1$s{x}", "<b>x</b>", "&amp;", "`q`", "'q'", "C:", "a,b,,c", "1:2:3"];
const WORDS: [&[&str]; 10] = [W0, W1, W2, W3, W4, W5, W6, W7, W8, W9];

/// Any characters at all.
fn word(r: &mut Rng, s: &mut String) {
    let (lo, hi) = *r.pick(&[(0x20u64, 0x7e), (0x20, 0x7e), (0, 0xff), (0x100, 0x24ff), (0x2000, 0x30ff), (0x1_0000, 0x10_ffff), (0, 0xffff)]);
    for _ in 0..r.range(1, 8) {
        if let Some(c) = char::from_u32(r.range(lo, hi) as u32) {
            s.push(c);
        }
    }
}

fn text(r: &mut Rng, k: &K) -> String {
    let mut s = String::new();
    let n = r.range(1, k.words);
    for i in 0..n {
        if i > 0 && !pct(r, 30) {
            s.push(' ');
        }
        let c = *r.pick(&k.classes) as usize;
        if c < WORDS.len() {
            s.push_str(r.pick(WORDS[c]));
        } else {
            word(r, &mut s);
        }
    }
    if k.long > 0 && r.p(k.long, 1000) {
        let unit = format!("{s} long");
        let len = *r.pick(&[300usize, 4000, 8170, 8190, 8192, 9000, 17000, 33_000, 66_000]);
        while s.len() < len {
            s.push_str(&unit);
        }
    }
    s
}

/// Cuts a text into string lines.
fn cut(r: &mut Rng, k: &K, s: &str) -> Txt {
    if k.single || k.parts <= 1 || pct(r, 40) {
        return vec![s.to_string()];
    }
    let n = r.range(1, k.parts);
    let chars: Vec<char> = s.chars().collect();
    let mut marks: Vec<usize> = (1..n).map(|_| r.us(0, chars.len())).collect();
    marks.sort();
    marks.push(chars.len());
    let mut v = vec![];
    let mut a = 0;
    for m in marks {
        v.push(chars[a..m].iter().collect());
        a = m;
    }
    if pct(r, 40) {
        v.insert(0, String::new());
    }
    if pct(r, 8) {
        v.push(String::new());
    }
    v
}

fn full(r: &mut Rng, k: &K) -> String {
    let s = text(r, k);
    if s.is_empty() {
        "x".into()
    } else {
        s
    }
}

/// A comment text: one line, no blanks in front.
fn line(r: &mut Rng, k: &K) -> String {
    if pct(r, 8) {
        return String::new();
    }
    if pct(r, 25) {
        return (*r.pick(&[
            "msgid \"evil\"",
            "msgstr \"evil\"",
            "\"evil\"",
            "\"\"",
            "msgstr[0] \"evil\"",
            "msgctxt \"evil\"",
            "msgid_plural \"evil\"",
            "~ msgid \"evil\"",
            "| msgid \"evil\"",
            ", fuzzy",
            ": file.c:1",
            "fuzzy",
            "# nested",
            "msgid",
            "\\",
            "ends with backslash \\",
            "a \"quoted\" word",
            "msgid \"open",
        ]))
        .to_string();
    }
    let s: String = text(r, k).chars().map(|c| if c == '\n' || c == '\r' { '/' } else { c }).collect();
    let mut s = s.trim().to_string();
    if !s.is_empty() && pct(r, 4) {
        s.push_str(r.pick(&[" ", "  ", "\t", "\u{a0}"]));
    }
    s
}

fn comment(r: &mut Rng, k: &K) -> Cmt {
    match *r.pick(&k.kinds) {
        0 => {
            let n = if pct(r, 6) { r.range(4, 40) } else { r.range(1, 3) };
            let pool = ["fuzzy", "c-format", "no-wrap", "python-format", "range: 0..10", "x-é", "no-c-format", "FUZZY", "fuzzy2"];
            Cmt::Flags(
                (0..n)
                    .map(|_| {
                        if pct(r, 15) {
                            format!("{}-{}", r.pick(&["x", "fuzzy", "no-fuzzy", "c", "f"]), r.below(500))
                        } else if n > 3 && pct(r, 80) {
                            format!("f{}", r.below(100))
                        } else {
                            r.pick(&pool).to_string()
                        }
                    })
                    .collect(),
            )
        }
        1 => {
            let n = if pct(r, 5) { r.range(5, 60) } else { r.range(1, 4) };
            Cmt::Locs(
                (0..n)
                    .map(|_| {
                        let f = *r.pick(&["src/a.c", "b.rs", "müll.py", "x", "C:\\a.c", "msgid", "\"q\"", "\u{2068}a.c\u{2069}", "a%20b.c"]);
                        format!("{f}:{}", r.below(2000))
                    })
                    .collect(),
            )
        }
        2 => Cmt::Dev(line(r, k)),
        3 => Cmt::Tr(line(r, k)),
        _ if pct(r, 15) => {
            let c = loop {
                let most = *r.pick(&[0x7e, 0xff, 0xffff, 0x10_ffff]);
                if let Some(c) = char::from_u32(r.range(0x21, most) as u32) {
                    if !c.is_whitespace() && !",:.~|".contains(c) {
                        break c;
                    }
                }
            };
            Cmt::Other(c, line(r, k))
        }
        _ => Cmt::Other(*r.pick(&['!', '=', '-', '@', 'a', 'é', '日', '(', '%', '1', '\\', 'm']), line(r, k)),
    }
}

fn comments(r: &mut Rng, k: &K) -> Vec<Cmt> {
    let n = if k.cmts == 0 { 0 } else { r.range(0, k.cmts) };
    let mut v: Vec<Cmt> = vec![];
    for _ in 0..n {
        // repeated comments stay repeated
        let c = if !v.is_empty() && pct(r, 8) { r.pick(&v).clone() } else { comment(r, k) };
        v.push(c);
    }
    v
}

fn plural(r: &mut Rng, kind: u8) -> Plural {
    let known = match kind {
        1 => true,
        2 => false,
        _ => r.coin(),
    };
    let style = r.u64();
    let swapped = pct(r, 10);
    if known {
        let (n, s) = *r.pick(formula::KNOWN);
        let n = if n == 2 && pct(r, 20) { None } else { Some(n) };
        return Plural { n, rule: formula::parse_c(s), style, swapped };
    }
    loop {
        let n = if pct(r, 8) { *r.pick(&[7, 8, 9, 10, 11, 12, 13, 20, 33, 101]) } else { r.range(1, 6) };
        let d = r.range(1, 4) as u32;
        let rule: E = formula::rule(r, n, d);
        if rule.size() > 300 || rule.text(style).len() > 3500 {
            continue;
        }
        let n = if n == 2 && pct(r, 25) { None } else { Some(n) };
        return Plural { n, rule, style, swapped };
    }
}

fn header(r: &mut Rng, k: &K) -> Header {
    let mut fields = vec![];
    let pool: &[(&str, &str)] = &[
        ("Project-Id-Version", " pkg 1.0"),
        ("Report-Msgid-Bugs-To", " https://bugs.example.org/?a=b:c"),
        ("POT-Creation-Date", " 2020-01-01 10:20+0100"),
        ("Last-Translator", " Jürgen <j@example.org>"),
        ("Language-Team", " "),
        ("MIME-Version", "1.0"),
        ("Content-Type", " text/plain; charset=UTF-8"),
        ("Content-Transfer-Encoding", "   8bit  "),
        ("X-Generator", " \"hand\""),
        ("X-Multi", " one"),
        ("X-Multi", " two"),
        ("x-multi", " lower"),
        (" X-Padded ", "\tv "),
        ("X-Empty", ""),
        ("X-Üml", " ünï: 日本"),
        ("X-Back", " a\\b"),
        ("Languages", " de"),
        ("X-Language", " es"),
        ("Plural", " x"),
        ("language", " tr"),
        ("LANGUAGE", " el"),
        ("Language-Name", " Esperanto"),
        ("plural-forms", " nplurals=5; plural=4;"),
        ("Plural-Form", " nplurals=4; plural=3;"),
        ("X-Plural-Forms", " nplurals=1; plural=0;"),
        ("content-type", " text/plain; charset=ISO-8859-1"),
        ("Content-Type", " text/plain; charset=ISO-8859-1"),
    ];
    for _ in 0..r.range(0, 8) {
        if pct(r, 12) {
            fields.push(Field::Line((*r.pick(&["no colon here", "", "   ", "Language fr", "continued"])).to_string()));
        } else {
            let (a, b) = *r.pick(pool);
            if !fields.is_empty() && pct(r, 4) {
                let f: Field = r.pick(&fields).clone();
                fields.push(f);
            } else if pct(r, 12) {
                let v = match r.below(8) {
                    0 => format!("{a}: again"),
                    1 => format!("{a}:{a}:"),
                    2 => ":".into(),
                    3 => format!(":: {b} ::"),
                    4 => a.to_string(),
                    5 => format!("{b} # {b}"),
                    6 => format!("\"{}\"", b.trim()),
                    _ => b.to_uppercase(),
                };
                fields.push(Field::Kv(a.into(), format!("{}{v}", r.pick(&["", " ", "\t"]))));
            } else if pct(r, 12) {
                let v: String = line(r, k);
                fields.push(Field::Kv(format!("X-{}", r.below(30)), format!(" {v}")));
            } else {
                fields.push(Field::Kv(a.into(), b.into()));
            }
        }
    }
    if pct(r, 70) {
        let at = r.us(0, fields.len());
        let l = *r.pick(&["fr", "pt_BR", "en-US", "de", "zh_TW", "cs", "", "ja", "sr", "es-419", "zh-Hans-CN", "gsw", "fil", "sr@latin", "de-1996", "ast"]);
        fields.insert(at, Field::Kv("Language".into(), format!("{}{l}", r.pick(&["", " ", "  "]))));
    }
    let plural = if k.rule > 0 || pct(r, 50) { Some(plural(r, k.rule)) } else { None };
    if plural.is_some() {
        let at = r.us(0, fields.len());
        fields.insert(at, Field::Plural);
    } else if pct(r, 25) {
        // no rule either
        let at = r.us(0, fields.len());
        fields.insert(at, Field::Kv("Plural-Forms".into(), (*r.pick(&["", " ", "\t"])).into()));
    }
    Header {
        comments: comments(r, k),
        fields,
        plural,
        split: match r.below(4) {
            0 | 1 => 0,
            2 => 1,
            _ => r.range(2, u32::MAX as u64),
        },
        open_end: pct(r, 15),
    }
}

fn style(r: &mut Rng) -> Style {
    if pct(r, 25) {
        return Style { seed: r.u64() >> 12, blanks: 1, ..Style::default() };
    }
    Style {
        seed: r.u64() >> 12,
        crlf: *r.pick(&[0, 0, 0, 1, 1, 2]),
        no_final_nl: pct(r, 20),
        indent: pct(r, 20),
        sep: pct(r, 30),
        trail: pct(r, 20),
        blanks: *r.pick(&[0, 1, 1, 3]),
        blank_inside: pct(r, 15),
        raw_tab: pct(r, 30),
        gap: 0,
    }
}

fn entry(r: &mut Rng, k: &K, n: u64, i: usize, ids: &mut BTreeSet<String>) -> Entry {
    let mut id = full(r, k);
    if pct(r, 30) || !(k.dup_ids || ids.insert(id.clone())) {
        id = match r.below(3) {
            0 => format!("{i} {id}"),
            1 => format!("{id}{i}"),
            _ => format!("{id} {i}\n"),
        };
        while !k.dup_ids && !ids.insert(id.clone()) {
            id.push('+');
        }
    }
    let is_pl = pct(r, k.plural);
    let mut strs: Vec<String> = vec![];
    if is_pl {
        let m = if pct(r, 75) { n } else { r.range(1, n) };
        let blank = pct(r, k.empty / 2);
        for j in 0..m {
            let mut t = if blank || pct(r, k.empty / 3) { String::new() } else { text(r, k) };
            if !blank && (k.distinct || pct(r, 50)) {
                while strs.contains(&t) {
                    t = format!("{t}({j})");
                }
            }
            strs.push(t);
        }
    } else {
        strs.push(if pct(r, k.empty) { String::new() } else { text(r, k) });
    }
    let txt = |r: &mut Rng, s: &str| cut(r, k, s);
    let prev = pct(r, k.prev);
    let (mut pid, mut ppl) = (None, None);
    if prev && pct(r, 85) {
        let s = full(r, k);
        pid = Some(txt(r, &s));
        if pct(r, if is_pl { 70 } else { 10 }) {
            let s = text(r, k);
            ppl = Some(txt(r, &s));
        }
    }
    let ctx = if pct(r, k.ctx) {
        let s = if pct(r, 10) { String::new() } else { text(r, k) };
        Some(txt(r, &s))
    } else {
        None
    };
    let pctx = if prev && pct(r, 40) {
        let s = text(r, k);
        Some(txt(r, &s))
    } else {
        None
    };
    let pl = if is_pl {
        let s = if pct(r, 5) { String::new() } else { text(r, k) };
        Some(txt(r, &s))
    } else {
        None
    };
    Entry {
        comments: comments(r, k),
        pctx,
        pid,
        ppl,
        ctx,
        id: txt(r, &id),
        pl,
        strs: strs.iter().map(|s| txt(r, s)).collect(),
        obsolete: pct(r, k.obsolete),
    }
}

fn cat(r: &mut Rng, k: &K) -> Cat {
    let header = if pct(r, k.header) { Some(header(r, k)) } else { None };
    let n = match &header {
        Some(Header { plural: Some(p), .. }) => p.count(),
        _ => 2,
    };
    let m = if pct(r, 4) { 0 } else { r.range(1, k.entries) };
    let mut ids = BTreeSet::new();
    let entries = (0..m as usize).map(|i| entry(r, k, n, i, &mut ids)).collect();
    let entries = extreme(r, k, n, entries);
    let tail = if pct(r, 15) { (0..r.range(1, 3)).map(|_| comment(r, k)).collect() } else { vec![] };
    let mut c = Cat { style: style(r), header, entries, tail };
    match if k.calm { 700 } else { r.below(700) } {
        // more lines than 16 bits can count
        0 => c.style.gap = r.range(65_000, 140_000) as u32,
        1 | 2 => c.style.gap = r.range(200, 9000) as u32,
        3 | 4 => {
            if let Some(h) = &mut c.header {
                for i in 0..r.range(30, 300) {
                    h.fields.push(Field::Kv(format!("X-Many-{}", i % 250), format!(" v{i}")));
                }
            }
        }
        _ => (),
    }
    c
}

/// Texts that differ from round to round of an endless catalogue.
fn rounds(r: &mut Rng, c: &mut Cat) {
    let keep = *r.pick(&[0, 30, 100, 100]);
    for e in &mut c.entries {
        let mut mark = |t: &mut Txt| {
            if pct(r, keep) {
                t.last_mut().unwrap().push_str(ROUND);
            }
        };
        mark(&mut e.id);
        for t in e.strs.iter_mut().chain(e.pl.iter_mut()).chain(e.ctx.iter_mut()).chain(e.pid.iter_mut()) {
            mark(t);
        }
        for c in &mut e.comments {
            if pct(r, keep) {
                match c {
                    Cmt::Dev(t) | Cmt::Tr(t) | Cmt::Other(_, t) => t.push_str(ROUND),
                    Cmt::Flags(f) | Cmt::Locs(f) => f.push(ROUND.into()),
                }
            }
        }
    }
}

/// Now and then one dimension is far larger than usual.
fn extreme(r: &mut Rng, k: &K, n: u64, mut es: Vec<Entry>) -> Vec<Entry> {
    if k.calm || es.is_empty() || !pct(r, 2) {
        return es;
    }
    let i = r.us(0, es.len() - 1);
    match r.below(5) {
        0 => {
            let c = comment(r, k);
            for j in 0..r.range(40, 400) {
                let mut c = c.clone();
                match &mut c {
                    Cmt::Flags(f) => f.push(format!("f{j}")),
                    Cmt::Locs(f) => f.push(format!("l:{j}")),
                    Cmt::Dev(s) | Cmt::Tr(s) | Cmt::Other(_, s) => s.push_str(&j.to_string()),
                }
                es[i].comments.push(c);
            }
        }
        1 => {
            let v: Vec<String> = (0..r.range(20, 400)).map(|j| format!("r{j}")).collect();
            es[i].comments.push(if r.coin() { Cmt::Flags(v) } else { Cmt::Locs(v) });
        }
        2 => {
            let part = text(r, k);
            let t: Txt = (0..r.range(50, 1500)).map(|j| format!("{j}{part}")).map(|s| s.chars().take(40).collect()).collect();
            // a lost line of a text in many lines cannot be told from a shorter text
            let t = if k.single { vec![t.concat()] } else { t };
            let e = &mut es[i];
            match r.below(4) {
                0 => e.id = t,
                1 => e.ctx = Some(t),
                2 if e.pl.is_some() => e.pl = Some(t),
                _ => e.strs[0] = t,
            }
        }
        3 => {
            // many small entries
            let most = if pct(r, 15) { 7000 } else { 700 };
            for j in 0..r.range(150, most) {
                let plural = j % 7 == 3;
                let m = if plural { n.min(3) } else { 1 };
                es.push(Entry {
                    id: vec![format!("many {j}")],
                    pl: plural.then(|| vec![format!("many {j}s")]),
                    strs: (0..m).map(|f| vec![format!("viele {j}/{f}")]).collect(),
                    ..Entry::default()
                });
            }
        }
        _ => {
            let s = text(r, k);
            let mut t = String::new();
            let unit = format!("{s}-longer-");
            let len = r.range(9000, 140_000) as usize;
            while t.len() < len {
                t.push_str(&unit);
            }
            match r.below(3) {
                0 => es[i].comments.push(Cmt::Dev("long ".to_string() + &t.replace(['\n', '\r'], " ") + ".")),
                1 => es[i].id = vec![t],
                _ => es[i].strs[0] = vec![t],
            }
        }
    }
    es
}

const COUNTS: &[u64] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 21, 22, 23, 24, 25, 31, 51, 71, 81, 91, 99, 100, 101, 102, 103,
    104, 105, 110, 111, 112, 113, 114, 115, 119, 120, 121, 122, 199, 200, 201, 211, 1000, 1001, 1011, 10000, 1_000_000, 1_000_001,
    2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 4_294_967_297,
    i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX,
];

fn counts(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n)
        .map(|_| match r.below(6) {
            0 => r.below(6),
            1 => r.below(130),
            2 => r.below(100_000),
            _ => *r.pick(COUNTS),
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

// --------------------------------------------------------------------------------------- positions

/// Positions worth a fault: line ends, line starts, inside characters, escapes, keywords, buffer ends.
fn spot(r: &mut Rng, b: &[u8], lines: &[Line]) -> u64 {
    let n = b.len();
    if n == 0 {
        return 0;
    }
    let find = |r: &mut Rng, f: &dyn Fn(usize) -> bool| -> Option<u64> {
        let a = r.us(0, n - 1);
        (a..n).chain(0..a).find(|i| f(*i)).map(|i| i as u64)
    };
    let l = if lines.is_empty() { None } else { Some(r.pick(lines).clone()) };
    match (r.below(16), l) {
        (0, _) => r.below(n as u64 + 1),
        (1, _) => find(r, &|i| b[i] & 0xc0 == 0x80).unwrap_or_else(|| r.below(n as u64)),
        (2, _) => find(r, &|i| i > 0 && b[i - 1] == b'\r').unwrap_or_else(|| r.below(n as u64)),
        (3, _) => find(r, &|i| i > 0 && b[i - 1] == b'\\').unwrap_or_else(|| r.below(n as u64)),
        (4, _) => n as u64 - r.below(3).min(n as u64),
        (5, _) if n > 8192 => (8192 * r.range(1, n as u64 / 8192) + r.below(3)).saturating_sub(1).min(n as u64),
        (6 | 7 | 8, Some(l)) => l.start as u64,
        (9, Some(l)) => l.end as u64,
        (10 | 11, Some(l)) => l.content as u64,
        (12, Some(l)) => (l.content as u64).saturating_sub(1),
        (13, Some(l)) => r.range(l.start as u64, l.end as u64),
        (14, Some(l)) => l.start as u64 + r.below(6).min((l.end - l.start) as u64),
        _ => r.below(n as u64 + 1),
    }
}

/// A delivery schedule without failures.
fn delivery(r: &mut Rng, b: &[u8], lines: &[Line]) -> Delivery {
    let mut d = Delivery::default();
    let n = b.len() as u64;
    match r.below(8) {
        0 => (),
        1 => d.sizes = vec![1],
        2 => d.sizes = vec![r.range(2, 9) as u32],
        3 => d.sizes = (0..r.range(2, 9)).map(|_| r.range(1, 12) as u32).collect(),
        4 => d.sizes = (0..r.range(2, 6)).map(|_| *r.pick(&[1, 2, 3, 64, 500, 8191, 8192, 100_000])).collect(),
        5 => d.sizes = vec![r.range(10, 200) as u32],
        _ => {
            for _ in 0..r.range(1, 20) {
                d.cuts.push(spot(r, b, lines));
            }
        }
    }
    // very long inputs in single bytes are slow and teach nothing
    if n > 30_000 && d.sizes.iter().all(|s| *s < 10) && !d.sizes.is_empty() {
        d.sizes.push(5000);
    }
    if pct(r, 30) {
        d.intr_every = r.range(2, 6) as u32;
    }
    if pct(r, 20) {
        d.delay_every = (r.range(1, 5) as u32, *r.pick(&[1, 50, 10_000, 60_000_000, 3_600_000_000]));
    }
    if pct(r, 30) {
        for _ in 0..r.range(1, 4) {
            let n = if pct(r, 15) { r.skew(6, 1500) } else { r.range(1, 5) };
            d.events.push(Ev { at: spot(r, b, lines), k: EvK::Intr(n as u32) });
        }
    }
    if pct(r, 20) {
        // up to a fortnight
        let most = *r.pick(&[1_000, 5_000_000, 120_000_000, 1 << 40]);
        d.events.push(Ev { at: spot(r, b, lines), k: EvK::Delay(r.below(most)) });
    }
    d
}

fn err_spec(r: &mut Rng) -> ErrSpec {
    // half of the kinds are those that readers like to treat specially
    let kind = |r: &mut Rng| if r.coin() { r.below(14) } else { r.below(ERR_KINDS.len() as u64) } as u32;
    match r.below(6) {
        4 => ErrSpec::Nest(kind(r), kind(r), format!("p{}", r.below(1000))),
        3 => ErrSpec::Os(loop {
            let c = r.range(1, 133) as i32;
            if c != libc::EINTR {
                break c;
            }
        }),
        0 => ErrSpec::Os(*r.pick(&[
            libc::EIO,
            libc::ENOSPC,
            libc::ECONNRESET,
            libc::ETIMEDOUT,
            libc::EACCES,
            libc::EAGAIN,
            libc::EBADF,
            libc::EISDIR,
            libc::ENOMEM,
            libc::EPIPE,
            libc::ESTALE,
        ])),
        1 => ErrSpec::Custom(kind(r), format!("p{}", r.below(1000))),
        _ => ErrSpec::Simple(kind(r)),
    }
}

fn after(r: &mut Rng) -> After {
    *r.pick(&[After::Same, After::Resume, After::Eof, After::OtherErr])
}

fn damage(r: &mut Rng, b: &[u8], lines: &[Line]) -> Dmg {
    let at = spot(r, b, lines);
    match r.below(14) {
        12 | 13 => Dmg::LineIns(r.below(1000) as u32, misplaced(r)),
        0 => Dmg::Cut(at),
        1 | 2 => Dmg::Flip(at, 1 << r.below(8)),
        3 => Dmg::Flip(at, r.range(1, 255) as u8),
        4 => Dmg::Fill(at, *r.pick(&[1, 4, 16, 512, 4096]), *r.pick(&[0, 0xff, b' ', b'\n', b'"', b'#'])),
        5 => Dmg::Del(at, r.skew(1, 200) as u32),
        6 => Dmg::Dup(at, r.skew(1, 200) as u32),
        7 => {
            let s = *r.pick(&["\"", "\\", "\n", "#", "msgid \"\"\n", "\u{ff}", "\u{0}", "\r", "msgstr \"x\"\n", "[", "~", "\u{ef}\u{bb}\u{bf}"]);
            Dmg::Ins(at, s.into())
        }
        8 => Dmg::LineDel(r.below(1000) as u32),
        9 => Dmg::LineDup(r.below(1000) as u32),
        10 => Dmg::LineSwap(r.below(1000) as u32),
        _ => Dmg::LineIns(r.below(1000) as u32, junk(r)),
    }
}

/// A long malformed line full of characters of several bytes.
fn long_junk(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick(&["", "x", "msgid \"", "msgstr \"open ", "\"", "msgid ", "ab", "abc"]));
    let len = *r.pick(&[60u64, 90, 130, 200, 260, 520, 1030, 2060, 4100, 9000]) + r.below(20);
    let pad = pct(r, 50);
    while (s.len() as u64) < len {
        let w = r.range(1, 3) as usize;
        let c = *r.pick(WORDS[w]);
        s.push_str(c);
        if pad && r.coin() {
            s.push_str(r.pick(&["a", " ", "bc", "\\\""]));
        }
    }
    if !s.starts_with(['x', 'm', '"', 'a']) {
        s.insert(0, 'z');
    }
    // no closing quote
    s.push('z');
    to_latin1(s.as_bytes())
}

/// A line of the format inserted where it does not belong.
fn placed(r: &mut Rng, l: &Lane, lines: &[Line]) -> Dmg {
    let p = *r.pick(&PLACED);
    let i = match lines.iter().enumerate().filter(|(i, l)| *i > 0 && matches!(l.owner, Owner::Cmt(_) | Owner::Key(_))).map(|(i, _)| i).collect::<Vec<_>>() {
        v if !v.is_empty() && r.coin() => *r.pick(&v),
        _ => r.us(0, lines.len() - 1),
    };
    let starts: Vec<usize> = match &l.src {
        Src::Cat(c) => c.render().spans.iter().skip(1).map(|s| s.0).collect(),
        _ => vec![],
    };
    let i = if starts.is_empty() || STRAY.contains(&p) { i } else { *r.pick(&starts) };
    Dmg::LineIns(i as u32, p.into())
}

/// Lines of the format where they do not belong.
fn misplaced(r: &mut Rng) -> String {
    r.pick(&[
        "msgid \"\"",
        "msgid \"\"\nmsgstr \"\"",
        "msgid \"\"\nmsgstr \"Language: xx\\n\"",
        "msgid \"orphan\"",
        "msgid \"orphan\"\nmsgid_plural \"orphans\"",
        "msgstr \"stray\"",
        "msgid_plural \"stray\"",
        "msgstr[0] \"stray\"",
        "msgstr[1] \"stray\"",
        "msgstr[7] \"stray\"",
        "msgctxt \"stray\"",
        "\"stray\"",
        "#| msgid \"stray\"",
        "#| \"stray\"",
        "#~ msgid \"stray\"",
        "#~ msgstr \"stray\"",
        "#~| msgid \"stray\"",
        "#~ \"stray\"",
        "# stray",
        "#, fuzzy",
    ])
    .to_string()
}

/// A malformed line made on the spot.
fn fresh_junk(r: &mut Rng) -> String {
    const OTHER: &[&str] = &[
        "$Id$", "<!-- x -->", "/* c */", "; comment", "% c", "-- c", "' c", "REM x", "dnl x", ".. x", "{", "}", "[section]",
        "key = value", "--- a/x.po", "+++ b/x.po", "@@ -1,2 +1,2 @@", ">>>>>>> x", "||||||| x", "%%", "\\", "EOF", "...",
        "msgstr[1", "msgstr[1 \"a\"", "msgstr1] \"a\"", "msgstr(0) \"a\"", "msgid: \"a\"", "msgid=\"a\"", "msgid_plurals \"a\"",
        "msgctx \"a\"", "msgstr[0][1] \"a\"", "msgstr[0x1] \"a\"", "msgstr[1.0] \"a\"", "previous \"a\"", "“a”", "msgid «a»",
        "msgid_ \"a\"", "_msgid \"a\"", "msgid-plural \"a\"", "msgstr[n] \"a\"", "include \"a\"", "a: \"b\"", "\"a\";", "\"a\",",
        "\"a\" +", "msgid \"a\" \\", "\\\"a\"", "0", "42", "null", "true", "?", "*", "-",
    ];
    const VALID: &[&str] = &["msgid \"abc\"", "msgstr \"abc d\"", "\"cont\\n\"", "msgstr[0] \"x\"", "msgctxt \"c\"", "msgid_plural \"p\""];
    for _ in 0..20 {
        let s = match r.below(5) {
            0 => OTHER.iter().nth(r.us(0, OTHER.len() - 1)).unwrap().to_string(),
            1 | 2 => {
                // one character, repeated
                let c = r.range(1, 0x7e) as u8 as char;
                let n = r.skew(1, 120) as usize;
                c.to_string().repeat(n)
            }
            3 => {
                // a valid line with one character too few, too many or another
                let mut c: Vec<char> = r.pick(VALID).chars().collect();
                let i = r.us(0, c.len() - 1);
                let new = r.range(0x20, 0x7e) as u8 as char;
                match r.below(3) {
                    0 => {
                        c.remove(i);
                    }
                    1 => c.insert(i, new),
                    _ => c[i] = new,
                }
                c.into_iter().collect()
            }
            _ => {
                let mut s = String::new();
                for _ in 0..r.range(1, 3) {
                    word(r, &mut s);
                }
                s
            }
        };
        let s = to_latin1(s.as_bytes());
        if !s.contains(['\n', '\r']) && malformed(&latin1(&s)) == Some(true) {
            return s;
        }
    }
    "junk".into()
}

fn junk(r: &mut Rng) -> String {
    if pct(r, 12) {
        return long_junk(r);
    }
    if pct(r, 12) {
        return r.pick(JUNK8).to_string();
    }
    if pct(r, 45) {
        return fresh_junk(r);
    }
    let j = r.pick(JUNK).to_string();
    if pct(r, 15) {
        format!(" {j}")
    } else {
        j
    }
}

fn lane(c: Cat, del: Delivery) -> Lane {
    Lane { src: Src::Cat(c), del, ..Lane::default() }
}

fn schedule(r: &mut Rng) -> SchedSpec {
    SchedSpec { seed: r.u64() >> 12, stick: *r.pick(&[0, 200, 500, 800, 950, 990]), list: None }
}

fn gaps(r: &mut Rng) -> Vec<u32> {
    match r.below(4) {
        0 => vec![],
        1 => (0..r.range(1, 3)).map(|_| r.skew(1, 20_000) as u32).collect(),
        2 => (0..r.range(3, 40)).map(|_| r.skew(1, 300) as u32).collect(),
        _ => (0..r.range(3, 60)).map(|_| r.skew(1, 3000) as u32).collect(),
    }
}

/// Spreads lanes over tasks.
fn spread(r: &mut Rng, lanes: Vec<Lane>, tasks: usize, share: u64) -> Vec<Task> {
    let n = tasks.min(lanes.len()).max(1);
    let mut ts: Vec<Task> = (0..n)
        .map(|_| Task {
            shared: pct(r, share),
            sequential: pct(r, 30),
            gaps: if n > 1 { gaps(r) } else { vec![] },
            lanes: vec![],
        })
        .collect();
    for (i, l) in lanes.into_iter().enumerate() {
        let t = if i < n { i } else { r.us(0, n - 1) };
        ts[t].lanes.push(l);
    }
    ts
}

fn soup(r: &mut Rng, k: &K) -> String {
    let mut out: Vec<u8> = vec![];
    let n = r.skew(1, 60);
    match r.below(5) {
        0 => {
            for _ in 0..r.skew(0, 3000) {
                out.push(r.u64() as u8);
            }
        }
        1 => {
            let v = *r.pick(&[0u8, 0xff, b'\n', b'#', b'"', b'\\', b' ']);
            let top = if pct(r, 10) { 400_000 } else { 70_000 };
            out.resize(r.skew(1, top) as usize, v);
        }
        2 => {
            // tokens of the format in any order
            let toks: &[&str] = &[
                "msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[1]", "msgstr[99999999999999999999]", "msgstr[", "]", "\"", "\"\"",
                "\"a\"", " ", "\n", "\r\n", "\t", "#", "#~", "#|", "#~|", "#,", "#.", "#:", "fuzzy", "\\", "\\n", "\\\"", "Plural-Forms: nplurals=3; plural=n;",
                "Language: ", ":", ";", "=", "n", "é", "\u{0}", "\n\n",
            ];
            for _ in 0..n * 4 {
                let t = *r.pick(toks);
                out.extend_from_slice(t.as_bytes());
                if pct(r, 20) {
                    out.push(b'\n');
                }
            }
        }
        3 => {
            // lines of the format in any order
            for i in 0..n {
                if pct(r, 4) {
                    out.extend_from_slice(&latin1(&junk(r)));
                    out.push(b'\n');
                    continue;
                }
                let l = match r.below(11) {
                    0 => "msgid \"\"".to_string(),
                    1 => format!("msgid \"{i}\""),
                    2 => "msgstr \"t\"".into(),
                    3 => "msgid_plural \"p\"".into(),
                    4 => format!("msgstr[{}] \"v\"", r.below(4)),
                    5 => "\"cont\\n\"".into(),
                    6 => "msgctxt \"c\"".into(),
                    7 => format!("#{} {}", r.pick(&["", ",", ".", ":", "|", "~"]), line(r, k)),
                    8 => "#| msgid \"old\"".into(),
                    9 => "#~ msgid \"gone\"".into(),
                    _ => String::new(),
                };
                out.extend_from_slice(l.as_bytes());
                out.extend_from_slice(if pct(r, 10) { b"\r\n" } else { b"\n" });
            }
        }
        _ => {
            let c = cat(r, k);
            out = c.render().bytes;
            for _ in 0..r.range(1, 6) {
                damage(r, &out.clone(), &c.render().lines).apply(&mut out);
            }
        }
    }
    to_latin1(&out)
}

/// A header made to hurt.
fn hostile(r: &mut Rng) -> String {
    // the reader accepts a bounded length; beyond it the text must be refused, not followed
    let deep = if pct(r, 25) { r.range(60_000, 300_000) } else { r.range(1, 4200) } as usize;
    let form = match r.below(20) {
        0 => "(".repeat(deep / 2) + "n" + &")".repeat(deep / 2),
        1 => "n?".repeat(deep / 4) + "0" + &":1".repeat(deep / 4),
        2 => "!".repeat(deep) + "n",
        3 => "n+".repeat(deep / 2) + "1",
        4 => "n?0:".repeat(deep / 4) + "1",
        5 => "-(".repeat(deep / 3) + "n" + &")".repeat(deep / 3),
        6 => "n/(n-n)".into(),
        7 => "n%0".into(),
        8 => "-n/-1".into(),
        9 => "(0-9223372036854775807-1)/(0-1)".into(),
        10 => "(0-9223372036854775807-1)%(0-1)".into(),
        11 => "99999999999999999999999999".into(),
        12 => "-(0-9223372036854775807-1)".into(),
        13 => "n*n*n*n*n*n*n*n*n".into(),
        14 => "(".repeat(r.range(1, 100_000) as usize),
        15 => "n".repeat(r.range(1, 20_000) as usize),
        16 => "n || ".repeat(r.range(1, 30_000) as usize) + "n",
        17 => "((((n".into(),
        18 => "n - 9223372036854775807 - 9223372036854775807".into(),
        _ => formula::arith(r, 5).text(r.u64()),
    };
    let np = match r.below(12) {
        0 => "nplurals=18446744073709551615; ".into(),
        1 => "nplurals=18446744073709551616; ".into(),
        2 => "nplurals=0; ".into(),
        3 => "nplurals=-1; ".into(),
        4 => "nplurals=; ".into(),
        5 => "".into(),
        6 => "nplurals=4000000000; ".into(),
        7 => "nplurals=x; ".into(),
        8 => "nplurals=2; nplurals=3; ".to_string(),
        _ => format!("nplurals={}; ", r.range(1, 6)),
    };
    let tail = *r.pick(&[";", "", ";;", "; x", ";\\n", "; junk=1;"]);
    let lang = *r.pick(&["fr", "", "xx_YY@zzz.utf8", "_", "-", "\u{0}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "*", "fr_", "C", "日本", "i-klingon"]);
    let mut s = format!("msgid \"\"\nmsgstr \"Plural-Forms: {np}plural={form}{tail}\\n\"\n");
    if pct(r, 40) {
        s.push_str(&format!("\"Language: {lang}\\n\"\n"));
    }
    for i in 0..r.range(0, 4) {
        s.push_str(&format!("\nmsgid \"a{i}\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n"));
    }
    to_latin1(s.as_bytes())
}

fn bytes_of(l: &Lane) -> (Vec<u8>, Vec<Line>) {
    match &l.src {
        Src::Cat(c) => {
            let r = c.render();
            let mut b = r.bytes;
            for d in &l.dmg {
                d.apply(&mut b);
            }
            (b, r.lines)
        }
        Src::Raw(s) => {
            let mut b = latin1(s);
            for d in &l.dmg {
                d.apply(&mut b);
            }
            (b, vec![])
        }
        Src::Cycle(..) | Src::Rep(_) => (vec![], vec![]),
    }
}

fn add_events(r: &mut Rng, l: &mut Lane, k: EvK) {
    let (b, lines) = bytes_of(l);
    let at = spot(r, &b, &lines);
    l.del.events.push(Ev { at, k });
}

/// A lane of any kind, with any end: for the properties that hold for all of them.
fn any_lane(r: &mut Rng, k: &K, faults: bool) -> Lane {
    let mut l = if pct(r, 80) {
        Lane { src: Src::Cat(cat(r, k)), ..Lane::default() }
    } else {
        Lane { src: Src::Raw(soup(r, k)), ..Lane::default() }
    };
    let (b, lines) = bytes_of(&l);
    if faults && pct(r, 30) {
        for _ in 0..r.range(1, 2) {
            l.dmg.push(damage(r, &b, &lines));
        }
    }
    l.del = delivery(r, &b, &lines);
    if faults {
        match r.below(10) {
            0 | 1 => {
                let e = EvK::Err(err_spec(r), after(r));
                add_events(r, &mut l, e);
            }
            2 => add_events(r, &mut l, EvK::Panic),
            3 => {
                let a = *r.pick(&[After::Same, After::Eof]);
                add_events(r, &mut l, EvK::Eof(a));
            }
            4 => l.take = Some(r.skew(0, 6) as u32),
            _ => (),
        }
    }
    l.counts = counts(r, 4);
    l.post = r.below(3) as u32;
    l.hold = pct(r, 40);
    l.clones = pct(r, 30);
    l.reader_last = pct(r, 30);
    l
}

/// A well-formed catalogue, delivered without failures.
fn good_lane(r: &mut Rng, k: &K) -> Lane {
    let c = cat(r, k);
    let rd = c.render();
    let d = delivery(r, &rd.bytes, &rd.lines);
    let mut l = lane(c, d);
    l.counts = counts(r, 3);
    l.hold = pct(r, 20);
    l.reader_last = pct(r, 20);
    l
}

/// Makes the plural rules of the catalogues alike in all but one respect (what a careless cache would mix up).
fn relate(r: &mut Rng, lanes: &mut [Lane]) {
    let first = lanes.iter().find_map(|l| match &l.src {
        Src::Cat(c) => c.plural().cloned(),
        _ => None,
    });
    let Some(first) = first else { return };
    let mut n = first.count();
    let how = r.below(4);
    for l in lanes.iter_mut() {
        let most = match &l.src {
            Src::Cat(c) => c.entries.iter().map(|e| e.strs.len() as u64).max().unwrap_or(0),
            _ => continue,
        };
        let Src::Cat(c) = &mut l.src else { continue };
        let Some(h) = &mut c.header else { continue };
        if h.plural.is_none() || !h.fields.contains(&Field::Plural) {
            continue;
        }
        let mut p = first.clone();
        match how {
            // another number of forms, the same formula
            0 => {
                p.n = Some(n.max(most));
                n += r.range(0, 2);
            }
            // another formula, the same number of forms
            1 => {
                p.n = Some(first.count().max(most));
                let d = r.range(1, 3) as u32;
                let rule: E = formula::rule(r, first.count(), d);
                if rule.size() < 300 && rule.text(p.style).len() < 3500 {
                    p.rule = rule;
                }
            }
            // written differently
            2 => {
                p.n = Some(first.count().max(most));
                p.style = r.u64();
                p.swapped = r.coin();
            }
            // the very same
            _ => p.n = Some(first.count().max(most)),
        }
        if p.rule.text(p.style).len() < 3800 {
            h.plural = Some(p);
        }
        if pct(r, 40) {
            // and the same language or none
            h.fields.retain(|f| !matches!(f, Field::Kv(k, _) if k == "Language"));
            if r.coin() {
                h.fields.push(Field::Kv("Language".into(), " cs".into()));
            }
        }
    }
}

fn drive(r: &mut Rng) -> Vec<Drive> {
    let few = r.range(0, 3) as u32;
    let n = r.us(1, 6);
    let mut v: Vec<Drive> = (0..n)
        .map(|_| {
            let k = if pct(r, 5) { r.range(0, 60) as u32 } else { r.below(few as u64 + 1) as u32 };
            match r.below(13) {
                0 => Drive::Next,
                1 => Drive::Hint,
                2 | 3 => Drive::Nth(k),
                4 => Drive::Take(k),
                5 => Drive::Skip(k),
                6 => Drive::Step(k + 1, r.range(1, 3) as u32),
                7 => Drive::Peek(k + 1),
                8 => Drive::Find(k),
                9 => Drive::Position(k),
                10 => Drive::TryFold(k),
                11 => Drive::Dyn(k),
                _ => Drive::DynNth(k),
            }
        })
        .collect();
    if v.iter().all(|d| matches!(d, Drive::Hint | Drive::Take(0))) {
        v.push(Drive::Next);
    }
    if r.coin() {
        use Drive::*;
        let at = r.us(0, v.len());
        v.truncate(at);
        v.push(*r.pick(&[Count, Last, Fold, Collect, CollectResult, ForEach, DynCount, Chain, Move]));
    }
    v
}

fn others(r: &mut Rng, lanes: &mut Vec<Lane>, most: u64, f: impl Fn(&mut Rng) -> Lane) {
    let n = if pct(r, 55) { 0 } else { r.range(1, most) };
    for _ in 0..n {
        let l = f(r);
        lanes.push(l);
    }
}

/// A catalogue whose entries are repeated, each time with other texts.
fn stream(r: &mut Rng, entries: u64, size: (u64, u64)) -> Lane {
    let mut k = K::new(r);
    k.long = 0;
    k.entries = entries;
    k.calm = true;
    let mut c = cat(r, &k);
    c.tail.clear();
    if c.entries.is_empty() {
        c.entries.push(Entry { id: vec!["a".into()], strs: vec![vec!["b".into()]], ..Entry::default() });
    }
    rounds(r, &mut c);
    let rd = c.render();
    let mut d = delivery(r, &rd.bytes, &rd.lines);
    d.sizes = vec![r.range(3000, 9000) as u32];
    d.cuts.clear();
    d.events.clear();
    let mut l = lane(c.clone(), d);
    l.src = Src::Cycle(c, r.range(size.0, size.1));
    l.light = true;
    l
}

/// A long stream, every unit of which is compared with the model.
fn long_stream(r: &mut Rng) -> Lane {
    let mut l = stream(r, 6, (1 << 20, 2 << 20));
    l.long = true;
    l.counts = (0..2).map(|_| r.below(30)).collect();
    if let (Src::Cycle(c, total), true) = (&mut l.src, r.coin()) {
        // more units than 16 bits can count
        let body = Cat { header: None, ..c.clone() }.render().bytes.len() as u64;
        *total = (body * (66_000 / c.entries.len() as u64 + 1)).min(24 << 20);
    }
    l
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed ^ hash_str(prop));
    let p = loop {
        let p = attempt(prop, &mut r);
        if valid(&p) {
            break p;
        }
    };
    p
}

/// The form a text takes between quotes.
fn quoted(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}

/// Something of which there can be any amount.
fn rep(r: &mut Rng, k: &K) -> Rep {
    const SIMPLE: [&str; 6] = [
        "",
        "msgid \"\"\nmsgstr \"\"\n\n",
        "msgid \"\"\nmsgstr \"\"\n\"Language: fr\\n\"\n\"Plural-Forms: nplurals=2; plural=n>1;\\n\"\n\n",
        "msgid \"first\"\nmsgstr \"\"\n\n",
        "#, fuzzy\nmsgid \"first\"\nmsgstr \"one\"\n",
        "msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=3; plural=n%10==1 ? 0 : n%10<5 ? 1 : 2;\\n\"\n\nmsgctxt \"c\"\nmsgid \"x\"\nmsgid_plural \"xs\"\nmsgstr[0] \"1\"\nmsgstr[1] \"2\"\n",
    ];
    let before = if pct(r, 30) {
        let mut c = cat(r, &K { long: 0, ..k.clone() });
        c.tail.clear();
        c.style.no_final_nl = false;
        to_string(c.render().bytes)
    } else {
        r.pick(&SIMPLE).to_string()
    };
    let after = if r.coin() { format!("\n\n{}", SIMPLE[3]) } else { String::new() };
    const ENTRY: &str = "msgid \"a\"\nmsgstr \"b\"\n";
    // what a long thing is made of
    let stuff: &str = r.pick(&["a", "ab ", " ", "é", "日本 ", "\u{1f600}", "\n", "\\", "\"", "\t", "\\n", "a\\\"", "#", "~", "|", "[0]", ",", ":", ";", "=", "-", "\u{301}", "x\u{a0}"]);
    let lines = r.range(700, 2200);
    let chars = r.range(12_000, 24_000) / stuff.len() as u64;
    let mark = if r.coin() { "{i}" } else { "" };
    let key = *r.pick(&["msgid", "msgctxt", "msgid_plural", "|msgid", "|msgctxt", "|msgid_plural", "~msgid", "~msgstr", "msgstr", "msgstr", "msgstr[1]"]);
    // an entry with one string left open: its beginning, spelling of further lines, its end
    let (open, pre, close): (String, &str, String) = match key {
        "msgid" => ("msgid \"".into(), "", "\"\nmsgstr \"b\"\n".into()),
        "msgctxt" => ("msgctxt \"".into(), "", format!("\"\n{ENTRY}")),
        "msgid_plural" => ("msgid \"a\"\nmsgid_plural \"".into(), "", "\"\nmsgstr[0] \"b\"\n".into()),
        "|msgid" => ("#| msgid \"".into(), "#| ", format!("\"\n{ENTRY}")),
        "|msgctxt" => ("#| msgctxt \"".into(), "#| ", format!("\"\n{ENTRY}")),
        "|msgid_plural" => ("#| msgid \"q\"\n#| msgid_plural \"".into(), "#| ", format!("\"\n{ENTRY}")),
        "~msgid" => ("#~ msgid \"".into(), "#~ ", "\"\n#~ msgstr \"b\"\n".into()),
        "~msgstr" => ("#~ msgid \"a\"\n#~ msgstr \"".into(), "#~ ", "\"\n".into()),
        "msgstr" => ("msgid \"a\"\nmsgstr \"".into(), "", "\"\n".into()),
        _ => ("msgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\nmsgstr[1] \"".into(), "", "\"\n".into()),
    };
    let q = quoted(stuff);
    let (what, head, body, n, tail) = match r.below(22) {
        0 | 1 => {
            let mut c = cat(r, &K { long: 0, header: 0, entries: 3, ..k.clone() });
            c.header = None;
            c.tail.clear();
            c.style.no_final_nl = false;
            let mut t = to_string(c.render().bytes);
            t = t.replace("{i}", "");
            if mark.is_empty() {
                t = t.replace("msgid \"", "msgid \"x");
            } else {
                t = t.replace("msgid \"", "msgid \"x{i} ");
            }
            let n = 200_000 / (t.len() as u64 + 20);
            (if mark.is_empty() { "equal entries" } else { "entries" }, before, t + "\n", n.min(lines), after)
        }
        2 => {
            let e = *r.pick(&[
                "msgid \"x{i}\"\nmsgstr \"b\"\n\n",
                "#~ msgid \"x{i}\"\n#~ msgstr \"b\"\n\n",
                "msgctxt \"{i}\"\nmsgid \"x\"\nmsgstr \"b{i}\"\n",
                "#, fuzzy, f{i}\nmsgid \"x{i}\"\nmsgstr \"b\"\n",
                "#: f.c:{i}\n# note {i}\nmsgid \"x{i}\"\nmsgstr \"\"\n\n",
                "msgid \"x{i}\"\nmsgid_plural \"y{i}\"\nmsgstr[0] \"b\"\n",
                "#| msgid \"o{i}\"\nmsgid \"x{i}\"\nmsgstr \"b\"\n\n",
                "#, c{i}-format\nmsgid \"same\"\nmsgstr \"same\"\n",
            ]);
            ("short entries", before, e.to_string(), lines, after)
        }
        3 => ("blank lines", before, (*r.pick(&["\n", "  \n", "\r\n", "\t\t\n", " \n\n"])).to_string(), lines, format!("\n{ENTRY}")),
        4 => {
            let c = *r.pick(&["# n", "#. n", "#: f:", "#, f", "#$ x", "#= ", "#", "#, fuzzy, a", "#: a b ", "#~~", "#|"]);
            ("comment lines", before, format!("{c}{mark}\n"), lines, format!("{ENTRY}{after}"))
        }
        5 => ("flags", before + "#, a", format!(", f{mark}"), lines, format!("\n{ENTRY}{after}")),
        6 => ("locations", before + "#: a", format!(" f.c:{mark}"), lines, format!("\n{ENTRY}{after}")),
        7 => {
            let c = *r.pick(&["# ", "#. ", "#: ", "#, ", "#$ ", "#"]);
            ("comment length", before + c, stuff.replace(['\n', '\r'], " "), chars, format!("\n{ENTRY}{after}"))
        }
        8 | 9 => {
            let l = if mark.is_empty() { format!("\n{pre}\"") } else { format!("\"\n{pre}\"line {{i}} \\n") };
            let l = if mark.is_empty() { format!("\"{l}{q}") } else { l };
            ("lines of a text", before + &open, l, lines, close + &after)
        }
        10 | 11 => ("text length", before + &open, q, chars, close + &after),
        12 => ("header fields", "msgid \"\"\nmsgstr \"\"\n".into(), (*r.pick(&["\"X-{i}: v{i}\\n\"\n", "\"X: v{i}\\n\"\n", "\"no colon\\n\"\n", "\"Language: l{i}\\n\"\n", "\"\\n\"\n"])).into(), lines, after),
        13 => ("header fields in a line", "msgid \"\"\nmsgstr \"".into(), (*r.pick(&["X-{i}: v{i}\\n", "X: v\\n", ":\\n", "\\n", "x\\n"])).into(), lines, format!("\"\n{after}")),
        14 => (
            "header value length",
            format!("msgid \"\"\nmsgstr \"{}: ", r.pick(&["X", "Language", "Content-Type", "Project-Id-Version"])),
            q,
            chars,
            format!("\\n\"\n{after}"),
        ),
        15 => ("header comments", String::new(), format!("{}{mark}\n", r.pick(&["# n", "#. n", "#$ x", "#: f:", "#, f"])), lines, SIMPLE[2].into()),
        16 => (
            "variants",
            "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=100000; plural=n%9;\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\n".into(),
            (*r.pick(&["msgstr[{i}] \"v{i}\"\n", "msgstr[{i}] \"\"\n\"v\"\n"])).into(),
            lines,
            after,
        ),
        17 => (
            "values of Plural-Forms",
            "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n!=1;".into(),
            (*r.pick(&[" a{i}=b{i};", "a=b;", " \\t ", " a = b ;"])).into(),
            lines.min(1000),
            format!("\\n\"\n{after}"),
        ),
        18 => (
            "formula",
            "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n".into(),
            (*r.pick(&["+n", "-1", "||n", "&&n", "==0", "?n:n"])).into(),
            r.range(100, 200),
            format!(";\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"c\"\n{after}"),
        ),
        19 => ("bad line", before + "\n", stuff.replace(['\n', '\r', '#'], "?"), chars, "!\n".into()),
        20 => ("open string", before + &open, q, chars, String::new()),
        _ => {
            let h = *r.pick(&["", "msgid", "#", "#~", "#|", "#~ msgid", "msgstr", "msgid \"a\""]);
            ("inner blanks", before + h, (*r.pick(&[" ", "\t", "\u{a0}", "\u{3000}"])).into(), chars, "\"a\"\n".into())
        }
    };
    Rep { what: what.into(), head, body, n: n.max(50) as u32, tail }
}
fn to_string(b: Vec<u8>) -> String {
    String::from_utf8(b).unwrap_or_default()
}

fn attempt(prop: &str, r: &mut Rng) -> Plan {
    let mut p = Plan { prop: prop.into(), hash_seed: r.u64() >> 12, sched: schedule(r), ..Plan::default() };
    let mut k = K::new(r);
    let mut lanes: Vec<Lane> = vec![];
    let mut tasks = 1;
    let mut share = 60;
    match prop {
        "C01" => {
            let mut l = any_lane(r, &k, true);
            l.take = None;
            if l.del.sizes.is_empty() && l.del.cuts.is_empty() && l.del.intr_every == 0 {
                l.del.sizes = vec![r.range(1, 7) as u32];
            }
            // a panic ends everything: nothing to compare
            l.del.events.retain(|e| e.k != EvK::Panic);
            lanes.push(l);
        }
        "C02" => {
            if k.entries < 3 && r.coin() {
                k.entries = 5;
            }
            let mut l = good_lane(r, &k);
            let e = EvK::Err(err_spec(r), after(r));
            add_events(r, &mut l, e);
            l.post = r.below(3) as u32;
            lanes.push(l);
            others(r, &mut lanes, 2, |r| {
                let k = K::new(r);
                let mut l = good_lane(r, &k);
                if r.coin() {
                    let e = EvK::Err(err_spec(r), after(r));
                    add_events(r, &mut l, e);
                }
                l
            });
            tasks = r.us(1, 2);
        }
        "C03" => {
            let mut l = good_lane(r, &k);
            let (b, lines) = bytes_of(&l);
            let at = spot(r, &b, &lines);
            l.dmg = vec![Dmg::Cut(at)];
            l.del = if pct(r, 60) { Delivery::default() } else { delivery(r, &b[..at as usize], &[]) };
            lanes.push(l);
        }
        "C04" | "C15" => {
            let stall = prop == "C15";
            tasks = r.us(if stall { 2 } else { 1 }, 4);
            let mut n = tasks as u64 + r.below(3);
            // now and then a crowd: pools and limits shared between readers
            let crowd = pct(r, 4);
            if crowd {
                n = if pct(r, 20) { r.range(40, 110) } else { r.range(8, 40) };
                tasks = if r.coin() { r.us(8, 20).min(n as usize) } else { r.us(2, 3) };
            }
            share = *r.pick(&[60, 100, 100]);
            if stall {
                share = 100;
            }
            k.rule = 3;
            for _ in 0..n.max(2) {
                let k = if r.coin() {
                    K::new(r)
                } else {
                    K { classes: k.classes.clone(), kinds: k.kinds.clone(), ..K::new(r) }
                };
                let k = if crowd { K { entries: 3, long: 0, calm: true, ..k } } else { k };
                let l = if stall && r.coin() {
                    let mut l = good_lane(r, &k);
                    l.post = 1;
                    l
                } else {
                    any_lane(r, &k, true)
                };
                lanes.push(l);
            }
            if pct(r, 35) {
                relate(r, &mut lanes);
            }
            if stall {
                let m = r.us(1, (tasks - 1).max(1));
                for l in lanes.iter_mut().take(m) {
                    for _ in 0..r.range(1, 2) {
                        add_events(r, l, EvK::Stall);
                    }
                }
            }
            if pct(r, 30) {
                for _ in 0..r.range(1, 2) {
                    let k = K::new(r);
                    let mut l = any_lane(r, &k, true);
                    l.del.events.retain(|e| !matches!(e.k, EvK::Stall));
                    p.nested.push(l);
                }
                let n = p.nested.len() as u32;
                for l in lanes.iter_mut() {
                    if r.coin() {
                        let i = r.below(n as u64) as u32;
                        add_events(r, l, EvK::Reenter(i));
                    }
                }
            }
        }
        "C05" => {
            k.header = if r.coin() { 100 } else { k.header };
            if r.coin() {
                k.entries = k.entries.max(5);
            }
            if pct(r, 25) {
                k.calm = true;
                let mut c = cat(r, &k);
                c.tail.clear();
                if c.entries.is_empty() {
                    c.entries.push(Entry { id: vec!["a".into()], strs: vec![vec!["b".into()]], ..Entry::default() });
                }
                rounds(r, &mut c);
                let rd = c.render();
                let d = delivery(r, &rd.bytes, &rd.lines);
                let take = r.range(0, 3 * c.entries.len() as u64 + 5);
                let mut l = lane(c.clone(), d);
                l.src = Src::Cycle(c, 1 << 50);
                l.take = Some(take as u32);
                lanes.push(l);
            } else {
                let mut l = good_lane(r, &k);
                // reads that end exactly where an entry is complete
                if r.coin() {
                    let (_, lines) = bytes_of(&l);
                    l.del.sizes.clear();
                    l.del.cuts = lines.iter().map(|l| l.end as u64).collect();
                }
                if pct(r, 30) {
                    add_events(r, &mut l, EvK::Stall);
                }
                lanes.push(l);
            }
        }
        "C06" => {
            for _ in 0..r.range(1, 2) {
                let mut l = match r.below(5) {
                    0 | 1 => Lane { src: Src::Raw(soup(r, &k)), ..Lane::default() },
                    2 | 3 => Lane { src: Src::Raw(hostile(r)), ..Lane::default() },
                    _ => Lane { src: Src::Cat(cat(r, &k)), ..Lane::default() },
                };
                let (b, lines) = bytes_of(&l);
                for _ in 0..r.below(3) {
                    l.dmg.push(damage(r, &b, &lines));
                }
                if pct(r, 12) {
                    l.dmg.push(Dmg::LineIns(r.below(1000) as u32, long_junk(r)));
                }
                l.del = delivery(r, &b, &lines);
                for _ in 0..r.below(4) {
                    let e = match r.below(4) {
                        0 => EvK::Err(err_spec(r), after(r)),
                        1 => EvK::Eof(after(r)),
                        2 => EvK::Intr(r.range(1, 200) as u32),
                        _ => EvK::Eof(After::Resume),
                    };
                    add_events(r, &mut l, e);
                }
                l.counts = counts(r, 12);
                l.post = r.below(4) as u32;
                l.hold = pct(r, 20);
                lanes.push(l);
            }
        }
        "C07" | "C08" | "C09" => {
            match prop {
                "C08" => {
                    k.cmts = k.cmts.max(2);
                    k.prev = k.prev.max(20);
                }
                "C09" => k.header = *r.pick(&[100, 100, 100, 0]),
                _ => (),
            }
            let long = if prop != "C09" && r.p(1, 1500) { Some(long_stream(r)) } else { None };
            let single = long.is_some();
            let mut l = long.unwrap_or_else(|| good_lane(r, &k));
            l.post = r.below(2) as u32;
            if pct(r, 10) && !single {
                l.take = Some(r.skew(0, 6) as u32);
            }
            if single {
                p.cpu_ms = 60_000;
            }
            if prop == "C09" {
                let (b, lines) = bytes_of(&l);
                match r.below(6) {
                    0 => {
                        let e = EvK::Err(err_spec(r), after(r));
                        add_events(r, &mut l, e);
                    }
                    1 => l.dmg.push(damage(r, &b, &lines)),
                    _ => (),
                }
            }
            lanes.push(l);
            if !single {
                others(r, &mut lanes, 2, |r| {
                    let k = K::new(r);
                    good_lane(r, &k)
                });
            }
            tasks = r.us(1, 3);
        }
        "C10" if r.p(1, 1200) => {
            lanes.push(long_stream(r));
            p.cpu_ms = 60_000;
        }
        "C10" => {
            k.distinct = true;
            k.dup_ids = false;
            k.plural = k.plural.max(60);
            if k.rule == 0 && pct(r, 80) {
                k.rule = 3;
            }
            k.header = k.header.max(85);
            let dmg = pct(r, 40);
            if dmg {
                k.single = true;
                k.long = 0;
            }
            let mut l = good_lane(r, &k);
            l.counts = counts(r, 14);
            l.hold = r.coin();
            l.clones = pct(r, 30);
            if dmg {
                for _ in 0..r.range(1, 2) {
                    // a line with a variant, most of the time
                    let (_, lines) = bytes_of(&l);
                    let v: Vec<usize> =
                        (0..lines.len()).filter(|i| matches!(lines[*i].owner, Owner::Str(u, ..) if u > 0)).collect();
                    let i = if v.is_empty() || pct(r, 20) { r.below(1000) as u32 } else { *r.pick(&v) as u32 };
                    l.dmg.push(match r.below(3) {
                        0 => Dmg::LineDel(i),
                        1 => Dmg::LineDup(i),
                        _ => Dmg::LineSwap(i),
                    });
                }
            }
            lanes.push(l);
            let other = K { classes: k.classes.clone(), kinds: k.kinds.clone(), ..K::new(r) };
            others(r, &mut lanes, 3, |r| {
                let k = K { rule: 3, distinct: true, dup_ids: false, plural: 80, header: 90, ..K::new(r) };
                let mut l = good_lane(r, &K { classes: other.classes.clone(), ..k });
                l.counts = counts(r, 6);
                l.hold = true;
                l
            });
            if pct(r, 40) {
                relate(r, &mut lanes);
            }
            tasks = r.us(1, 2);
        }
        "C11" => {
            let n = r.range(1, 3);
            for _ in 0..n {
                let k = K::new(r);
                let mut l = any_lane(r, &k, true);
                l.hold = true;
                l.clones = pct(r, 60);
                l.post = r.below(3) as u32;
                l.reader_last = pct(r, 40);
                lanes.push(l);
            }
            tasks = r.us(1, 2);
        }
        "C12" => {
            if k.entries < 3 && r.coin() {
                k.entries = 5;
            }
            let mut l = good_lane(r, &k);
            if pct(r, 15) {
                // lines of the format in any order, with foreign ones in between
                l.src = Src::Raw(soup(r, &k));
                let (b, _) = bytes_of(&l);
                l.del = delivery(r, &b, &[]);
            }
            let (b, lines) = bytes_of(&l);
            if pct(r, 18) && !lines.is_empty() {
                // lines of the format where they do not belong
                l.dmg.push(placed(r, &l, &lines));
                l.post = 2;
            } else if pct(r, 40) {
                l.dmg.push(Dmg::LineIns(r.below(1000) as u32, junk(r)));
                l.post = 2;
            } else {
                for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                    l.dmg.push(damage(r, &b, &lines));
                }
                l.post = r.below(2) as u32;
            }
            if r.coin() {
                l.del = Delivery::default();
            }
            lanes.push(l);
        }
        "C13" => {
            if pct(r, 2) {
                lanes.push(stream(r, 14, (4 << 20, 5 << 20)));
                p.cpu_ms = 60_000;
            } else if pct(r, 30) {
                p.rounds = r.range(6, 8) as u32;
                for _ in 0..r.range(1, 3) {
                    let mut k = K::new(r);
                    k.long = 0;
                    k.entries = k.entries.min(8);
                    lanes.push(any_lane(r, &k, true));
                }
            } else {
                for _ in 0..r.range(1, 3) {
                    let k = K::new(r);
                    lanes.push(any_lane(r, &k, true));
                }
                tasks = r.us(1, 2);
                if pct(r, 20) {
                    let k = K::new(r);
                    p.nested.push(any_lane(r, &k, true));
                    add_events(r, &mut lanes[0], EvK::Reenter(0));
                }
            }
        }
        "C17" => {
            for _ in 0..r.range(1, 3) {
                let k = K::new(r);
                let mut l = match r.below(8) {
                    0 => Lane { src: Src::Raw(hostile(r)), ..Lane::default() },
                    1 => Lane { src: Src::Raw(soup(r, &k)), ..Lane::default() },
                    _ => good_lane(r, &k),
                };
                let (b, lines) = bytes_of(&l);
                match r.below(5) {
                    0 | 1 => {
                        let e = EvK::Err(err_spec(r), after(r));
                        add_events(r, &mut l, e);
                    }
                    2 => l.dmg.push(damage(r, &b, &lines)),
                    3 => {
                        let d = match r.below(4) {
                            0 | 1 if !lines.is_empty() => placed(r, &l, &lines),
                            2 => Dmg::LineIns(r.below(1000) as u32, misplaced(r)),
                            _ => Dmg::LineIns(r.below(1000) as u32, junk(r)),
                        };
                        l.dmg.push(d);
                    }
                    // an entry without a source text
                    _ => {
                        let j = *r.pick(&["\nmsgid \"\"\nmsgstr \"x\"\n", "msgid \"\"\nmsgstr \"\"", "\n#~ msgid \"\"\n#~ msgstr \"\"\n"]);
                        l.dmg.push(Dmg::LineIns(r.below(1000) as u32, j.into()));
                    }
                }
                let near = *r.pick(&[0, 0, 9, 99, 255, 256, 999, 4096]);
                l.lead = if pct(r, 2) { r.range(65_400, 65_700) as u32 } else { r.range(0, near) as u32 };
                l.shift = if pct(r, 2) { 65_536 } else { *r.pick(&[1, 1, 2, 3, 9, 10, 90, 255, 256, 1000]) };
                lanes.push(l);
            }
            tasks = r.us(1, 2);
        }
        "C18" => {
            for _ in 0..r.range(1, 2) {
                let k = K::new(r);
                let mut l = any_lane(r, &k, true);
                l.del.events.retain(|e| e.k != EvK::Panic);
                l.take = None;
                l.hold = false;
                l.clones = false;
                l.drive = drive(r);
                lanes.push(l);
            }
        }
        "C19" => {
            k.entries = k.entries.min(6);
            let mut l = Lane { light: true, ..Lane::default() };
            let g = match r.below(10) {
                0 => Grow::Rounds,
                1 if r.coin() => Grow::Counts,
                1 if r.coin() => Grow::Post,
                1 => Grow::Intr,
                _ => Grow::Text,
            };
            if g == Grow::Text {
                let rep = rep(r, &k);
                let b = rep.text().into_bytes();
                l.src = Src::Rep(rep);
                l.del = delivery(r, &b, &[]);
                l.del.cuts.clear();
                l.del.events.clear();
                if l.del.sizes.is_empty() && pct(r, 30) {
                    l.del.sizes = vec![r.skew(1, 4096) as u32];
                }
            } else {
                k.long = 0;
                if g == Grow::Rounds {
                    k.entries = k.entries.min(2);
                }
                l = good_lane(r, &k);
                l.hold = false;
                l.clones = false;
            }
            match g {
                Grow::Text => (),
                Grow::Rounds => {
                    p.rounds = r.range(40, 150) as u32;
                    l.light = true;
                    match r.below(4) {
                        0 => add_events(r, &mut l, EvK::Err(ErrSpec::Simple(0), After::Same)),
                        1 => l.take = Some(r.range(0, 3) as u32),
                        _ => (),
                    }
                }
                Grow::Counts => l.counts = counts(r, 60).repeat(12),
                Grow::Post => {
                    l.post = r.range(800, 2000) as u32;
                    if r.coin() {
                        add_events(r, &mut l, EvK::Err(ErrSpec::Simple(0), After::Resume));
                    }
                }
                Grow::Intr => {
                    l.light = true;
                    l.del.events.clear();
                    let n = r.range(500, 3000) as u32;
                    add_events(r, &mut l, EvK::Intr(n));
                }
            }
            lanes.push(l);
            p.grow = Some(g);
            p.cpu_ms = 120_000;
            p.sched = SchedSpec { seed: 0, stick: 1000, list: None };
            share = if g == Grow::Rounds { 100 } else { 50 };
        }
        "C14" => {
            let mut l = any_lane(r, &k, false);
            let (b, lines) = bytes_of(&l);
            match r.below(8) {
                0 | 1 | 2 => {
                    let e = EvK::Err(err_spec(r), *r.pick(&[After::Resume, After::Resume, After::OtherErr, After::Same, After::Eof]));
                    add_events(r, &mut l, e);
                }
                3 | 4 => {
                    let e = EvK::Eof(*r.pick(&[After::Resume, After::Resume, After::OtherErr, After::Same]));
                    add_events(r, &mut l, e);
                }
                5 | 6 => l.dmg.push(damage(r, &b, &lines)),
                _ => (),
            }
            l.post = r.range(1, 5) as u32;
            lanes.push(l);
        }
        p => panic!("unknown property {p}"),
    }
    p.tasks = spread(r, lanes, tasks, share);
    p
}
