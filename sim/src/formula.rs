//! Plural expressions of the model: C syntax and meaning, written independently of the library.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum E {
    N,
    Num(i64),
    Neg(Box<E>),
    Not(Box<E>),
    Bin(String, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
}

fn prec(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "==" | "!=" => 3,
        "<" | "<=" | ">" | ">=" => 4,
        "+" | "-" => 5,
        _ => 6,
    }
}

impl E {
    /// None: the C value is not defined (division by zero, overflow).
    pub fn eval(&self, n: i64) -> Option<i64> {
        Some(match self {
            E::N => n,
            E::Num(v) => *v,
            E::Neg(e) => e.eval(n)?.checked_neg()?,
            E::Not(e) => (e.eval(n)? == 0) as i64,
            E::Cond(c, a, b) => {
                if c.eval(n)? != 0 {
                    a.eval(n)?
                } else {
                    b.eval(n)?
                }
            }
            E::Bin(op, a, b) => {
                let l = a.eval(n)?;
                match op.as_str() {
                    "&&" => {
                        return if l == 0 { Some(0) } else { Some((b.eval(n)? != 0) as i64) };
                    }
                    "||" => {
                        return if l != 0 { Some(1) } else { Some((b.eval(n)? != 0) as i64) };
                    }
                    _ => (),
                }
                let r = b.eval(n)?;
                match op.as_str() {
                    "+" => l.checked_add(r)?,
                    "-" => l.checked_sub(r)?,
                    "*" => l.checked_mul(r)?,
                    "/" => l.checked_div(r)?,
                    "%" => l.checked_rem(r)?,
                    "==" => (l == r) as i64,
                    "!=" => (l != r) as i64,
                    "<" => (l < r) as i64,
                    "<=" => (l <= r) as i64,
                    ">" => (l > r) as i64,
                    ">=" => (l >= r) as i64,
                    _ => unreachable!("operator"),
                }
            }
        })
    }

    fn p(&self) -> u8 {
        match self {
            E::Cond(..) => 0,
            E::Bin(op, ..) => prec(op),
            E::Not(_) | E::Neg(_) => 7,
            _ => 8,
        }
    }

    /// C text with the fewest parentheses, except where the repository's grammar (pinned by its tests)
    /// is narrower than C: `!` is accepted as the first operand of a sum or product only, and a unary
    /// operator is not applied to another one. `style` varies blanks, words and extra parentheses.
    pub fn text(&self, style: u64) -> String {
        let mut w = W {
            out: String::new(),
            r: Rng::new(style),
            words: style % 4 == 1,
            sp: style % 3 == 1,
            extra: style % 8 == 3,
        };
        w.write(self, false);
        w.out
    }

    pub fn size(&self) -> usize {
        match self {
            E::N | E::Num(_) => 1,
            E::Neg(e) | E::Not(e) => 1 + e.size(),
            E::Bin(_, a, b) => 1 + a.size() + b.size(),
            E::Cond(a, b, c) => 1 + a.size() + b.size() + c.size(),
        }
    }
}

struct W {
    out: String,
    r: Rng,
    words: bool,
    sp: bool,
    extra: bool,
}

impl W {
    fn paren(&mut self, e: &E, need: bool, nobang: bool) {
        let need = need || (nobang && matches!(e, E::Not(_)));
        if need || (self.extra && self.r.p(1, 3)) {
            self.out.push('(');
            if self.sp && self.r.p(1, 4) {
                self.out.push(' ');
            }
            self.write(e, false);
            self.out.push(')');
        } else {
            self.write(e, nobang);
        }
    }

    /// `nobang`: the text must not begin with `!`
    fn write(&mut self, e: &E, nobang: bool) {
        match e {
            E::N => self.out.push('n'),
            E::Num(v) => self.out.push_str(&v.to_string()),
            E::Not(x) if self.words && self.r.p(1, 2) => {
                // the word binds looser than the sign
                self.out.push_str("(not ");
                let extra = self.r.p(1, 3);
                self.paren(x, x.p() < 8 || extra, false);
                self.out.push(')');
            }
            E::Neg(x) | E::Not(x) => {
                self.out.push(if matches!(e, E::Neg(_)) { '-' } else { '!' });
                self.paren(x, x.p() < 8, false);
            }
            E::Cond(c, a, b) => {
                self.paren(c, c.p() < 1, nobang);
                self.out.push_str(if self.sp { " ? " } else { "?" });
                self.paren(a, false, false);
                self.out.push_str(if self.sp { " : " } else { ":" });
                self.paren(b, false, false);
            }
            E::Bin(op, a, b) => {
                let p = prec(op);
                self.paren(a, a.p() < p, nobang);
                let w = match op.as_str() {
                    "&&" if self.words => " and ",
                    "||" if self.words => " or ",
                    o => o,
                };
                if self.sp && !w.starts_with(' ') {
                    self.out.push(' ');
                    self.out.push_str(w);
                    self.out.push(' ');
                } else {
                    self.out.push_str(w);
                }
                self.paren(b, b.p() <= p, p >= 5);
            }
        }
    }
}

// ---------------------------------------------------------------- known rules (own little C parser)

pub const KNOWN: &[(u64, &str)] = &[
    (1, "0"),
    (2, "n!=1"),
    (2, "n>1"),
    (2, "n%10!=1||n%100==11"),
    (2, "(n!=1)"),
    (2, "n==1||n%10==1?0:1"),
    (3, "n==0?0:n==1?1:2"),
    (3, "(n==1)?0:(n>=2&&n<=4)?1:2"),
    (3, "n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2"),
    (3, "n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2"),
    (3, "n%10==1&&n%100!=11?0:n!=0?1:2"),
    (3, "n==1?0:(n==0||(n%100>0&&n%100<20))?1:2"),
    (4, "n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3"),
    (4, "n==1||n==11?0:n==2||n==12?1:n>2&&n<20?2:3"),
    (5, "n==1?0:n==2?1:n<7?2:n<11?3:4"),
    (6, "n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"),
];

pub fn parse_c(s: &str) -> E {
    let t: Vec<char> = s.chars().filter(|c| !c.is_whitespace()).collect();
    let mut p = P { t, i: 0 };
    let e = p.cond();
    assert!(p.i == p.t.len(), "bad rule {s}");
    e
}

struct P {
    t: Vec<char>,
    i: usize,
}
impl P {
    fn op(&mut self) -> Option<String> {
        let two: String = self.t[self.i..].iter().take(2).collect();
        for o in ["||", "&&", "==", "!=", "<=", ">="] {
            if two == o {
                return Some(two);
            }
        }
        match self.t.get(self.i) {
            Some(c) if "<>+-*/%".contains(*c) => Some(c.to_string()),
            _ => None,
        }
    }
    fn cond(&mut self) -> E {
        let c = self.bin(1);
        if self.t.get(self.i) == Some(&'?') {
            self.i += 1;
            let a = self.cond();
            assert_eq!(self.t[self.i], ':');
            self.i += 1;
            let b = self.cond();
            return E::Cond(c.into(), a.into(), b.into());
        }
        c
    }
    fn bin(&mut self, min: u8) -> E {
        let mut l = self.unary();
        while let Some(o) = self.op() {
            if prec(&o) < min {
                break;
            }
            self.i += o.len();
            let r = self.bin(prec(&o) + 1);
            l = E::Bin(o, l.into(), r.into());
        }
        l
    }
    fn unary(&mut self) -> E {
        let c = self.t[self.i];
        self.i += 1;
        match c {
            '!' => E::Not(self.unary().into()),
            '-' => E::Neg(self.unary().into()),
            'n' => E::N,
            '(' => {
                let e = self.cond();
                assert_eq!(self.t[self.i], ')');
                self.i += 1;
                e
            }
            d if d.is_ascii_digit() => {
                let mut v = d as i64 - 48;
                while let Some(d) = self.t.get(self.i).filter(|c| c.is_ascii_digit()) {
                    v = v * 10 + (*d as i64 - 48);
                    self.i += 1;
                }
                E::Num(v)
            }
            _ => panic!("bad rule"),
        }
    }
}

// -------------------------------------------------------------------------------- random expressions

fn num(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.below(3) as i64,
        1 => r.below(12) as i64,
        2 if r.p(1, 4) => *r.pick(&[255, 256, 65_535, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, 1 << 53, i64::MAX - 1]),
        2 => *r.pick(&[10, 11, 12, 14, 19, 20, 100, 1000, 1_000_000]),
        _ => r.below(6) as i64,
    }
}

pub fn arith(r: &mut Rng, d: u32) -> E {
    if d == 0 || r.p(1, 4) {
        return if r.p(2, 3) { E::N } else { E::Num(num(r)) };
    }
    match r.below(9) {
        0 => E::Neg(arith(r, d - 1).into()),
        // a truth value is a number
        8 => logic(r, d - 1),
        1 => E::Bin("/".into(), arith(r, d - 1).into(), E::Num(num(r) + 1).into()),
        2 | 3 => E::Bin("%".into(), arith(r, d - 1).into(), E::Num(num(r) + 1).into()),
        4 => E::Bin("*".into(), arith(r, d - 1).into(), arith(r, d - 1).into()),
        5 => E::Bin("+".into(), arith(r, d - 1).into(), arith(r, d - 1).into()),
        6 => E::Bin("-".into(), arith(r, d - 1).into(), arith(r, d - 1).into()),
        _ => {
            let o = *r.pick(&["/", "%"]);
            E::Bin(o.into(), arith(r, d - 1).into(), arith(r, d - 1).into())
        }
    }
}

pub fn logic(r: &mut Rng, d: u32) -> E {
    if d == 0 || r.p(2, 5) {
        let o = *r.pick(&["==", "!=", "<", "<=", ">", ">="]);
        let d = d.min(2);
        return E::Bin(o.into(), arith(r, d).into(), arith(r, d / 2).into());
    }
    match r.below(8) {
        // any number is a truth value
        7 => {
            let o = *r.pick(&["&&", "||"]);
            E::Bin(o.into(), arith(r, d).into(), arith(r, d).into())
        }
        0 => E::Not(logic(r, d - 1).into()),
        1 => E::Not(arith(r, d - 1).into()),
        2 => {
            let o = *r.pick(&["==", "!="]);
            E::Bin(o.into(), logic(r, d - 1).into(), logic(r, d - 1).into())
        }
        3 => {
            let o = *r.pick(&["<", "<=", ">", ">="]);
            E::Bin(o.into(), logic(r, d - 1).into(), logic(r, d - 1).into())
        }
        4 | 5 => E::Bin("&&".into(), logic(r, d - 1).into(), logic(r, d - 1).into()),
        _ => E::Bin("||".into(), logic(r, d - 1).into(), logic(r, d - 1).into()),
    }
}

/// A rule with values mostly in 0..forms.
pub fn rule(r: &mut Rng, forms: u64, d: u32) -> E {
    match r.below(7) {
        0 => arith(r, d),
        // the sum of some conditions
        6 => {
            let mut e = logic(r, 1);
            for _ in 2..forms.clamp(2, 6) {
                e = E::Bin("+".into(), e.into(), logic(r, 1).into());
            }
            e
        }
        1 => E::Bin("%".into(), arith(r, d).into(), E::Num(forms.max(1) as i64).into()),
        2 if forms == 2 => logic(r, d),
        _ => {
            let mut e = E::Num(r.below(forms.max(1)) as i64);
            for _ in 0..forms.max(2) - 1 {
                let beyond = r.p(1, 10) as u64;
                let v = E::Num(r.below(forms.max(1) + beyond) as i64);
                e = E::Cond(logic(r, d).into(), v.into(), e.into());
                if r.p(1, 6) {
                    // a condition in the middle
                    e = E::Cond(logic(r, 1).into(), e.into(), E::Num(0).into());
                }
            }
            e
        }
    }
}
