//! The subset of regular expressions the simulator uses: AST, parser, printer and random terms.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Char(char),
    /// ranges, negated
    Class(Vec<(char, char)>, bool),
    Dot,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
}

pub const MAXC: u32 = 0x10ffff;

/// Sorted, disjoint code point ranges of a class.
pub fn ranges(r: &Re) -> Vec<(u32, u32)> {
    let (mut v, neg): (Vec<(u32, u32)>, bool) = match r {
        Re::Char(c) => (vec![(*c as u32, *c as u32)], false),
        Re::Dot => (vec![(10, 10)], true),
        Re::Class(v, n) => (v.iter().map(|(a, b)| (*a as u32, *b as u32)).collect(), *n),
        _ => unreachable!(),
    };
    v.sort();
    let mut m: Vec<(u32, u32)> = vec![];
    for (a, b) in v {
        match m.last_mut() {
            Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
            _ => m.push((a, b)),
        }
    }
    if neg {
        let mut o = vec![];
        let mut p = 0u32;
        for (a, b) in m {
            if a > p {
                o.push((p, a - 1));
            }
            p = b + 1;
        }
        if p <= MAXC {
            o.push((p, MAXC));
        }
        o
    } else {
        m
    }
}

/// Some class in it matches nothing.
pub fn ranges_empty(r: &Re) -> bool {
    match r {
        Re::Cat(v) | Re::Alt(v) => v.iter().any(ranges_empty),
        Re::Rep(e, _, _) => ranges_empty(e),
        r => ranges(r).is_empty(),
    }
}

/// Replaces negated classes that exclude both neighbours of the surrogate gap by what regex-syntax
/// 0.7.4 makes of them (see known-findings.txt); None if there is no such class.
pub fn across_gap(r: &Re) -> Option<Re> {
    fn go(r: &Re, hit: &mut bool) -> Re {
        match r {
            Re::Class(v, true) => {
                let inner = ranges(&Re::Class(v.clone(), false));
                if inner.iter().any(|x| x.1 == 0xd7ff) && inner.iter().any(|x| x.0 == 0xe000) {
                    *hit = true;
                    let ch = |c| char::from_u32(c).unwrap();
                    let mut o: Vec<(char, char)> = ranges(r).into_iter().filter(|x| *x != (0xd800, 0xdfff)).map(|(a, b)| (ch(a), ch(b))).collect();
                    o.push(('\u{d7ff}', '\u{e000}'));
                    return Re::Class(o, false);
                }
                r.clone()
            }
            Re::Cat(v) => Re::Cat(v.iter().map(|e| go(e, hit)).collect()),
            Re::Alt(v) => Re::Alt(v.iter().map(|e| go(e, hit)).collect()),
            Re::Rep(e, n, m) => Re::Rep(Box::new(go(e, hit)), *n, *m),
            r => r.clone(),
        }
    }
    let mut hit = false;
    let x = go(r, &mut hit);
    hit.then_some(x)
}

pub fn min_len(r: &Re) -> usize {
    match r {
        Re::Char(_) | Re::Class(..) | Re::Dot => 1,
        Re::Cat(v) => v.iter().map(min_len).sum(),
        Re::Alt(v) => v.iter().map(min_len).min().unwrap_or(0),
        Re::Rep(e, n, _) => *n as usize * min_len(e),
    }
}

struct P {
    b: Vec<char>,
    i: usize,
}

pub fn parse(s: &str) -> Result<Re, String> {
    let mut p = P { b: s.chars().collect(), i: 0 };
    let r = p.alt()?;
    if p.i != p.b.len() {
        return Err(format!("regex: unexpected {:?} at {}", p.b[p.i], p.i));
    }
    Ok(r)
}

impl P {
    fn peek(&self) -> Option<char> {
        self.b.get(self.i).copied()
    }
    fn alt(&mut self) -> Result<Re, String> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some('|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Result<Re, String> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let mut a = self.atom()?;
            loop {
                let (n, m) = match self.peek() {
                    Some('*') => (0, None),
                    Some('+') => (1, None),
                    Some('?') => (0, Some(1)),
                    Some('{') => {
                        self.i += 1;
                        let n = self.num()?;
                        let m = if self.peek() == Some(',') {
                            self.i += 1;
                            if self.peek() == Some('}') {
                                None
                            } else {
                                Some(self.num()?)
                            }
                        } else {
                            Some(n)
                        };
                        if self.peek() != Some('}') {
                            return Err("regex: bad counted repetition".into());
                        }
                        (n, m)
                    }
                    _ => break,
                };
                self.i += 1;
                if self.peek() == Some('?') {
                    return Err("regex: lazy repetition".into());
                }
                if m.map_or(false, |m| m < n) {
                    return Err("regex: bad bounds".into());
                }
                a = Re::Rep(Box::new(a), n, m);
            }
            v.push(a);
        }
        if v.is_empty() {
            return Err("regex: empty".into());
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Cat(v) })
    }
    fn num(&mut self) -> Result<u32, String> {
        let s = self.i;
        while self.peek().map_or(false, |c| c.is_ascii_digit()) {
            self.i += 1;
        }
        let t: String = self.b[s..self.i].iter().collect();
        t.parse().map_err(|_| "regex: number".to_string())
    }
    fn atom(&mut self) -> Result<Re, String> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            '.' => Re::Dot,
            '(' => {
                if self.peek() == Some('?') {
                    if self.b.get(self.i + 1) != Some(&':') {
                        return Err("regex: group flags".into());
                    }
                    self.i += 2;
                }
                let r = self.alt()?;
                if self.peek() != Some(')') {
                    return Err("regex: unclosed group".into());
                }
                self.i += 1;
                r
            }
            '[' => {
                let mut neg = false;
                if self.peek() == Some('^') {
                    neg = true;
                    self.i += 1;
                }
                let mut v = vec![];
                loop {
                    match self.peek() {
                        None => return Err("regex: unclosed class".into()),
                        Some(']') if !v.is_empty() => {
                            self.i += 1;
                            break;
                        }
                        _ => {}
                    }
                    let first = self.peek() == Some(']');
                    let a = self.class_char()?;
                    if first && self.peek() == Some('-') {
                        return Err("regex: leading bracket and dash".into());
                    }
                    if a == '-' && self.b[self.i - 1] == '-' && self.peek() == Some('-') {
                        return Err("regex: class operator".into());
                    }
                    let mut b = a;
                    if self.peek() == Some('-') && self.b.get(self.i + 1).map_or(false, |c| *c != ']') {
                        self.i += 1;
                        if self.peek() == Some('-') {
                            return Err("regex: class operator".into());
                        }
                        b = self.class_char()?;
                    }
                    if b < a {
                        return Err("regex: bad range".into());
                    }
                    v.push((a, b));
                }
                Re::Class(v, neg)
            }
            '\\' => Re::Char(self.escape()?),
            '*' | '+' | '?' | '{' | ')' | '^' | '$' => return Err(format!("regex: {:?}", c)),
            c => Re::Char(c),
        })
    }
    fn class_char(&mut self) -> Result<char, String> {
        let c = self.peek().ok_or("regex: unclosed class")?;
        self.i += 1;
        match c {
            '\\' => self.escape(),
            '[' | '&' | '~' => Err("regex: class operator".into()),
            c => Ok(c),
        }
    }
    fn escape(&mut self) -> Result<char, String> {
        let c = self.peek().ok_or("regex: trailing backslash")?;
        self.i += 1;
        Ok(match c {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            'x' => {
                let h: String;
                if self.peek() == Some('{') {
                    let s = self.i + 1;
                    while self.peek().ok_or("regex: unclosed")? != '}' {
                        self.i += 1;
                    }
                    h = self.b[s..self.i].iter().collect();
                    self.i += 1;
                } else {
                    h = self.b.get(self.i..self.i + 2).ok_or("regex: hex")?.iter().collect();
                    self.i += 2;
                }
                if !h.chars().all(|c| c.is_ascii_hexdigit()) {
                    return Err("regex: hex".into());
                }
                char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).ok_or("regex: char")?
            }
            c if "\\.+*?()|[]{}^$#&-~/\"'=;!%,:@_`".contains(c) => c,
            c => return Err(format!("regex: escape {:?}", c)),
        })
    }
}

fn esc(c: char, o: &mut String, in_class: bool) {
    let special = if in_class { "[]^-&~\\/" } else { ".()[]{}*+?|^$\\/\"" };
    match c {
        '\n' => o.push_str("\\n"),
        '\t' => o.push_str("\\t"),
        '\r' => o.push_str("\\r"),
        c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\x{:02x}", c as u32)),
        c if (c as u32) > 0xfff0 || (0x80..0xa0).contains(&(c as u32)) => {
            o.push_str(&format!("\\x{{{:x}}}", c as u32))
        }
        c if special.contains(c) && c != '"' => {
            o.push('\\');
            o.push(c)
        }
        c => o.push(c),
    }
}

pub fn print(r: &Re) -> String {
    let mut o = String::new();
    pr(r, 0, &mut o);
    o
}

fn pr(r: &Re, level: u8, o: &mut String) {
    let need = match r {
        Re::Alt(_) => level > 0,
        Re::Cat(_) => level > 1,
        Re::Rep(..) => level > 1,
        _ => false,
    };
    if need {
        o.push_str("(");
        pr(r, 0, o);
        o.push(')');
        return;
    }
    match r {
        Re::Char(c) => esc(*c, o, false),
        Re::Dot => o.push('.'),
        Re::Class(v, n) => {
            o.push('[');
            if *n {
                o.push('^');
            }
            for (a, b) in v {
                esc(*a, o, true);
                if a != b {
                    o.push('-');
                    esc(*b, o, true);
                }
            }
            o.push(']');
        }
        Re::Cat(v) => v.iter().for_each(|e| pr(e, 2.min(1 + matches!(e, Re::Cat(_)) as u8), o)),
        Re::Alt(v) => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                pr(e, 1.min(matches!(e, Re::Alt(_)) as u8), o);
            }
        }
        Re::Rep(e, n, m) => {
            pr(e, 2, o);
            match (n, m) {
                (0, None) => o.push('*'),
                (1, None) => o.push('+'),
                (0, Some(1)) => o.push('?'),
                (n, None) => o.push_str(&format!("{{{},}}", n)),
                (n, Some(m)) if n == m => o.push_str(&format!("{{{}}}", n)),
                (n, Some(m)) => o.push_str(&format!("{{{},{}}}", n, m)),
            }
        }
    }
}

pub const ALPHA: &[char] = &[
    'a', 'b', 'c', 'd', 'x', 'y', 'z', '0', '1', '2', '9', '_', '-', '+', '*', '.', '"', '\'', '\\', '/', ' ',
    '\n', '\t', '\u{0}', '\u{1}', '\u{7f}', 'é', 'ß', 'Ω', '中', '語', '\u{ffff}', '\u{d7ff}', '\u{e000}',
    '\u{10000}', '😀', '\u{10ffff}', 'A', 'Z', '\r',
];

fn rchar(rng: &mut Rng, small: bool) -> char {
    if small && rng.pct(85) {
        *rng.pick(&['a', 'b', 'c', '0', '1'])
    } else {
        *rng.pick(ALPHA)
    }
}

/// A random regular expression that does not match the empty text at top level is not guaranteed;
/// callers filter.
pub fn random(rng: &mut Rng, depth: usize, small: bool) -> Re {
    let k = if depth == 0 { rng.below(5) } else { rng.below(14) };
    match k {
        0 | 1 | 2 => Re::Char(rchar(rng, small)),
        3 => class(rng, small),
        4 => {
            if rng.pct(15) {
                Re::Dot
            } else {
                class(rng, small)
            }
        }
        5 | 6 | 7 => {
            let n = rng.range(2, 4);
            Re::Cat((0..n).map(|_| random(rng, depth - 1, small)).collect())
        }
        8 | 9 => {
            let n = rng.range(2, 3);
            Re::Alt((0..n).map(|_| random(rng, depth - 1, small)).collect())
        }
        _ => {
            let e = random(rng, depth - 1, small);
            if depth < 3 && rng.pct(30) {
                // any bounds
                let n = rng.range(0, 5) as u32;
                let m = if rng.pct(20) { None } else { Some((n + rng.range(0, 7) as u32).max(1)) };
                return Re::Rep(Box::new(e), n as _, m.map(|m| m as _));
            }
            let (n, m) = *rng.pick(&[
                (0, None),
                (1, None),
                (0, Some(1)),
                (1, None),
                (2, Some(2)),
                (3, Some(3)),
                (1, Some(3)),
                (2, Some(4)),
                (0, Some(2)),
                (2, None),
                (3, None),
                (1, Some(2)),
            ]);
            Re::Rep(Box::new(e), n, m)
        }
    }
}

fn class(rng: &mut Rng, small: bool) -> Re {
    let n = rng.range(1, 3);
    let mut v = vec![];
    for _ in 0..n {
        let a = rchar(rng, small);
        let b = if rng.pct(60) { rchar(rng, small) } else { a };
        v.push((a.min(b), a.max(b)));
    }
    Re::Class(v, rng.pct(if small { 15 } else { 25 }))
}

/// A random text matched by the expression.
pub fn sample(r: &Re, rng: &mut Rng, o: &mut String) {
    match r {
        Re::Char(c) => o.push(*c),
        Re::Dot | Re::Class(..) => {
            let v = ranges(r);
            if v.is_empty() {
                return;
            }
            let (a, b) = *rng.pick(&v);
            let c = match rng.below(4) {
                0 => a,
                1 => b,
                _ => a + (rng.next() % (b - a + 1) as u64) as u32,
            };
            o.push(char::from_u32(c).unwrap_or('\u{d7ff}'));
        }
        Re::Cat(v) => v.iter().for_each(|e| sample(e, rng, o)),
        Re::Alt(v) => sample(rng.pick(v), rng, o),
        Re::Rep(e, n, m) => {
            let hi = m.unwrap_or(n + 3).min(n + 12);
            let k = rng.range(*n as usize, hi as usize);
            for _ in 0..k {
                sample(e, rng, o);
            }
        }
    }
}
