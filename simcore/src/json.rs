//! A small JSON value, parser and printer (object order is kept).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::Int(s as i64)
    }
}
impl From<usize> for J {
    fn from(s: usize) -> J {
        J::Int(s as i64)
    }
}
impl From<i64> for J {
    fn from(s: i64) -> J {
        J::Int(s)
    }
}
impl From<i32> for J {
    fn from(s: i32) -> J {
        J::Int(s as i64)
    }
}
impl From<u32> for J {
    fn from(s: u32) -> J {
        J::Int(s as i64)
    }
}
impl From<f64> for J {
    fn from(s: f64) -> J {
        J::Num(s)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::Bool(s)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(s: Vec<T>) -> J {
        J::Arr(s.into_iter().map(|x| x.into()).collect())
    }
}
impl<T: Into<J>> From<Option<T>> for J {
    fn from(s: Option<T>) -> J {
        match s {
            Some(x) => x.into(),
            None => J::Null,
        }
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {
        $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*])
    };
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(o) = self {
            for (n, v) in o {
                if n == k {
                    return v;
                }
            }
        }
        &J::Null
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            for (n, x) in o.iter_mut() {
                if n == k {
                    *x = v;
                    return;
                }
            }
            o.push((k.to_string(), v));
        }
    }
    pub fn str(&self) -> &str {
        if let J::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn u(&self) -> usize {
        self.int() as usize
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(a) = self {
            a
        } else {
            &[]
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(o, "{}", i).unwrap(),
            J::Num(f) => {
                if f.is_finite() {
                    write!(o, "{:.3}", f).unwrap()
                } else {
                    o.push('0')
                }
            }
            J::Str(s) => write_str(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write_str(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b: Vec<char> = s.chars().collect();
        let mut p = 0;
        let v = value(&b, &mut p)?;
        ws(&b, &mut p);
        if p != b.len() {
            return Err(format!("trailing data at {}", p));
        }
        Ok(v)
    }
}

fn write_str(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1;
    }
}

fn value(b: &[char], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    if *p >= b.len() {
        return Err("eof".into());
    }
    match b[*p] {
        '{' => {
            *p += 1;
            let mut o = Vec::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&'}') {
                    *p += 1;
                    return Ok(J::Obj(o));
                }
                if b.get(*p) == Some(&',') {
                    *p += 1;
                    continue;
                }
                let k = match value(b, p)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&':') {
                    return Err("colon".into());
                }
                *p += 1;
                o.push((k, value(b, p)?));
            }
        }
        '[' => {
            *p += 1;
            let mut o = Vec::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&']') {
                    *p += 1;
                    return Ok(J::Arr(o));
                }
                if b.get(*p) == Some(&',') {
                    *p += 1;
                    continue;
                }
                if *p >= b.len() {
                    return Err("eof".into());
                }
                o.push(value(b, p)?);
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*p).ok_or("eof in string")?;
                *p += 1;
                match c {
                    '"' => return Ok(J::Str(s)),
                    '\\' => {
                        let e = *b.get(*p).ok_or("eof")?;
                        *p += 1;
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let mut u = hex4(b, p)?;
                                if (0xd800..0xdc00).contains(&u)
                                    && b.get(*p) == Some(&'\\')
                                    && b.get(*p + 1) == Some(&'u')
                                {
                                    *p += 2;
                                    let l = hex4(b, p)?;
                                    u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                                }
                                s.push(char::from_u32(u).unwrap_or('?'));
                            }
                            x => s.push(x),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => lit(b, p, "true", J::Bool(true)),
        'f' => lit(b, p, "false", J::Bool(false)),
        'n' => lit(b, p, "null", J::Null),
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_alphanumeric() || "+-.".contains(b[*p])) {
                *p += 1;
            }
            let t: String = b[st..*p].iter().collect();
            if let Ok(i) = t.parse::<i64>() {
                Ok(J::Int(i))
            } else {
                t.parse::<f64>().map(J::Num).map_err(|_| format!("bad number {:?} at {}", t, st))
            }
        }
    }
}

fn hex4(b: &[char], p: &mut usize) -> Result<u32, String> {
    let t: String = b.get(*p..*p + 4).ok_or("eof")?.iter().collect();
    *p += 4;
    u32::from_str_radix(&t, 16).map_err(|e| e.to_string())
}

fn lit(b: &[char], p: &mut usize, w: &str, v: J) -> Result<J, String> {
    let n = w.len();
    if *p + n <= b.len() && b[*p..*p + n].iter().collect::<String>() == w {
        *p += n;
        Ok(v)
    } else {
        Err("literal".into())
    }
}
