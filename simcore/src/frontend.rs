//! Reference front end: what a grammar text says, written independently of lapex.
use crate::gram::*;

/// The rule set as lapex' own front end presents it: rules of each kind in reverse source order.
#[derive(Clone, Debug, PartialEq)]
pub struct RuleSet {
    pub entry: String,
    pub tokens: Vec<Tok>,
    pub prods: Vec<Prod>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    Kw(&'static str),
    Ident(String),
    Num(String),
    Str(String),
    Re(String),
    P(char),
}

fn lex(text: &str) -> Result<(Vec<Tk>, Vec<(usize, usize)>), String> {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    // first character and the one after the last
    let mut at: Vec<(usize, usize)> = Vec::new();
    while i < b.len() {
        let (c, begin, n) = (b[i], i, out.len());
        match c {
            ' ' | '\t' | '\n' => i += 1,
            '=' | ';' | '(' | ')' | '[' | ']' | '?' | '!' | '*' | '+' | '|' => {
                out.push(Tk::P(c));
                i += 1;
            }
            '0' => {
                out.push(Tk::Num("0".into()));
                i += 1;
            }
            '1'..='9' => {
                let s = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tk::Num(b[s..i].iter().collect()));
            }
            'a'..='z' | 'A'..='Z' => {
                let s = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                    i += 1;
                }
                let w: String = b[s..i].iter().collect();
                out.push(match w.as_str() {
                    "token" => Tk::Kw("token"),
                    "entry" => Tk::Kw("entry"),
                    "prod" => Tk::Kw("prod"),
                    _ => Tk::Ident(w),
                });
            }
            '"' | '/' => {
                let s = i + 1;
                i += 1;
                loop {
                    match b.get(i) {
                        None => return Err("unterminated".into()),
                        Some('\n') => return Err("line end inside a token body".into()),
                        Some('\\') => match b.get(i + 1) {
                            None => return Err("unterminated escape".into()),
                            // any character: the dot of the syntax' own grammar, read by the
                            // hand-written front end, includes the line end
                            _ => i += 2,
                        },
                        Some(x) if *x == c => break,
                        _ => i += 1,
                    }
                }
                let w: String = b[s..i].iter().collect();
                i += 1;
                out.push(if c == '"' { Tk::Str(w) } else { Tk::Re(w) });
            }
            c => return Err(format!("unexpected character {:?}", c)),
        }
        if out.len() > n {
            at.push((begin, i));
        }
    }
    Ok((out, at))
}

struct P {
    t: Vec<Tk>,
    at: Vec<(usize, usize)>,
    i: usize,
}

impl P {
    fn peek(&self) -> Option<&Tk> {
        self.t.get(self.i)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tk::P(c))
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        if self.is(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?}, got {:?}", c, self.peek()))
        }
    }
    fn ident(&mut self) -> Result<String, String> {
        match self.peek() {
            Some(Tk::Ident(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            x => Err(format!("expected a name, got {:?}", x)),
        }
    }
    fn rule(&mut self) -> Result<Rule, String> {
        let kw = match self.peek() {
            Some(Tk::Kw(k)) => *k,
            x => return Err(format!("expected a rule, got {:?}", x)),
        };
        self.i += 1;
        let r = match kw {
            "entry" => Rule::Entry(self.ident()?),
            "token" => {
                let name = self.ident()?;
                let mut prec = None;
                if self.is('[') {
                    self.i += 1;
                    match self.peek() {
                        Some(Tk::Num(n)) => {
                            prec = Some(n.parse::<u16>().map_err(|e| e.to_string())?);
                            self.i += 1;
                        }
                        x => return Err(format!("expected a precedence, got {:?}", x)),
                    }
                    self.eat(']')?;
                }
                self.eat('=')?;
                let body = match self.peek() {
                    Some(Tk::Str(s)) => TokBody::Lit(s.clone()),
                    Some(Tk::Re(s)) => TokBody::Re(s.clone()),
                    x => return Err(format!("expected a token body, got {:?}", x)),
                };
                self.i += 1;
                Rule::Tok(Tok { name, prec, body })
            }
            _ => {
                let name = self.ident()?;
                let mut tag = None;
                if self.is('[') {
                    self.i += 1;
                    tag = Some(self.ident()?);
                    self.eat(']')?;
                }
                self.eat('=')?;
                let pat = self.pattern()?;
                Rule::Prod(Prod { name, tag, pat })
            }
        };
        self.eat(';')?;
        Ok(r)
    }
    fn pattern(&mut self) -> Result<Pat, String> {
        if self.is('!') {
            self.i += 1;
            return Ok(Pat::Eps);
        }
        self.alternative()
    }
    fn alternative(&mut self) -> Result<Pat, String> {
        let c = self.concat()?;
        if self.is('|') {
            self.i += 1;
            // alternatives are collected from the last one to the first one
            let mut v = match self.alternative()? {
                Pat::Alt(v) => v,
                p => vec![p],
            };
            v.push(c);
            return Ok(Pat::Alt(v));
        }
        Ok(c)
    }
    fn concat(&mut self) -> Result<Pat, String> {
        let u = self.unary()?;
        if matches!(self.peek(), Some(Tk::Ident(_)) | Some(Tk::P('('))) {
            let mut v = match self.concat()? {
                Pat::Seq(v) => v,
                p => vec![p],
            };
            v.insert(0, u);
            return Ok(Pat::Seq(v));
        }
        Ok(u)
    }
    fn unary(&mut self) -> Result<Pat, String> {
        let item = if self.is('(') {
            self.i += 1;
            let p = self.pattern()?;
            self.eat(')')?;
            p
        } else {
            Pat::Sym(self.ident()?)
        };
        let b = Box::new(item);
        Ok(match self.peek() {
            Some(Tk::P('?')) => {
                self.i += 1;
                Pat::Opt(b)
            }
            Some(Tk::P('*')) => {
                self.i += 1;
                Pat::Star(b)
            }
            Some(Tk::P('+')) => {
                self.i += 1;
                Pat::Plus(b)
            }
            _ => *b,
        })
    }
}

/// All rules in source order, or the reason why the text is not a grammar.
pub fn parse_rules(text: &str) -> Result<Vec<Rule>, String> {
    Ok(parse_spans(text)?.into_iter().map(|r| r.0).collect())
}

/// The same, with the characters (first, one after the last) each rule takes.
pub fn parse_spans(text: &str) -> Result<Vec<(Rule, (usize, usize))>, String> {
    let (t, at) = lex(text)?;
    let mut p = P { t, at, i: 0 };
    let mut rules = Vec::new();
    while p.peek().is_some() {
        let first = p.i;
        let r = p.rule()?;
        rules.push((r, (p.at[first].0, p.at[p.i - 1].1)));
    }
    if rules.is_empty() {
        return Err("no rules".into());
    }
    Ok(rules)
}

pub fn parse(text: &str) -> Result<RuleSet, String> {
    let rules = parse_rules(text)?;
    let mut rs = RuleSet { entry: String::new(), tokens: vec![], prods: vec![] };
    let mut entries = 0;
    for r in rules.into_iter().rev() {
        match r {
            Rule::Entry(n) => {
                entries += 1;
                rs.entry = n;
            }
            Rule::Tok(t) => rs.tokens.push(t),
            Rule::Prod(p) => rs.prods.push(p),
        }
    }
    if entries != 1 {
        return Err(format!("{} entry rules", entries));
    }
    Ok(rs)
}

/// Grammar in source order with the original patterns (alternatives in source order).
pub fn parse_gram(text: &str) -> Result<Gram, String> {
    fn fix(p: Pat) -> Pat {
        match p {
            Pat::Alt(mut v) => {
                v.reverse();
                Pat::Alt(v.into_iter().map(fix).collect())
            }
            Pat::Seq(v) => Pat::Seq(v.into_iter().map(fix).collect()),
            Pat::Opt(e) => Pat::Opt(Box::new(fix(*e))),
            Pat::Star(e) => Pat::Star(Box::new(fix(*e))),
            Pat::Plus(e) => Pat::Plus(Box::new(fix(*e))),
            p => p,
        }
    }
    let mut rules = parse_rules(text)?;
    for r in rules.iter_mut() {
        if let Rule::Prod(p) = r {
            p.pat = fix(p.pat.clone());
        }
    }
    Ok(Gram { rules })
}
