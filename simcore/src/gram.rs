//! Abstract syntax of lapex grammars (in source order) and its printer.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pat {
    Eps,
    Sym(String),
    Seq(Vec<Pat>),
    Alt(Vec<Pat>),
    Opt(Box<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TokBody {
    /// characters between the quotes, as written
    Lit(String),
    /// characters between the slashes, as written
    Re(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tok {
    pub name: String,
    pub prec: Option<u16>,
    pub body: TokBody,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prod {
    pub name: String,
    pub tag: Option<String>,
    pub pat: Pat,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Rule {
    Tok(Tok),
    Prod(Prod),
    Entry(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Gram {
    pub rules: Vec<Rule>,
}

pub fn sym(s: &str) -> Pat {
    Pat::Sym(s.to_string())
}
pub fn seq(v: Vec<Pat>) -> Pat {
    Pat::Seq(v)
}

impl Gram {
    pub fn tokens(&self) -> Vec<&Tok> {
        self.rules
            .iter()
            .filter_map(|r| if let Rule::Tok(t) = r { Some(t) } else { None })
            .collect()
    }
    pub fn prods(&self) -> Vec<&Prod> {
        self.rules
            .iter()
            .filter_map(|r| if let Rule::Prod(t) = r { Some(t) } else { None })
            .collect()
    }
    pub fn entry(&self) -> Option<&str> {
        self.rules
            .iter()
            .find_map(|r| if let Rule::Entry(t) = r { Some(t.as_str()) } else { None })
    }
    pub fn lit(&mut self, name: &str, text: &str) {
        self.rules.push(Rule::Tok(Tok {
            name: name.into(),
            prec: None,
            body: TokBody::Lit(text.into()),
        }));
    }
    pub fn prod(&mut self, name: &str, tag: Option<&str>, pat: Pat) {
        self.rules.push(Rule::Prod(Prod {
            name: name.into(),
            tag: tag.map(|s| s.to_string()),
            pat,
        }));
    }
    pub fn entry_rule(&mut self, name: &str) {
        self.rules.push(Rule::Entry(name.into()));
    }
    /// Canonical text: one rule per line.
    pub fn text(&self) -> String {
        self.print(&mut Style { rng: None })
    }
    /// Text with randomly chosen (but equivalent) layout.
    pub fn text_styled(&self, rng: &mut Rng) -> String {
        self.print(&mut Style { rng: Some(rng.fork()) })
    }
    fn print(&self, st: &mut Style) -> String {
        let mut o = String::new();
        for r in &self.rules {
            match r {
                Rule::Entry(n) => {
                    o.push_str("entry");
                    st.must(&mut o);
                    o.push_str(n);
                    st.may(&mut o);
                    o.push(';');
                }
                Rule::Tok(t) => {
                    o.push_str("token");
                    st.must(&mut o);
                    o.push_str(&t.name);
                    if let Some(p) = t.prec {
                        st.may(&mut o);
                        o.push('[');
                        st.may(&mut o);
                        o.push_str(&p.to_string());
                        st.may(&mut o);
                        o.push(']');
                    }
                    st.sp(&mut o);
                    o.push('=');
                    st.sp(&mut o);
                    match &t.body {
                        TokBody::Lit(s) => {
                            o.push('"');
                            o.push_str(s);
                            o.push('"');
                        }
                        TokBody::Re(s) => {
                            o.push('/');
                            o.push_str(s);
                            o.push('/');
                        }
                    }
                    st.may(&mut o);
                    o.push(';');
                }
                Rule::Prod(p) => {
                    o.push_str("prod");
                    st.must(&mut o);
                    o.push_str(&p.name);
                    if let Some(t) = &p.tag {
                        st.may(&mut o);
                        o.push('[');
                        st.may(&mut o);
                        o.push_str(t);
                        st.may(&mut o);
                        o.push(']');
                    }
                    st.sp(&mut o);
                    o.push('=');
                    st.sp(&mut o);
                    print_pat(&p.pat, 0, st, &mut o);
                    st.may(&mut o);
                    o.push(';');
                }
            }
            st.nl(&mut o);
        }
        o
    }
}

struct Style {
    rng: Option<Rng>,
}

impl Style {
    fn ws(&mut self, o: &mut String, min: usize) {
        if let Some(r) = &mut self.rng {
            let n = min + if r.pct(20) { r.below(3) } else { 0 };
            for _ in 0..n {
                o.push(*r.pick(&[' ', ' ', '\t', '\n']));
            }
        } else if min > 0 {
            o.push(' ');
        }
    }
    fn must(&mut self, o: &mut String) {
        self.ws(o, 1)
    }
    fn may(&mut self, o: &mut String) {
        self.ws(o, 0)
    }
    fn sp(&mut self, o: &mut String) {
        if let Some(r) = &mut self.rng {
            let m = r.below(2);
            self.ws(o, m)
        } else {
            o.push(' ')
        }
    }
    fn nl(&mut self, o: &mut String) {
        if self.rng.is_some() {
            self.ws(o, 0);
            if self.rng.as_mut().unwrap().pct(80) {
                o.push('\n');
            }
        } else {
            o.push('\n')
        }
    }
}

/// level: 0 = alternation allowed, 1 = sequence allowed, 2 = operand of a postfix operator
fn print_pat(p: &Pat, level: u8, st: &mut Style, o: &mut String) {
    let need = match p {
        Pat::Eps => level > 0,
        Pat::Sym(_) => false,
        Pat::Seq(_) => level > 0,
        Pat::Alt(_) => level > 0,
        _ => level > 1,
    };
    if need {
        o.push('(');
        st.may(o);
        print_pat(p, 0, st, o);
        st.may(o);
        o.push(')');
        return;
    }
    match p {
        Pat::Eps => o.push('!'),
        Pat::Sym(s) => o.push_str(s),
        Pat::Seq(v) => {
            if v.is_empty() {
                o.push('!');
            }
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    st.must(o);
                }
                print_pat(e, 1, st, o);
            }
        }
        Pat::Alt(v) => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    st.sp(o);
                    o.push('|');
                    st.sp(o);
                }
                // an alternation or an epsilon inside an alternation needs parentheses
                match e {
                    Pat::Alt(_) | Pat::Eps => print_pat(e, 1, st, o),
                    Pat::Seq(v) if v.is_empty() => o.push_str("(!)"),
                    e => print_pat(e, 0, st, o),
                }
            }
        }
        Pat::Opt(e) | Pat::Star(e) | Pat::Plus(e) => {
            print_pat(e, 2, st, o);
            st.may(o);
            o.push(match p {
                Pat::Opt(_) => '?',
                Pat::Star(_) => '*',
                _ => '+',
            });
        }
    }
}
