//! Hand-written grammars that every run of the relevant checks includes.
use crate::gen::Class;

pub struct C {
    pub name: &'static str,
    pub text: &'static str,
    pub classes: &'static [Class],
}

use Class::*;

pub const CURATED: &[C] = &[
    C {
        name: "arith",
        text: "entry expr;\ntoken NUM = /[0-9]+/;\ntoken PLUS = \"+\";\ntoken STAR = \"*\";\ntoken LP = \"(\";\ntoken RP = \")\";\nprod expr [add] = expr PLUS term;\nprod expr = term;\nprod term [mul] = term STAR factor;\nprod term = factor;\nprod factor = NUM;\nprod factor [paren] = LP expr RP;\n",
        classes: &[Lalr, Lr1, Glr],
    },
    C {
        name: "ll-expr",
        text: "entry e;\ntoken N = \"n\";\ntoken P = \"+\";\ntoken M = \"*\";\ntoken L = \"(\";\ntoken R = \")\";\nprod e = t (P t)*;\nprod t = f (M f)*;\nprod f = N | L e R;\n",
        classes: &[Ll1, Lalr, Lr1],
    },
    C {
        name: "json",
        text: "token LB = \"{\";\ntoken RB = \"}\";\ntoken LS = \"[\";\ntoken RS = \"]\";\ntoken COMMA = \",\";\ntoken COLON = \":\";\ntoken STR = /\"[a-z]*\"/;\ntoken NUM = /[0-9]+/;\ntoken KW_TRUE = \"true\";\nentry value;\nprod value [object] = LB (pair (COMMA pair)*)? RB;\nprod value [array] = LS (value (COMMA value)*)? RS;\nprod value = STR;\nprod value = NUM;\nprod value [yes] = KW_TRUE;\nprod pair = STR COLON value;\n",
        classes: &[Ll1, Lalr, Lr1, Glr],
    },
    C {
        name: "underscores",
        text: "entry list_;\ntoken A__B = \"a\";\ntoken C_ = \"c\";\ntoken d_1_ = \"d\";\nprod list_[one__] = A__B x__y z_;\nprod x__y = C_;\nprod x__y[t_] = C_ A__B;\nprod z_ = d_1_ (C_ z_)? A__B;\n",
        classes: &[Lalr, Lr1, Glr],
    },
    C {
        name: "nullable-run",
        text: "entry file;\ntoken NAME = /[a-z]+/;\ntoken DOT = \".\";\ntoken PUB = \"+\";\ntoken MUT = \"!\";\ntoken REF = \"&\";\ntoken AT = \"@\";\ntoken END = \";\";\nprod file = path mods END;\nprod path = NAME more;\nprod more = !;\nprod more = DOT NAME more;\nprod mods = public muts refs tail;\nprod public = PUB?;\nprod muts = MUT*;\nprod refs = !;\nprod refs = REF refs;\nprod tail = !;\nprod tail[at] = AT path;\n",
        classes: &[Ll1, Lalr, Lr1, Glr],
    },
    C {
        name: "empty-language-tail",
        text: "entry s;\ntoken A = \"a\";\nprod s = !;\nprod s = A s;\n",
        classes: &[Ll1, Lalr, Lr1],
    },
    C {
        name: "only-epsilon",
        text: "entry s;\ntoken A = \"a\";\nprod s = !;\n",
        classes: &[Lr0, Ll1, Lalr, Lr1, Glr],
    },
    C {
        name: "epsilon-in-sequence",
        text: "entry s;\ntoken A = \"a\";\ntoken B = \"b\";\nprod s = A (!) B;\nprod s = (!) B x (!);\nprod x = (A (!))? B;\n",
        classes: &[Ll1, Lalr, Lr1],
    },
    C {
        name: "palindrome",
        text: "entry p;\ntoken A = \"a\";\ntoken B = \"b\";\nprod p = A p A;\nprod p = B p B;\nprod p [mid] = A;\nprod p = B;\n",
        classes: &[Glr],
    },
    C {
        name: "lr1-not-lalr",
        text: "entry s;\ntoken A = \"a\";\ntoken B = \"b\";\ntoken C = \"c\";\ntoken D = \"d\";\ntoken E = \"e\";\nprod s = A e C;\nprod s = A f D;\nprod s = B f C;\nprod s = B e D;\nprod e = E;\nprod f = E;\n",
        classes: &[Lr1, Glr],
    },
    C {
        name: "lr0",
        text: "entry s;\ntoken A = \"a\";\ntoken L = \"(\";\ntoken R = \")\";\ntoken S = \";\";\nprod s = e S;\nprod e = e A t;\nprod e = t;\nprod t = L e R;\nprod t [leaf] = A;\n",
        classes: &[Lr0, Lalr, Lr1],
    },
    C {
        name: "recursive-entry",
        text: "entry s;\ntoken A = \"a\";\ntoken B = \"b\";\nprod s = s A;\nprod s = B;\n",
        classes: &[Lr0, Lalr, Lr1, Glr],
    },
    C {
        name: "hidden-suffix",
        text: "entry s;\ntoken A = \"a\";\ntoken B = \"b\";\nprod s = A x y;\nprod x = !;\nprod x = A;\nprod y = !;\nprod y = B;\n",
        classes: &[Ll1, Lalr, Lr1, Glr],
    },
    C {
        name: "two-readings",
        text: "entry s;\ntoken ID = \"i\";\ntoken LT = \"<\";\ntoken GT = \">\";\ntoken SEMI = \";\";\ntoken COMMA = \",\";\nprod s [decl] = ty ID SEMI;\nprod s [cmp] = ex SEMI;\nprod ty = ID LT tys GT;\nprod ty = ID;\nprod tys = ty;\nprod tys = tys COMMA ty;\nprod ex = ex LT at;\nprod ex = ex GT at;\nprod ex = at;\nprod at = ID;\n",
        classes: &[Glr],
    },
];

/// Grammars with more rules, states, tokens or non-terminals than fit a byte.
pub fn large() -> Vec<(&'static str, String, Vec<Class>)> {
    let mut v = vec![];
    let mut toks = String::new();
    for i in 0..280 {
        toks.push_str(&format!("token T{} = \"t{:03}\";\n", i, i));
    }
    let mut a = format!("entry s;\ntoken A = \"a\";\n{}", toks);
    let mut b = a.clone();
    for i in 0..280 {
        a.push_str(&format!("prod s = r{};\nprod r{} = A T{};\n", i, i, i));
        b.push_str(&format!("prod s = r{};\nprod r{} = T{} A?;\n", i, i, i));
    }
    v.push(("many-rules", a, vec![Lr0, Lalr, Lr1, Glr]));
    v.push(("many-rules-ll", b, vec![Ll1]));
    let mut c = String::from("entry n0;\ntoken A = \"a\";\ntoken B = \"b\";\ntoken C = \"c\";\n");
    for i in 0..270 {
        if i < 269 {
            c.push_str(&format!("prod n{} = A n{} C;\nprod n{} = C n{};\n", i, i + 1, i, i + 1));
        }
        c.push_str(&format!("prod n{} = B;\n", i));
    }
    v.push(("many-non-terminals", c, vec![Lr0, Ll1, Lr1]));
    let mut d = String::from("entry s;\ntoken A = \"a\";\ntoken B = \"b\";\nprod s =");
    for i in 0..300 {
        d.push_str(if i % 7 == 3 { " B" } else { " A" });
    }
    d.push_str(";\nprod s = B s;\n");
    v.push(("rule-of-300", d, vec![Lr0, Lalr, Ll1, Glr]));
    v
}
