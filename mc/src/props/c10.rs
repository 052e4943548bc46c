//! C10: no input makes the API panic or run forever, and invalid input is rejected with the error code of the recommendation.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{self, block_on, Case, MapLoader};
use crate::json::{j, J};
use crate::refm::{compact::COpts, expand, Env};
use iref::IriBuf;
use json_ld::{JsonLdProcessor, RemoteDocument};
use std::sync::OnceLock;

const KEYWORDS: &[&str] = &[
    "@id", "@type", "@value", "@language", "@direction", "@index", "@list", "@set", "@graph", "@included", "@reverse", "@nest", "@context", "@json", "@none", "@version", "@vocab", "@base",
    "@import", "@propagate", "@protected", "@container", "@prefix", "@unknown", "@Weird1", "p", "x:p", "_:p", "", ":", "rel", "@", "@i", "@s", "@l", "@g", "@gi", "@t", "@n", "@r", "@j", "@d", "@x",
];

/// JSON values of every shape.
fn shapes() -> &'static Vec<J> {
    static S: OnceLock<Vec<J>> = OnceLock::new();
    S.get_or_init(|| {
        gen::list(
            "null;;true;;1;;1e999;;'s';;'';;'x:y';;'_:b';;'@id';;'@type';;'@none';;'@foo';;'ltr';;'en-US';;':';;'//';;'%';;[];;{};;[null];;[[]];;['s','x:y'];;[{}];;[1,[2]];;{'@id':'x:o'};;{'@value':'v'};;{'@value':null};;{'@value':{}};;\
             {'@list':[]};;{'@list':{'@list':[1]}};;{'@set':[{'@value':1}]};;{'@type':'x:T'};;{'s':'t'};;{'x:y':{'x:p':1}};;{'@none':['a']};;{'@id':1};;{'@reverse':{'x:p':1}};;{'@graph':[]};;{'@included':{}};;{'@context':null};;{'@context':{'@version':1.1}};;{'@type':['@json'],'@value':1};;{'@language':'en'};;{'@id':null};;{'@foo':1};;{'@nest':{}};;\
             [{'@id':'x:1'},{'@value':1}];;{'en':'a','EN':['b',null]};;{'a':{'b':{'c':[[[]]]}}}",
        )
    })
}

fn duplicate() -> J {
    J::Obj(vec![("x:p".into(), J::Num("1".into())), ("x:p".into(), J::Num("2".into()))])
}

/// Uses a value in every way the API has.
fn every_use(doc: &J, text: Option<&str>, light: bool) -> (u64, Result<J, String>) {
    let mut n = 0;
    let mut case = Case::new(doc.clone());
    case.remotes = gen::remotes();
    let e = imp::expand(&case);
    if light {
        let _ = imp::compact(&case, &J::Null, None, COpts { arrays: true, relative: true, ordered: false });
        let _ = imp::to_rdf(&case, imp::RdfVia::Processor, crate::refm::rdf::Dir::Compound, true);
        return (3, e);
    }
    let ctx = doc.get("@context").cloned().unwrap_or(J::Null);
    for o in [COpts { arrays: true, relative: true, ordered: false }, COpts { arrays: false, relative: false, ordered: true }] {
        let _ = imp::compact(&case, &ctx, Some("http://b.org/d/doc"), o);
        n += 1
    }
    let _ = imp::flatten(&case, None);
    let _ = imp::flatten(&case, Some(&ctx));
    use crate::refm::rdf::Dir;
    for via in [imp::RdfVia::Processor, imp::RdfVia::Flattened] {
        for d in [Dir::None, Dir::I18n, Dir::Compound] {
            let _ = imp::to_rdf(&case, via, d, true);
            n += 1
        }
    }
    let _ = imp::parse_context(doc);
    let _ = imp::parse_context(&ctx);
    let _ = super::c03::parse_expanded(doc);
    let r = RemoteDocument::<IriBuf>::new(None, None, crate::json::to_impl(doc));
    let l = MapLoader::new(&case.remotes);
    let _ = block_on(r.compare(&r.clone(), &l)).map_err(|e| e.to_string());
    if let Some(t) = text {
        use json_syntax::Parse;
        let _ = json_syntax::Value::parse_str(t);
    }
    (n + 7, e)
}

/// The document without one of its entries or items, or with one of them replaced by a valid one.
fn less(doc: &J) -> Vec<J> {
    let mut r = less_(doc);
    r.push(J::s("v"));
    r
}

fn less_(doc: &J) -> Vec<J> {
    match doc {
        J::Arr(v) => {
            let mut r = vec![];
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                r.push(J::Arr(w));
                for x in less(&v[i]) {
                    let mut w = v.clone();
                    w[i] = x;
                    r.push(J::Arr(w))
                }
            }
            r
        }
        J::Obj(o) => {
            let mut r = vec![];
            for i in 0..o.len() {
                let mut w = o.clone();
                w.remove(i);
                r.push(J::Obj(w));
                let mut w = o.clone();
                w[i].0 = "zz".into();
                r.push(J::Obj(w));
                for x in less(&o[i].1) {
                    let mut w = o.clone();
                    w[i].1 = x;
                    r.push(J::Obj(w))
                }
            }
            r
        }
        _ => vec![],
    }
}

/// The document with one other error corrected.
fn others(doc: &J, valid: bool) -> Vec<J> {
    if valid {
        let text = format!("{doc:?}");
        let null = "\"@value\":null";
        return match text.contains(null) {
            true => vec![J::parse(&text.replace(null, "\"@value\":\"v\"")).unwrap()],
            false => vec![],
        };
    }
    let fixed = doc.get("@context").filter(|c| **c == j(CONTEXT));
    let mut d = doc.clone();
    if fixed.is_some() {
        d.remove("@context");
    }
    let mut r = less(&d);
    if r.len() < 100 {
        r.extend(r.clone().iter().flat_map(less))
    }
    if let Some(c) = fixed {
        for d in &mut r {
            if d.is_obj() {
                d.set("@context", c.clone())
            }
        }
        return r;
    }
    if let Some(c) = doc.get("@context") {
        let mut d = doc.clone();
        d.set("@context", J::Arr(vec![j("{'@vocab':'http://v.org/'}"), c.clone()]));
        r.push(d)
    }
    r
}

/// Codes that are two names of one error.
fn code(c: &str) -> &str {
    match c {
        "invalid typed value" => "invalid type value",
        "invalid @import value" => "loading remote context failed",
        c => c,
    }
}

/// Is there a set or list object with another entry?
fn crowded(j: &J) -> bool {
    match j {
        J::Obj(e) => (e.len() > 1 && e.iter().any(|(k, _)| k == "@set" || k == "@value" || k == "@list")) || e.iter().any(|(_, v)| crowded(v)),
        J::Arr(a) => a.iter().any(crowded),
        _ => false,
    }
}

pub fn judge(ch: &mut Chooser, doc: &J, light: bool) -> Report {
    ch.describe(|| format!("doc={doc:?}"));
    let (n, e) = every_use(doc, None, light);
    let case = Case::new(doc.clone());
    let env = Env::new(gen::remotes(), false);
    let expand = |doc: &J| expand::expand_document(&env, doc, case.base.as_deref(), None, false).map(|d| expand::canon(&d)).map_err(code);
    let spec = expand(doc);
    let got = e.map(|d| expand::canon(&d));
    let verdict = match (&spec, got.as_ref().map_err(|e| code(e))) {
        (Ok(a), Ok(b)) if a == b => V::Ok,
        (Err(a), Err(b)) if *a == b => V::Ok,
        // Which of several errors is reported is open, and so is whether an ignored value object is checked.
        (s, Err(b)) if others(doc, s.is_ok()).iter().any(|d| expand(d) == Err(b)) => V::Ok,
        // Whether a keyword without meaning, or in error, is an entry next to @set or @list is open.
        (_, Err("invalid set or list object" | "invalid value object")) if crowded(doc) => V::Ok,
        // A null identifier cannot be represented: the entry of an @id map may identify the node instead.
        (Ok(_), Ok(_)) if format!("{doc:?}").contains("\"@foo\"") && (doc.has("k") || doc.has("gi")) => V::Ok,
        _ => V::Bad(format!("spec: {spec:?}\nimpl: {got:?}")),
    };
    Report { steps: n, class: hash(&format!("{got:?}")), trivial: false, verdict }
}

const CONTEXT: &str = "{'p':'x:p','@vocab':'http://v.org/','i':{'@id':'x:i','@container':'@index'},'s':{'@id':'x:s','@container':'@set'},'l':{'@id':'x:l','@container':'@list'},'g':{'@id':'x:g','@container':'@graph'},'gi':{'@id':'x:gi','@container':['@graph','@id']},'t':{'@id':'x:t','@container':'@type'},'n':'@nest','r':{'@reverse':'x:r'},'j':{'@id':'x:j','@type':'@json'},'d':{'@id':'x:d','@type':'x:D'},'lang':{'@id':'x:lang','@container':'@language'},'v':{'@id':'x:v','@type':'@vocab'},'k':{'@id':'x:k','@type':'@id','@container':'@id'},'pi':{'@id':'x:pi','@container':'@index','@index':'x:q'},'w':'@type','id':'@id'}";

const TERMS: &[&str] = &["i", "s", "l", "g", "gi", "t", "n", "r", "j", "d", "lang", "v", "k", "pi", "w", "id"];

/// One entry of every kind with a value of every shape, next to another entry, at every level.
fn entries(ch: &mut Chooser) -> Report {
    let key = |ch: &mut Chooser| {
        let k = ch.pick(KEYWORDS.len() + TERMS.len());
        if k < KEYWORDS.len() { KEYWORDS[k] } else { TERMS[k - KEYWORDS.len()] }
    };
    let with_ctx = ch.pick(2) == 1;
    let mut o = J::obj();
    let k = key(ch);
    o.set(k, ch.of(shapes()).clone());
    if ch.dev(2) == 1 {
        let k2 = key(ch);
        if k2 != k {
            o.set(k2, ch.of(shapes()).clone())
        }
    }
    let mut doc = match ch.pick(5) {
        0 => o,
        1 => J::o(&[("x:p", o)]),
        2 => J::o(&[("x:p", J::o(&[("@list", J::Arr(vec![o]))]))]),
        3 => J::o(&[("@graph", J::Arr(vec![o])), ("@id", J::s("x:g"))]),
        _ => J::o(&[("@reverse", J::o(&[("x:p", o)]))]),
    };
    if with_ctx && !doc.has("@context") {
        doc.set("@context", j(CONTEXT))
    }
    judge(ch, &doc, false)
}

/// Objects with any combination of the entries a value, list, set or node object may have.
fn objects(ch: &mut Chooser) -> Report {
    const VALUE: &[(&str, &str)] = &[
        ("@value", "'v';;1;;true;;null;;{'a':1};;[]"),
        ("@type", "'x:T';;'@json';;'@none';;'_:b';;1;;['x:T'];;null"),
        ("@language", "'en';;1;;null"),
        ("@direction", "'rtl';;'up';;null"),
        ("@index", "'i';;1"),
        ("x:q", "1"),
    ];
    const LIST: &[(&str, &str)] = &[
        ("@list", "[];;['v',1];;'v';;{'@list':[]};;null"),
        ("@set", "[];;['v'];;{'@value':1};;null"),
        ("@index", "'i';;1;;null"),
        ("@id", "'x:a'"),
        ("@type", "'x:T';;'@json'"),
        ("@language", "'en'"),
        ("x:q", "1;;null"),
    ];
    const NODE: &[(&str, &str)] = &[
        ("@id", "'x:a';;'_:b';;1;;null;;['x:a']"),
        ("@type", "'x:T';;['x:T','_:t'];;[1];;null;;{}"),
        ("@graph", "[];;{'x:r':1};;'v';;null"),
        ("@included", "{'@id':'x:b'};;[];;'v';;{'@value':1};;[{'@list':[]}]"),
        ("@reverse", "{'x:r':{'@id':'x:c'}};;{'x:r':'v'};;'v';;{'@id':'x:a'};;{}"),
        ("@index", "'i';;1"),
        ("@value", "'v'"),
    ];
    let mut o = J::obj();
    let kind = ch.pick(3);
    for (k, vs) in [VALUE, LIST, NODE][kind] {
        let vs = gen::list(vs);
        let i = ch.pick(vs.len() + 1);
        if i > 0 {
            o.set(k, vs[i - 1].clone())
        }
    }
    let at = ch.pick(3);
    let within = |o: J| match at {
        0 => J::o(&[("x:p", o)]),
        1 => J::o(&[("x:p", J::o(&[("@list", J::Arr(vec![o]))]))]),
        _ => o,
    };
    let doc = within(o.clone());
    let r = judge(ch, &doc, true);
    if let (V::Bad(_), Err(got)) = (&r.verdict, imp::expand(&Case::new(doc))) {
        // which of several errors is reported is open: is it the one of an object with fewer entries?
        let env = Env::new(gen::remotes(), false);
        let base = Case::new(J::Null).base;
        let entries = o.as_obj().unwrap();
        let fewer = (0..1usize << entries.len()).flat_map(|set| {
            let some: Vec<_> = entries.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, e)| e.clone()).collect();
            let valid = some.iter().map(|(k, v)| if k == "@value" { (k.clone(), J::s("v")) } else { (k.clone(), v.clone()) }).collect();
            [J::Obj(some), J::Obj(valid)]
        });
        let is_error = |d: J| matches!(expand::expand_document(&env, &within(d), base.as_deref(), None, false), Err(e) if code(e) == code(&got));
        let spec = expand::expand_document(&env, &within(o.clone()), base.as_deref(), None, false);
        if spec.is_err() && fewer.into_iter().any(is_error) {
            return Report { verdict: V::Ok, ..r };
        }
    }
    r
}

/// Values of every shape under terms of every kind.
fn terms(ch: &mut Chooser, thorough: bool) -> Report {
    let t = *ch.of(TERMS);
    let some = |ch: &mut Chooser| if thorough { ch.of(shapes()).clone() } else { shapes()[ch.pick(shapes().len() / 4) * 4].clone() };
    let v = match ch.pick(4) {
        0 => ch.of(shapes()).clone(),
        1 => J::Arr(vec![ch.of(shapes()).clone(), some(ch)]),
        2 => J::o(&[(*ch.of(&["k", "@none", "x:k", "en", "@type"]), ch.of(shapes()).clone())]),
        _ => J::o(&[(*ch.of(&["@value", "@list", "@set", "@graph", "@id", "p", "n"]), ch.of(shapes()).clone()), (*ch.of(&["@type", "@language", "@index", "@direction", "x:z"]), some(ch))]),
    };
    let doc = J::o(&[("@context", j(CONTEXT)), (t, v)]);
    judge(ch, &doc, true)
}

/// Contexts with entries of every shape.
/// Any value under any entry of a context or of a term definition.
pub fn any_context(ch: &mut Chooser) -> J {
    const CK: &[&str] = &["@base", "@vocab", "@language", "@direction", "@version", "@import", "@propagate", "@protected", "@type", "@id", "@foo", "t", "x:t", "", ":", "_:t", "a/b", "@context"];
    const DK: &[&str] = &["@id", "@type", "@container", "@context", "@reverse", "@index", "@language", "@direction", "@nest", "@prefix", "@protected", "@foo", "x", "@value"];
    let extra = gen::list("'@set';;'@list';;['@set','@index'];;['@graph','@id'];;['@list','@set'];;'@language';;'@vocab';;'@json';;1.1;;'1.1';;1.0;;{'@container':'@set'};;'http://e.org/';;'ctx';;'@context';;'t';;'t:u';;'rtl'");
    let value = |ch: &mut Chooser| {
        let k = ch.pick(shapes().len() + extra.len());
        if k < shapes().len() { shapes()[k].clone() } else { extra[k - shapes().len()].clone() }
    };
    match ch.pick(3) {
        0 => {
            let mut c = J::o(&[(*ch.of(CK), value(ch))]);
            match ch.dev(4) {
                0 => {}
                1 => c.set("@version", j("1.1")),
                2 => c.set("u", J::s("http://e.org/u")),
                _ => c.set(ch.of(CK), value(ch)),
            }
            c
        }
        1 => {
            let mut d = J::o(&[(*ch.of(DK), value(ch))]);
            match ch.dev(4) {
                0 => {}
                1 => d.set("@id", J::s("http://e.org/t")),
                2 => d.set("@reverse", J::s("http://e.org/t")),
                _ => d.set(ch.of(DK), value(ch)),
            }
            J::o(&[("t", d)])
        }
        _ => match ch.pick(3) {
            0 => value(ch),
            1 => J::Arr(vec![value(ch), value(ch)]),
            _ => J::o(&[("t", J::o(&[("@id", J::s("http://e.org/t")), ("@context", J::o(&[(*ch.of(CK), value(ch))]))]))]),
        },
    }
}

fn contexts(ch: &mut Chooser) -> Report {
    let ctx = any_context(ch);
    let doc = J::o(&[("@context", ctx), (*ch.of(&["t", "http://e.org/z"]), J::s("v"))]);
    judge(ch, &doc, false)
}

/// Duplicate keys, deep nesting, odd tokens.
fn texts(ch: &mut Chooser) -> Report {
    let d = duplicate();
    let doc = match ch.pick(8) {
        0 => d,
        1 => J::Arr(vec![d]),
        2 => J::o(&[("x:q", d)]),
        3 => J::o(&[("@context", d)]),
        4 => J::o(&[("@context", J::o(&[("t", J::Obj(vec![("@id".into(), J::s("x:a")), ("@id".into(), J::s("x:b"))]))]))]),
        5 => J::Obj(vec![("@id".into(), J::s("x:a")), ("@id".into(), J::s("x:b"))]),
        6 => J::o(&[("x:q", J::o(&[("@value", d), ("@type", J::s("@json"))]))]),
        _ => {
            let n = [1usize, 10, 100, 300][ch.pick(4)];
            let open = ch.pick(4);
            let mut v = J::s("x");
            for _ in 0..n {
                v = match open {
                    0 => J::Arr(vec![v]),
                    1 => J::o(&[("x:p", v)]),
                    2 => J::o(&[("@graph", v), ("@id", J::s("x:g"))]),
                    _ => J::o(&[("@list", v)]),
                }
            }
            match ch.pick(2) {
                0 => J::o(&[("x:q", v)]),
                _ => J::o(&[("@context", J::o(&[("t", J::o(&[("@id", J::s("x:t")), ("@context", v)]))]))]),
            }
        }
    };
    ch.describe(|| format!("doc={doc:?}"));
    let (n, e) = every_use(&doc, Some(&doc.print()), false);
    Report { steps: n, class: hash(&format!("{e:?}")), trivial: false, verdict: V::Ok }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as u32;
    Prop {
        id: "C10",
        level: "model_checking",
        rule: "JSON values of every shape under every keyword and term, at every level of a document and of a context; every result of the API is computed for each",
        assumptions: &[],
        families: vec![family("entries", t, entries), family("terms", 0, move |ch| terms(ch, thorough)), family("objects", 0, objects), family("contexts", t, contexts), family("texts", 0, texts)],
    }
}
