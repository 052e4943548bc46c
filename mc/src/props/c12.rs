//! C12: an active context is what its last settings say, whatever happened to it before.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::imp::{self, Ctx, MapLoader};
use crate::json::j;
use iref::IriBuf;
use json_ld::context::inverse::{LangSelection, Selection, TypeSelection};
use json_ld::context::{Key, NormalTermDefinition, TermDefinition, TypeTermDefinition};
use json_ld::syntax::Keyword;
use json_ld::{Container, Direction, Nullable, Term, Type};
use json_ld::ValidId;
use rdf_types::BlankIdBuf;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

type Def = NormalTermDefinition<IriBuf, BlankIdBuf>;
type T = Term<IriBuf, BlankIdBuf>;

/// What the calls so far have set (indices into the pools; 0 is nothing).
#[derive(Clone, Default, PartialEq, Eq, Debug, Hash)]
struct State {
    terms: [usize; 3],
    type_: usize,
    base: usize,
    vocab: usize,
    language: usize,
    direction: usize,
    previous: usize,
}

const TERMS: [&str; 3] = ["a", "b", "@x"];
const COMPONENTS: usize = 9;

impl State {
    fn get(&mut self, i: usize) -> (&mut usize, usize) {
        match i {
            0..=2 => (&mut self.terms[i], defs().len() + 1),
            3 => (&mut self.type_, types().len() + 1),
            4 => (&mut self.base, 3),
            5 => (&mut self.vocab, 5),
            6 => (&mut self.language, 3),
            7 => (&mut self.direction, 3),
            _ => (&mut self.previous, 3),
        }
    }
}

fn remotes() -> &'static BTreeMap<String, crate::refm::Remote> {
    static X: OnceLock<BTreeMap<String, crate::refm::Remote>> = OnceLock::new();
    X.get_or_init(BTreeMap::new)
}

fn processed(c: &str) -> Ctx {
    imp::process_ctx(&Ctx::new(None), &j(c), None, false, &MapLoader::new(remotes())).unwrap()
}

fn defs() -> &'static [Def] {
    static X: OnceLock<Vec<Def>> = OnceLock::new();
    X.get_or_init(|| {
        [
            "'http://e/1'",
            "{'@id':'http://e/1','@language':'en'}",
            "{'@id':'http://e/1','@type':'@id','@protected':true}",
            "{'@id':'http://e/2','@container':'@list'}",
            "{'@reverse':'http://e/1'}",
            "{'@id':'http://e/1','@direction':'rtl'}",
            "'@type'",
            "null",
        ]
        .iter()
        .map(|d| processed(&format!("{{'a':{d}}}")).get_normal("a").unwrap().clone())
        .collect()
    })
}

fn types() -> &'static [TypeTermDefinition] {
    static X: OnceLock<Vec<TypeTermDefinition>> = OnceLock::new();
    X.get_or_init(|| {
        ["{'@container':'@set'}", "{'@container':'@set','@protected':true}"]
            .iter()
            .map(|d| processed(&format!("{{'@type':{d}}}")).get_type().unwrap().clone())
            .collect()
    })
}

fn base(i: usize) -> Option<IriBuf> {
    [None, Some("http://base/1/"), Some("http://base/2/")][i].map(imp::iri)
}

fn vocab(i: usize) -> Option<T> {
    [
        None,
        Some(Term::Id(json_ld::Id::Valid(ValidId::Iri(imp::iri("http://vocab/1/"))))),
        Some(Term::Id(json_ld::Id::Valid(ValidId::Iri(imp::iri("http://vocab/2/"))))),
        Some(Term::Null),
        Some(Term::Id(json_ld::Id::Valid(ValidId::Blank(BlankIdBuf::new("_:v".to_string()).unwrap())))),
    ][i]
        .clone()
}

fn language(i: usize) -> Option<json_ld::LenientLangTagBuf> {
    static X: OnceLock<Vec<Option<json_ld::LenientLangTagBuf>>> = OnceLock::new();
    X.get_or_init(|| {
        ["{}", "{'@language':'en'}", "{'@language':'fr'}"].iter().map(|c| processed(c).default_language().map(|l| l.to_owned())).collect()
    })[i]
        .clone()
}

fn direction(i: usize) -> Option<Direction> {
    [None, Some(Direction::Ltr), Some(Direction::Rtl)][i]
}

fn previous(i: usize) -> Option<Ctx> {
    [None, Some("{}"), Some("{'a':'http://e/prev','@language':'en'}")][i].map(processed)
}

/// A context with these settings and no history.
fn fresh(s: &State) -> Ctx {
    let mut c = Ctx::new(Some(imp::iri("http://doc/")));
    if let Some(p) = previous(s.previous) {
        c.set_previous_context(p)
    }
    c.set_default_base_direction(direction(s.direction));
    c.set_default_language(language(s.language));
    c.set_vocabulary(vocab(s.vocab));
    c.set_base_iri(base(s.base));
    if s.type_ > 0 {
        c.set_type(Some(types()[s.type_ - 1].clone()));
    }
    for i in (0..3).rev() {
        if s.terms[i] > 0 {
            c.set_normal(Key::from(TERMS[i].to_string()), Some(defs()[s.terms[i] - 1].clone()));
        }
    }
    c
}

fn dump_def(key: &str, d: &Def) -> String {
    let mut c = Ctx::new(None);
    c.set_normal(Key::from(key.to_string()), Some(d.clone()));
    format!("{:?}", imp::dump_ctx(&c).get("terms"))
}

/// Everything that can be read from a context, as the settings say it should be.
fn expected(s: &State) -> String {
    let mut out = vec![];
    for i in 0..3 {
        let d = s.terms[i].checked_sub(1).map(|k| &defs()[k]);
        out.push(format!("{} {:?} {:?} {}", TERMS[i], d.map(|d| dump_def(TERMS[i], d)), d.map(|d| dump_def(TERMS[i], d)), d.is_some()))
    }
    let t = s.type_.checked_sub(1).map(|k| types()[k].protected);
    out.push(format!("type {t:?} {t:?} {} false", t.is_some()));
    let mut keys: BTreeSet<&str> = (0..3).filter(|i| s.terms[*i] > 0).map(|i| TERMS[i]).collect();
    if s.type_ > 0 {
        keys.insert("@type");
    }
    let protected = t == Some(true) || s.terms.iter().any(|k| *k > 0 && defs()[*k - 1].protected);
    out.push(format!("{keys:?} {} {} {} {} {protected}", keys.len(), keys.len(), keys.is_empty(), keys.is_empty()));
    out.push(format!(
        "{:?} {:?} {:?} {:?} {:?} {:?}",
        base(s.base).map(|b| b.to_string()),
        vocab(s.vocab).map(|t| t.as_str().to_string()),
        language(s.language).map(|l| l.to_string()),
        direction(s.direction),
        previous(s.previous).map(|p| imp::dump_ctx(&p)),
        Some("http://doc/"),
    ));
    out.join("\n")
}

fn observed(c: &Ctx) -> String {
    let mut out = vec![];
    for t in TERMS {
        let n = c.get_normal(t);
        let g = c.get(t).map(|g| match g {
            json_ld::context::TermDefinitionRef::Normal(d) => dump_def(t, d),
            _ => "type".to_string(),
        });
        out.push(format!("{t} {:?} {g:?} {}", n.map(|d| dump_def(t, d)), c.contains_term(t)))
    }
    let t = c.get_type().map(|t| t.protected);
    let g = c.get("@type").map(|t| t.protected());
    out.push(format!("type {t:?} {g:?} {} {}", c.contains_term("@type"), c.get_normal("@type").is_some()));
    let keys: Vec<String> = c.definitions().iter().map(|b| b.term().as_str().to_string()).collect();
    let set: BTreeSet<&str> = keys.iter().map(|k| k.as_str()).collect();
    let n = if set.len() == keys.len() { c.len() } else { usize::MAX };
    out.push(format!("{set:?} {n} {} {} {} {}", c.definitions().len(), c.is_empty(), c.definitions().is_empty(), c.has_protected_items()));
    out.push(format!(
        "{:?} {:?} {:?} {:?} {:?} {:?}",
        c.base_iri().map(|b| b.to_string()),
        c.vocabulary().map(|t| t.as_str().to_string()),
        c.default_language().map(|l| l.to_string()),
        c.default_base_direction(),
        c.previous_context().map(imp::dump_ctx),
        c.original_base_url().map(|b| b.as_str()),
    ));
    out.join("\n")
}

/// The term chosen for every kind of value (this goes through the cached inverse context).
fn selections(c: &Ctx) -> Vec<Option<String>> {
    static VARS: OnceLock<Vec<T>> = OnceLock::new();
    let vars = VARS.get_or_init(|| {
        let id = |s: &str| Term::Id(json_ld::Id::Valid(ValidId::Iri(imp::iri(s))));
        vec![id("http://e/1"), id("http://e/2"), Term::Keyword(Keyword::Type), Term::Null, id("http://e/3")]
    });
    let inv = c.inverse();
    let (en, fr) = (language(1).unwrap(), language(2).unwrap());
    let (en, fr) = (en.as_lenient_lang_tag_ref(), fr.as_lenient_lang_tag_ref());
    let mut sels: Vec<Selection<IriBuf>> = vec![Selection::Any];
    for t in [TypeSelection::Reverse, TypeSelection::Any, TypeSelection::Type(Type::Id), TypeSelection::Type(Type::None), TypeSelection::Type(Type::Vocab)] {
        sels.push(Selection::Type(vec![t]))
    }
    sels.push(Selection::Lang(vec![LangSelection::Any]));
    sels.push(Selection::Lang(vec![LangSelection::Lang(Nullable::Null)]));
    for l in [None, Some(en), Some(fr)] {
        for d in [None, Some(Direction::Ltr), Some(Direction::Rtl)] {
            sels.push(Selection::Lang(vec![LangSelection::Lang(Nullable::Some((l, d)))]))
        }
    }
    let mut out = vec![];
    for v in vars {
        out.push(inv.contains(v).then(String::new));
        for k in [Container::None, Container::Set, Container::List] {
            for s in &sels {
                out.push(inv.select(v, &[k], s).map(|k| k.to_string()))
            }
        }
    }
    out
}

/// Compares a context with the settings; the first difference.
fn check(c: &Ctx, s: &State, what: &str) -> Result<(), String> {
    let (e, o) = (expected(s), observed(c));
    if e != o {
        return Err(format!("{what}: settings {s:?}\nexpected {e}\nobserved {o}"));
    }
    let f = fresh(s);
    let (e, o) = (imp::dump_ctx(&f), imp::dump_ctx(c));
    if e != o {
        return Err(format!("{what}: settings {s:?}\na new context has {e:?}\nthis one {o:?}"));
    }
    let (e, o) = (selections(&f), selections(c));
    if e != o {
        let i = (0..e.len()).find(|i| e[*i] != o[*i]).unwrap();
        return Err(format!("{what}: settings {s:?}\nselection {i} in a new context {:?}, in this one {:?}", e[i], o[i]));
    }
    #[allow(clippy::nonminimal_bool)]
    if !(*c == f) || !(f == *c) {
        return Err(format!("{what}: settings {s:?}: not equal to a new context with the same settings"));
    }
    Ok(())
}

/// Local contexts processed on top.
const LOCAL: &[&str] = &["{'@language':'fr'}", "{'b':'http://e/1'}", "{'@type':{'@container':'@set'}}", "{'@vocab':null,'a':null}", "null", "{'@propagate':false,'@language':'en'}"];

/// What processing `LOCAL[i]` does to the settings; None: refused.
fn local(i: usize, s: &State) -> Option<State> {
    let mut r = s.clone();
    let protected = |k: usize| k > 0 && defs()[k - 1].protected;
    match i {
        0 => r.language = 2,
        1 => {
            if protected(s.terms[1]) {
                return None;
            }
            r.terms[1] = 1
        }
        // the redefinition of a protected term by the same definition is allowed, and stays protected
        2 => {
            if s.type_ != 2 {
                r.type_ = 1
            }
        }
        3 => {
            if protected(s.terms[0]) {
                return None;
            }
            r.vocab = 0;
            r.terms[0] = defs().len()
        }
        _ => return None,
    }
    Some(r)
}

fn sequence(ch: &mut Chooser, n: usize) -> Report {
    let mut log = vec![];
    let mut s = State::default();
    s.base = 0;
    let mut c = fresh(&s);
    let mut bad = None;
    for _ in 0..n {
        let k = ch.pick(OPS);
        let mut fail = |what: &str, ok: bool| {
            if !ok && bad.is_none() {
                bad = Some(format!("{what} returned something else than the previous value"))
            }
        };
        match k {
            0 => {
                log.push("stop".to_string());
                break;
            }
            1 => {
                log.push("read the inverse".into());
                selections(&c);
            }
            2 => {
                log.push("clone".into());
                c = c.clone();
            }
            3 => {
                log.push("map_ids there and back".into());
                let there: json_ld::Context<String, BlankIdBuf> = c.map_ids(
                    |i| format!("x{i}"),
                    |i| match i {
                        ValidId::Iri(i) => ValidId::Iri(format!("x{i}")),
                        ValidId::Blank(b) => ValidId::Blank(b),
                    },
                );
                c = there.map_ids(
                    |i| imp::iri(&i[1..]),
                    |i| match i {
                        ValidId::Iri(i) => ValidId::Iri(imp::iri(&i[1..])),
                        ValidId::Blank(b) => ValidId::Blank(b),
                    },
                );
            }
            4..=7 => {
                let i = k - 4;
                log.push(format!("process {}", LOCAL[i]));
                let r = imp::process_ctx(&c, &j(LOCAL[i]), None, false, &MapLoader::new(remotes()));
                match (r, local(i, &s)) {
                    (Ok(r), Some(t)) => {
                        c = r;
                        s = t
                    }
                    (Err(_), None) => {}
                    (Ok(_), None) => {
                        bad = Some("a protected term was redefined".into());
                    }
                    (Err(e), Some(_)) => {
                        bad = Some(format!("refused: {e}"));
                    }
                }
            }
            8..=25 => {
                let t = (k - 8) / 9;
                let d = (k - 8) % 9;
                log.push(format!("set_normal({}, {d})", TERMS[t]));
                let r = c.set_normal(Key::from(TERMS[t].to_string()), d.checked_sub(1).map(|d| defs()[d].clone()));
                fail("set_normal", r == s.terms[t].checked_sub(1).map(|d| defs()[d].clone()));
                s.terms[t] = d;
            }
            26..=28 => {
                let d = k - 26;
                log.push(format!("set_type({d})"));
                let r = c.set_type(d.checked_sub(1).map(|d| types()[d].clone()));
                fail("set_type", r == s.type_.checked_sub(1).map(|d| types()[d].clone()));
                s.type_ = d;
            }
            29..=30 => {
                s.base = k - 29;
                log.push(format!("set_base_iri({})", s.base));
                c.set_base_iri(base(s.base));
            }
            31..=33 => {
                s.vocab = [0, 1, 4][k - 31];
                log.push(format!("set_vocabulary({})", s.vocab));
                c.set_vocabulary(vocab(s.vocab));
            }
            34..=36 => {
                s.language = k - 34;
                log.push(format!("set_default_language({})", s.language));
                c.set_default_language(language(s.language));
            }
            37..=39 => {
                s.direction = k - 37;
                log.push(format!("set_default_base_direction({})", s.direction));
                c.set_default_base_direction(direction(s.direction));
            }
            _ => {
                s.previous = 1 + k - 40;
                log.push(format!("set_previous_context({})", s.previous));
                c.set_previous_context(previous(s.previous).unwrap());
            }
        }
    }
    let desc = log.join("; ");
    let bad = bad.or_else(|| check(&c, &s, &desc).err()).or_else(|| check(&c.clone(), &s, "its clone").err());
    ch.describe(|| desc);
    Report { steps: log.len() as u64, class: hash(&s), trivial: log.len() < 2, verdict: bad.map(V::Bad).unwrap_or(V::Ok) }
}
const OPS: usize = 42;

/// Two contexts are equal exactly when their settings are, and clearing what was set leaves nothing.
fn equality(ch: &mut Chooser) -> Report {
    let mut states = [State::default(), State::default()];
    for (k, s) in states.iter_mut().enumerate() {
        for i in 0..COMPONENTS {
            let (x, n) = s.get(i);
            // the term `@x` takes few values
            let n = if i == 2 { 2 } else { n };
            if k == 0 {
                *x = ch.alt(n)
            }
        }
    }
    states[1] = states[0].clone();
    for i in 0..COMPONENTS {
        let (x, n) = states[1].get(i);
        let d = ch.dev(n);
        *x = (*x + d) % n;
    }
    let [s, t] = states;
    ch.describe(|| format!("{s:?} and {t:?}"));
    let (a, b) = (fresh(&s), fresh(&t));
    let r = if (a == b) != (s == t) || (b == a) != (s == t) || (a != b) == (s == t) {
        Err(format!("{s:?} and {t:?}: equal: {}", a == b))
    } else if t.previous == 0 && s.previous != 0 {
        Ok(())
    } else {
        // turning one into the other
        let mut c = a;
        selections(&c);
        c.set_base_iri(base(t.base));
        c.set_vocabulary(vocab(t.vocab));
        c.set_default_language(language(t.language));
        c.set_default_base_direction(direction(t.direction));
        c.set_type(t.type_.checked_sub(1).map(|d| types()[d].clone()));
        for i in 0..3 {
            c.set_normal(Key::from(TERMS[i].to_string()), t.terms[i].checked_sub(1).map(|d| defs()[d].clone()));
        }
        if let Some(p) = previous(t.previous) {
            c.set_previous_context(p)
        }
        check(&c, &t, "one turned into the other")
    };
    Report { steps: 2, class: hash(&(&s, &t)), trivial: false, verdict: r.err().map(V::Bad).unwrap_or(V::Ok) }
}

const FIELDS: [usize; 12] = [4, 2, 2, 2, 3, 3, 5, 4, 3, 4, 4, 5];

/// The definition whose fields have these values.
fn definition(f: &[usize; 12]) -> Def {
    let p = |i: usize, defs: [&str; 4]| -> Option<Def> { (i > 0).then(|| processed(&format!("{{'a':{}}}", defs[i - 1])).get_normal("a").unwrap().clone()) };
    let none = "null";
    Def {
        value: [None, Some(Term::Null), vocab(1), vocab(2)][f[0]].clone(),
        prefix: f[1] == 1,
        protected: f[2] == 1,
        reverse_property: f[3] == 1,
        base_url: base(f[4]),
        context: p(f[5], ["{'@id':'x:a','@context':{'b':'x:b'}}", "{'@id':'x:a','@context':{}}", none, none]).and_then(|d| d.context),
        container: p(f[6], ["{'@id':'x:a','@container':'@set'}", "{'@id':'x:a','@container':'@list'}", "{'@id':'x:a','@container':['@graph','@id']}", "{'@id':'x:a','@container':['@graph','@index']}"])
            .map_or(Container::new(), |d| d.container),
        direction: [None, Some(Nullable::Null), Some(Nullable::Some(Direction::Ltr)), Some(Nullable::Some(Direction::Rtl))][f[7]],
        index: p(f[8], ["{'@id':'x:a','@container':'@index','@index':'x:i'}", "{'@id':'x:a','@container':'@index','@index':'x:j'}", none, none]).and_then(|d| d.index),
        language: p(f[9], ["{'@id':'x:a','@language':null}", "{'@id':'x:a','@language':'en'}", "{'@id':'x:a','@language':'fr'}", none]).and_then(|d| d.language),
        nest: p(f[10], ["{'@id':'x:a','@nest':'@nest'}", "{'@id':'x:a','@nest':'n'}", "{'@id':'x:a','@nest':'m'}", none]).and_then(|d| d.nest),
        typ: p(f[11], ["{'@id':'x:a','@type':'@id'}", "{'@id':'x:a','@type':'@vocab'}", "{'@id':'x:a','@type':'x:t'}", "{'@id':'x:a','@type':'x:u'}"]).and_then(|d| d.typ),
    }
}

fn equal_definitions(ch: &mut Chooser) -> Report {
    let mut f = [[0; 12]; 2];
    for i in 0..12 {
        f[0][i] = ch.dev(FIELDS[i])
    }
    for i in 0..12 {
        f[1][i] = (f[0][i] + ch.dev(FIELDS[i])) % FIELDS[i]
    }
    ch.describe(|| format!("{f:?}"));
    let (a, b) = (definition(&f[0]), definition(&f[1]));
    let same = f[0] == f[1];
    let mut g = f;
    g[0][2] = 0;
    g[1][2] = 0;
    let modulo = g[0] == g[1];
    let (ta, tb) = (TermDefinition::Normal(a.clone()), TermDefinition::Normal(b.clone()));
    let keyword = TermDefinition::Type(TypeTermDefinition { container: json_ld::syntax::context::definition::TypeContainer::Set, protected: a.protected });
    let mut bad = vec![];
    let mut is = |what: &str, got: bool, want: bool| {
        if got != want {
            bad.push(format!("{what}: {got}"))
        }
    };
    is("equal", a == b, same);
    is("equal definitions", ta == tb, same);
    is("equal references", ta.as_ref() == tb.as_ref(), same);
    is("equal modulo @protected", a.modulo_protected_field() == b.modulo_protected_field(), modulo);
    is("equal definitions modulo @protected", ta.modulo_protected_field() == tb.modulo_protected_field(), modulo);
    is("equal references modulo @protected", ta.as_ref().modulo_protected_field() == tb.as_ref().modulo_protected_field(), modulo);
    is("equal to the definition of @type", ta == keyword || keyword == tb || ta.as_ref() == keyword.as_ref(), false);
    macro_rules! accessors {
        ($($name:ident : $want:expr, $keyword:expr;)*) => {
            $(is(stringify!($name), ta.$name() == $want && ta.as_ref().$name() == $want, true);
            is(concat!(stringify!($name), " of @type"), keyword.$name() == $keyword && keyword.as_ref().$name() == $keyword, true);)*
        }
    }
    accessors! {
        value: a.value.as_ref(), None;
        prefix: a.prefix, false;
        protected: a.protected, a.protected;
        reverse_property: a.reverse_property, false;
        base_url: a.base_url.as_ref(), None;
        context: a.context.as_deref(), None;
        container: a.container, json_ld::syntax::context::definition::TypeContainer::Set.into();
        direction: a.direction, None;
        index: a.index.as_ref(), None;
        language: a.language.as_ref().map(Nullable::as_ref), None;
        nest: a.nest.as_ref(), None;
        typ: a.typ.as_ref(), None;
    }
    let verdict = if bad.is_empty() { V::Ok } else { V::Bad(bad.join(", ")) };
    Report { steps: 20, class: hash(&f), trivial: false, verdict }
}

pub fn prop(thorough: bool) -> Prop {
    let n = if thorough { 4 } else { 3 };
    Prop {
        id: "C12",
        level: "model_checking",
        rule: "every sequence of calls on a context up to the given length; every pair of settings differing in few components",
        assumptions: &[],
        families: vec![
            family("call sequences", 0, move |ch| sequence(ch, n)),
            family("equal contexts", 3 + thorough as u32, equality),
            family("equal definitions", 3 + thorough as u32, equal_definitions),
        ],
    }
}
