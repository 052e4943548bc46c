//! C01: context processing agrees with the recommendation.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen::{self, BASE};
use crate::imp::{self, MapLoader};
use crate::json::J;
use crate::refm::{ctx, Env};

/// Applies `contexts` one after the other on both sides and compares the resulting active contexts.
pub fn compare(ch: &mut Chooser, contexts: &[J], base: Option<&str>, v10: bool) -> Report {
    ch.describe(|| format!("contexts={contexts:?} base={base:?} v10={v10}"));
    let remotes = gen::remotes();
    let loader = MapLoader::new(&remotes);
    let mut env = Env::new(remotes.clone(), v10);
    let model = |env: &Env| {
        let mut r = Ok(ctx::Ctx::new(base.map(|s| s.to_string())));
        for c in contexts {
            r = r.and_then(|a| ctx::process(env, &a, c, &ctx::Opts::base(base.map(|s| s.to_string()))));
        }
        r.map(|c| ctx::dump(&c))
    };
    let mut i = Ok(imp::Ctx::new(base.map(imp::iri)));
    for c in contexts {
        i = i.and_then(|a| imp::process_ctx(&a, c, base, v10, &loader));
    }
    let i = i.map(|c| imp::dump_ctx(&c));
    let r = model(&env);
    let steps = *env.steps.borrow();
    let same = |r: &Result<J, &str>| match (r, &i) {
        (Ok(a), Ok(b)) => a == b,
        (a, b) => a.is_err() == b.is_err(),
    };
    let verdict = if same(&r) {
        V::Ok
    } else {
        // the recommendation leaves the order in which terms are defined open
        let mut found = None;
        for perm in 1..120 {
            env.perm = perm;
            if same(&model(&env)) {
                found = Some(V::Ok);
                break;
            }
        }
        for q in QUIRKS {
            env.quirks = vec![q];
            for perm in 0..6 {
                env.perm = perm;
                if found.is_none() && same(&model(&env)) {
                    found = Some(V::Known(q, "explained by a known finding".into()))
                }
            }
        }
        found.unwrap_or_else(|| V::Bad(match (&r, &i) {
            (Ok(a), Ok(b)) => diff(a, b),
            (a, b) => format!("spec: {}\nimpl: {}", short(a.as_ref().map_err(|e| e.to_string())), short(b.as_ref().map_err(|e| e.to_string()))),
        }))
    };
    Report { steps, class: hash(&format!("{i:?}")), trivial: false, verdict }
}

/// Known deviations that the model can reproduce.
pub const QUIRKS: &[&str] = &["type-needs-container"];

fn short(r: Result<&J, String>) -> String {
    match r {
        Ok(_) => "ok".to_string(),
        Err(e) => format!("error {e}"),
    }
}

pub fn diff(a: &J, b: &J) -> String {
    fn go(path: &str, a: &J, b: &J, out: &mut Vec<String>) {
        match (a, b) {
            (J::Obj(x), J::Obj(y)) => {
                for (k, v) in x {
                    match b.get(k) {
                        Some(w) => go(&format!("{path}/{k}"), v, w, out),
                        None => out.push(format!("{path}/{k}: spec {v:?}, impl absent")),
                    }
                }
                for (k, v) in y {
                    if a.get(k).is_none() {
                        out.push(format!("{path}/{k}: spec absent, impl {v:?}"))
                    }
                }
            }
            _ if a == b => {}
            _ => out.push(format!("{path}: spec {a:?}, impl {b:?}")),
        }
    }
    let mut out = vec![];
    go("", a, b, &mut out);
    out.join("; ")
}

/// Contexts combined into every chain.
pub fn chain_pool() -> &'static [J] {
    static X: std::sync::OnceLock<Vec<J>> = std::sync::OnceLock::new();
    X.get_or_init(|| gen::list(CHAIN))
}

const CHAIN: &str = "null;;{};;[];;{'a':'http://e.org/a'};;{'a':'http://e.org/other'};;{'a':null};;{'a':{'@id':'http://e.org/a','@protected':true}};;{'a':{'@id':'http://e.org/a','@protected':false}};;{'@protected':true,'a':'http://e.org/a','p':'http://e.org/p#'};;{'@protected':true,'a':{'@id':'http://e.org/a','@protected':false}};;{'a':{'@id':'http://e.org/a','@type':'@id'}};;{'a':{'@id':'http://e.org/a','@type':'@id','@protected':true}};;{'a':{'@id':'http://e.org/a','@container':'@list'}};;{'a':{'@id':'http://e.org/a','@container':['@set','@index'],'@protected':true}};;{'a':{'@id':'http://e.org/a','@container':['@index','@set']}};;{'a':{'@id':'http://e.org/a','@language':'EN','@protected':true}};;{'a':{'@id':'http://e.org/a','@language':'en'}};;{'a':{'@id':'http://e.org/a','@language':null}};;{'a':{'@id':'http://e.org/a','@direction':'rtl','@protected':true}};;{'a':{'@id':'http://e.org/a','@direction':null}};;{'a':{'@reverse':'http://e.org/a'}};;{'a':{'@reverse':'http://e.org/a','@protected':true}};;{'a':{'@id':'http://e.org/a','@nest':'n','@protected':true}};;{'a':{'@id':'http://e.org/a','@prefix':true}};;{'a':{'@id':'http://e.org/a','@prefix':true,'@protected':true}};;{'a':{'@id':'http://e.org/a','@context':{'b':'http://e.org/b'},'@protected':true}};;{'a':{'@id':'http://e.org/a','@context':{'b':'http://e.org/b'}}};;{'a':{'@id':'http://e.org/a','@context':{'b':'http://e.org/b2'}}};;{'a':{'@id':'http://e.org/a','@context':{'a':null}}};;{'a':{'@id':'http://e.org/a','@context':null}};;{'a':{'@id':'http://e.org/a','@container':'@index','@index':'http://e.org/i','@protected':true}};;{'a':{'@id':'http://e.org/a','@container':'@index','@index':'http://e.org/j'}};;{'@vocab':'http://v.org/','b':{'@type':'@vocab'}};;{'@vocab':'','b':{}};;{'@vocab':'sub#'};;{'@vocab':null};;{'@vocab':'p:'};;{'@vocab':'a'};;{'@base':'http://c.org/x/y'};;{'@base':'../z/'};;{'@base':null};;{'@base':'?q'};;{'@language':'en'};;{'@language':null};;{'@direction':'rtl'};;{'@direction':null};;{'p':'http://e.org/p#'};;{'p:x':{'@type':'@id'}};;{'a':'p:x'};;{'b':'a:x'};;{'b':'a'};;{'a':'b','b':'a:y'};;{'@propagate':false,'b':'http://e.org/pb'};;{'@propagate':true,'b':'http://e.org/pb'};;[{'@propagate':false,'b':'http://e.org/pb'},{'a':'http://e.org/2'}];;{'@propagate':false};;'http://r.org/c';;'c';;'http://r.org/prot';;'http://r.org/prop';;'http://r.org/ver';;'http://r.org/scoped';;'http://r.org/self';;'http://r.org/loop';;'http://r.org/string';;'http://r.org/null';;'http://r.org/base';;'http://r.org/missing';;['http://r.org/c','http://r.org/c'];;['http://r.org/c',{'b':'http://e.org/b3'},'http://r.org/c'];;['http://r.org/c',null,'http://r.org/c'];;['http://r.org/string',null,'http://r.org/c'];;'http://r.org/moved';;'http://r.org/anon';;{'@import':'http://r.org/c','a':'rt:x'};;{'@import':'http://r.org/prot','a':'http://e.org/a9'};;{'@import':'http://r.org/ver','z':{}};;{'@type':{'@container':'@set'}};;{'@type':{'@container':'@set','@protected':true}};;{'@protected':true,'@type':{'@container':'@set'}};;{'@version':1.1};;{'b':{'@id':'http://e.org/b','@type':'http://e.org/a','@protected':true}};;{'b':{'@id':'a:b','@type':'a'}};;{'b':{'@id':'http://e.org/b','@type':'@json','@protected':true}};;{'id':'@id','type':'@type'};;{'type':{'@id':'@type','@protected':true}};;{'type':{'@id':'@type','@container':'@set'}}";

/// A context with a single defect is rejected with the error code of the recommendation.
fn codes(ch: &mut Chooser, c: &J, base: Option<&str>) -> Report {
    ch.describe(|| format!("context={c:?}"));
    let remotes = gen::remotes();
    let loader = MapLoader::new(&remotes);
    let env = Env::new(remotes.clone(), false);
    let r = ctx::process(&env, &ctx::Ctx::new(base.map(|s| s.to_string())), c, &ctx::Opts::base(base.map(|s| s.to_string())));
    let i = imp::process_ctx(&imp::Ctx::new(base.map(imp::iri)), c, base, false, &loader);
    let (r, i) = (r.err().map(|e| e.to_string()), i.err());
    let verdict = if r == i {
        V::Ok
    } else if r.is_some() && i.is_some() && (imp::parse_context(c).is_err() || c.get("@import") == Some(&J::s("http://r.org/badver"))) {
        V::Known("generic-code", format!("spec {r:?}, impl {i:?}"))
    } else if r.is_none() && c.get("@type").map(|t| !t.has("@container")).unwrap_or(false) {
        V::Known("type-needs-container", format!("spec {r:?}, impl {i:?}"))
    } else { V::Bad(format!("spec: {r:?}\nimpl: {i:?}")) };
    Report { steps: 1, class: hash(&i), trivial: r.is_none(), verdict }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as u32;
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "contexts are enumerated from a grammar covering every entry of a context and of a term definition",
        assumptions: &[],
        families: vec![
            family("one-context", 2 + t, |ch| {
                let v10 = ch.dev(2) == 1;
                let base = if ch.dev(2) == 0 { Some(BASE) } else { None };
                let c = gen::gen_ctx(ch);
                compare(ch, &[c], base, v10)
            }),
            family("chain", 2, move |ch| {
                let n = 2 + ch.pick(1 + t as usize);
                let v10 = n == 2 && ch.dev(2) == 1;
                let base = if n == 3 || ch.dev(2) == 0 { Some(BASE) } else { None };
                let pool = chain_pool();
                let cs: Vec<J> = (0..n).map(|_| ch.of(pool).clone()).collect();
                // the same contexts, given one by one or as one array
                let cs = if n == 2 && ch.dev(2) == 1 { vec![J::Arr(cs)] } else { cs };
                compare(ch, &cs, base, v10)
            }),
            family("error-code", 1, |ch| {
                let base = Some(BASE);
                let c = gen::gen_ctx(ch);
                codes(ch, &c, base)
            }),
        ],
    }
}
