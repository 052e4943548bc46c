//! C08: remote documents and contexts: what is loaded, how it is used, and what happens when loads
//! are late, fail, or are abandoned.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::imp::{self, MapLoader};
use crate::json::{j, J};
use crate::refm::api::{self, Call, Input, Op};
use crate::refm::{expand, flatten, Env, Remote};
use json_ld::rdf_types::vocabulary::IndexVocabulary;
use std::collections::{BTreeMap, BTreeSet};

const URL: &str = "http://b.org/d/doc";

fn remotes(doc: &J) -> BTreeMap<String, Remote> {
    let mut m = BTreeMap::new();
    for (u, d) in [
        ("http://r.org/x/ctx", "{'@context':{'@base':'http://rb.org/','t':'http://e.org/t','u':{'@id':'http://e.org/u','@type':'@id'}}}"),
        ("http://r.org/x/rel", "{'@context':['ctx',{'v':{'@id':'http://e.org/v','@context':'scoped'}}]}"),
        ("http://r.org/x/scoped", "{'@context':{'w':'http://e.org/w','u':'http://e.org/u2'}}"),
        ("http://b.org/d/ctx", "{'@context':{'t':'http://e.org/dt','v':{'@id':'http://e.org/dv','@context':'http://r.org/x/scoped'}}}"),
        ("http://b.org/d/scoped", "{'@context':{'w':'http://e.org/dw'}}"),
        ("http://r.org/voc", "{'@context':{'@vocab':'http://v.org/','@import':'x/ctx'}}"),
        ("http://r.org/notctx", "{'t':1}"),
        ("http://r.org/bad", "{'@context':{'t':'@context'}}"),
        ("http://r.org/arr", "[{'@context':{'t':'http://e.org/t'}}]"),
        ("http://r.org/loop", "{'@context':['loop',{'t':'http://e.org/t'}]}"),
        ("http://r.org/type", "{'@context':{'T':{'@id':'http://e.org/T','@context':'x/scoped'},'t':'http://e.org/t'}}"),
    ] {
        m.insert(u.to_string(), Remote::Doc(j(d)));
    }
    let rel = j("{'@context':['ctx',{'v':{'@id':'http://e.org/v','@context':'scoped'}}]}");
    m.insert("http://r.org/moved".into(), Remote::At("http://r.org/x/there".into(), rel));
    m.insert(URL.into(), Remote::Doc(doc.clone()));
    m.insert("http://b.org/moved".into(), Remote::At("http://r.org/x/doc".into(), doc.clone()));
    m.insert("http://b.org/anon".into(), Remote::Anonymous(doc.clone()));
    m.insert("http://b.org/d/linked".into(), Remote::Linked("http://r.org/x/rel".into(), doc.clone()));
    m
}

crate::alphabet!(a_docs, "{'@id':'s','t':'1','u':'o','v':{'@id':'z','w':'1','u':'o'}};;{'@context':'http://r.org/x/rel','@id':'s','t':'1','v':{'@id':'z','w':'1','u':'o'}};;{'@context':'ctx','@id':'s','t':'1','v':{'@id':'z','w':'1'}};;{'@context':['http://r.org/x/ctx','scoped',{'t':'http://e.org/t2'}],'@id':'s','t':'1','w':'2','u':'o'};;{'@context':{'@import':'http://r.org/x/ctx','t':'http://e.org/t3'},'@id':'s','t':'1','u':'o'};;{'@context':'http://r.org/type','@id':'s','@type':'T','t':'1','w':'2'};;[{'@context':'http://r.org/voc','@id':'s','t':'1','q':'2'},{'@id':'s2','t':'1','@context':null}];;{'@context':{'@base':'http://x.org/y','t':'http://e.org/t4','v':{'@id':'http://e.org/v','@context':'scoped'}},'@id':'s','t':'1','v':{'@id':'z','w':'1'}};;{'@context':'http://r.org/missing','t':'1'};;null;;{'http://e.org/t':'1','@id':'s','http://e.org/u':{'@id':'o'}}");
crate::alphabet!(a_ctx, "{'t':'http://e.org/it','v':{'@id':'http://e.org/v','@context':'scoped'}};;{'@context':{'t':'http://e.org/it2','u':'http://e.org/u'}};;'http://r.org/x/ctx';;'http://r.org/x/rel';;'http://r.org/moved';;'http://r.org/voc';;['http://r.org/x/rel',{'@base':'http://x.org/y'}];;['ctx'];;'http://r.org/notctx';;'http://r.org/bad';;'http://r.org/arr';;'http://r.org/loop';;'http://r.org/missing';;null;;'http://r.org/type';;{'@base':'http://x.org/y','u':{'@id':'http://e.org/u','@type':'@id'}}");

fn call(ch: &mut Chooser, full: bool) -> (Call, BTreeMap<String, Remote>) {
    let some = |s: &str| Some(s.to_string());
    let doc = ch.of(a_docs()).clone();
    let ctx = |ch: &mut Chooser| ch.of(a_ctx()).clone();
    let op = match ch.pick(4) {
        0 => Op::Expand,
        1 => Op::Compact(ctx(ch)),
        2 => Op::Flatten(None),
        _ => Op::Flatten(Some(ctx(ch))),
    };
    let input = match if full { ch.pick(7) } else { ch.dev(7) } {
        0 => Input::Iri(URL.into()),
        1 => Input::Inline { url: some(URL), context_url: None, doc: doc.clone() },
        2 => Input::Inline { url: None, context_url: None, doc: doc.clone() },
        3 => Input::Iri("http://b.org/moved".into()),
        4 => Input::Iri("http://b.org/anon".into()),
        5 => Input::Iri("http://b.org/d/linked".into()),
        _ => {
            let c = ch.dev_of(&["http://r.org/x/rel", "http://r.org/x/ctx", "http://r.org/moved", "http://r.org/notctx", "http://r.org/loop", "http://b.org/d/ctx"]).to_string();
            Input::Inline { url: some(URL), context_url: Some(c), doc: doc.clone() }
        }
    };
    let base = if ch.dev(2) == 1 { some("http://o.org/q/w") } else { None };
    let expand_context = match ch.dev(1 + a_ctx().len()) {
        0 => None,
        i => Some(a_ctx()[i - 1].clone()),
    };
    let r = remotes(&doc);
    (Call { input, base, expand_context, op }, r)
}

/// The order of nodes and values is not significant.
fn sorted(d: &J) -> J {
    match d {
        J::Arr(a) => {
            let mut a: Vec<J> = a.iter().map(sorted).collect();
            a.sort();
            J::Arr(a)
        }
        J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), sorted(v))).collect()),
        x => x.clone(),
    }
}

fn norm(op: &Op, r: &J) -> J {
    match op {
        Op::Expand => expand::canon(r),
        Op::Flatten(None) => flatten::canon(&flatten::drop_list_index(r)),
        _ => sorted(&r.sort_keys()),
    }
}

fn run(c: &Call, l: &MapLoader) -> Result<J, String> {
    imp::block_on(imp::api(&mut (), c, l)).map(|r| norm(&c.op, &r))
}

fn calls(ch: &mut Chooser) -> Report {
    let (c, mut remotes) = call(ch, true);
    // one of the documents may be unreachable
    let urls: Vec<String> = remotes.keys().cloned().collect();
    match ch.dev(1 + urls.len()) {
        0 => {}
        i => {
            remotes.insert(urls[i - 1].clone(), Remote::Fail);
        }
    }
    ch.describe(|| format!("{c:?} unreachable={:?}", remotes.iter().find(|(_, r)| matches!(r, Remote::Fail)).map(|x| x.0)));
    let env = Env::new(remotes.clone(), false);
    let spec = api::call(&env, &c).map(|r| norm(&c.op, &r)).map_err(|e| e.to_string());
    let l = MapLoader::new(&remotes);
    let got = run(&c, &l);
    let steps = *env.steps.borrow() + 1;
    let open = *env.unspecified.borrow();
    let set = |v: &[String]| v.iter().cloned().collect::<BTreeSet<_>>();
    let (a, b) = (set(&env.loads.borrow()), set(&l.log.borrow()));
    let verdict = if open {
        V::Ok
    } else if spec != got {
        V::Bad(format!("spec: {spec:?}\nimpl: {got:?}"))
    } else if spec.is_ok() && a != b {
        V::Bad(format!("spec loads {a:?}\nimpl loads {b:?}"))
    } else {
        V::Ok
    };
    Report { steps, class: hash(&format!("{got:?}")), trivial: b.is_empty(), verdict }
}

/// Every readiness schedule, every transient fault and every cancellation point of a call.
fn schedules(ch: &mut Chooser, ways: usize) -> Report {
    let (c, remotes) = call(ch, false);
    ch.describe(|| format!("{c:?}"));
    let mut steps = 1;
    let l = MapLoader::new(&remotes);
    let healthy = run(&c, &l);
    let log = l.log.borrow().clone();
    let n = log.len();
    let mut verdict = V::Ok;
    let mut bad = |s: String| {
        if matches!(verdict, V::Ok) {
            verdict = V::Bad(s)
        }
    };
    // readiness: each load is either ready at once or after one or two wake-ups
    let max = ways.pow(n.min(6) as u32);
    for s in 1..max {
        let mut l = MapLoader::new(&remotes);
        let mut k = s;
        l.pending = (0..n)
            .map(|_| {
                let d = (k % ways) as u32;
                k /= ways;
                d
            })
            .collect();
        let r = run(&c, &l);
        steps += 1;
        if r != healthy || *l.log.borrow() != log {
            bad(format!("with loads ready after {:?} wake-ups: {r:?}\nwith immediate loads: {healthy:?}", l.pending))
        }
    }
    // transient faults
    for f in 0..n {
        for late in 0..2 {
            let mut l = MapLoader::new(&remotes);
            l.fail_at = Some(f);
            l.pending = vec![late; n];
            let r = run(&c, &l);
            steps += 1;
            match &r {
                Err(e) if ["loading document failed", "loading remote context failed", "invalid scoped context"].contains(&e.as_str()) => {}
                _ => bad(format!("load {f} ({}) failed and the result is {r:?}", log[f])),
            }
            // the failure leaves nothing behind
            l.fail_at = None;
            let r = run(&c, &l);
            if r != healthy {
                bad(format!("after a failure of load {f}, trying again gives {r:?}\ninstead of {healthy:?}"))
            }
        }
    }
    // cancellation: the call is dropped after k polls, and made again with the same vocabulary
    let mut voc: IndexVocabulary = IndexVocabulary::new();
    for k in 1..=n {
        let mut l = MapLoader::new(&remotes);
        l.pending = vec![1; n];
        let dropped = imp::drive(imp::api(&mut voc, &c, &l), k);
        steps += 1;
        if dropped.is_some() {
            bad(format!("complete after {k} polls although {n} loads need one wake-up each"))
        }
        l.count.set(0);
        l.log.borrow_mut().clear();
        let r = imp::block_on(imp::api(&mut voc, &c, &l)).map(|r| norm(&c.op, &r));
        if r != healthy || *l.log.borrow() != log {
            bad(format!("after being dropped at poll {k}, the call gives {r:?}\ninstead of {healthy:?}"))
        }
    }
    Report { steps, class: hash(&format!("{healthy:?}")), trivial: n == 0, verdict }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as u32;
    Prop {
        id: "C08",
        level: "fault_enumeration",
        rule: "calls of the API are enumerated as operation x document x contexts x way the document is given x options; for each call every readiness schedule of its loads, every failing load and every cancellation point",
        assumptions: &[],
        families: vec![family("calls", 2 + t, calls), family("schedules", 1 + t, move |ch| schedules(ch, if thorough { 3 } else { 2 }))],
    }
}
