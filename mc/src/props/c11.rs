//! C11: the same document gives the same result: whatever the order of its entries, the vocabulary and the entry point.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::generic::{self, Op, OPS};
use crate::imp::Case;
use crate::json::{j, J};
use crate::refm::flatten::canon;
use crate::refm::{api, Env};
use json_ld::rdf_types::vocabulary::{BlankIdVocabularyMut, IriVocabularyMut};
use json_ld::rdf_types::BlankId;
use std::collections::BTreeMap;

/// What the result says: blank node labels, the order of keys and of sets left out.
fn norm(op: Op, r: &Result<J, String>) -> Result<J, String> {
    let mut d = r.clone()?;
    if matches!(op, Op::Compact | Op::FlattenCompact) {
        d.remove("@context");
    }
    Ok(canon(&d))
}

fn exact(r: &Result<J, String>) -> Result<J, String> {
    let mut d = r.clone()?;
    if d.is_obj() {
        d.remove("@context");
    }
    Ok(d.sort_keys())
}

/// The same outcome, without regard to which of several errors is reported.
fn agree(a: &Result<J, String>, b: &Result<J, String>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (a, b) => a.is_err() == b.is_err(),
    }
}

/// What the recommendation, followed to the letter, gives. What it says of terms that refer to terms
/// defined after them, or of several lists under a term, may depend on the order of the entries.
fn model(op: Op, case: &Case, ctx: &J) -> Result<J, String> {
    let env = Env::new(case.remotes.clone(), case.v10);
    let mop = match op {
        Op::Expand | Op::Rdf => api::Op::Expand,
        Op::Compact => api::Op::Compact(ctx.clone()),
        Op::Flatten => api::Op::Flatten(None),
        Op::FlattenCompact => api::Op::Flatten(Some(ctx.clone())),
    };
    let input = api::Input::Inline { url: case.base.clone(), context_url: None, doc: case.doc.clone() };
    let r = api::call(&env, &api::Call { input, base: case.base.clone(), expand_context: case.expand_context.clone(), op: mop });
    norm(op, &r.map_err(|_| String::new()))
}

type Path = Vec<usize>;

/// Every object of a document with at least two entries.
fn objects(d: &J, at: &mut Path, out: &mut Vec<(Path, usize)>) {
    let children: Vec<&J> = match d {
        J::Arr(a) => a.iter().collect(),
        J::Obj(o) => {
            if o.len() > 1 {
                out.push((at.clone(), o.len()))
            }
            // the order of the entries of a JSON literal is left open
            for (i, (k, c)) in o.iter().enumerate() {
                if k != "@value" {
                    at.push(i);
                    objects(c, at, out);
                    at.pop();
                }
            }
            return;
        }
        _ => return,
    };
    for (i, c) in children.into_iter().enumerate() {
        at.push(i);
        objects(c, at, out);
        at.pop();
    }
}

fn permuted(d: &J, path: &[usize], p: &[usize]) -> J {
    match (d, path) {
        (J::Obj(o), []) => J::Obj(p.iter().map(|i| o[*i].clone()).collect()),
        (J::Obj(o), [i, rest @ ..]) => {
            let mut o = o.clone();
            o[*i].1 = permuted(&o[*i].1, rest, p);
            J::Obj(o)
        }
        (J::Arr(a), [i, rest @ ..]) => {
            let mut a = a.clone();
            a[*i] = permuted(&a[*i], rest, p);
            J::Arr(a)
        }
        _ => unreachable!(),
    }
}

/// All orders of up to three entries; otherwise each entry first, each entry last, adjacent entries
/// swapped, and the reverse.
fn orders(n: usize, few: bool) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut r: Vec<Vec<usize>> = vec![];
    let mut add = |p: Vec<usize>| {
        if p != id && !r.contains(&p) {
            r.push(p)
        }
    };
    if n <= 3 {
        for a in 0..n {
            for b in (0..n).filter(|b| *b != a) {
                let mut p = vec![a, b];
                p.extend((0..n).filter(|c| *c != a && *c != b));
                add(p)
            }
        }
    } else {
        add(id.iter().rev().copied().collect());
        for i in 0..if few { 0 } else { n } {
            let rest = || id.iter().copied().filter(move |x| *x != i);
            if n <= 6 || i % 4 == 0 {
                add(std::iter::once(i).chain(rest()).collect());
                add(rest().chain(std::iter::once(i)).collect());
            }
            if i + 1 < n && (n <= 6 || i % 3 == 0) {
                let mut p = id.clone();
                p.swap(i, i + 1);
                add(p)
            }
        }
    }
    r
}

/// The documents with nested terms are many: they are only compacted, which expands them first.
fn setup(ch: &mut Chooser, case: &Case, all: bool) -> (Op, Case) {
    let op = if all { *ch.of(&OPS) } else { Op::Compact };
    (op, Case { ordered: all && ch.flag(), ..case.clone() })
}

fn entry_orders(ch: &mut Chooser, case: &Case, ctx: &J, contexts: bool) -> Report {
    let (op, case) = setup(ch, case, contexts);
    ch.describe(|| format!("{op:?} ordered={} {}\ncontext {}", case.ordered, case.doc.print(), ctx.print()));
    let raw = generic::run(&mut (), op, &case, ctx);
    let base = norm(op, &raw);
    let mut steps = 1;
    let mut bad = None;
    let mut objs = vec![];
    objects(&case.doc, &mut vec![], &mut objs);
    if !contexts {
        let at = case.doc.as_obj().unwrap().iter().position(|e| e.0 == "@context");
        objs.retain(|(p, _)| p.is_empty() || p.first().copied() != at)
    }
    let mut all: Vec<(J, J)> = vec![(case.doc.clone(), ctx.clone())];
    for (path, n) in &objs {
        all.extend(orders(*n, !contexts).iter().map(|p| (permuted(&case.doc, path, p), ctx.clone())))
    }
    if contexts && matches!(op, Op::Compact | Op::FlattenCompact) {
        let mut objs = vec![];
        objects(ctx, &mut vec![], &mut objs);
        for (path, n) in &objs {
            all.extend(orders(*n, false).iter().map(|p| (case.doc.clone(), permuted(ctx, path, p))))
        }
    }
    let given = ctx.clone();
    for (doc, ctx) in all {
        steps += 1;
        let c = Case { doc, ..case.clone() };
        let r = generic::run(&mut (), op, &c, &ctx);
        let same = if case.ordered && op == Op::Expand { agree(&exact(&raw), &exact(&r)) } else { agree(&base, &norm(op, &r)) };
        if !same && model(op, &case, &given) == model(op, &c, &ctx) {
            let (a, b) = if case.ordered && op == Op::Expand { (exact(&raw), exact(&r)) } else { (base.clone(), norm(op, &r)) };
            bad = Some(format!("with the entries of {} (context {})\nbefore: {a:?}\nafter:  {b:?}", c.doc.print(), ctx.print()));
            break;
        }
    }
    Report { steps, class: hash(&format!("{base:?}")), trivial: base.is_err() || objs.is_empty(), verdict: bad.map_or(V::Ok, V::Bad) }
}

/// Strings that end up in the vocabulary, in an order that is not the one of the documents.
fn populated(d: &J) -> IndexVoc {
    fn strings(d: &J, out: &mut Vec<String>) {
        match d {
            J::Str(s) => out.push(s.clone()),
            J::Arr(a) => a.iter().for_each(|x| strings(x, out)),
            J::Obj(o) => o.iter().for_each(|(k, x)| {
                out.push(k.clone());
                strings(x, out)
            }),
            _ => {}
        }
    }
    let mut s = vec![];
    strings(d, &mut s);
    s.reverse();
    let mut v = IndexVoc::new();
    for s in s {
        if let Ok(i) = json_ld::Iri::new(&s) {
            v.insert(i);
        } else if let Ok(b) = BlankId::new(&s) {
            v.insert_blank_id(b);
        }
    }
    v
}

type IndexVoc = json_ld::rdf_types::vocabulary::IndexVocabulary;

fn vocabularies(ch: &mut Chooser, case: &Case, ctx: &J, all: bool) -> Report {
    let (op, case) = setup(ch, case, all);
    ch.describe(|| format!("{op:?} ordered={} {}\ncontext {}", case.ordered, case.doc.print(), ctx.print()));
    let view = |r: &Result<J, String>| if case.ordered && op == Op::Expand { exact(r) } else { norm(op, r) };
    let a = view(&generic::run(&mut (), op, &case, ctx));
    let mut voc = IndexVoc::new();
    let b = view(&generic::run(&mut voc, op, &case, ctx));
    // the same vocabulary, used twice
    let c = view(&generic::run(&mut voc, op, &case, ctx));
    let d = view(&generic::run(&mut populated(&case.doc), op, &case, ctx));
    let mut bad = None;
    for (what, x) in [("an empty vocabulary", b), ("a vocabulary used before", c), ("a vocabulary filled before", d)] {
        // errors included: nothing depends on the vocabulary
        if x != a {
            bad = Some(format!("with {what}\nwithout: {a:?}\nwith:    {x:?}"));
            break;
        }
    }
    Report { steps: 4, class: hash(&format!("{a:?}")), trivial: a.is_err(), verdict: bad.map_or(V::Ok, V::Bad) }
}

fn entry_points(ch: &mut Chooser, case: &Case, ctx: &J) -> Report {
    let op = *ch.of(&OPS);
    let case = Case { ordered: ch.flag(), ..case.clone() };
    ch.describe(|| format!("{op:?} ordered={} {}\ncontext {}", case.ordered, case.doc.print(), ctx.print()));
    let rs = generic::entry_points(op, &case, ctx);
    let a = norm(op, &rs[0].1);
    let mut bad = None;
    for (what, r) in &rs[1..] {
        let r = norm(op, r);
        if r != a {
            bad = Some(format!("{what}\nfull: {a:?}\n{what}: {r:?}"));
            break;
        }
    }
    Report { steps: rs.len() as u64, class: hash(&format!("{a:?}")), trivial: a.is_err(), verdict: bad.map_or(V::Ok, V::Bad) }
}

/// Two terms for one property, in every kind of map.
fn synonyms(ch: &mut Chooser) -> (Case, J) {
    let ctx = j("{'a':'x:p','b':'x:p','n':'@nest','m':'@nest','i':{'@id':'x:i','@container':'@index'},'k':{'@id':'x:i','@container':'@index','@index':'x:k'},'l':{'@id':'x:l','@container':'@language'},'d':{'@id':'x:d','@container':'@id'},
        't':{'@id':'x:t','@container':'@type'},'g':{'@id':'x:g','@container':['@graph','@id']},'h':{'@id':'x:h','@container':['@graph','@index']},'r':{'@reverse':'x:r'},'s':{'@reverse':'x:r'},'T':'@type','id':'@id','x':'@index','in':'@included'}");
    const ENTRIES: &[(&str, &str)] = &[
        ("a", "1;;[2,3];;{'@id':'x:a'}"),
        ("b", "4;;[5,1]"),
        ("n", "{'b':6,'a':7};;[{'b':6},{'a':7}];;{'m':{'b':6},'a':7};;{'l':{'fr':'u','en':'v'}}"),
        ("m", "{'b':8,'a':9}"),
        ("i", "{'2':{'id':'x:2','b':1,'a':2},'1':{'id':'x:1'}};;{'@none':'u','1':['w','v']}"),
        ("k", "{'2':{'b':1,'a':2},'1':{'id':'x:1'}}"),
        ("l", "{'fr':['u','t'],'en':'v','@none':'w'}"),
        ("d", "{'x:2':{'b':1,'a':2},'x:1':{'a':3},'@none':{'a':4}}"),
        ("t", "{'x:U':{'b':1,'a':2},'x:T':{'@type':'x:V','b':1},'@none':{'a':4}}"),
        ("g", "{'x:2':{'b':1,'a':2},'x:1':[{'a':3},{'b':3}]}"),
        ("h", "{'x:2':{'b':1,'a':2},'x:1':[{'a':3},{'b':3}]}"),
        ("r", "{'id':'x:1'};;[{'b':1,'a':2}]"),
        ("s", "{'id':'x:2','b':1,'a':2}"),
        ("@reverse", "{'x:r':{'id':'x:3'},'a':{'id':'x:4'},'b':{'id':'x:5'},'a2':null}"),
        ("@type", "['x:U','x:T']"),
        ("T", "'x:V'"),
        ("in", "[{'b':1,'a':2}]"),
        ("@included", "{'id':'x:1','b':1,'a':2}"),
        ("@graph", "[{'b':1,'a':2}]"),
    ];
    let mut doc = J::o(&[("@context", ctx.clone())]);
    for (k, vs) in ENTRIES {
        let vs = gen::list(vs);
        let i = ch.dev(vs.len() + 1);
        if i > 0 {
            doc.set(k, vs[i - 1].clone())
        }
    }
    (Case::new(doc), ctx)
}

fn rich(ch: &mut Chooser, leafs: &[J]) -> (Case, J) {
    let doc = gen::rich_doc(ch, leafs);
    let ctx = doc.get("@context").unwrap().clone();
    (Case::new(doc), ctx)
}

fn plain(ch: &mut Chooser) -> (Case, J) {
    let doc = gen::doc(ch, 1);
    let remotes: BTreeMap<_, _> = gen::remotes();
    let ctx = if doc.has("@context") { doc.get("@context").cloned().unwrap() } else { J::obj() };
    (Case { remotes, ..Case::new(doc) }, ctx)
}

fn graphs(ch: &mut Chooser) -> (Case, J) {
    (Case::new(gen::fdoc(ch)), j("{'@vocab':'http://e.org/','t':{'@id':'http://e.org/p','@type':'@id'}}"))
}

pub fn prop(thorough: bool) -> Prop {
    let deep = if thorough { 1 } else { 0 };
    Prop {
        id: "C11",
        level: "model_checking",
        rule: "documents are enumerated as for expansion and flattening, with every operation, every object in every order of its entries (all orders of up to three entries; each entry first, last and swapped with the next one for more), four vocabularies and every entry point",
        assumptions: &[],
        families: {
            let leafs = gen::list(if thorough {
                "'v';;{'@value':'v','@language':'en','@index':'i'};;{'@id':'rel','p':'w','T':'y'};;{'a':['v',{'@id':'_:b'}],'b':'w'};;{'@type':['T','U'],'p':['v','w']}"
            } else {
                "{'@type':['U','T'],'p':['v',{'@id':'_:b','T':'y'}],'b':'w'}"
            });
            let more = leafs.clone();
            vec![
                family("entry orders", 1 + deep, |ch| {
                    let (c, x) = plain(ch);
                    entry_orders(ch, &c, &x, true)
                }),
                family("entry orders, synonyms", 2 + deep, |ch| {
                    let (c, x) = synonyms(ch);
                    entry_orders(ch, &c, &x, true)
                }),
                family("entry orders, nested terms", 0, move |ch| {
                    ch.thin = !thorough;
                    let (c, x) = rich(ch, &leafs);
                    entry_orders(ch, &c, &x, false)
                }),
                family("entry orders, graphs", 2 + deep, |ch| {
                    let (c, x) = graphs(ch);
                    entry_orders(ch, &c, &x, true)
                }),
                family("vocabularies", 1 + deep, |ch| {
                    let (c, x) = plain(ch);
                    vocabularies(ch, &c, &x, true)
                }),
                family("vocabularies, nested terms", 0, move |ch| {
                    ch.thin = !thorough;
                    let (c, x) = rich(ch, &more);
                    vocabularies(ch, &c, &x, false)
                }),
                family("vocabularies, graphs", 3 + deep, |ch| {
                    let (c, x) = graphs(ch);
                    vocabularies(ch, &c, &x, true)
                }),
                family("entry points", 1 + deep, |ch| {
                    let (c, x) = plain(ch);
                    entry_points(ch, &c, &x)
                }),
                family("entry points, graphs", 2 + deep, |ch| {
                    let (c, x) = graphs(ch);
                    entry_points(ch, &c, &x)
                }),
            ]
        },
    }
}
