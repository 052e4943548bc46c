//! C13: operations on expanded documents change what they say and nothing else; equality is the one of the data model.
use super::c03::parse_expanded;
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{block_on, doc_to_json, Doc, MapLoader};
use crate::json::{j, to_impl, J};
use crate::refm::{expand, rdf, Env};
use iref::IriBuf;
use json_ld::{JsonLdProcessor, RemoteDocument};
use json_ld_core::object::{MappedEq, Ref};
use json_ld_core::utils::simple_json_ld_eq;
use rdf_types::BlankIdBuf;
use std::collections::{BTreeMap, BTreeSet, HashSet};

type Id = json_ld_core::Id<IriBuf, BlankIdBuf>;

/// Rewrites identifiers: `f(label, position)`, where the position tells the datatype of a value ('v')
/// from an identifier ('i').
fn rename(x: &J, f: &dyn Fn(&str, char) -> String) -> J {
    let all = |v: &J| J::Arr(v.arrayify().iter().map(|y| rename(y, f)).collect());
    match x {
        J::Arr(_) => all(x),
        J::Obj(o) => {
            let value = x.has("@value");
            let mut r = J::obj();
            for (k, v) in o {
                match k.as_str() {
                    "@id" => r.set(k, v.as_str().map_or(J::Null, |s| J::s(&f(s, 'i')))),
                    "@type" if value => r.set(k, J::s(&if v.as_str() == Some("@json") { "@json".to_string() } else { f(v.as_str().unwrap(), 'v') })),
                    "@type" => r.set(k, J::Arr(v.arrayify().iter().map(|s| J::s(&f(s.as_str().unwrap(), 'i'))).collect())),
                    "@reverse" => {
                        let mut b = J::obj();
                        for (k, v) in v.as_obj().unwrap() {
                            b.set(&f(k, 'i'), all(v))
                        }
                        r.set(k, b)
                    }
                    "@list" | "@graph" | "@included" => r.set(k, all(v)),
                    k if k.starts_with('@') => r.set(k, v.clone()),
                    k => r.set(&f(k, 'i'), all(v)),
                }
            }
            r
        }
        x => x.clone(),
    }
}

/// Visits every node, value and list object.
fn visit(x: &J, f: &mut dyn FnMut(&J)) {
    for y in x.arrayify() {
        f(&y);
        if y.has("@value") {
            continue;
        }
        for (k, v) in y.as_obj().unwrap() {
            match k.as_str() {
                "@reverse" => v.as_obj().unwrap().iter().for_each(|(_, v)| visit(v, f)),
                "@list" | "@graph" | "@included" => visit(v, f),
                k if k.starts_with('@') => {}
                _ => visit(v, f),
            }
        }
    }
}

fn is_node(x: &J) -> bool {
    !x.has("@value") && !x.has("@list")
}

/// Removes the identifiers that `keep` rejects.
fn forget(x: &J, keep: &dyn Fn(&str) -> bool) -> J {
    let all = |v: &J| J::Arr(v.arrayify().iter().map(|y| forget(y, keep)).collect());
    match x {
        J::Arr(_) => all(x),
        J::Obj(o) if !x.has("@value") => {
            let mut r = J::obj();
            for (k, v) in o {
                match k.as_str() {
                    "@id" if !v.as_str().is_some_and(keep) => {}
                    "@reverse" => r.set(k, J::Obj(v.as_obj().unwrap().iter().map(|(k, v)| (k.clone(), all(v))).collect())),
                    "@list" | "@graph" | "@included" => r.set(k, all(v)),
                    k if k.starts_with('@') => r.set(k, v.clone()),
                    _ => r.set(k, all(v)),
                }
            }
            r
        }
        x => x.clone(),
    }
}

fn canonical_values(x: &J) -> J {
    match x {
        J::Arr(a) => J::Arr(a.iter().map(canonical_values).collect()),
        J::Obj(o) => {
            let mut r = J::obj();
            for (k, v) in o {
                if k == "@value" {
                    let v = if v.is_scalar() || x.get("@type") == Some(&J::s("@json")) { J::parse(&rdf::jcs(v)).unwrap() } else { v.clone() };
                    r.set(k, v)
                } else if k == "@reverse" {
                    r.set(k, J::Obj(v.as_obj().unwrap().iter().map(|(k, v)| (k.clone(), canonical_values(v))).collect()))
                } else {
                    r.set(k, canonical_values(v))
                }
            }
            r
        }
        x => x.clone(),
    }
}

fn blank_labels(x: &J) -> BTreeSet<String> {
    let r = std::cell::RefCell::new(BTreeSet::new());
    rename(x, &|s, p| {
        if s.starts_with("_:") && p == 'i' {
            r.borrow_mut().insert(s.to_string());
        }
        String::new()
    });
    r.into_inner()
}

/// All injective maps from `from` to `to`.
fn injections(from: &[String], to: &[String], cur: &mut BTreeMap<String, String>, f: &mut dyn FnMut(&BTreeMap<String, String>) -> bool) -> bool {
    let Some((a, rest)) = from.split_first() else { return f(cur) };
    for b in to {
        if !cur.contains_key(b) {
            cur.insert(b.clone(), a.clone());
            if injections(rest, to, cur, f) {
                return true;
            }
            cur.remove(b);
        }
    }
    false
}

fn fresh() -> rdf_types::generator::Blank {
    rdf_types::generator::Blank::new_with_prefix("fresh".to_string())
}

fn operations(ch: &mut Chooser, input: &J) -> Report {
    ch.describe(|| format!("doc={input:?}"));
    let skip = Report { steps: 1, class: 0, trivial: true, verdict: V::Ok };
    let env = Env::new(Default::default(), false);
    let Ok(e) = expand::expand_document(&env, input, None, None, false) else { return skip };
    let Ok(d) = parse_expanded(&e) else { return skip };
    let out = expand::canon(&doc_to_json(d.clone()));
    let canon = expand::canon(&e);
    let mut bad: Option<String> = None;
    let mut check = |what: &str, ok: bool, got: &dyn std::fmt::Debug| {
        if !ok && bad.is_none() {
            bad = Some(format!("{what}: {got:?}\nfrom {canon:?}"))
        }
    };
    check("parsed", out == canon, &out);
    let old = blank_labels(&canon);

    // every node gets an identifier
    let mut m = d.clone();
    m.identify_all(&mut fresh());
    let ident = doc_to_json(m);
    let mut n = 0;
    let mut labels = BTreeSet::new();
    let mut missing = false;
    visit(&ident, &mut |x| {
        if is_node(x) {
            match x.get("@id").and_then(|i| i.as_str()) {
                Some(i) if i.starts_with("_:fresh") => {
                    n += 1;
                    labels.insert(i.to_string());
                }
                Some(_) => {}
                None => missing = true,
            }
        }
    });
    check("identify_all leaves anonymous nodes", !missing, &ident);
    check("identify_all shares identifiers", labels.len() == n, &ident);
    let back = expand::canon(&forget(&ident, &|s| !s.starts_with("_:fresh")));
    check("identify_all changes something else", back == expand::canon(&forget(&canon, &|_| true)), &ident);

    // blank node identifiers are renamed one to one, and every node gets an identifier
    let mut m = d.clone();
    m.relabel(&mut fresh());
    let relab = doc_to_json(m.clone());
    let new: Vec<String> = blank_labels(&relab).into_iter().collect();
    check("relabel keeps labels", new.iter().all(|l| l.starts_with("_:fresh")), &relab);
    let from: Vec<String> = old.iter().cloned().collect();
    let iso = injections(&from, &new, &mut BTreeMap::new(), &mut |map| {
        // what is left are the identifiers of anonymous nodes
        let back = rename(&relab, &|s, p| if p == 'i' { map.get(s).cloned().unwrap_or(s.to_string()) } else { s.to_string() });
        let mut seen = BTreeSet::new();
        let mut ok = true;
        visit(&back, &mut |x| {
            if is_node(x) {
                match x.get("@id").and_then(|i| i.as_str()) {
                    Some(i) if i.starts_with("_:fresh") => ok &= seen.insert(i.to_string()),
                    Some(_) => {}
                    None => ok = false,
                }
            }
        });
        ok && expand::canon(&forget(&back, &|s| !s.starts_with("_:fresh"))) == expand::canon(&forget(&canon, &|_| true))
    });
    check("relabel is no renaming", iso, &relab);

    // literals
    let mut m2 = d.clone();
    m2.canonicalize();
    let cano = expand::canon(&doc_to_json(m2));
    check("canonicalize", cano == expand::canon(&canonical_values(&canon)), &cano);
    let mut m3 = d.clone();
    m3.relabel_and_canonicalize(&mut fresh());
    let mut m4 = m;
    m4.canonicalize();
    let both = expand::canon(&doc_to_json(m3));
    check("relabel_and_canonicalize", both == expand::canon(&doc_to_json(m4)), &both);

    // identifiers
    let map_id = |s: &str| if let Some(b) = s.strip_prefix("_:") { format!("_:m{b}") } else if iref::Iri::new(s).is_ok() { format!("{s}X") } else { s.to_string() };
    let mapped: Doc = d.clone().map_ids(
        |i: IriBuf| IriBuf::new(format!("{i}V")).unwrap(),
        |i: Id| -> Id { map_id(i.as_str()).into_id() },
    );
    let got = expand::canon(&doc_to_json(mapped));
    let want = expand::canon(&rename(&canon, &|s, p| if p == 'v' { format!("{s}V") } else { map_id(s) }));
    check("map_ids", got == want, &got);

    // traversal
    let bl: BTreeSet<String> = d.blank_ids().into_iter().map(|b| b.to_string()).collect();
    check("blank_ids", bl == old, &bl);
    let mut kinds = [0usize; 3];
    visit(&doc_to_json(d.clone()), &mut |x| kinds[if x.has("@value") { 1 } else if x.has("@list") { 2 } else { 0 }] += 1);
    let mut got = [0usize; 3];
    for f in d.traverse() {
        match f.into_ref() {
            Some(Ref::Node(_)) => got[0] += 1,
            Some(Ref::Value(_)) => got[1] += 1,
            Some(Ref::List(_)) => got[2] += 1,
            None => {}
        }
    }
    check("traverse: nodes, values, lists", got == kinds, &(got, kinds));
    let mut ids = vec![];
    let cell = std::cell::RefCell::new(&mut ids);
    rename(&doc_to_json(d.clone()), &|s, _| {
        cell.borrow_mut().push(s.to_string());
        String::new()
    });
    ids.sort();
    let mut got: Vec<String> = d.traverse().filter_map(|f| f.as_id().map(|i| i.as_str().to_string())).collect();
    got.sort();
    check("identifiers of the fragments", got == ids, &(&got, &ids));
    let counted = d.count(|f| f.as_id().is_some());
    check("count", counted == got.len(), &counted);

    let (mut arrays, mut objects) = (0, 0);
    count_json(&doc_to_json(d.clone()), &mut arrays, &mut objects);
    let got = (d.count(|f| f.is_json_array()) + 1, d.count(|f| f.is_json_object()));
    check("arrays and objects", got == (arrays, objects), &(got, arrays, objects));

    // main node
    let tops: Vec<J> = doc_to_json(d.clone()).arrayify().into_iter().filter(is_node).collect();
    let main = d.main_node().map(|n| {
        let mut one = Doc::new();
        one.insert(json_ld_core::Indexed::new(json_ld_core::Object::node(n.clone()), None));
        expand::canon(&doc_to_json(one))
    });
    let want = if tops.len() == 1 { Some(expand::canon(&J::Arr(vec![drop_index(&tops[0])]))) } else { None };
    check("main_node", main == want, &main);
    check("into_main_node", d.clone().into_main_node() == d.main_node().cloned(), &"");
    check("len", d.len() == doc_to_json(d.clone()).arrayify().len() && d.is_empty() == (d.len() == 0), &d.len());
    let steps = *env.steps.borrow();
    Report { steps, class: hash(&format!("{canon:?}")), trivial: false, verdict: bad.map_or(V::Ok, V::Bad) }
}

fn count_json(x: &J, arrays: &mut usize, objects: &mut usize) {
    match x {
        J::Arr(a) => {
            *arrays += 1;
            a.iter().for_each(|y| count_json(y, arrays, objects))
        }
        J::Obj(o) => {
            *objects += 1;
            o.iter().for_each(|(_, y)| count_json(y, arrays, objects))
        }
        _ => {}
    }
}

fn drop_index(x: &J) -> J {
    let mut x = x.clone();
    x.remove("@index");
    x
}

trait IntoId {
    fn into_id(self) -> Id;
}
impl IntoId for String {
    fn into_id(self) -> Id {
        Id::from_string(self)
    }
}

/// Every variant of a document that differs in one place, or in the order of one array or object.
fn variant(x: &J, at: &mut isize, op: usize) -> J {
    if x.is_arr_or_obj() {
        *at -= 1;
    }
    let here = *at == -1;
    if here {
        *at = isize::MIN / 2
    }
    match x {
        J::Arr(a) => {
            let mut v: Vec<J> = a.iter().map(|y| variant(y, at, op)).collect();
            if here {
                match op {
                    0 => v.reverse(),
                    1 => {
                        v.pop();
                    }
                    2 => {
                        if let Some(x) = v.first().cloned() {
                            v.push(x)
                        }
                    }
                    3 => v.push(J::s("new")),
                    _ => {
                        if !v.is_empty() {
                            v.rotate_left(1)
                        }
                    }
                }
            }
            J::Arr(v)
        }
        J::Obj(o) => {
            let mut v: Vec<(String, J)> = o.iter().map(|(k, y)| (k.clone(), variant(y, at, op))).collect();
            if here {
                match op {
                    0 => v.reverse(),
                    1 => {
                        v.pop();
                    }
                    2 => {
                        if let Some(l) = v.last_mut() {
                            l.1 = match &l.1 {
                                J::Str(s) => J::s(&format!("{s}2")),
                                x => J::Arr(vec![x.clone(), x.clone()]),
                            }
                        }
                    }
                    3 => v.push(("@index".into(), J::s("new"))),
                    _ => {
                        if let Some(l) = v.first_mut() {
                            l.0 = format!("{}2", l.0)
                        }
                    }
                }
            }
            J::Obj(v)
        }
        x => x.clone(),
    }
}

trait ArrObj {
    fn is_arr_or_obj(&self) -> bool;
}
impl ArrObj for J {
    fn is_arr_or_obj(&self) -> bool {
        matches!(self, J::Arr(_) | J::Obj(_))
    }
}

fn sites(x: &J) -> usize {
    match x {
        J::Arr(a) => 1 + a.iter().map(sites).sum::<usize>(),
        J::Obj(o) => 1 + o.iter().map(|(_, v)| sites(v)).sum::<usize>(),
        _ => 0,
    }
}

/// JSON that is the same up to the order of entries and items.
fn unordered(x: &J) -> J {
    match x {
        J::Arr(a) => {
            let mut v: Vec<J> = a.iter().map(unordered).collect();
            v.sort();
            J::Arr(v)
        }
        J::Obj(o) => {
            let mut v: Vec<(String, J)> = o.iter().map(|(k, v)| (k.clone(), unordered(v))).collect();
            v.sort();
            J::Obj(v)
        }
        x => x.clone(),
    }
}

/// A document whose arrays are sorted, except lists.
fn json_ld_eq(x: &J) -> J {
    match x {
        J::Arr(a) => {
            let mut v: Vec<J> = a.iter().map(json_ld_eq).collect();
            v.sort();
            J::Arr(v)
        }
        J::Obj(o) => {
            let mut v: Vec<(String, J)> = o
                .iter()
                .map(|(k, v)| match v {
                    J::Arr(a) if k == "@list" => (k.clone(), J::Arr(a.iter().map(json_ld_eq).collect())),
                    v => (k.clone(), json_ld_eq(v)),
                })
                .collect();
            v.sort();
            J::Obj(v)
        }
        x => x.clone(),
    }
}

fn has_duplicate_keys(x: &J) -> bool {
    match x {
        J::Arr(a) => a.iter().any(has_duplicate_keys),
        J::Obj(o) => {
            let keys: BTreeSet<&String> = o.iter().map(|(k, _)| k).collect();
            keys.len() != o.len() || o.iter().any(|(_, v)| has_duplicate_keys(v))
        }
        _ => false,
    }
}

fn equality(ch: &mut Chooser) -> Report {
    let a = gen::fdoc(ch);
    let n = sites(&a);
    let k = ch.pick(n);
    let op = ch.pick(5);
    let b = variant(&a, &mut (k as isize), op);
    ch.describe(|| format!("{a:?}\nand {b:?}"));
    let mut bad = None;
    let mut steps = 2;
    let mut class = 0;
    let expand = |x: &J| expand::expand_document(&Env::new(Default::default(), false), x, None, None, false);
    let (ea, eb) = (expand(&a), expand(&b));
    if let (Ok(ea), Ok(eb)) = (&ea, &eb) {
        if let (Ok(da), Ok(db)) = (parse_expanded(ea), parse_expanded(eb)) {
            let same = expand::canon(ea) == expand::canon(eb);
            class = 1 + same as u64;
            // whether JSON literals that only differ in the order of their entries are equal is open
            if same && J::sort_keys(ea) == J::sort_keys(eb) && a != b && format!("{a:?}").contains("@json") {
                return Report { steps, class, trivial: true, verdict: V::Ok };
            }
            if (da == db) != same || (db == da) != same {
                bad = Some(format!("equal: {}, {}, expected {same}", da == db, db == da))
            }
            // equal objects have equal hashes
            let (sa, sb): (HashSet<_>, HashSet<_>) = (da.clone().into_iter().collect(), db.clone().into_iter().collect());
            if (sa == sb) != same {
                bad = Some(format!("as hashed sets: {}, expected {same}", sa == sb))
            }
            steps += 2
        }
    }
    if let (Ok(ea), Ok(eb)) = (&ea, &eb) {
        if !has_duplicate_keys(ea) && !has_duplicate_keys(eb) {
            let same = json_ld_eq(ea) == json_ld_eq(eb);
            if simple_json_ld_eq(&to_impl(ea), &to_impl(eb)) != same {
                bad = Some(format!("simple_json_ld_eq: {}, expected {same}", !same))
            }
            let same = unordered(ea) == unordered(eb);
            if json_ld::syntax::Compare::compare(&to_impl(ea), &to_impl(eb)) != same {
                bad = Some(format!("compare as JSON: {}, expected {same}", !same))
            }
        }
        // equality through a mapping of the blank nodes is equality after renaming them
        let labels: Vec<String> = blank_labels(ea).into_iter().chain(blank_labels(eb)).collect::<BTreeSet<_>>().into_iter().collect();
        for turn in 0..labels.len().clamp(1, 2) {
            let map: BTreeMap<String, String> = labels.iter().enumerate().map(|(i, l)| (l.clone(), labels[(i + turn) % labels.len()].clone())).collect();
            let blanks: BTreeMap<BlankIdBuf, BlankIdBuf> =
                map.iter().filter_map(|(k, v)| Some((BlankIdBuf::new(k.clone()).ok()?, BlankIdBuf::new(v.clone()).ok()?))).collect();
            let to = |b: &BlankIdBuf| blanks.get(b).unwrap();
            let renamed = rename(ea, &|s, k| if k == 'i' { map.get(s).cloned().unwrap_or(s.to_string()) } else { s.to_string() });
            for (what, x) in [("variant", eb), ("renamed document", &renamed)] {
                if let (Ok(da), Ok(db)) = (parse_expanded(ea), parse_expanded(x)) {
                    let same = expand::canon(&renamed) == expand::canon(x);
                    if same && J::sort_keys(&renamed) == J::sort_keys(x) && renamed != *x && format!("{a:?}").contains("@json") {
                        continue;
                    }
                    let (va, vb): (Vec<_>, Vec<_>) = (da.iter().collect(), db.iter().collect());
                    let got = da.objects().mapped_eq(db.objects(), to);
                    if got != same {
                        bad = Some(format!("equality with the {what} through {map:?}: {got}, expected {same}"))
                    }
                    // in order
                    if va.len() == vb.len() {
                        let each = va.iter().zip(&vb).all(|(a, b)| a.mapped_eq(b, to));
                        if va.mapped_eq(&vb, to) != each || Some(va).mapped_eq(&Some(vb), to) != each || (each && !same) {
                            bad = Some(format!("equality in order with the {what} through {map:?}: expected {each}"))
                        }
                    }
                    steps += 2
                }
            }
        }
    }
    // documents compare equal when their JSON is the same up to order, and they expand to the same
    let doc = |x: &J| RemoteDocument::<IriBuf>::new(None, None, to_impl(x));
    let (ra, rb) = (doc(&a), doc(&b));
    let none = Default::default();
    let l = MapLoader::new(&none);
    let got = block_on(ra.compare(&rb, &l)).map_err(|e| e.to_string());
    let want = if unordered(&a) != unordered(&b) {
        Ok(false)
    } else {
        match (&ea, &eb) {
            (Ok(x), Ok(y)) => Ok(expand::canon(x) == expand::canon(y)),
            _ => Err(()),
        }
    };
    let ok = match (&got, &want) {
        (Ok(a), Ok(b)) => a == b,
        (a, b) => a.is_err() == b.is_err(),
    };
    if !ok {
        bad = Some(format!("compare: {got:?}, expected {want:?}"))
    }
    Report { steps, class: hash(&(class, format!("{got:?}"))), trivial: false, verdict: bad.map_or(V::Ok, V::Bad) }
}

const VALUES: &[&str] = &[
    "{'@value':1}", "{'@value':1.0}", "{'@value':10E-1}", "{'@value':1e21}", "{'@value':100000000000000000000000}", "{'@value':-0.0}", "{'@value':0.00}", "{'@value':true}",
    "{'@value':'1.0'}", "{'@value':'1.0','@type':'x:dt'}", "{'@value':1.50,'@type':'x:dt'}", "{'@value':'a','@language':'En-us'}", "{'@value':'a','@direction':'rtl'}",
    "{'@value':{'b':1.0,'a':[10E0,{'d':1,'c':2.50}]},'@type':'@json'}", "{'@value':[1.0,1],'@type':'@json'}", "{'@value':1.0,'@index':'i'}", "{'@value':null,'@type':'@json'}",
    "{'@list':[{'@value':1.0},{'@value':1},{'@list':[{'@value':2.0}]}]}", "{'@list':[]}", "{'@id':'_:a'}", "{'x:q':[{'@value':1.0}]}",
];

fn literals(ch: &mut Chooser) -> Report {
    let n = 1 + ch.dev(3);
    let vs = J::Arr((0..n).map(|_| j(ch.of(VALUES))).collect());
    let node = J::o(&[("x:p", vs)]);
    let doc = match ch.pick(6) {
        0 => node,
        1 => J::o(&[("@graph", J::Arr(vec![node])), ("@id", J::s("x:g"))]),
        2 => J::o(&[("@included", J::Arr(vec![node])), ("@id", J::s("x:g"))]),
        3 => J::o(&[("@reverse", J::o(&[("x:r", J::Arr(vec![node]))])), ("@id", J::s("x:g"))]),
        4 => J::o(&[("x:q", J::o(&[("@list", J::Arr(vec![node]))]))]),
        _ => J::o(&[("x:q", J::Arr(vec![j("{'@id':'_:a'}"), node]))]),
    };
    operations(ch, &doc)
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as u32;
    Prop {
        id: "C13",
        level: "model_checking",
        rule: "expanded documents enumerated as in C05, with every kind of literal in every position; for equality, every variant of each that differs in one place or in the order of one array or object",
        assumptions: &[],
        families: vec![
            family("nested", 0, |ch| {
                let d = gen::nest(ch, 3);
                operations(ch, &d)
            }),
            family("graphs", 3 + t, |ch| {
                let d = gen::fdoc(ch);
                operations(ch, &d)
            }),
            family("literals", 2, literals),
            family("equality", 2 + t, equality),
        ],
    }
}
