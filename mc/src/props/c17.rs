//! C17: nodes, values and documents hold what was put in them, and show it the same way from every side.
use super::c03::parse_expanded;
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{doc_to_json, Doc};
use crate::json::{j, J};
use crate::refm::{expand, Env};
use contextual::IntoRefWithContext;
use iref::{Iri, IriBuf};
use json_ld::syntax::Keyword;
use json_ld::{Indexed, IndexedObject, Node, Object, Term, ValidId};
use json_ld_core::object::{node::Multiset, Literal, TypeRef};
use json_ld_core::{Direction, LangString, LenientLangTagBuf, Value};
use rdf_types::{BlankId, BlankIdBuf};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

type Id = json_ld_core::Id<IriBuf, BlankIdBuf>;
type Obj = IndexedObject<IriBuf, BlankIdBuf>;
type N = Indexed<Node<IriBuf, BlankIdBuf>>;

const KEYS: [&str; 3] = ["http://e/p", "_:p", "rel p"];

const POOL: [&str; 11] = [
    "{'@value':'x'}",
    "{'@value':'x','@index':'i'}",
    "{'@id':'http://e/n','http://e/p':[{'@value':'x'},{'@value':'y'}]}",
    "{'@id':'http://e/n','http://e/p':[{'@value':'y'},{'@value':'x'}]}",
    "{'http://e/p':[{'@value':'x'}]}",
    "{'@list':[{'@value':'x'}]}",
    "{'@id':'http://e/n'}",
    "{'@id':'http://e/n','@index':'i'}",
    "{'@value':'x','@language':'en'}",
    "{'@id':'_:b','@type':['http://e/t','_:t']}",
    "{'@graph':[{'@id':'http://e/n'}]}",
];
/// Indices of the nodes of the pool.
const NODES: [usize; 5] = [2, 3, 4, 6, 7];
const BATCHES: [&[usize]; 7] = [&[], &[0, 0], &[0, 1], &[2, 3], &[4, 4], &[5, 5], &[6, 0, 6]];
const NODE_BATCHES: [&[usize]; 3] = [&[], &[2, 3, 6], &[4, 4]];

fn pool_json() -> &'static [J] {
    static X: OnceLock<Vec<J>> = OnceLock::new();
    X.get_or_init(|| POOL.iter().map(|s| j(s)).collect())
}

fn object(x: &J) -> Obj {
    parse_expanded(&J::Arr(vec![x.clone()])).unwrap().into_objects().into_iter().next().unwrap()
}

fn pool() -> &'static [Obj] {
    static X: OnceLock<Vec<Obj>> = OnceLock::new();
    X.get_or_init(|| pool_json().iter().map(object).collect())
}

fn node(i: usize) -> N {
    pool()[i].clone().into_indexed_node().unwrap()
}

fn json(o: Obj) -> J {
    let mut d = Doc::new();
    d.insert(o);
    doc_to_json(d).arrayify().remove(0)
}

fn canon(x: &J) -> J {
    expand::canon(x)
}

fn equivalent(a: &J, b: &J) -> bool {
    canon(a) == canon(b) && (a.has("@value") || a.has("@id"))
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

type Entries = BTreeMap<usize, Vec<usize>>;

#[derive(Clone, Default)]
struct Model {
    id: bool,
    types: Option<Vec<&'static str>>,
    props: Entries,
    reverse: Option<Entries>,
    graph: Option<Vec<usize>>,
    included: Option<Vec<usize>>,
}

fn put(e: &mut Entries, key: usize, values: &[usize], unique: bool) {
    let old = e.entry(key).or_default();
    let p = pool_json();
    for v in values {
        if !unique || old.iter().all(|o| !equivalent(&p[*o], &p[*v])) {
            old.push(*v)
        }
    }
}

impl Model {
    fn json(&self) -> J {
        let p = pool_json();
        let arr = |v: &[usize]| J::Arr(v.iter().map(|i| p[*i].clone()).collect());
        let entries = |e: &Entries| e.iter().map(|(k, v)| (KEYS[*k].to_string(), arr(v))).collect::<Vec<_>>();
        let mut o = vec![];
        if self.id {
            o.push(("@id".into(), J::s("http://e/self")))
        }
        if let Some(t) = &self.types {
            o.push(("@type".into(), J::Arr(t.iter().map(|t| J::s(t)).collect())))
        }
        if let Some(g) = &self.graph {
            o.push(("@graph".into(), arr(g)))
        }
        if let Some(g) = &self.included {
            o.push(("@included".into(), arr(g)))
        }
        if let Some(r) = &self.reverse {
            o.push(("@reverse".into(), J::Obj(entries(r))))
        }
        o.extend(entries(&self.props));
        J::Obj(o)
    }
}

fn id(s: &str) -> Id {
    Id::from_string(s.to_string())
}

struct Check(Option<String>);
impl Check {
    fn ok(&mut self, what: &str, ok: bool, detail: impl FnOnce() -> String) {
        if !ok && self.0.is_none() {
            self.0 = Some(format!("{what}: {}", detail()))
        }
    }
}

/// Every way to look a property up.
macro_rules! lookups {
    ($c:expr, $p:expr, $k:expr, $want:expr, $f:path) => {{
        let (c, p, k, want): (&mut Check, _, &str, Option<Vec<J>>) = ($c, $p, $k, $want);
        let mut one = |how: &str, got: Vec<J>, any: Option<J>, contains: bool| {
            let sorted = |v: &[J]| {
                let mut v: Vec<J> = v.iter().map(canon).collect();
                v.sort();
                v
            };
            let all = sorted(want.as_deref().unwrap_or(&[]));
            c.ok(&format!("get({k}) by {how}"), sorted(&got) == all, || format!("{got:?}, expected {want:?}"));
            c.ok(&format!("get_any({k}) by {how}"), any.as_ref().map(canon).map_or(all.is_empty(), |a| all.contains(&a)), || format!("{any:?}, expected {want:?}"));
            if want.as_ref().map_or(true, |w| !w.is_empty()) {
                c.ok(&format!("contains({k}) by {how}"), contains == want.is_some(), || format!("{contains}"))
            }
        };
        let i = id(k);
        one("identifier", p.get(&i).cloned().map($f).collect(), p.get_any(&i).cloned().map($f), p.contains(&i));
        match &i {
            Id::Valid(v) => {
                one("valid identifier", p.get(v).cloned().map($f).collect(), p.get_any(v).cloned().map($f), p.contains(v));
                match v {
                    ValidId::Iri(i) => {
                        one("IRI", p.get(i).cloned().map($f).collect(), p.get_any(i).cloned().map($f), p.contains(i));
                        let i: &Iri = i;
                        one("IRI reference", p.get(&i).cloned().map($f).collect(), p.get_any(&i).cloned().map($f), p.contains(&i));
                    }
                    ValidId::Blank(b) => {
                        one("blank", p.get(b).cloned().map($f).collect(), p.get_any(b).cloned().map($f), p.contains(b));
                        let b: &BlankId = b;
                        one("blank reference", p.get(b).cloned().map($f).collect(), p.get_any(b).cloned().map($f), p.contains(b));
                    }
                }
            }
            Id::Invalid(_) => {}
        }
    }};
}

fn node_json(n: N) -> J {
    json(n.map_inner(Object::node))
}

fn check_node(n: &Node<IriBuf, BlankIdBuf>, m: &Model, c: &mut Check) {
    let want = m.json();
    let got = json(Indexed::none(Object::node(n.clone())));
    c.ok("content", canon(&got) == canon(&want), || format!("{got:?}, expected {want:?}"));
    let p = pool_json();
    let vals = |e: &Entries, k: usize| e.get(&k).map(|v| v.iter().map(|i| p[*i].clone()).collect::<Vec<_>>());
    for (k, key) in KEYS.iter().enumerate() {
        lookups!(c, n.properties(), key, vals(&m.props, k), json);
        let i = id(key);
        let w = vals(&m.props, k);
        c.ok("Node::get", n.get(&i).count() == w.as_ref().map_or(0, |w| w.len()), || key.to_string());
        c.ok("Node::get_any", n.get_any(&i).is_some() == w.as_ref().is_some_and(|w| !w.is_empty()), || key.to_string());
        c.ok("has_key", n.has_key(&Term::Id(i)) == w.is_some(), || key.to_string());
        if let Some(r) = n.reverse_properties() {
            lookups!(c, r, key, m.reverse.as_ref().and_then(|r| vals(r, k)), node_json);
        }
    }
    c.ok("number of properties", n.properties().len() == m.props.len() && n.properties().is_empty() == m.props.is_empty(), || format!("{}", n.properties().len()));
    c.ok("iterated properties", n.properties().iter().count() == m.props.len() && n.properties().iter().len() == m.props.len(), String::new);
    c.ok("consumed properties", n.properties().clone().into_iter().all(|(k, v)| KEYS.iter().position(|x| *x == k.as_str()).and_then(|k| m.props.get(&k)).is_some_and(|w| w.len() == v.len())), String::new);
    let r = n.reverse_properties();
    c.ok("reverse", r.is_some() == m.reverse.is_some() && r.map(|r| (r.len(), r.is_empty(), r.iter().count())) == m.reverse.as_ref().map(|r| (r.len(), r.is_empty(), r.len())), String::new);
    c.ok("reverse_properties_entry", n.reverse_properties_entry().is_some() == m.reverse.is_some(), String::new);
    for (k, b) in [(Keyword::Id, m.id), (Keyword::Type, m.types.is_some()), (Keyword::Graph, m.graph.is_some()), (Keyword::Included, m.included.is_some()), (Keyword::Reverse, m.reverse.is_some()), (Keyword::Value, false), (Keyword::List, false)] {
        c.ok("has_key", n.has_key(&Term::Keyword(k)) == b, || k.to_string())
    }
    let types: Vec<&str> = n.types().iter().map(|t| t.as_str()).collect();
    c.ok("types", types == m.types.clone().unwrap_or_default(), || format!("{types:?}"));
    for t in ["http://e/t", "_:t", "http://e/u"] {
        c.ok("has_type", n.has_type(&id(t)) == types.contains(&t), || t.to_string())
    }
    let only_graph = m.graph.is_some() && m.types.is_none() && m.included.is_none() && m.reverse.is_none() && m.props.is_empty();
    c.ok("is_graph", n.is_graph() == only_graph, String::new);
    c.ok("is_simple_graph", n.is_simple_graph() == (only_graph && !m.id), String::new);
    c.ok("is_unnamed_graph", n.is_unnamed_graph() == (only_graph && !m.id), String::new);
    let un = n.clone().into_unnamed_graph();
    match &un {
        Ok(g) => c.ok("into_unnamed_graph", only_graph && !m.id && Some(g) == n.graph(), String::new),
        Err(e) => c.ok("into_unnamed_graph", !(only_graph && !m.id) && e == n, String::new),
    }
    c.ok("is_empty", n.is_empty() == (m.types.is_none() && m.graph.is_none() && m.included.is_none() && m.reverse.is_none() && m.props.is_empty()), String::new);
    c.ok("identifier", n.id.is_some() == m.id && n.as_iri().map(|i| i.as_str()) == m.id.then_some("http://e/self") && n.as_str() == m.id.then_some("http://e/self"), String::new);
    c.ok("graph", n.graph_entry().map(|g| g.len()) == n.graph().map(|g| g.len()) && n.graph().is_some() == m.graph.is_some(), String::new);
    c.ok("included", n.included_entry().map(|g| g.len()) == n.included().map(|g| g.len()) && n.included().is_some() == m.included.is_some(), String::new);
    // the same content without the history
    let fresh = object(&want);
    let same = Indexed::none(Object::node(n.clone()));
    c.ok("equal to the same node read from JSON", fresh == same && same == fresh, || format!("{want:?}"));
    c.ok("hash of the same node read from JSON", hash_of(&fresh) == hash_of(&same), || format!("{want:?}"));
    c.ok("equivalent", same.equivalent(&fresh) == m.id && n.equivalent(fresh.as_node().unwrap()) == m.id, || format!("{want:?}"));
    views(&same, &want, c);
}

/// The choice of an operation: `next(n)` is Some(i) if the choice falls in the next n operations.
struct Op(usize);
impl Op {
    fn next(&mut self, n: usize) -> Option<usize> {
        if self.0 < n {
            let r = self.0;
            self.0 = usize::MAX;
            return Some(r);
        }
        if self.0 != usize::MAX {
            self.0 -= n
        }
        None
    }
}

const NODE_OPS: usize = 98;

fn node_op(o: usize, n: &mut Node<IriBuf, BlankIdBuf>, m: &mut Model, c: &mut Check) -> String {
    let mut op = Op(o);
    let p = pool();
    let values = |b: &[usize]| b.iter().map(|i| p[*i].clone()).collect::<Vec<_>>();
    let nodes = |b: &[usize]| b.iter().map(|i| node(*i)).collect::<Vec<_>>();
    for k in 0..2 {
        let key = || id(KEYS[k]);
        // the second key has fewer values
        let few = if k == 0 { 7 } else { 2 };
        if let Some(v) = op.next(few) {
            n.insert(key(), p[v].clone());
            put(&mut m.props, k, &[v], false);
            return format!("insert({}, {})", KEYS[k], POOL[v]);
        }
        if let Some(v) = op.next(few) {
            n.properties_mut().insert_unique(key(), p[v].clone());
            put(&mut m.props, k, &[v], true);
            return format!("insert_unique({}, {})", KEYS[k], POOL[v]);
        }
        if let Some(b) = op.next(few) {
            n.insert_all(key(), values(BATCHES[b]).into_iter());
            put(&mut m.props, k, BATCHES[b], false);
            return format!("insert_all({}, {:?})", KEYS[k], BATCHES[b]);
        }
        if let Some(b) = op.next(few) {
            n.properties_mut().insert_all_unique(key(), values(BATCHES[b]));
            put(&mut m.props, k, BATCHES[b], true);
            return format!("insert_all_unique({}, {:?})", KEYS[k], BATCHES[b]);
        }
        if let Some(b) = op.next(3) {
            n.properties_mut().set(key(), values(BATCHES[b]).into_iter().collect::<Multiset<_>>());
            m.props.insert(k, BATCHES[b].to_vec());
            return format!("set({}, {:?})", KEYS[k], BATCHES[b]);
        }
        if op.next(1).is_some() {
            let r = n.properties_mut().remove(&key());
            let w = m.props.remove(&k);
            c.ok("remove", r.map(|r| r.into_iter().collect::<Vec<_>>() == values(w.as_deref().unwrap_or(&[]))) == w.map(|_| true), || KEYS[k].to_string());
            return format!("remove({})", KEYS[k]);
        }
    }
    if op.next(1).is_some() {
        n.properties_mut().clear();
        m.props.clear();
        return "clear".into();
    }
    if op.next(1).is_some() {
        n.properties_mut().extend([(id(KEYS[0]), values(&[0, 4])), (id(KEYS[2]), values(&[0]))]);
        put(&mut m.props, 0, &[0, 4], false);
        put(&mut m.props, 2, &[0], false);
        return "extend".into();
    }
    if op.next(1).is_some() {
        n.properties_mut().extend_unique([(id(KEYS[0]), values(&[0, 4])), (id(KEYS[2]), values(&[0, 0]))]);
        put(&mut m.props, 0, &[0, 4], true);
        put(&mut m.props, 2, &[0, 0], true);
        return "extend_unique".into();
    }
    if op.next(1).is_some() {
        for (_, v) in n.properties_mut().iter_mut() {
            for v in v.iter_mut() {
                *v = p[0].clone()
            }
        }
        for v in m.props.values_mut() {
            v.iter_mut().for_each(|v| *v = 0)
        }
        return "overwrite all values".into();
    }
    // types
    if let Some(t) = op.next(2) {
        let t = ["http://e/t", "_:t"][t];
        n.types_mut_or_default().push(id(t));
        m.types.get_or_insert_with(Vec::new).push(t);
        return format!("push type {t}");
    }
    if let Some(t) = op.next(2) {
        if t == 0 {
            n.types_mut_or_insert(vec![id("http://e/t")]);
        } else {
            n.types_mut_or_insert_with(|| vec![id("http://e/t")]);
        }
        m.types.get_or_insert_with(|| vec!["http://e/t"]);
        return "types or insert".into();
    }
    if op.next(1).is_some() {
        n.types = None;
        m.types = None;
        return "no type".into();
    }
    if op.next(1).is_some() {
        if let Some(t) = n.types_mut().first_mut() {
            *t = id("http://e/u")
        }
        if let Some(t) = m.types.as_mut().and_then(|t| t.first_mut()) {
            *t = "http://e/u"
        }
        return "overwrite the first type".into();
    }
    // reverse properties
    if let Some(v) = op.next(5) {
        n.reverse_properties_or_default().insert(id(KEYS[0]), node(NODES[v]));
        put(m.reverse.get_or_insert_with(Entries::new), 0, &[NODES[v]], false);
        return format!("reverse insert {}", POOL[NODES[v]]);
    }
    if let Some(v) = op.next(5) {
        n.reverse_properties_mut_or_default().insert_unique(id(KEYS[0]), node(NODES[v]));
        put(m.reverse.get_or_insert_with(Entries::new), 0, &[NODES[v]], true);
        return format!("reverse insert_unique {}", POOL[NODES[v]]);
    }
    if let Some(b) = op.next(3) {
        n.reverse_properties_or_insert(Default::default()).insert_all(id(KEYS[0]), nodes(NODE_BATCHES[b]));
        put(m.reverse.get_or_insert_with(Entries::new), 0, NODE_BATCHES[b], false);
        return format!("reverse insert_all {:?}", NODE_BATCHES[b]);
    }
    if let Some(b) = op.next(3) {
        n.reverse_properties_or_insert_with(Default::default).insert_all_unique(id(KEYS[0]), nodes(NODE_BATCHES[b]));
        put(m.reverse.get_or_insert_with(Entries::new), 0, NODE_BATCHES[b], true);
        return format!("reverse insert_all_unique {:?}", NODE_BATCHES[b]);
    }
    if op.next(1).is_some() {
        n.reverse_properties_or_default().extend([(id(KEYS[1]), nodes(&[6])), (id(KEYS[0]), nodes(&[6, 6]))]);
        let r = m.reverse.get_or_insert_with(Entries::new);
        put(r, 1, &[6], false);
        put(r, 0, &[6, 6], false);
        return "reverse extend".into();
    }
    if op.next(1).is_some() {
        n.reverse_properties_or_default().extend_unique([(id(KEYS[1]), nodes(&[6])), (id(KEYS[0]), nodes(&[6, 6]))]);
        let r = m.reverse.get_or_insert_with(Entries::new);
        put(r, 1, &[6], true);
        put(r, 0, &[6, 6], true);
        return "reverse extend_unique".into();
    }
    if op.next(1).is_some() {
        n.reverse_properties_or_default().set(id(KEYS[0]), nodes(&[6]).into_iter().collect::<Multiset<_>>());
        m.reverse.get_or_insert_with(Entries::new).insert(0, vec![6]);
        return "reverse set".into();
    }
    if op.next(1).is_some() {
        let r = n.reverse_properties_mut().and_then(|r| r.remove(&id(KEYS[0])));
        let w = m.reverse.as_mut().and_then(|r| r.remove(&0));
        c.ok("reverse remove", r.map(|r| r.len()) == w.map(|w| w.len()), String::new);
        return "reverse remove".into();
    }
    if op.next(1).is_some() {
        if let Some(r) = n.reverse_properties_mut() {
            r.clear()
        }
        if let Some(r) = &mut m.reverse {
            r.clear()
        }
        return "reverse clear".into();
    }
    if op.next(1).is_some() {
        n.set_reverse_properties(None);
        m.reverse = None;
        return "no reverse".into();
    }
    // graph and included nodes
    if let Some(g) = op.next(3) {
        let g = [None, Some(vec![0, 6]), Some(vec![4])][g].clone();
        n.set_graph_entry(g.as_ref().map(|g| values(g).into_iter().collect()));
        m.graph = g;
        return format!("graph {:?}", m.graph);
    }
    if let Some(g) = op.next(2) {
        let g = [None, Some(vec![6, 4])][g].clone();
        n.set_included(g.as_ref().map(|g| nodes(g).into_iter().collect()));
        m.included = g;
        return format!("included {:?}", m.included);
    }
    if op.next(1).is_some() {
        n.included_mut_or_default().insert(node(7));
        let i = m.included.get_or_insert_with(Vec::new);
        if !i.contains(&7) {
            i.push(7)
        }
        return "include".into();
    }
    if op.next(1).is_some() {
        if let Some(g) = n.graph_mut() {
            g.insert(p[1].clone());
        }
        if let Some(g) = &mut m.graph {
            if !g.contains(&1) {
                g.push(1)
            }
        }
        return "insert in the graph".into();
    }
    if let Some(i) = op.next(2) {
        m.id = i == 1;
        n.id = m.id.then(|| id("http://e/self"));
        return format!("identified: {}", m.id);
    }
    if op.next(1).is_some() {
        *n = n.clone();
        return "clone".into();
    }
    "stop".into()
}

fn node_calls(ch: &mut Chooser, depth: usize) -> Report {
    let mut n = Node::new();
    let mut m = Model::default();
    let mut c = Check(None);
    let mut log = vec![];
    for _ in 0..depth {
        let s = node_op(ch.pick(NODE_OPS), &mut n, &mut m, &mut c);
        if s == "stop" {
            break;
        }
        log.push(s);
    }
    check_node(&n, &m, &mut c);
    ch.describe(|| log.join("; "));
    Report { steps: log.len() as u64, class: hash(&format!("{:?}", canon(&m.json()))), trivial: log.is_empty(), verdict: c.0.map_or(V::Ok, |b| V::Bad(format!("{}: {b}", log.join("; ")))) }
}

fn document_calls(ch: &mut Chooser, depth: usize) -> Report {
    let mut d = Doc::new();
    let mut m: Vec<J> = vec![];
    let mut c = Check(None);
    let mut log = vec![];
    let p = pool();
    let pj = pool_json();
    let add = |m: &mut Vec<J>, x: usize| {
        let fresh = m.iter().all(|y| canon(y) != canon(&pj[x]));
        if fresh {
            m.push(pj[x].clone())
        }
        fresh
    };
    for _ in 0..depth {
        let k = ch.pick(16);
        match k {
            0..=10 => {
                log.push(format!("insert {}", POOL[k]));
                let r = d.insert(p[k].clone());
                c.ok("insert", add(&mut m, k) == r, || format!("{r} for {}", POOL[k]));
            }
            11 => {
                log.push("extend".into());
                d.extend([4, 4, 0, 6].map(|i: usize| p[i].clone()));
                for i in [4, 4, 0, 6] {
                    add(&mut m, i);
                }
            }
            12 => {
                log.push("collected again".into());
                d = d.into_iter().collect();
            }
            13 => {
                log.push("through objects".into());
                d = Doc::from(d.into_objects());
            }
            14 => {
                log.push("from a node".into());
                d = Doc::from(node(7));
                m = vec![pj[7].clone()];
            }
            _ => break,
        }
        let got = doc_to_json(d.clone());
        c.ok("content", canon(&got) == canon(&J::Arr(m.clone())), || format!("{got:?}, expected {m:?}"));
        c.ok("len", d.len() == m.len() && d.is_empty() == m.is_empty() && d.iter().count() == m.len() && d.objects().len() == m.len() && (&d).into_iter().count() == m.len(), || format!("{}", d.len()));
        let nodes: Vec<&J> = m.iter().filter(|x| !x.has("@value") && !x.has("@list")).collect();
        c.ok("main_node", d.main_node().is_some() == (nodes.len() == 1) && d.clone().into_main_node().as_ref() == d.main_node(), String::new);
        let again = parse_expanded(&J::Arr(m.iter().rev().cloned().collect())).unwrap();
        c.ok("equal to the same document read from JSON", again == d && d == again, String::new);
        // one object less, or one more, makes another document
        for i in 0..m.len() {
            let mut less = m.clone();
            less.remove(i);
            let less = parse_expanded(&J::Arr(less)).unwrap();
            c.ok("different from a part", less != d && d != less, || format!("{:?}", m[i]));
        }
    }
    ch.describe(|| log.join("; "));
    Report { steps: log.len() as u64, class: hash(&format!("{m:?}")), trivial: log.is_empty(), verdict: c.0.map_or(V::Ok, |b| V::Bad(format!("{}: {b}", log.join("; ")))) }
}

/// Values, language strings, lists and indexes.
fn value_calls(ch: &mut Chooser, depth: usize) -> Report {
    let mut c = Check(None);
    let mut log = vec![];
    let lang = |i: usize| [None, Some("en"), Some("fr-x")][i].map(|s| LenientLangTagBuf::new(s.to_string()).0);
    let dir = |i: usize| [None, Some(Direction::Ltr), Some(Direction::Rtl)][i];
    let class;
    match ch.pick(3) {
        0 => {
            let (mut l, mut d) = (ch.pick(3), ch.pick(3));
            let s = LangString::new("s".into(), lang(l), dir(d));
            c.ok("new", s.is_ok() == (l + d > 0), String::new);
            class = hash(&(l, d));
            if let Ok(mut s) = s {
                for _ in 0..depth {
                    let (k, x) = (ch.pick(4), ch.pick(3));
                    let (nl, nd) = match k {
                        0 => (x, d),
                        1 => (l, x),
                        2 => (x, ch.pick(3)),
                        _ => break,
                    };
                    log.push(format!("set {k}: {nl} {nd}"));
                    let r = match k {
                        0 => s.set_language(lang(nl)),
                        1 => s.set_direction(dir(nd)),
                        _ => s.set(lang(nl), dir(nd)),
                    };
                    c.ok("set", r.is_ok() == (nl + nd > 0), || format!("{log:?}"));
                    if nl + nd > 0 {
                        (l, d) = (nl, nd)
                    }
                    let got = (s.as_str().to_string(), s.language().map(|l| l.to_string()), s.direction());
                    let want = ("s".to_string(), lang(l).map(|l| l.to_string()), dir(d));
                    c.ok("language string", got == want, || format!("{got:?}, expected {want:?} after {log:?}"));
                    let v = s.as_lang_str();
                    c.ok("its view", (v.as_str().to_string(), v.language().map(|l| l.to_string()), v.direction()) == want, || format!("{log:?}"));
                    let fresh = LangString::new("s".into(), lang(l), dir(d)).unwrap();
                    c.ok("equal to a new one", fresh == s && hash_of(&fresh) == hash_of(&s), || format!("{log:?}"));
                    let o: Obj = Indexed::none(Object::Value(Value::LangString(s.clone())));
                    let mut w = vec![("@value", J::s("s"))];
                    if let Some(l) = &want.1 {
                        w.push(("@language", J::s(l)))
                    }
                    if let Some(d) = want.2 {
                        w.push(("@direction", J::s(d.as_str())))
                    }
                    views(&o, &J::o(&w), &mut c);
                }
            }
        }
        1 => {
            let lits = ["'x'", "true", "1", "null", "1.5"];
            let lit = ch.pick(lits.len() + 2);
            let start = match lits.get(lit) {
                Some(l) => format!("{{'@value':{l}}}"),
                None => ["{'@value':'s','@language':'en'}", "{'@value':{'a':1},'@type':'@json'}"][lit - lits.len()].to_string(),
            };
            let ty = |i: usize| [None, Some("http://e/t1"), Some("http://e/t2")][i].map(crate::imp::iri);
            // a null value cannot be read from JSON
            let mut v: Value<IriBuf> = if start.contains(":null") { Value::null() } else { object(&j(&start)).into_value_inner() };
            let literal = lit < lits.len();
            let mut t = 0;
            class = hash(&start);
            for _ in 0..depth {
                let (k, x) = (ch.pick(3), ch.pick(3));
                match k {
                    0 => {
                        let r = v.set_literal_type(ty(x));
                        c.ok("set_literal_type", r == if literal { ty(t) } else { None }, || format!("{log:?}"));
                        t = x
                    }
                    1 => {
                        let mut seen = None;
                        v.map_literal_type(|o| {
                            seen = Some(o);
                            ty(x)
                        });
                        c.ok("map_literal_type", seen == literal.then(|| ty(t)), || format!("{log:?}"));
                        t = x
                    }
                    _ => break,
                }
                log.push(format!("type {k} {x}"));
                c.ok("literal_type", v.literal_type().cloned() == if literal { ty(t) } else { None }, || format!("{start} {log:?}"));
                c.ok("as_literal", v.as_literal().map(|(_, t)| t.cloned()) == literal.then(|| ty(t)), || format!("{start} {log:?}"));
                if !start.contains(":null") {
                    let mut want = j(&start);
                    if let (true, Some(t), J::Obj(o)) = (literal, ty(t), &mut want) {
                        o.push(("@type".into(), J::s(t.as_str())))
                    }
                    let o: Obj = Indexed::none(Object::Value(v.clone()));
                    c.ok("value", canon(&json(o.clone())) == canon(&want), || format!("{start} {log:?}"));
                    c.ok("equal to a new one", object(&want) == o && hash_of(&object(&want)) == hash_of(&o), || format!("{want:?}"));
                    views(&o, &want, &mut c);
                }
            }
        }
        _ => {
            // a list in an index
            let mut o: Indexed<Object<IriBuf, BlankIdBuf>> = object(&j("{'@list':[]}"));
            let mut m: Vec<usize> = vec![];
            let mut index: Option<&str> = None;
            class = 2;
            for _ in 0..depth {
                let k = ch.pick(11);
                log.push(format!("{k}"));
                match k {
                    0..=3 => {
                        let i = [0, 4, 5, 7][k];
                        o.as_list_mut().unwrap().push(pool()[i].clone());
                        m.push(i)
                    }
                    4 => {
                        let r = o.as_list_mut().unwrap().pop();
                        c.ok("pop", r.map(json) == m.pop().map(|i| pool_json()[i].clone()), || format!("{log:?}"));
                    }
                    5 | 6 => {
                        index = [None, Some("i")][k - 5];
                        o.set_index(index.map(|s| s.to_string()));
                    }
                    7 => {
                        let (v, i) = o.into_parts();
                        c.ok("into_parts", i.as_deref() == index, || format!("{log:?}"));
                        o = Indexed::new(v, i);
                    }
                    8 => o = o.into_indexed_list().unwrap().map_inner(Object::List),
                    9 => {
                        o = o.map_inner(|o| {
                            let mut l = o.into_list().unwrap();
                            l.as_mut_slice().reverse();
                            Object::List(l)
                        });
                        m.reverse()
                    }
                    _ => {
                        log.pop();
                        break;
                    }
                }
                let list: Vec<J> = m.iter().map(|i| pool_json()[*i].clone()).collect();
                let mut want = J::o(&[("@list", J::Arr(list))]);
                if let (Some(i), J::Obj(o)) = (index, &mut want) {
                    o.push(("@index".into(), J::s(i)))
                }
                c.ok("list", canon(&json(o.clone())) == canon(&want), || format!("{log:?}: {:?}", json(o.clone())));
                c.ok("index", o.index() == index, || format!("{log:?}"));
                let l = o.as_list().unwrap();
                c.ok("len", l.len() == m.len() && l.is_empty() == m.is_empty() && l.iter().count() == m.len() && l.as_slice().len() == m.len(), || format!("{log:?}"));
                c.ok("equal to a new one", object(&want) == o && hash_of(&object(&want)) == hash_of(&o), || format!("{log:?}"));
                views(&o, &want, &mut c);
            }
        }
    }
    ch.describe(|| log.join("; "));
    Report { steps: 1 + log.len() as u64, class: hash(&(class, &log)), trivial: false, verdict: c.0.map_or(V::Ok, V::Bad) }
}

trait IntoValue {
    fn into_value_inner(self) -> Value<IriBuf>;
}
impl IntoValue for Obj {
    fn into_value_inner(self) -> Value<IriBuf> {
        self.into_inner().into_value().unwrap()
    }
}

/// What the accessors of an object and the list of its entries show, against its JSON.
fn views(o: &Obj, x: &J, c: &mut Check) {
    let keys: BTreeSet<&str> = match x {
        J::Obj(e) => e.iter().map(|(k, _)| k.as_str()).collect(),
        _ => return,
    };
    let d = || format!("{x:?}");
    let mut seen = BTreeSet::new();
    let it = o.entries();
    c.ok("number of entries", it.len() == keys.len(), || format!("{} in {x:?}", it.len()));
    let mut left = keys.len();
    let mut again = o.entries();
    for e in it {
        c.ok("length of the entries", again.len() == left, d);
        again.next();
        left = left.saturating_sub(1);
        let k = e.key();
        let s = k.as_str().to_string();
        let in_voc: &str = k.into_ref_with(&());
        c.ok("name of an entry", in_voc == s && k.into_str() == s && e.into_key().as_str() == s && e.into_key_value().0.as_str() == s, || format!("{in_voc} and {s} in {x:?}"));
        c.ok("keyword of an entry", k.into_keyword().map(|k| k.into_str()) == s.starts_with('@').then_some(s.as_str()) && k.as_keyword() == k.into_keyword(), || s.clone());
        seen.insert(s);
    }
    c.ok("entries", seen.iter().map(|s| s.as_str()).collect::<BTreeSet<_>>() == keys, || format!("{seen:?} in {x:?}"));

    let value = x.get("@value");
    let is_node = value.is_none() && !x.has("@list");
    c.ok("kind", o.is_value() == value.is_some() && o.is_list() == x.has("@list") && o.is_node() == is_node, d);
    c.ok("as kind", o.as_value().is_some() == o.is_value() && o.as_list().is_some() == o.is_list() && o.as_node().is_some() == o.is_node(), d);
    let cl = || o.clone();
    c.ok("into kind", cl().into_inner().into_value().is_some() == o.is_value() && cl().into_inner().into_list().is_some() == o.is_list() && cl().into_inner().into_node().is_some() == o.is_node(), d);
    c.ok("into indexed kind", cl().into_indexed_value().map(|v| v.index().map(|s| s.to_string())) == o.is_value().then(|| o.index().map(|s| s.to_string())) && cl().into_indexed_list().map(|v| v.index().map(|s| s.to_string())) == o.is_list().then(|| o.index().map(|s| s.to_string())) && cl().into_indexed_node().map(|v| v.index().map(|s| s.to_string())) == o.is_node().then(|| o.index().map(|s| s.to_string())), d);
    let node_id = if is_node { x.get("@id").and_then(|i| i.as_str()) } else { None };
    let json_ty = x.get("@type") == Some(&J::s("@json"));
    let text = match value {
        Some(_) if json_ty => None,
        Some(J::Str(s)) => Some(s.as_str()),
        _ => node_id,
    };
    c.ok("as_str", o.as_str() == text, || format!("{:?} for {x:?}", o.as_str()));
    c.ok("as_iri", o.as_iri().map(|i| i.as_str()) == node_id.filter(|i| Iri::new(*i).is_ok()), d);
    c.ok("id", o.id().map(|i| i.as_str()) == node_id, d);
    c.ok("as_bool", o.as_bool() == value.filter(|_| !json_ty).and_then(|v| if let J::Bool(b) = v { Some(*b) } else { None }), d);
    c.ok("as_number", o.as_number().is_some() == (!json_ty && matches!(value, Some(J::Num(_)))), d);
    c.ok("language", o.language().map(|l| l.to_string()).as_deref() == value.and(x.get("@language")).and_then(|l| l.as_str()), d);
    if let Some(v) = o.as_value() {
        c.ok("direction", v.direction().map(|l| l.as_str()) == x.get("@direction").and_then(|l| l.as_str()), d);
        let ty = v.typ().map(|t| match t {
            json_ld_core::object::value::TypeRef::Json => "@json".to_string(),
            json_ld_core::object::value::TypeRef::Id(i) => i.to_string(),
        });
        c.ok("type of a value", ty.as_deref() == x.get("@type").and_then(|t| t.as_str()), d);
        if let Some((l, _)) = v.as_literal() {
            let ok = match (l, value.unwrap()) {
                (Literal::Null, J::Null) => true,
                (Literal::Boolean(a), J::Bool(b)) => a == b,
                (Literal::String(a), J::Str(b)) => a.as_str() == b,
                (Literal::Number(_), J::Num(_)) => true,
                _ => false,
            };
            c.ok("literal", ok, d)
        }
    }
    let mut types: Vec<String> = o.types().map(|t: TypeRef<IriBuf, BlankIdBuf>| t.as_str().to_string()).collect();
    let mut want: Vec<String> = x.get("@type").map(|t| t.clone().arrayify().iter().map(|t| t.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    types.sort();
    want.sort();
    c.ok("types", types == want, || format!("{types:?} for {x:?}"));
    let only_graph = is_node && x.has("@graph") && keys.iter().all(|k| ["@graph", "@id", "@index"].contains(k));
    c.ok("is_graph", o.is_graph() == only_graph, d);
    c.ok("into_unnamed_graph", cl().into_unnamed_graph().is_ok() == (is_node && keys.len() == 1 && x.has("@graph")), d);
    c.ok("inner", o.inner() == &cl().into_inner() && **o == *o.as_ref(), d);
}

fn parts(o: &Obj, f: &mut dyn FnMut(&Obj)) {
    f(o);
    let node = |n: &N| n.clone().map_inner(Object::node);
    match o.inner() {
        Object::List(l) => l.iter().for_each(|o| parts(o, f)),
        Object::Node(n) => {
            n.properties().iter().for_each(|(_, v)| v.iter().for_each(|o| parts(o, f)));
            n.reverse_properties().into_iter().flatten().for_each(|(_, v)| v.iter().for_each(|n| parts(&node(n), f)));
            n.graph().into_iter().flatten().for_each(|o| parts(o, f));
            n.included().into_iter().flatten().for_each(|n| parts(&node(n), f));
        }
        _ => {}
    }
}

fn all_views(ch: &mut Chooser, input: &J) -> Report {
    ch.describe(|| format!("doc={input:?}"));
    let e = expand::expand_document(&Env::new(Default::default(), false), input, None, None, false);
    let d = e.ok().and_then(|e| parse_expanded(&e).ok());
    let Some(d) = d else { return Report { steps: 1, class: 0, trivial: true, verdict: V::Ok } };
    let mut c = Check(None);
    let mut n = 0;
    for o in &d {
        parts(o, &mut |o| {
            n += 1;
            views(o, &json(o.clone()), &mut c)
        })
    }
    Report { steps: n, class: hash(&format!("{:?}", doc_to_json(d))), trivial: n == 0, verdict: c.0.map_or(V::Ok, V::Bad) }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as usize;
    Prop {
        id: "C17",
        level: "model_checking",
        rule: "every sequence of calls up to the given length on a node, a document, a value, a language string and a list; the documents of C05 for the views",
        assumptions: &[],
        families: vec![
            family("calls on a node", 0, move |ch| node_calls(ch, 3)),
            family("calls on a document", 0, move |ch| document_calls(ch, 4 + t)),
            family("calls on values and lists", 0, move |ch| value_calls(ch, 4 + t)),
            family("views of a nested document", 0, |ch| {
                let d = gen::nest(ch, 3);
                all_views(ch, &d)
            }),
            family("views of a document", 3 + t as u32, |ch| {
                let d = gen::fdoc(ch);
                all_views(ch, &d)
            }),
        ],
    }
}
