//! Serialization of RDF as JSON-LD, after the recommendation (native types, no direction).
use super::rdf::{RDF, XSD};
use crate::json::J;
use std::collections::{BTreeMap, BTreeSet};

fn k(s: &str) -> String {
    format!("{RDF}{s}")
}

#[derive(Default, Clone)]
struct Node {
    types: Vec<J>,
    props: BTreeMap<String, Vec<J>>,
    /// nodes referencing this one: (node, property, position), only for blank nodes and rdf:nil
    usages: Vec<(String, String, usize)>,
}

pub fn is_literal(o: &J) -> bool {
    matches!(o, J::Obj(_))
}

/// The value of a literal, in its native form when there is one.
pub fn value(o: &J) -> J {
    let v = o.get("@value").unwrap();
    let s = v.as_str().unwrap();
    let ty = o.get("@type").unwrap().as_str().unwrap();
    let mut r = J::obj();
    if let Some(l) = o.get("@language") {
        r.set("@value", v.clone());
        r.set("@language", l.clone());
        return r;
    }
    if ty == k("JSON") {
        if let Ok(p) = J::parse(s) {
            r.set("@value", p);
            r.set("@type", J::s("@json"));
            return r;
        }
    }
    r.set("@value", v.clone());
    if ty != format!("{XSD}string") {
        r.set("@type", J::s(ty))
    }
    r
}

/// `quads`: array of {g,s,p,o}. Returns the expanded document.
pub fn from_rdf(quads: &[J]) -> J {
    let mut graphs: BTreeMap<String, BTreeMap<String, Node>> = BTreeMap::new();
    graphs.insert(String::new(), BTreeMap::new());
    // blank node -> every use as an object, in any graph
    let mut uses: BTreeMap<String, usize> = BTreeMap::new();
    for q in quads {
        let f = |n: &str| q.get(n).unwrap().as_str().unwrap_or_default().to_string();
        let (g, s, p) = (f("g"), f("s"), f("p"));
        let o = q.get("o").unwrap();
        if !g.is_empty() {
            graphs.get_mut("").unwrap().entry(g.clone()).or_default();
        }
        let graph = graphs.entry(g).or_default();
        graph.entry(s.clone()).or_default();
        if !is_literal(o) {
            let id = o.as_str().unwrap().to_string();
            graph.entry(id.clone()).or_default();
            if p == k("type") {
                let n = graph.get_mut(&s).unwrap();
                if !n.types.contains(o) {
                    n.types.push(o.clone())
                }
                continue;
            }
            let v = J::o(&[("@id", o.clone())]);
            let props = graph.get_mut(&s).unwrap().props.entry(p.clone()).or_default();
            if !props.contains(&v) {
                props.push(v);
                let at = props.len() - 1;
                *uses.entry(id.clone()).or_default() += 1;
                graph.get_mut(&id).unwrap().usages.push((s, p, at));
            }
        } else {
            let v = value(o);
            let props = graph.get_mut(&s).unwrap().props.entry(p).or_default();
            if !props.contains(&v) {
                props.push(v)
            }
        }
    }
    let nil = k("nil");
    let (first, rest, list) = (k("first"), k("rest"), k("List"));
    // (graph, node, property, position) of the head of a list -> its nodes
    let mut lists: BTreeMap<(String, String, String, usize), Vec<String>> = BTreeMap::new();
    let mut removed = BTreeSet::new();
    for (g, graph) in &graphs {
        let Some(n) = graph.get(&nil) else { continue };
        for (s, p, at) in n.usages.clone() {
            let (mut s, mut p, mut at) = (s, p, at);
            let mut nodes = vec![];
            loop {
                let n = &graph[&s];
                let well_formed = p == rest
                    && s.starts_with("_:")
                    && uses.get(&s) == Some(&1)
                    && n.usages.len() == 1
                    && n.props.len() == 2
                    && n.props.get(&first).is_some_and(|v| v.len() == 1)
                    && n.props.get(&rest).is_some_and(|v| v.len() == 1)
                    && n.types.iter().all(|t| t.as_str() == Some(&list));
                if !well_formed {
                    break;
                }
                nodes.push(s.clone());
                removed.insert((g.clone(), s.clone()));
                (s, p, at) = n.usages[0].clone();
            }
            nodes.reverse();
            lists.insert((g.clone(), s, p, at), nodes);
        }
    }
    let r = Render { graphs, lists, removed };
    let mut out = vec![];
    for id in r.graphs[""].keys() {
        let Some(mut n) = r.node("", id) else { continue };
        if let Some((name, g)) = r.graphs.get_key_value(id) {
            n.set("@graph", J::Arr(g.keys().filter_map(|id| r.node(name, id)).filter(|n| n.as_obj().unwrap().len() > 1).collect()))
        }
        if n.as_obj().unwrap().len() > 1 {
            out.push(n)
        }
    }
    J::Arr(out)
}

type Graph = BTreeMap<String, Node>;

struct Render {
    graphs: BTreeMap<String, Graph>,
    lists: BTreeMap<(String, String, String, usize), Vec<String>>,
    removed: BTreeSet<(String, String)>,
}

impl Render {
    fn value(&self, g: &str, s: &str, p: &str, at: usize) -> J {
        match self.lists.get(&(g.to_string(), s.to_string(), p.to_string(), at)) {
            Some(nodes) => J::o(&[("@list", J::Arr(nodes.iter().map(|n| self.value(g, n, &k("first"), 0)).collect()))]),
            None => self.graphs[g][s].props[p][at].clone(),
        }
    }

    fn node(&self, g: &str, s: &str) -> Option<J> {
        if self.removed.contains(&(g.to_string(), s.to_string())) {
            return None;
        }
        let n = &self.graphs[g][s];
        let mut r = J::o(&[("@id", J::s(s))]);
        if !n.types.is_empty() {
            r.set("@type", J::Arr(n.types.clone()))
        }
        for (p, v) in &n.props {
            r.set(p, J::Arr((0..v.len()).map(|i| self.value(g, s, p, i)).collect()))
        }
        Some(r)
    }
}
