//! Node map generation and flattening, after the recommendation.
use crate::iri::is_blank;
use crate::json::J;
use std::collections::{BTreeMap, BTreeSet};

pub type Graph = Vec<(String, J)>;

pub struct NodeMap {
    /// `""` is the default graph.
    pub graphs: Vec<(String, Graph)>,
    issued: BTreeMap<String, String>,
    counter: usize,
    pub steps: u64,
    /// Two declarations of a node with different indexes.
    pub conflict: bool,
}

impl Default for NodeMap {
    fn default() -> Self {
        NodeMap { graphs: vec![("".into(), vec![])], issued: BTreeMap::new(), counter: 0, steps: 0, conflict: false }
    }
}

enum Place<'a> {
    Top,
    Property(&'a str, &'a str),
    List(&'a mut Vec<J>),
    /// Reverse: (object id, property)
    Reverse(&'a str, &'a str),
}

impl NodeMap {
    pub fn of(doc: &J) -> NodeMap {
        let mut m = NodeMap::default();
        m.gen(doc, "", &mut Place::Top);
        m
    }

    pub fn fresh(&mut self) -> String {
        self.counter += 1;
        format!("_:r{}", self.counter - 1)
    }

    fn issue(&mut self, id: &str) -> String {
        if !is_blank(id) {
            return id.into();
        }
        if let Some(i) = self.issued.get(id) {
            return i.clone();
        }
        let f = self.fresh();
        self.issued.insert(id.into(), f.clone());
        f
    }

    fn graph(&mut self, g: &str) -> &mut Graph {
        if !self.graphs.iter().any(|(n, _)| n == g) {
            self.graphs.push((g.into(), vec![]))
        }
        &mut self.graphs.iter_mut().find(|(n, _)| n == g).unwrap().1
    }

    fn node(&mut self, g: &str, id: &str) -> &mut J {
        let graph = self.graph(g);
        if !graph.iter().any(|(n, _)| n == id) {
            graph.push((id.into(), J::o(&[("@id", J::s(id))])))
        }
        &mut graph.iter_mut().find(|(n, _)| n == id).unwrap().1
    }

    /// Adds a value; `unique`: only if there is no equal value.
    fn add(&mut self, g: &str, subject: &str, property: &str, v: J, unique: bool) {
        let n = self.node(g, subject);
        if !n.has(property) {
            n.set(property, J::Arr(vec![]))
        }
        if let Some(J::Arr(a)) = n.get_mut(property) {
            if !unique || !a.iter().any(|x| x.sort_keys() == v.sort_keys()) {
                a.push(v)
            }
        }
    }

    fn gen(&mut self, e: &J, g: &str, place: &mut Place) {
        self.steps += 1;
        if let J::Arr(a) = e {
            for x in a {
                self.gen(x, g, place)
            }
            return;
        }
        if e.has("@value") {
            let mut e = e.clone();
            if let Some(J::Str(t)) = e.get("@type").cloned() {
                let t = self.issue(&t);
                e.set("@type", J::Str(t))
            }
            match place {
                Place::Property(s, p) => {
                    let (s, p) = (s.to_string(), p.to_string());
                    self.add(g, &s, &p, e, true)
                }
                Place::List(l) => l.push(e),
                _ => {}
            }
            return;
        }
        if e.has("@list") {
            let mut l = vec![];
            self.gen(e.get("@list").unwrap(), g, &mut Place::List(&mut l));
            // note: the recommendation drops the @index of lists; so does the comparison
            let r = J::o(&[("@list", J::Arr(l))]);
            match place {
                Place::Property(s, p) => {
                    let (s, p) = (s.to_string(), p.to_string());
                    self.add(g, &s, &p, r, false)
                }
                Place::List(l) => l.push(r),
                _ => {}
            }
            return;
        }
        let id = match e.get("@id") {
            Some(J::Str(i)) => self.issue(i),
            _ => self.fresh(),
        };
        self.node(g, &id);
        match place {
            Place::Top => {}
            Place::Reverse(o, p) => {
                let (o, p) = (o.to_string(), p.to_string());
                self.add(g, &id, &p, J::o(&[("@id", J::Str(o))]), true)
            }
            Place::Property(s, p) => {
                let (s, p) = (s.to_string(), p.to_string());
                self.add(g, &s, &p, J::o(&[("@id", J::s(&id))]), true)
            }
            Place::List(l) => l.push(J::o(&[("@id", J::s(&id))])),
        }
        if let Some(ts) = e.get("@type") {
            for t in ts.arrayify() {
                let t = self.issue(t.as_str().unwrap());
                self.add(g, &id, "@type", J::Str(t), true)
            }
        }
        if let Some(i) = e.get("@index") {
            let n = self.node(g, &id);
            match n.get("@index") {
                Some(x) if x != i => self.conflict = true,
                _ => n.set("@index", i.clone()),
            }
        }
        if let Some(r) = e.get("@reverse") {
            for (p, vs) in r.as_obj().unwrap().clone() {
                let p = self.issue(&p);
                for v in vs.arrayify() {
                    self.gen(&v, g, &mut Place::Reverse(&id, &p))
                }
            }
        }
        if let Some(x) = e.get("@graph") {
            self.graph(&id);
            self.gen(x, &id, &mut Place::Top)
        }
        if let Some(x) = e.get("@included") {
            self.gen(x, g, &mut Place::Top)
        }
        for (p, v) in e.as_obj().unwrap() {
            if p.starts_with('@') {
                continue;
            }
            let p = self.issue(p);
            let n = self.node(g, &id);
            if !n.has(&p) {
                n.set(&p, J::Arr(vec![]))
            }
            self.gen(v, g, &mut Place::Property(&id, &p))
        }
    }

    pub fn flatten(mut self) -> J {
        let graphs = self.graphs.split_off(1);
        for (name, nodes) in graphs {
            let ns: Vec<J> = nodes.into_iter().map(|(_, n)| n).filter(|n| n.size_of_node() > 1).collect();
            self.node("", &name).set("@graph", J::Arr(ns))
        }
        J::Arr(self.graphs.pop().unwrap().1.into_iter().map(|(_, n)| n).filter(|n| n.size_of_node() > 1).collect())
    }
}

impl J {
    fn size_of_node(&self) -> usize {
        self.as_obj().map_or(0, |o| o.len())
    }
}

/// Drops the @index of list objects.
pub fn drop_list_index(d: &J) -> J {
    match d {
        J::Arr(a) => J::Arr(a.iter().map(drop_list_index).collect()),
        J::Obj(o) => {
            let list = d.has("@list");
            J::Obj(o.iter().filter(|(k, _)| !(list && k == "@index")).map(|(k, v)| (k.clone(), drop_list_index(v))).collect())
        }
        d => d.clone(),
    }
}

/// Every blank node identifier of a document: strings other than the content of literals, and keys.
fn blanks(d: &J, out: &mut BTreeSet<String>) {
    match d {
        J::Str(s) if s.starts_with("_:") => {
            out.insert(s.clone());
        }
        J::Arr(a) => a.iter().for_each(|x| blanks(x, out)),
        J::Obj(o) => {
            for (k, v) in o {
                if k.starts_with("_:") {
                    out.insert(k.clone());
                }
                if k != "@value" {
                    blanks(v, out)
                }
            }
        }
        _ => {}
    }
}

/// Renames blank nodes, sorts keys and unordered collections.
fn rename(d: &J, m: &BTreeMap<String, String>, in_list: bool) -> J {
    match d {
        J::Str(s) => match m.get(s) {
            Some(r) => J::s(r),
            None => d.clone(),
        },
        J::Arr(a) => {
            let mut a: Vec<J> = a.iter().map(|x| rename(x, m, false)).collect();
            if !in_list {
                a.sort()
            }
            J::Arr(a)
        }
        J::Obj(o) => {
            let mut o: Vec<(String, J)> = o
                .iter()
                .map(|(k, v)| {
                    let v = if k == "@value" { v.sort_keys() } else { rename(v, m, k == "@list") };
                    (m.get(k).cloned().unwrap_or(k.clone()), v)
                })
                .collect();
            o.sort();
            J::Obj(o)
        }
        d => d.clone(),
    }
}

/// Canonical form of a document up to the renaming of its blank nodes and the order of its
/// unordered collections: the least renamed document over the orders of the identifiers that
/// colour refinement does not tell apart.
pub fn canon(d: &J) -> J {
    let mut bs = BTreeSet::new();
    blanks(d, &mut bs);
    let bs: Vec<String> = bs.into_iter().collect();
    // the elements of the document in which each blank node occurs
    let near: BTreeMap<&String, J> = bs
        .iter()
        .map(|b| {
            let xs = d.arrayify().into_iter().filter(|x| {
                let mut s = BTreeSet::new();
                blanks(x, &mut s);
                s.contains(b)
            });
            (b, J::Arr(xs.collect()))
        })
        .collect();
    let c = Canon { d, bs: &bs, near };
    let colour = c.refine(bs.iter().map(|b| (b.clone(), 0)).collect());
    let mut leaves = BTreeSet::new();
    c.explore(colour, &mut leaves);
    leaves.into_iter().map(|(r, _)| r).min().unwrap()
}

type Colours = BTreeMap<String, u64>;

/// A renamed document, with the colours of its blank nodes.
type Leaf = (J, Vec<u64>);

struct Canon<'a> {
    d: &'a J,
    bs: &'a [String],
    near: BTreeMap<&'a String, J>,
}

impl Canon<'_> {
    fn refine(&self, mut colour: Colours) -> Colours {
        let distinct = |c: &Colours| c.values().collect::<BTreeSet<_>>().len();
        loop {
            let mut next = BTreeMap::new();
            for b in self.bs {
                let m = self.bs.iter().map(|x| (x.clone(), if x == b { "_:SELF".to_string() } else { format!("_:{:x}", colour[x]) })).collect();
                next.insert(b.clone(), crate::explore::hash(&(colour[b], rename(&self.near[b], &m, false))));
            }
            let done = distinct(&next) == distinct(&colour) || distinct(&next) == self.bs.len();
            colour = next;
            if done {
                return colour;
            }
        }
    }

    /// The colourings that tell each node of the first class apart, or the renamed document.
    fn split(&self, colour: &Colours) -> Result<Leaf, Vec<(String, Colours)>> {
        let mut classes: BTreeMap<u64, Vec<&String>> = BTreeMap::new();
        for (b, c) in colour {
            classes.entry(*c).or_default().push(b)
        }
        match classes.values().find(|c| c.len() > 1) {
            None => {
                let m = classes.values().enumerate().map(|(i, b)| (b[0].clone(), format!("_:c{i}"))).collect();
                Ok((rename(self.d, &m, false), classes.into_keys().collect()))
            }
            Some(class) => Err(class
                .iter()
                .map(|x| {
                    let mut c = colour.clone();
                    c.insert(x.to_string(), 1);
                    (x.to_string(), c)
                })
                .collect()),
        }
    }

    fn first_leaf(&self, colour: &Colours) -> Leaf {
        match self.split(colour) {
            Ok(l) => l,
            Err(mut c) => self.first_leaf(&self.refine(c.swap_remove(0).1)),
        }
    }

    /// A branch whose first leaf is already known is the image of another one, and so is that of a
    /// node that only has to be swapped with another one.
    fn explore(&self, colour: Colours, leaves: &mut BTreeSet<Leaf>) {
        match self.split(&colour) {
            Ok(l) => {
                leaves.insert(l);
            }
            Err(branches) => {
                let same = rename(self.d, &BTreeMap::new(), false);
                let mut seen: Vec<String> = vec![];
                for (x, c) in branches {
                    let twin = |y: &String| rename(self.d, &BTreeMap::from([(x.clone(), y.clone()), (y.clone(), x.clone())]), false) == same;
                    if seen.iter().any(twin) {
                        continue;
                    }
                    let c = self.refine(c);
                    if seen.is_empty() || !leaves.contains(&self.first_leaf(&c)) {
                        self.explore(c, leaves)
                    }
                    seen.push(x);
                }
            }
        }
    }
}
