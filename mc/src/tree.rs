//! Linked data values as trees: what a user type presents to the serializer.
use crate::imp::{iri, to_id};
use crate::json::J;
use crate::refm::rdf::XSD;
use json_ld::rdf_types::{LiteralType, Term};
use linked_data::{
    CowRdfTerm, GraphVisitor, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject, PredicateObjectsVisitor, RdfLiteral, ResourceInterpretation, SubjectVisitor, Visitor,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Pred(String, Vec<Tree>),
    Rev(String, Vec<Tree>),
    Graph(Vec<Tree>),
    Include(Tree),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Node(Option<String>, Vec<Entry>),
    Lit(J),
}

#[derive(Clone, Debug)]
pub struct Data {
    pub default: Vec<Tree>,
    pub named: Vec<(Option<String>, Vec<Tree>)>,
}

fn term(id: &str) -> CowRdfTerm<'static, ()> {
    CowRdfTerm::Owned(Term::Id(to_id(id)))
}

fn literal(l: &J) -> RdfLiteral<()> {
    let s = |k: &str| l.get(k).map(|v| v.as_str().unwrap());
    let v = s("@value").unwrap();
    let t = s("@type").unwrap();
    if let Some(lang) = s("@language") {
        return RdfLiteral::Any(v.to_string(), LiteralType::LangString(langtag::LangTagBuf::new(lang.to_string()).unwrap()));
    }
    // a native value
    if l.has("native") {
        if let Some(v) = linked_data::xsd_types::Datatype::from_iri(&iri(t)).and_then(|t| t.parse(v).ok()) {
            return RdfLiteral::Xsd(v);
        }
        if let (true, Ok(v)) = (t.ends_with("JSON"), J::parse(v)) {
            return RdfLiteral::Json(crate::json::to_impl(&v));
        }
    }
    RdfLiteral::Any(v.to_string(), LiteralType::Any(iri(t)))
}

impl LinkedDataResource for Tree {
    fn interpretation(&self, _: &mut (), _: &mut ()) -> ResourceInterpretation<'_, (), ()> {
        ResourceInterpretation::Uninterpreted(match self {
            Tree::Node(id, _) => id.as_deref().map(term),
            Tree::Lit(l) => Some(CowRdfTerm::Owned(Term::Literal(literal(l)))),
        })
    }
}

struct Pred<'a>(&'a str);

impl LinkedDataResource for Pred<'_> {
    fn interpretation(&self, _: &mut (), _: &mut ()) -> ResourceInterpretation<'_, (), ()> {
        ResourceInterpretation::Uninterpreted(Some(term(self.0)))
    }
}

struct Objects<'a>(&'a [Tree]);

impl LinkedDataPredicateObjects for Objects<'_> {
    fn visit_objects<S: PredicateObjectsVisitor<(), ()>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
        for t in self.0 {
            v.object(t)?
        }
        v.end()
    }
}

struct Graph<'a>(Option<&'a str>, &'a [Tree]);

impl LinkedDataGraph<(), ()> for Graph<'_> {
    fn visit_graph<S: GraphVisitor<(), ()>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
        for t in self.1 {
            v.subject(t)?
        }
        v.end()
    }
}

impl LinkedDataResource for Graph<'_> {
    fn interpretation(&self, _: &mut (), _: &mut ()) -> ResourceInterpretation<'_, (), ()> {
        ResourceInterpretation::Uninterpreted(self.0.map(term))
    }
}

impl LinkedDataSubject for Tree {
    fn visit_subject<S: SubjectVisitor<(), ()>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
        if let Tree::Node(_, entries) = self {
            for e in entries {
                match e {
                    Entry::Pred(p, o) => v.predicate(&Pred(p), &Objects(o))?,
                    Entry::Rev(p, o) => v.reverse_predicate(&Pred(p), &Objects(o))?,
                    Entry::Graph(g) => v.graph(&Graph(None, g))?,
                    Entry::Include(t) => v.include(t)?,
                }
            }
        }
        v.end()
    }
}

impl LinkedData for Data {
    fn visit<S: Visitor<(), ()>>(&self, mut v: S) -> Result<S::Ok, S::Error> {
        v.default_graph(&Graph(None, &self.default))?;
        for (id, g) in &self.named {
            v.named_graph(&Graph(id.as_deref(), g))?
        }
        v.end()
    }
}

/// The dataset of a value, by definition.
pub fn quads(d: &Data) -> Vec<J> {
    struct W(Vec<J>, usize);
    impl W {
        fn name(&mut self, id: &Option<String>) -> String {
            self.1 += 1;
            id.clone().unwrap_or_else(|| format!("_:fresh{}", self.1))
        }
        fn push(&mut self, g: &str, s: J, p: &str, o: J) {
            self.0.push(J::o(&[("g", J::s(g)), ("s", s), ("p", J::s(p)), ("o", o)]))
        }
        fn tree(&mut self, g: &str, t: &Tree) -> J {
            match t {
                Tree::Lit(l) => {
                    let mut r = l.clone();
                    r.remove("native");
                    if let RdfLiteral::Xsd(v) = literal(l) {
                        r.set("@value", J::s(&v.to_string()))
                    }
                    r
                }
                Tree::Node(id, entries) => {
                    let name = self.name(id);
                    let s = J::s(&name);
                    for e in entries {
                        match e {
                            Entry::Pred(p, os) => {
                                for o in os {
                                    let o = self.tree(g, o);
                                    self.push(g, s.clone(), p, o)
                                }
                            }
                            Entry::Rev(p, os) => {
                                for o in os {
                                    let o = self.tree(g, o);
                                    self.push(g, o, p, s.clone())
                                }
                            }
                            Entry::Graph(ts) => ts.iter().for_each(|t| {
                                self.tree(&name, t);
                            }),
                            Entry::Include(t) => {
                                self.tree(g, t);
                            }
                        }
                    }
                    s
                }
            }
        }
    }
    let mut w = W(vec![], 0);
    for t in &d.default {
        w.tree("", t);
    }
    for (id, g) in &d.named {
        let name = w.name(id);
        for t in g {
            w.tree(&name, t);
        }
    }
    w.0
}

pub fn serialize(d: &Data) -> Result<J, String> {
    json_ld::ser::serialize(d).map(crate::imp::doc_to_json).map_err(|e| format!("{e:?}"))
}

pub fn xsd(v: &str, t: &str, native: bool) -> Tree {
    let mut l = crate::refm::rdf::lit(v, &format!("{XSD}{t}"), None);
    if native {
        l.set("native", J::Bool(true))
    }
    Tree::Lit(l)
}
