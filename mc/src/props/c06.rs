//! C06: the RDF dataset of a document is the one of the recommendation.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{self, Case, RdfVia};
use crate::json::{j, J};
use crate::refm::flatten::{canon, NodeMap};
use crate::refm::rdf::{to_rdf, Dir};

/// Merges the blank nodes that represent the same direction-tagged string.
///
/// Equal values of a property are merged in a node map, not in an expanded document, in which two
/// equal direction-tagged strings are two blank nodes.
fn merge_compound(quads: &J) -> J {
    let mut q: Vec<J> = quads.as_arr().unwrap().clone();
    let dir = J::s("http://www.w3.org/1999/02/22-rdf-syntax-ns#direction");
    let about = |q: &[J], b: &J| {
        let f = |k: &str, o: &str| {
            q.iter()
                .filter(|t| t.get(k) == Some(b))
                .map(|t| format!("{:?} {:?} {:?}", t.get("g"), t.get("p"), t.get(o)))
                .collect::<std::collections::BTreeSet<_>>()
        };
        (f("s", "o"), f("o", "s"))
    };
    let nodes: Vec<J> = q.iter().filter(|t| t.get("p") == Some(&dir)).map(|t| t.get("s").unwrap().clone()).collect();
    let mut seen = std::collections::BTreeSet::new();
    let drop: Vec<J> = nodes.into_iter().filter(|b| !seen.insert(about(&q, b))).collect();
    q.retain(|t| !drop.iter().any(|b| t.get("s") == Some(b) || t.get("o") == Some(b)));
    J::Arr(q)
}

pub fn compare(ch: &mut Chooser, case: &Case, dir: Dir, generalized: bool) -> Report {
    ch.describe(|| format!("doc={:?} direction={dir:?} generalized={generalized}", case.doc));
    let Ok(expanded) = imp::expand(case) else {
        return Report { steps: 1, class: 0, trivial: true, verdict: V::Ok };
    };
    let mut steps = 0;
    let spec = canon(&to_rdf(&expanded, dir, generalized, &mut steps));
    let conflict = NodeMap::of(&expanded).conflict;
    let mut bad = None;
    let mut class = 0;
    for via in [RdfVia::Processor, RdfVia::Flattened, RdfVia::NodeMap] {
        let r = imp::to_rdf(case, via, dir, generalized).map(|d| canon(&d));
        let r = if via == RdfVia::Processor && dir == Dir::Compound { imp::to_rdf(case, via, dir, generalized).map(|d| canon(&merge_compound(&d))) } else { r };
        class = hash(&format!("{r:?}"));
        let ok = match &r {
            Ok(d) => *d == spec,
            Err(e) => conflict && e == "conflicting indexes",
        };
        if !ok && bad.is_none() {
            bad = Some(format!("{via:?}\nspec: {spec:?}\nimpl: {r:?}"))
        }
    }
    let trivial = matches!(&spec, J::Arr(a) if a.is_empty());
    Report { steps, class, trivial, verdict: bad.map_or(V::Ok, V::Bad) }
}

const DIRS: [Dir; 3] = [Dir::None, Dir::I18n, Dir::Compound];

pub fn prop(thorough: bool) -> Prop {
    Prop {
        id: "C06",
        level: "model_checking",
        rule: "documents are enumerated as graphs of nodes, and literals as a product of lexical values, types, languages, directions and positions in properties and nested lists",
        assumptions: &[],
        families: {
            let body = |thin: bool| {
                move |ch: &mut Chooser| {
                    ch.thin = thin;
                    let case = Case::new(gen::fdoc(ch));
                    let dir = *ch.dev_of(&DIRS);
                    let generalized = ch.dev(2) == 1;
                    compare(ch, &case, dir, generalized)
                }
            };
            let lits = |ch: &mut Chooser| {
                let mut v = J::obj();
                v.set("@value", ch.of(&gen::a_rdf_lex()).clone());
                match ch.pick(gen::RDF_TYPES.len() + gen::RDF_LANGS.len()) {
                    0 => {}
                    k if k < gen::RDF_TYPES.len() => v.set("@type", J::s(gen::RDF_TYPES[k])),
                    k => v.set("@language", J::s(gen::RDF_LANGS[k - gen::RDF_TYPES.len()])),
                }
                match ch.pick(3) {
                    0 => {}
                    1 => v.set("@direction", J::s("rtl")),
                    _ => v.set("@direction", J::s("ltr")),
                }
                let other = j("{'@value':'w'}");
                let list = |l: Vec<J>| J::o(&[("@list", J::Arr(l))]);
                let p = match ch.pick(6) {
                    0 => v,
                    1 => list(vec![v]),
                    2 => list(vec![v.clone(), other]),
                    3 => list(vec![other.clone(), v, other]),
                    4 => list(vec![list(vec![v]), other]),
                    _ => J::Arr(vec![v.clone(), list(vec![other, v])]),
                };
                let doc = J::Arr(vec![J::o(&[("@id", J::s("x:s")), ("x:p", p)])]);
                let dir = *ch.of(&DIRS);
                compare(ch, &Case::new(doc), dir, false)
            };
            let lists = |ch: &mut Chooser| {
                fn list(ch: &mut Chooser, depth: usize) -> J {
                    let n = ch.pick(if depth == 0 { 3 } else { 4 });
                    let mut l = vec![];
                    for _ in 0..n {
                        let k = ch.pick(if depth == 0 { 5 } else { 6 });
                        l.push(match k {
                            0 => j("{'@value':'v'}"),
                            1 => j("{'@id':'x:o'}"),
                            2 => j("{'@id':'rel'}"),
                            3 => j("{'@value':'v','@direction':'rtl'}"),
                            4 => j("{'x:q':[{'@list':[{'@value':'n'}]}]}"),
                            _ => list(ch, depth - 1),
                        })
                    }
                    J::o(&[("@list", J::Arr(l))])
                }
                let l = list(ch, 1);
                let doc = J::Arr(vec![J::o(&[("@id", J::s("x:s")), ("x:p", l)])]);
                let mut case = Case::new(doc);
                case.base = None;
                compare(ch, &case, Dir::Compound, false)
            };
            let nested = |ch: &mut Chooser| {
                let case = Case::new(gen::nest(ch, 3));
                compare(ch, &case, Dir::None, false)
            };
            let mut f = vec![family("nested", 0, nested), family("documents", 4, body(false)), family("literals", 0, lits), family("lists", 0, lists)];
            if thorough {
                f.push(family("documents, half alphabets", 5, body(true)));
            }
            f
        },
    }
}
