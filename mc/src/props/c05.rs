//! C05: flattening agrees with the recommendation.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{self, Case, MapLoader};
use crate::json::J;
use crate::refm::flatten::{canon, drop_list_index, NodeMap};

fn sorted_by_id(nodes: &J) -> bool {
    let ids: Vec<&str> = nodes.as_arr().unwrap().iter().map(|n| n.get("@id").and_then(|i| i.as_str()).unwrap_or("")).collect();
    ids.windows(2).all(|w| w[0] < w[1])
}

/// Every node of a flattened document is identified, declared once per graph, and every node object
/// in value position is a reference.
fn invariants(doc: &J) -> Result<(), String> {
    let nodes = doc.as_arr().unwrap();
    for n in nodes {
        if n.get("@id").and_then(|i| i.as_str()).is_none() {
            return Err(format!("node without identifier: {n:?}"));
        }
        if nodes.iter().filter(|m| m.get("@id") == n.get("@id")).count() > 1 {
            return Err(format!("node declared twice: {n:?}"));
        }
        for (k, v) in n.as_obj().unwrap() {
            match k.as_str() {
                "@id" | "@type" | "@index" => {}
                "@graph" => {
                    if v.as_arr().map_or(true, |a| a.iter().any(|x| x.has("@graph"))) {
                        return Err("nested graph".into());
                    }
                    invariants(v)?
                }
                "@reverse" | "@included" => return Err(format!("{k} in a flattened node")),
                _ => {
                    fn check(v: &J) -> Result<(), String> {
                        for x in v.arrayify() {
                            if let Some(l) = x.get("@list") {
                                check(l)?
                            } else if !x.has("@value") && x.as_obj().map_or(true, |o| o.len() != 1 || o[0].0 != "@id") {
                                return Err(format!("{x:?} is not a node reference"));
                            }
                        }
                        Ok(())
                    }
                    check(v)?
                }
            }
        }
    }
    Ok(())
}

pub fn compare(ch: &mut Chooser, case: &Case) -> Report {
    ch.describe(|| format!("doc={:?}", case.doc));
    let l = MapLoader::new(&case.remotes);
    let Ok(d) = imp::expand_doc(case, &l) else {
        return Report { steps: 1, class: 0, trivial: true, verdict: V::Ok };
    };
    let expanded = imp::doc_to_json(d.clone());
    let m = NodeMap::of(&expanded);
    let steps = m.steps;
    let spec = if m.conflict { Err("conflicting indexes".to_string()) } else { Ok(canon(&drop_list_index(&m.flatten()))) };
    let mut bad = None;
    let mut check = |what: &str, got: &Result<J, String>| {
        let g = got.as_ref().map(|d| canon(&drop_list_index(d)));
        let ok = match (&spec, &g) {
            (Ok(a), Ok(b)) => a == b,
            (a, b) => a.is_err() == b.is_err(),
        };
        if !ok && bad.is_none() {
            bad = Some(format!("{what}\nspec: {spec:?}\nimpl: {g:?}"))
        }
        if let (Ok(d), None) = (got, &bad) {
            if let Err(e) = invariants(d) {
                bad = Some(format!("{what}: {e}\nimpl: {d:?}"))
            }
        }
    };
    check("unordered", &imp::flatten_unordered(d));
    let mut class = 0;
    for ordered in [false, true] {
        let r = imp::flatten(&Case { ordered, ..case.clone() }, None);
        check(if ordered { "ordered" } else { "not ordered" }, &r);
        if let (Ok(r), true) = (&r, ordered) {
            let graphs = r.as_arr().unwrap().iter().filter_map(|n| n.get("@graph")).all(sorted_by_id);
            if !(sorted_by_id(r) && graphs) {
                return Report { steps, class, trivial: false, verdict: V::Bad(format!("not ordered by @id: {r:?}")) };
            }
        }
        class = hash(&format!("{r:?}"));
    }
    let trivial = matches!(&spec, Ok(J::Arr(a)) if a.is_empty());
    Report { steps, class, trivial, verdict: bad.map_or(V::Ok, V::Bad) }
}

pub fn prop(thorough: bool) -> Prop {
    Prop {
        id: "C05",
        level: "model_checking",
        rule: "documents are enumerated as graphs of nodes: identifiers shared, missing, blank or invalid, types, indexes, values, lists, reverse properties, named graphs and included nodes, nested twice",
        assumptions: &[],
        families: {
            let body = |thin: bool| {
                move |ch: &mut Chooser| {
                    ch.thin = thin;
                    let case = Case::new(gen::fdoc(ch));
                    compare(ch, &case)
                }
            };
            let nested = |ch: &mut Chooser| {
                let case = Case::new(gen::nest(ch, 3));
                compare(ch, &case)
            };
            let mut f = vec![family("nested", 0, nested), family("documents", 4, body(false))];
            if thorough {
                f.push(family("documents, half alphabets", 5, body(true)));
            }
            f
        },
    }
}
