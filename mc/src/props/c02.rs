//! C02: expansion agrees with the recommendation.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{self, Case};
use crate::json::J;
use crate::refm::{expand, Env};

pub const QUIRKS: &[&str] = &[];

pub fn model(case: &Case, quirks: &[&'static str], steps: &mut u64) -> Result<J, &'static str> {
    let mut env = Env::new(case.remotes.clone(), case.v10);
    env.quirks = quirks.to_vec();
    let r = expand::expand_document(&env, &case.doc, case.base.as_deref(), case.expand_context.as_ref(), case.ordered);
    *steps += *env.steps.borrow();
    r.map(|d| canon(case, &d))
}

/// The order of values counts when it is asked for.
fn canon(case: &Case, d: &J) -> J {
    if case.ordered {
        expand::canon_ordered(d)
    } else {
        expand::canon(d)
    }
}

pub fn compare(ch: &mut Chooser, case: &Case) -> Report {
    ch.describe(|| format!("doc={:?} base={:?} expandContext={:?} v10={} ordered={}", case.doc, case.base, case.expand_context, case.v10, case.ordered));
    let mut steps = 0;
    let i = imp::expand(case).map(|d| canon(case, &d));
    let r = model(case, &[], &mut steps);
    let same = |r: &Result<J, &str>| match (r, &i) {
        (Ok(a), Ok(b)) => a == b,
        (a, b) => a.is_err() == b.is_err(),
    };
    let verdict = if same(&r) {
        V::Ok
    } else {
        let mut found = None;
        for q in QUIRKS {
            if found.is_none() && same(&model(case, &[q], &mut steps)) {
                found = Some(V::Known(q, "explained by a known finding".into()))
            }
        }
        found.unwrap_or_else(|| V::Bad(format!("spec: {r:?}\nimpl: {i:?}")))
    };
    let trivial = matches!(&i, Ok(J::Arr(a)) if a.is_empty());
    Report { steps, class: hash(&format!("{i:?}")), trivial, verdict }
}

pub fn prop(thorough: bool) -> Prop {
    Prop {
        id: "C02",
        level: "model_checking",
        rule: "documents are enumerated from a grammar of node, value, list, set, graph, map, nest, reverse and included objects, under every kind of term definition",
        assumptions: &[],
        families: {
            let body = |thin: bool| {
                move |ch: &mut Chooser| {
                    ch.thin = thin;
                    let mut case = Case::new(J::Null);
                    case.doc = gen::doc(ch, 2);
                    case.v10 = ch.dev(2) == 1;
                    match ch.dev(4) {
                        0 => {}
                        1 => case.base = None,
                        2 => case.expand_context = Some(crate::json::j("{'b':'http://e.org/xb','rel':'http://e.org/xrel'}")),
                        _ => case.expand_context = Some(crate::json::j("{'@vocab':'http://xv.org/','@language':'nl'}")),
                    }
                    case.remotes = gen::remotes();
                    compare(ch, &case)
                }
            };
            let leafs = gen::list(if thorough {
                "'T';;{'@id':'o'};;{'@value':'v','@type':'x:D'};;{'p':'q','T':'x:T'};;['a',{'p':1}];;{'en':'e','x:T':'T','@none':{'p':1}};;null;;{'@type':'T','p':'q'}"
            } else {
                "'T';;{'@id':'o','p':'q','T':'x:T'};;{'en':'e','x:T':'T'}"
            });
            let nested = move |ch: &mut Chooser| {
                let case = Case { ordered: true, ..Case::new(gen::rich_doc(ch, &leafs)) };
                compare(ch, &case)
            };
            let mut f = vec![family("documents", 2, body(false)), family("nested terms", 0, nested)];
            if thorough {
                f.push(family("documents, half alphabets", 3, body(true)));
            }
            f
        },
    }
}
