//! C04: compaction agrees with the recommendation.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{self, Case};
use crate::json::{j, J};
use crate::refm::compact::{self, COpts};
use crate::refm::Env;

pub const QUIRKS: &[&str] = &[];

pub fn strip(d: &J) -> J {
    let mut d = d.clone();
    if d.has("@context") {
        d.set("@context", J::Null)
    }
    d.sort_keys()
}

pub struct CCase {
    pub case: Case,
    pub context: J,
    pub url: Option<&'static str>,
    pub o: COpts,
}

pub fn compare(ch: &mut Chooser, c: &CCase) -> Report {
    let case = &c.case;
    ch.describe(|| format!("context={:?} expanded={:?} url={:?} base={:?} v10={} opts={:?}", c.context, case.doc, c.url, case.base, case.v10, c.o));
    let mut steps = 0;
    // both sides compact the expanded form of the input (expansion is the subject of C02)
    let expanded = match imp::expand(&Case { base: None, ..case.clone() }) {
        Ok(e) => e,
        Err(_) => return Report { steps: 1, class: 0, trivial: true, verdict: V::Ok },
    };
    let i = imp::compact(case, &c.context, c.url, c.o).map(|d| strip(&d));
    let model = |quirks: &[&'static str], steps: &mut u64| {
        let mut env = Env::new(case.remotes.clone(), case.v10);
        env.quirks = quirks.to_vec();
        let r = compact::compact_document(&env, &expanded, &c.context, c.url, case.base.as_deref(), c.o);
        *steps += *env.steps.borrow();
        if *env.unspecified.borrow() {
            return Err("(unspecified)");
        }
        r.map(|d| strip(&d))
    };
    let r = model(&[], &mut steps);
    let same = |r: &Result<J, &str>| match (r, &i) {
        (Ok(a), Ok(b)) => a == b,
        (Err("(unspecified)"), _) => true,
        (a, b) => a.is_err() == b.is_err(),
    };
    let verdict = if same(&r) {
        V::Ok
    } else {
        let mut found = None;
        for q in QUIRKS {
            if found.is_none() && same(&model(&[q], &mut steps)) {
                found = Some(V::Known(q, "explained by a known finding".into()))
            }
        }
        found.unwrap_or_else(|| V::Bad(format!("spec: {r:?}\nimpl: {i:?}")))
    };
    let trivial = matches!(&i, Ok(J::Obj(a)) if a.len() < 2);
    Report { steps, class: hash(&format!("{i:?}")), trivial, verdict }
}

pub fn case(ch: &mut Chooser, free: bool) -> CCase {
    let context = gen::cctx(ch, free);
    let doc = gen::cdoc(ch);
    let mut case = Case::new(doc);
    case.base = None;
    case.v10 = ch.dev(2) == 1;
    case.remotes = gen::remotes();
    let mut o = COpts { arrays: true, relative: true, ordered: false };
    let mut url = Some("http://b.org/d/doc");
    match ch.dev(7) {
        0 => {}
        1 => o.arrays = false,
        2 => o.relative = false,
        3 => url = None,
        4 => {
            url = None;
            case.base = Some("http://e.org/".into())
        }
        5 => case.base = Some("http://e.org/s".into()),
        _ => o.ordered = true,
    }
    CCase { case, context, url, o }
}

pub fn prop(thorough: bool) -> Prop {
    Prop {
        id: "C04",
        level: "model_checking",
        rule: "expanded documents are enumerated over every kind of value, list, graph and node object, under every kind of term definition and pairs of competing definitions",
        assumptions: &[],
        families: {
            let body = |thin: bool, free: bool| {
                move |ch: &mut Chooser| {
                    ch.thin = thin;
                    let c = case(ch, free);
                    compare(ch, &c)
                }
            };
            let plain = |context: J, doc: J| {
                let mut case = Case::new(doc);
                case.base = None;
                CCase { case, context, url: Some("http://b.org/d/doc"), o: COpts { arrays: true, relative: true, ordered: false } }
            };
            let leafs = gen::list(if thorough {
                "{'@value':'v'};;{'@id':'http://b.org/d/o'};;{'@value':'v','@type':'x:D'};;{'@value':'v','@language':'fr'};;{'@id':'http://x.org/T','@type':['http://x.org/T'],'http://x.org/p':[{'@value':'q'}]};;{'@type':['http://x.org/U'],'http://x.org/Up':[{'@value':'q','@language':'fr'}]};;{'@value':1,'@index':'i'}"
            } else {
                "{'@value':'v'};;{'@id':'http://b.org/d/o','@type':['http://x.org/T'],'http://x.org/p':[{'@value':'q'}]}"
            });
            let nested = move |ch: &mut Chooser| {
                let c = plain(j(gen::RICH), gen::rich_expanded(ch, &leafs));
                compare(ch, &c)
            };
            let values = gen::rival_values();
            let containers: &'static [Option<&'static str>] = if thorough {
                &[None, Some("'@set'"), Some("'@list'"), Some("'@language'"), Some("'@index'"), Some("['@index','@set']"), Some("['@language','@set']"), Some("'@graph'")]
            } else {
                &[None, Some("'@set'"), Some("'@list'"), Some("'@language'")]
            };
            let rivals = move |ch: &mut Chooser| {
                let c = gen::rivals(ch, containers);
                let d = J::Arr(vec![J::o(&[("@id", J::s("http://e.org/s")), ("http://e.org/a", ch.of(&values).clone())])]);
                compare(ch, &plain(c, d))
            };
            let mut f = vec![family("nested", 0, nested), family("rivals", 0, rivals), family("definitions", 1, body(false, true)), family("competing definitions", 2, body(!thorough, false))];
            if thorough {
                f.push(family("definitions, half alphabets", 2, body(true, true)));
            }
            f
        },
    }
}
