//! C03: expanded documents survive being printed, parsed, expanded again, and compacted then expanded.
use super::{c04, Prop};
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{self, Case, Doc, MapLoader};
use crate::json::{from_impl, to_impl, J};
use crate::refm::{compact, expand, Env};
use iref::IriBuf;
use json_ld_core::object::TryFromJson;
use rdf_types::BlankIdBuf;

pub fn parse_expanded(j: &J) -> Result<Doc, String> {
    <Doc as TryFromJson<IriBuf, BlankIdBuf>>::try_from_json_in(&mut rdf_types::vocabulary::no_vocabulary_mut(), to_impl(j)).map_err(|e| format!("{e:?}"))
}

fn reexpand(j: &J) -> Case {
    let mut c = Case::new(j.clone());
    c.base = None;
    c
}

fn again(case: &Case) -> (Report, Option<J>) {
    let skip = |class| Report { steps: 1, class, trivial: true, verdict: V::Ok };
    let l = MapLoader::new(&case.remotes);
    let Ok(d) = imp::expand_doc(case, &l) else { return (skip(0), None) };
    let out = imp::doc_to_json(d.clone());
    let canon = expand::canon(&out);
    let class = hash(&format!("{canon:?}"));
    let mut bad = None;
    let mut fail = |e: String| {
        if bad.is_none() {
            bad = Some(e)
        }
    };
    if d != d.clone() {
        fail("a document differs from its clone".into())
    }
    match parse_expanded(&out) {
        Ok(p) => {
            if p != d || d != p {
                fail(format!("parsed document differs: {p:?}\nfrom {d:?}"))
            }
            let o = expand::canon(&imp::doc_to_json(p));
            if o != canon {
                fail(format!("parsed {o:?}\nfrom {canon:?}"))
            }
        }
        Err(e) => fail(format!("{e} for {out:?}")),
    }
    {
        use json_syntax::{Parse, Print};
        let v = to_impl(&out);
        for text in [v.compact_print().to_string(), v.pretty_print().to_string()] {
            match json_syntax::Value::parse_str(&text) {
                Ok((v, _)) if expand::canon(&from_impl(&v)) == canon => {}
                r => fail(format!("text {text} read as {r:?}")),
            }
        }
    }
    // expanding again, where the recommendation is idempotent
    let re = reexpand(&out);
    let env = Env::new(Default::default(), false);
    let spec = expand::expand_document(&env, &out, None, None, false).map(|e| expand::canon(&e));
    let steps = *env.steps.borrow() + 1;
    if spec.as_ref() == Ok(&canon) {
        match imp::expand(&re) {
            Ok(o) if expand::canon(&o) == canon => {}
            o => fail(format!("expanded again: {o:?}\nfrom {canon:?}")),
        }
    }
    let trivial = matches!(&out, J::Arr(a) if a.is_empty());
    (Report { steps, class, trivial, verdict: bad.map_or(V::Ok, V::Bad) }, Some(out))
}

fn documents(ch: &mut Chooser, thin: bool) -> Report {
    ch.thin = thin;
    let mut case = Case::new(gen::doc(ch, 2));
    case.v10 = ch.dev(2) == 1;
    case.remotes = gen::remotes();
    ch.describe(|| format!("doc={:?}", case.doc));
    again(&case).0
}

fn graphs(ch: &mut Chooser) -> Report {
    let case = Case::new(gen::fdoc(ch));
    ch.describe(|| format!("doc={:?}", case.doc));
    again(&case).0
}

/// Compacting loses nothing: the compacted document, with the context, expands to the same document
/// wherever it does for the recommendation.
fn compacted(ch: &mut Chooser, free: bool, thin: bool) -> Report {
    ch.thin = thin;
    let mut c = c04::case(ch, free);
    c.case.base = None;
    ch.describe(|| format!("context={:?} expanded={:?} url={:?} v10={} opts={:?}", c.context, c.case.doc, c.url, c.case.v10, c.o));
    let skip = Report { steps: 1, class: 0, trivial: true, verdict: V::Ok };
    let Ok(expanded) = imp::expand(&c.case) else { return skip };
    let canon = expand::canon(&expanded);
    let with_context = |d: &J| {
        let mut d = d.clone();
        if d.is_obj() {
            d.set("@context", c.context.clone())
        }
        d
    };
    let base = c.url.map(|u| u.to_string());
    let env = Env::new(c.case.remotes.clone(), c.case.v10);
    let Ok(rc) = compact::compact_document(&env, &expanded, &c.context, c.url, None, c.o) else { return skip };
    if *env.unspecified.borrow() {
        return skip;
    }
    let spec = expand::expand_document(&env, &with_context(&rc), base.as_deref(), None, false).map(|e| expand::canon(&e));
    let steps = *env.steps.borrow();
    if spec.as_ref() != Ok(&canon) {
        return Report { steps, ..skip };
    }
    let ic = imp::compact(&c.case, &c.context, c.url, c.o);
    let verdict = match &ic {
        Ok(ic) => {
            let mut again = Case::new(with_context(ic));
            again.base = base;
            again.v10 = c.case.v10;
            again.remotes = c.case.remotes.clone();
            match imp::expand(&again) {
                Ok(e) if expand::canon(&e) == canon => V::Ok,
                e => V::Bad(format!("compacted to {ic:?}\nexpanded again to {e:?}\ninstead of {canon:?}")),
            }
        }
        Err(e) => V::Bad(format!("compaction failed: {e}")),
    };
    Report { steps, class: hash(&format!("{ic:?}")), trivial: false, verdict }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as u32;
    Prop {
        id: "C03",
        level: "model_checking",
        rule: "the documents of C02 and C05 expanded, printed, parsed and expanded again; the expanded documents and contexts of C04 compacted and expanded again",
        assumptions: &[],
        families: vec![
            family("documents", 2, move |ch| documents(ch, !thorough)),
            family("graphs", 3 + t, graphs),
            family("compacted, definitions", 1, move |ch| compacted(ch, true, !thorough)),
            family("compacted, competing definitions", 1 + t, |ch| compacted(ch, false, false)),
        ],
    }
}
