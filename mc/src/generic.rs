//! Every operation of the processor, over any vocabulary.
use crate::imp::{block_on, parse_context, Case, MapLoader};
use crate::refm::Remote;
use crate::json::{from_impl, to_impl, J};
use contextual::WithContext;
use iref::{Iri, IriBuf};
use json_ld::rdf::RdfDirection;
use json_ld::rdf_types::{self, generator::Blank, VocabularyMut};
use json_ld::syntax::IntoJson;
use json_ld::{JsonLdProcessor, Options, ProcessingMode, RemoteContextReference, RemoteDocument, RemoteDocumentReference};
use std::hash::Hash;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Expand,
    Compact,
    Flatten,
    FlattenCompact,
    Rdf,
}

pub const OPS: [Op; 5] = [Op::Expand, Op::Compact, Op::Flatten, Op::FlattenCompact, Op::Rdf];

fn context<I>(c: &J) -> Result<RemoteContextReference<I>, String> {
    Ok(RemoteContextReference::Loaded(RemoteDocument::new(None, None, parse_context(c)?)))
}

fn short(e: impl std::fmt::Debug) -> String {
    format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()
}

pub fn options<V: VocabularyMut>(voc: &mut V, case: &Case) -> Result<Options<V::Iri>, String> {
    let mut o: Options<V::Iri> = Options::default();
    o.base = case.base.as_deref().map(|b| voc.insert(Iri::new(b).unwrap()));
    o.ordered = case.ordered;
    if case.v10 {
        o.processing_mode = ProcessingMode::JsonLd1_0
    }
    if let Some(c) = &case.expand_context {
        o.expand_context = Some(context(c)?)
    }
    Ok(o)
}

/// Compacted documents keep the context they were given: only the rest is compared.
pub fn run<V>(voc: &mut V, op: Op, case: &Case, ctx: &J) -> Result<J, String>
where
    V: VocabularyMut + rdf_types::vocabulary::LiteralVocabularyMut,
    V::Literal: Clone,
    V::Iri: Clone + Eq + Hash + std::fmt::Debug,
    V::BlankId: Clone + Eq + Hash + std::fmt::Debug,
{
    let l = MapLoader::new(&case.remotes);
    let mut o = options(voc, case)?;
    let url = case.base.as_deref().map(|b| voc.insert(Iri::new(b).unwrap()));
    let d: RemoteDocument<V::Iri> = RemoteDocument::new(url, None, to_impl(&case.doc));
    let mut g = Blank::new_with_prefix("b".into());
    match op {
        Op::Expand => {
            let r = block_on(d.expand_full(voc, &l, o, ())).map_err(|e| e.code().as_str().to_string())?;
            Ok(from_impl(&r.into_objects().into_with(&*voc).into_json()))
        }
        Op::Compact => {
            let c = context(ctx)?;
            block_on(d.compact_full(voc, c, &l, o, ())).map(|v| from_impl(&v)).map_err(short)
        }
        Op::Flatten | Op::FlattenCompact => {
            let c = if op == Op::Flatten { None } else { Some(context(ctx)?) };
            block_on(d.flatten_full(voc, &mut g, c, &l, o, ())).map(|v| from_impl(&v)).map_err(short)
        }
        Op::Rdf => {
            o.rdf_direction = Some(RdfDirection::I18nDatatype);
            let mut r = block_on(d.to_rdf_full(voc, g, &l, o, ())).map_err(short)?;
            quads(&mut r)
        }
    }
}

fn quads<V, G>(r: &mut json_ld::ToRdf<V, G>) -> Result<J, String>
where
    V: VocabularyMut + rdf_types::vocabulary::LiteralVocabularyMut,
    V::Literal: Clone,
    V::Iri: Clone + Eq + Hash,
    V::BlankId: Clone + Eq + Hash,
    G: rdf_types::Generator<V>,
{
    let quads: Vec<_> = r.cloned_quads().collect();
        let voc = r.vocabulary();
        let mut out = vec![];
        let id = |i: &json_ld::ValidId<V::Iri, V::BlankId>| match i {
            rdf_types::Id::Iri(i) => voc.iri(i).unwrap().as_str().to_string(),
            rdf_types::Id::Blank(b) => voc.blank_id(b).unwrap().as_str().to_string(),
        };
        for q in &quads {
            use rdf_types::{LiteralTypeRef, Object};
            let o = match &q.2 {
                Object::Id(i) => J::Str(id(i)),
                Object::Literal(l) => {
                    let l = voc.literal(l).unwrap();
                    match l.type_ {
                        LiteralTypeRef::Any(t) => crate::refm::rdf::lit(l.value, voc.iri(t).unwrap().as_str(), None),
                        LiteralTypeRef::LangString(t) => crate::refm::rdf::lit(l.value, &format!("{}langString", crate::refm::rdf::RDF), Some(t.as_str())),
                    }
                }
            };
            let q = J::o(&[("g", J::Str(q.3.as_ref().map(id).unwrap_or_default())), ("s", J::Str(id(&q.0))), ("p", J::Str(id(&q.1))), ("o", o)]);
            if !out.contains(&q) {
                out.push(q)
            }
        }
        Ok(J::Arr(out))
}

/// Every way to call an operation on a document.
pub fn entry_points(op: Op, case: &Case, ctx: &J) -> Vec<(&'static str, Result<J, String>)> {
    let mut remotes = case.remotes.clone();
    let at = case.base.clone().unwrap();
    remotes.insert(at.clone(), Remote::Doc(case.doc.clone()));
    let l = &MapLoader::new(&remotes);
    let url = IriBuf::new(at).unwrap();
    let Ok(o) = options(&mut (), case) else { return vec![("parse", Err(String::new()))] };
    let o = Options { base: None, rdf_direction: None, ..o };
    let full = RemoteDocument::new(Some(url.clone()), None, to_impl(&case.doc));
    let d = &full;
    let r: &RemoteDocumentReference<IriBuf> = &RemoteDocumentReference::Iri(url);
    let w: &RemoteDocumentReference<IriBuf> = &RemoteDocumentReference::Loaded(full.clone());
    let v = &mut ();
    let g = || Blank::new_with_prefix("b".into());
    let b = |f: Result<crate::imp::Doc, json_ld::ExpandError>| f.map(crate::imp::doc_to_json).map_err(short);
    let m = |f: Result<json_ld::syntax::Value, String>| f.map(|v| from_impl(&v));
    let mut all = vec![];
    let Ok(c) = context::<IriBuf>(ctx) else { return vec![("context", Err(String::new()))] };
    let c = || c.clone();
    macro_rules! op {
        ($conv:expr; $full:expr; $($name:literal $e:expr),*; $($dname:literal $de:expr),*) => {{
            all.push(("full", $conv($full)));
            $(all.push(($name, $conv($e)));)*
            if !case.ordered && case.expand_context.is_none() && !case.v10 { $(all.push(($dname, $conv($de)));)* }
        }};
    }
    match op {
        Op::Expand => {
            op!(b; block_on(d.expand_full(v, l, o.clone(), ()));
                "expand_with_using" block_on(d.expand_with_using(v, l, o.clone())),
                "expand_using" block_on(d.expand_using(l, o.clone())),
                "into_document_full" block_on(d.clone().into_document_full(v, l, o.clone(), ())).map(|d| d.into_expanded()),
                "into_document_with_using" block_on(d.clone().into_document_with_using(v, l, o.clone())).map(|d| d.into_expanded()),
                "reference expand_full" block_on(r.expand_full(v, l, o.clone(), ())),
                "reference expand_using" block_on(r.expand_using(l, o.clone())),
                "reference into_document_full" block_on(r.clone().into_document_full(v, l, o.clone(), ())).map(|d| d.into_expanded()),
                "loaded reference expand_full" block_on(w.expand_full(v, l, o.clone(), ())),
                "loaded reference into_document_full" block_on(w.clone().into_document_full(v, l, o.clone(), ())).map(|d| d.into_expanded());
                "expand_with" block_on(d.expand_with(v, l)),
                "expand" block_on(d.expand(l)),
                "into_document_with" block_on(d.clone().into_document_with(v, l)).map(|d| d.into_expanded()),
                "into_document" block_on(JsonLdProcessor::into_document(d.clone(), l)).map(|d| d.into_expanded()),
                "reference expand" block_on(r.expand(l)));
            let expanded = all[0].1.is_ok();
            let same = |name, x: Result<bool, json_ld::ExpandError>| match x {
                Ok(true) if expanded => None,
                Err(_) if !expanded => None,
                x => Some((name, Err(format!("compare: {x:?}")))),
            };
            let mut cs = vec![
                same("compare_full", block_on(d.compare_full(d, v, l, o.clone(), ()))),
                same("compare_with_using", block_on(d.compare_with_using(d, v, l, o.clone()))),
                same("compare_using", block_on(d.compare_using(d, l, o.clone()))),
                same("reference compare_full", block_on(r.compare_full(w, v, l, o.clone(), ()))),
                same("loaded reference compare_full", block_on(w.compare_full(r, v, l, o.clone(), ()))),
            ];
            if !case.ordered {
                cs.push(same("compare_with", block_on(d.compare_with(d, v, l))));
                cs.push(same("compare", block_on(d.compare(d, l))));
            }
            all.extend(cs.into_iter().flatten())
        }
        Op::Compact => op!(|f: Result<_, _>| m(f.map_err(short)); block_on(d.compact_full(v, c(), l, o.clone(), ()));
            "compact_with_using" block_on(d.compact_with_using(v, c(), l, o.clone())),
            "compact_using" block_on(d.compact_using(c(), l, o.clone())),
            "reference compact_full" block_on(r.compact_full(v, c(), l, o.clone(), ())),
            "loaded reference compact_full" block_on(w.compact_full(v, c(), l, o.clone(), ()));
            "compact_with" block_on(d.compact_with(v, c(), l)),
            "compact" block_on(d.compact(c(), l)),
            "reference compact" block_on(r.compact(c(), l))),
        Op::Flatten => op!(|f: Result<_, json_ld::FlattenError<_, _>>| m(f.map_err(short)); block_on(d.flatten_full(v, &mut g(), None, l, o.clone(), ()));
            "flatten_with_using" block_on(d.flatten_with_using(v, &mut g(), l, o.clone())),
            "flatten_using" block_on(d.flatten_using(&mut g(), l, o.clone())),
            "reference flatten_full" block_on(r.flatten_full(v, &mut g(), None, l, o.clone(), ())),
            "loaded reference flatten_full" block_on(w.flatten_full(v, &mut g(), None, l, o.clone(), ()));
            "flatten_with" block_on(d.flatten_with(v, &mut g(), l)),
            "flatten" block_on(d.flatten(&mut g(), l)),
            "reference flatten" block_on(r.flatten(&mut g(), l))),
        Op::FlattenCompact => op!(|f: Result<_, json_ld::FlattenError<_, _>>| m(f.map_err(short)); block_on(d.flatten_full(v, &mut g(), Some(c()), l, o.clone(), ()));
            "reference flatten_full" block_on(r.flatten_full(v, &mut g(), Some(c()), l, o.clone(), ())),
            "loaded reference flatten_full" block_on(w.flatten_full(v, &mut g(), Some(c()), l, o.clone(), ()));),
        Op::Rdf => op!(|f: Result<json_ld::ToRdf<_, _>, json_ld::ToRdfError>| f.map_err(short).and_then(|mut r| quads(&mut r)); block_on(d.to_rdf_full((), g(), l, o.clone(), ()));
            "to_rdf_with_using" block_on(d.to_rdf_with_using((), g(), l, o.clone())),
            "to_rdf_using" block_on(d.to_rdf_using(g(), l, o.clone())),
            "reference to_rdf_full" block_on(r.to_rdf_full((), g(), l, o.clone(), ())),
            "loaded reference to_rdf_full" block_on(w.to_rdf_full((), g(), l, o.clone(), ()));
            "to_rdf_with" block_on(d.to_rdf_with((), g(), l)),
            "to_rdf" block_on(d.to_rdf(g(), l)),
            "reference to_rdf" block_on(r.to_rdf(g(), l))),
    }
    all
}
