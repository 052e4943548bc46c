//! Adapter driving the real implementation through its public API.
use crate::json::{from_impl, to_impl, J};
use crate::refm::Remote;
use iref::{Iri, IriBuf};
use json_ld::rdf_types::{vocabulary::IndexVocabulary, BlankIdBuf, VocabularyMut};
use json_ld::{ExpandedDocument, JsonLdProcessor, Loader, Options, ProcessingMode, RemoteDocument};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context as TaskCtx, Poll, RawWaker, RawWakerVTable, Waker};

fn raw() -> RawWaker {
    fn no(_: *const ()) {}
    fn clone(_: *const ()) -> RawWaker {
        raw()
    }
    static VT: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    RawWaker::new(std::ptr::null(), &VT)
}

/// Single-threaded executor with an explicit horizon: a future that is still pending after the
/// number of wake-ups its environment can produce is stuck.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let waker = unsafe { Waker::from_raw(raw()) };
    let mut cx = TaskCtx::from_waker(&waker);
    for _ in 0..10_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future did not complete within the horizon")
}

/// Yields `n` times before completing.
pub struct YieldN(pub u32);
impl Future for YieldN {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut TaskCtx<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

#[derive(Debug)]
pub struct Injected;
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("injected fault")
    }
}
impl std::error::Error for Injected {}

/// In-memory loader whose every answer is decided by the harness.
pub struct MapLoader<'a> {
    pub remotes: &'a BTreeMap<String, Remote>,
    pub log: RefCell<Vec<String>>,
    /// answer pending this many times before each reply (schedule)
    pub pending: Vec<u32>,
    pub count: Cell<usize>,
    /// fail the n-th request (fault injection)
    pub fail_at: Option<usize>,
}

impl<'a> MapLoader<'a> {
    pub fn new(remotes: &'a BTreeMap<String, Remote>) -> Self {
        MapLoader {
            remotes,
            log: RefCell::new(vec![]),
            pending: vec![],
            count: Cell::new(0),
            fail_at: None,
        }
    }
}

impl<'a> Loader for MapLoader<'a> {
    async fn load(&self, url: &Iri) -> json_ld::LoadingResult<IriBuf> {
        let n = self.count.get();
        self.count.set(n + 1);
        self.log.borrow_mut().push(url.as_str().to_string());
        if let Some(p) = self.pending.get(n) {
            YieldN(*p).await
        }
        if self.fail_at == Some(n) {
            return Err(json_ld::LoadError::new(url.to_owned(), Injected));
        }
        let (at, d) = match self.remotes.get(url.as_str()) {
            Some(Remote::Doc(d)) => (Some(url.to_owned()), d),
            Some(Remote::At(u, d)) => (Some(iri(u)), d),
            Some(Remote::Anonymous(d)) => (None, d),
            Some(Remote::Linked(c, d)) => {
                return Ok(RemoteDocument::new_full(
                    Some(url.to_owned()),
                    Some("application/json".parse().unwrap()),
                    Some(iri(c)),
                    Default::default(),
                    to_impl(d),
                ))
            }
            _ => return Err(json_ld::LoadError::new(url.to_owned(), Injected)),
        };
        Ok(RemoteDocument::new(at, Some("application/ld+json".parse().unwrap()), to_impl(d)))
    }
}

pub fn iri(s: &str) -> IriBuf {
    IriBuf::new(s.to_string()).unwrap()
}

#[derive(Clone, Debug)]
pub struct Case {
    pub doc: J,
    pub base: Option<String>,
    pub expand_context: Option<J>,
    pub v10: bool,
    pub ordered: bool,
    pub policy: json_ld::expansion::Policy,
    pub remotes: BTreeMap<String, Remote>,
}

impl Case {
    pub fn new(doc: J) -> Case {
        Case {
            doc,
            base: Some("http://b.org/d/doc".into()),
            expand_context: None,
            v10: false,
            ordered: false,
            policy: Default::default(),
            remotes: BTreeMap::new(),
        }
    }
}

pub fn parse_context(c: &J) -> Result<json_ld::syntax::Context, String> {
    use json_ld::syntax::TryFromJson;
    json_ld::syntax::Context::try_from_json(to_impl(c)).map_err(|e| e.code().as_str().to_string())
}

pub fn context_ref(c: &J) -> Result<json_ld::RemoteContextReference<IriBuf>, String> {
    Ok(json_ld::RemoteContextReference::Loaded(json_ld::RemoteDocument::new(
        None,
        None,
        parse_context(c)?,
    )))
}

pub fn options(case: &Case) -> Result<Options<IriBuf>, String> {
    let mut o: Options<IriBuf> = Options::default();
    o.base = case.base.as_deref().map(iri);
    o.ordered = case.ordered;
    o.expansion_policy = case.policy;
    if case.v10 {
        o.processing_mode = ProcessingMode::JsonLd1_0
    }
    if let Some(c) = &case.expand_context {
        o.expand_context = Some(context_ref(c)?)
    }
    Ok(o)
}

pub fn remote_doc(case: &Case) -> RemoteDocument<IriBuf> {
    RemoteDocument::new(None, None, to_impl(&case.doc))
}

pub type Doc = ExpandedDocument<IriBuf, BlankIdBuf>;

pub fn expand_doc(case: &Case, loader: &MapLoader) -> Result<Doc, String> {
    let o = options(case)?;
    let d = remote_doc(case);
    let r = block_on(d.expand_using(loader, o));
    r.map_err(|e| e.code().as_str().to_string())
}

pub fn doc_to_json(d: Doc) -> J {
    use json_ld::syntax::IntoJson;
    use contextual::WithContext;
    from_impl(&d.into_objects().into_with(&()).into_json())
}

pub fn expand(case: &Case) -> Result<J, String> {
    let l = MapLoader::new(&case.remotes);
    expand_doc(case, &l).map(doc_to_json)
}

/// Same expansion with an index vocabulary.
#[allow(dead_code)]
pub fn expand_indexed(case: &Case) -> Result<J, String> {
    use contextual::WithContext;
    use json_ld::syntax::IntoJson;
    use json_ld::rdf_types::vocabulary::IriVocabularyMut;
    let mut voc: IndexVocabulary = IndexVocabulary::new();
    let mut o: Options<_> = Options::default();
    o.base = case.base.as_deref().map(|b| voc.insert(Iri::new(b).unwrap()));
    o.ordered = case.ordered;
    if case.v10 {
        o.processing_mode = ProcessingMode::JsonLd1_0
    }
    if let Some(c) = &case.expand_context {
        o.expand_context = Some(json_ld::RemoteContextReference::Loaded(json_ld::RemoteDocument::new(
            None,
            None,
            parse_context(c)?,
        )))
    }
    let l = MapLoader::new(&case.remotes);
    let d: RemoteDocument<_> = RemoteDocument::new(None, None, to_impl(&case.doc));
    let r = block_on(d.expand_with_using(&mut voc, &l, o)).map_err(|e| e.code().as_str().to_string())?;
    Ok(from_impl(&r.into_objects().into_with(&voc).into_json()))
}

#[allow(dead_code)]
fn _vm<V: VocabularyMut>(_: V) {}

pub type Ctx = json_ld::Context<IriBuf, BlankIdBuf>;

pub fn process_opts(v10: bool) -> json_ld::context_processing::Options {
    let mut o = json_ld::context_processing::Options::default();
    if v10 {
        o.processing_mode = ProcessingMode::JsonLd1_0
    }
    o
}

/// Processes `local` on top of `active`.
pub fn process_ctx(active: &Ctx, local: &J, base: Option<&str>, v10: bool, loader: &MapLoader) -> Result<Ctx, String> {
    use json_ld::context_processing::Process;
    let c = parse_context(local)?;
    let r = block_on(c.process_full(&mut (), active, loader, base.map(iri), process_opts(v10), ()));
    match r {
        Ok(p) => Ok(p.into_processed()),
        Err(e) => Err(e.code().as_str().to_string()),
    }
}

fn term_str(t: &json_ld::Term<IriBuf, BlankIdBuf>) -> J {
    match t {
        json_ld::Term::Null => J::Null,
        t => J::Str(t.as_str().to_string()),
    }
}

pub fn dump_ctx(c: &Ctx) -> J {
    use json_ld::syntax::{ContainerKind, IntoJson};
    use json_ld::Nullable;
    let opt = |s: Option<&IriBuf>| s.map(|s| J::Str(s.as_str().to_string())).unwrap_or(J::Null);
    let mut terms = vec![];
    for b in c.definitions().iter() {
        let d = b.definition();
        let mut cont: Vec<String> = vec![];
        for k in [
            ContainerKind::Graph,
            ContainerKind::Id,
            ContainerKind::Index,
            ContainerKind::Language,
            ContainerKind::List,
            ContainerKind::Set,
            ContainerKind::Type,
        ] {
            if d.container().contains(k) {
                cont.push(k.as_str().to_string())
            }
        }
        cont.sort();
        terms.push((
            b.term().as_str().to_string(),
            J::o(&[
                ("iri", d.value().map(term_str).unwrap_or(J::Null)),
                ("prefix", J::Bool(d.prefix())),
                ("protected", J::Bool(d.protected())),
                ("reverse", J::Bool(d.reverse_property())),
                ("base_url", if d.context().is_some() { opt(d.base_url()) } else { J::Null }),
                (
                    "context",
                    d.context().map(|c| from_impl(&c.clone().into_json()).sort_keys()).unwrap_or(J::Bool(false)),
                ),
                ("container", J::Arr(cont.into_iter().map(J::Str).collect())),
                (
                    "direction",
                    match d.direction() {
                        None => J::s("(none)"),
                        Some(Nullable::Null) => J::Null,
                        Some(Nullable::Some(d)) => J::s(d.as_str()),
                    },
                ),
                ("index", d.index().map(|i| J::s(i.as_str())).unwrap_or(J::Null)),
                (
                    "language",
                    match d.language() {
                        None => J::s("(none)"),
                        Some(Nullable::Null) => J::Null,
                        Some(Nullable::Some(l)) => J::Str(l.as_str().to_lowercase()),
                    },
                ),
                ("nest", d.nest().map(|n| J::s(n.as_str())).unwrap_or(J::Null)),
                (
                    "type",
                    match d.typ() {
                        None => J::Null,
                        Some(json_ld::Type::Id) => J::s("@id"),
                        Some(json_ld::Type::Json) => J::s("@json"),
                        Some(json_ld::Type::None) => J::s("@none"),
                        Some(json_ld::Type::Vocab) => J::s("@vocab"),
                        Some(json_ld::Type::Iri(i)) => J::s(i.as_str()),
                    },
                ),
            ]),
        ))
    }
    terms.sort();
    J::o(&[
        ("base", opt(c.base_iri())),
        ("original_base", opt(c.original_base_url())),
        ("vocab", c.vocabulary().map(term_str).unwrap_or(J::Null)),
        ("language", c.default_language().map(|l| J::Str(l.as_str().to_lowercase())).unwrap_or(J::Null)),
        ("direction", c.default_base_direction().map(|d| J::s(d.as_str())).unwrap_or(J::Null)),
        ("previous", c.previous_context().map(dump_ctx).unwrap_or(J::Null)),
        ("terms", J::Obj(terms)),
    ])
}

/// Compaction through the public API.
pub fn compact(case: &Case, context: &J, url: Option<&str>, o: crate::refm::compact::COpts) -> Result<J, String> {
    let l = MapLoader::new(&case.remotes);
    let mut op = options(case)?;
    op.compact_arrays = o.arrays;
    op.compact_to_relative = o.relative;
    op.ordered = o.ordered;
    let d = RemoteDocument::new(url.map(iri), None, to_impl(&case.doc));
    let c = context_ref(context)?;
    let r = block_on(d.compact_full(&mut (), c, &l, op, ()));
    r.map(|v| from_impl(&v)).map_err(|e| format!("{e:?}").split(|c: char| c == '(' || c == ' ').next().unwrap().to_string())
}

pub fn gen_blank() -> json_ld::rdf_types::generator::Blank {
    json_ld::rdf_types::generator::Blank::new_with_prefix("b".into())
}

pub fn nodes_to_json(ns: json_ld::FlattenedDocument<IriBuf, BlankIdBuf>) -> J {
    use contextual::WithContext;
    use json_ld::syntax::IntoJson;
    J::Arr(ns.into_iter().map(|n| from_impl(&n.into_with(&()).into_json())).collect())
}

/// Flattening, through the processor.
pub fn flatten(case: &Case, context: Option<&J>) -> Result<J, String> {
    let l = MapLoader::new(&case.remotes);
    let o = options(case)?;
    let d = remote_doc(case);
    let c = context.map(context_ref).transpose()?;
    let mut g = gen_blank();
    let r = block_on(d.flatten_full(&mut (), &mut g, c, &l, o, ()));
    r.map(|v| from_impl(&v)).map_err(|e| format!("{e:?}").split(|c: char| c == '(' || c == ' ').next().unwrap().to_string())
}

/// Unordered flattening of the expanded document.
pub fn flatten_unordered(d: Doc) -> Result<J, String> {
    use json_ld::Flatten;
    let r = d.flatten_unordered(gen_blank());
    r.map(|s| nodes_to_json(s.into_iter().collect())).map_err(|_| "conflicting indexes".into())
}

type Val = json_ld::rdf_types::Object<json_ld::ValidId<IriBuf, BlankIdBuf>, json_ld::rdf_types::Literal<IriBuf>>;

fn id_str(i: &json_ld::ValidId<IriBuf, BlankIdBuf>) -> String {
    i.as_str().to_string()
}

fn term_json(t: &Val) -> J {
    use json_ld::rdf_types::{LiteralType, Object};
    match t {
        Object::Id(i) => J::Str(id_str(i)),
        Object::Literal(l) => match &l.type_ {
            LiteralType::Any(t) => crate::refm::rdf::lit(l.as_str(), t.as_str(), None),
            LiteralType::LangString(t) => {
                crate::refm::rdf::lit(l.as_str(), &format!("{}langString", crate::refm::rdf::RDF), Some(t.as_str()))
            }
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RdfVia {
    Processor,
    Flattened,
    NodeMap,
}

pub fn to_rdf(case: &Case, via: RdfVia, dir: crate::refm::rdf::Dir, generalized: bool) -> Result<J, String> {
    use crate::refm::rdf::Dir;
    use json_ld::rdf::RdfDirection;
    use json_ld::{Flatten, RdfQuads};
    let l = MapLoader::new(&case.remotes);
    let mut o = options(case)?;
    o.rdf_direction = match dir {
        Dir::None => None,
        Dir::I18n => Some(RdfDirection::I18nDatatype),
        Dir::Compound => Some(RdfDirection::CompoundLiteral),
    };
    o.produce_generalized_rdf = generalized;
    let rdf_dir = o.rdf_direction;
    let mut out: Vec<J> = vec![];
    let mut push = |q: json_ld::rdf_types::Quad<
        json_ld::ValidId<IriBuf, BlankIdBuf>,
        json_ld::ValidId<IriBuf, BlankIdBuf>,
        Val,
        json_ld::ValidId<IriBuf, BlankIdBuf>,
    >| {
        let q = J::o(&[
            ("g", J::Str(q.3.as_ref().map(id_str).unwrap_or_default())),
            ("s", J::Str(id_str(&q.0))),
            ("p", J::Str(id_str(&q.1))),
            ("o", term_json(&q.2)),
        ]);
        if !out.contains(&q) {
            out.push(q)
        }
    };
    match via {
        RdfVia::Processor => {
            let d = remote_doc(case);
            let mut r = block_on(d.to_rdf_full((), gen_blank(), &l, o, ())).map_err(|e| format!("{e:?}"))?;
            r.cloned_quads().for_each(&mut push)
        }
        RdfVia::Flattened | RdfVia::NodeMap => {
            let d = expand_doc(case, &l)?;
            let mut g = gen_blank();
            if via == RdfVia::Flattened {
                let f = d.flatten(&mut g, false).map_err(|_| "conflicting indexes".to_string())?;
                f.rdf_quads_full(&mut (), &mut g, rdf_dir, generalized).cloned().for_each(&mut push)
            } else {
                let m = d.generate_node_map_with(&mut (), &mut g).map_err(|_| "conflicting indexes".to_string())?;
                m.rdf_quads_full(&mut (), &mut g, rdf_dir, generalized).cloned().for_each(&mut push)
            }
        }
    }
    Ok(J::Arr(out))
}

/// Polls a future at most `limit` times.
pub fn drive<F: Future>(f: F, limit: usize) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let waker = unsafe { Waker::from_raw(raw()) };
    let mut cx = TaskCtx::from_waker(&waker);
    for _ in 0..limit {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}

/// A call of the API, made with any vocabulary.
pub async fn api<N>(voc: &mut N, call: &crate::refm::api::Call, loader: &MapLoader<'_>) -> Result<J, String>
where
    N: VocabularyMut + json_ld::rdf_types::vocabulary::LiteralVocabularyMut,
    N::Iri: Clone + Eq + std::hash::Hash,
    N::BlankId: Clone + Eq + std::hash::Hash,
    N::Literal: Clone,
{
    use crate::refm::api::{Input, Op};
    use json_ld::{RemoteContextReference as R, RemoteDocumentReference as D};
    let ins = |voc: &mut N, s: &str| voc.insert(Iri::new(s).unwrap());
    let context = |voc: &mut N, c: &J| -> Result<R<N::Iri>, String> {
        Ok(match c {
            J::Str(s) => R::Iri(voc.insert(Iri::new(s).unwrap())),
            c => R::Loaded(json_ld::RemoteDocument::new(None, None, parse_context(c.get("@context").unwrap_or(c))?)),
        })
    };
    let input: D<N::Iri> = match &call.input {
        Input::Iri(i) => D::Iri(ins(voc, i)),
        Input::Inline { url, context_url, doc } => {
            let u = url.as_ref().map(|u| ins(voc, u));
            let c = context_url.as_ref().map(|u| ins(voc, u));
            D::Loaded(RemoteDocument::new_full(u, None, c, Default::default(), to_impl(doc)))
        }
    };
    let mut o: Options<N::Iri> = Options::default();
    o.base = call.base.as_ref().map(|b| ins(voc, b));
    if let Some(c) = &call.expand_context {
        o.expand_context = Some(context(voc, c)?)
    }
    match &call.op {
        Op::Expand => {
            use contextual::WithContext;
            use json_ld::syntax::IntoJson;
            let r = input.expand_full(voc, loader, o, ()).await.map_err(|e| e.code().as_str().to_string())?;
            Ok(from_impl(&r.into_objects().into_with(&*voc).into_json()))
        }
        Op::Compact(c) => {
            let c = context(voc, c)?;
            let r = input.compact_full(voc, c, loader, o, ()).await;
            r.map(|v| from_impl(&v)).map_err(|e| e.code().as_str().to_string())
        }
        Op::Flatten(c) => {
            let c = match c {
                Some(c) => Some(context(voc, c)?),
                None => None,
            };
            let mut g = gen_blank();
            let r = input.flatten_full(voc, &mut g, c, loader, o, ()).await;
            r.map(|v| from_impl(&v)).map_err(|e| e.code().as_str().to_string())
        }
    }
}

pub fn to_id(s: &str) -> json_ld::ValidId<IriBuf, BlankIdBuf> {
    match s.strip_prefix("_:") {
        Some(_) => json_ld::ValidId::Blank(BlankIdBuf::new(s.to_string()).unwrap()),
        None => json_ld::ValidId::Iri(iri(s)),
    }
}

fn to_term(t: &J) -> json_ld::rdf_types::Term {
    use json_ld::rdf_types::{Literal, LiteralType, Term};
    match t {
        J::Str(s) => Term::Id(to_id(s)),
        t => {
            let s = |k: &str| t.get(k).map(|v| v.as_str().unwrap());
            let ty = match s("@language") {
                Some(l) => LiteralType::LangString(langtag::LangTagBuf::new(l.to_string()).unwrap()),
                None => LiteralType::Any(iri(s("@type").unwrap())),
            };
            Term::Literal(Literal::new(s("@value").unwrap().to_string(), ty))
        }
    }
}

/// Reads an RDF dataset, an array of `{g,s,p,o}`.
pub fn from_rdf(quads: &[J]) -> Result<J, String> {
    use json_ld::rdf_types::{Quad, Term};
    let quads: Vec<_> = quads
        .iter()
        .map(|q| {
            let f = |k: &str| Term::Id(to_id(q.get(k).unwrap().as_str().unwrap()));
            let g = q.get("g").unwrap().as_str().unwrap();
            Quad(f("s"), f("p"), to_term(q.get("o").unwrap()), (!g.is_empty()).then(|| f("g")))
        })
        .collect();
    let refs = quads.iter().map(|q| Quad(&q.0, &q.1, &q.2, q.3.as_ref()));
    Doc::from_interpreted_quads(&(), &(), refs).map(doc_to_json).map_err(|e| format!("{e:?}"))
}

/// The expanded document, and what it becomes when serialized as linked data.
pub fn reserialize(case: &Case) -> Result<(J, Result<J, String>), String> {
    let l = MapLoader::new(&case.remotes);
    let d = expand_doc(case, &l)?;
    let r = json_ld::ser::serialize(&d).map(doc_to_json).map_err(|e| format!("{e:?}"));
    Ok((doc_to_json(d), r))
}
