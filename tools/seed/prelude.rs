#![allow(dead_code, unused_imports)]
use json_ld::{JsonLdProcessor, Loader, Options, ProcessingMode, RemoteDocument};
use json_syntax::{Parse, Print, Value};
use std::collections::HashMap;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn raw() -> RawWaker {
    fn no(_: *const ()) {}
    fn clone(_: *const ()) -> RawWaker { raw() }
    static VT: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    RawWaker::new(std::ptr::null(), &VT)
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let waker = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&waker);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v }
    }
}
#[derive(Default)]
pub struct Map(HashMap<String, String>);
#[derive(Debug)]
pub struct Missing;
impl std::fmt::Display for Missing {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("missing") }
}
impl std::error::Error for Missing {}
impl Loader for Map {
    async fn load(&self, url: &iref::Iri) -> json_ld::LoadingResult<iref::IriBuf> {
        match self.0.get(url.as_str()) {
            Some(d) => Ok(RemoteDocument::new(Some(url.to_owned()), Some("application/ld+json".parse().unwrap()), parse(d))),
            None => Err(json_ld::LoadError::new(url.to_owned(), Missing)),
        }
    }
}
pub fn parse(s: &str) -> Value { Value::parse_str(&s.replace('\'', "\"")).unwrap().0 }
pub fn remote(s: &str) -> RemoteDocument<iref::IriBuf> {
    RemoteDocument::new(Some(iref::IriBuf::new("http://b.org/d/doc".to_string()).unwrap()), None, parse(s))
}
pub fn canon(mut v: Value) -> String { v.canonicalize(); v.compact_print().to_string() }
pub fn expand_with(doc: &str, loader: &Map, options: Options) -> Result<String, String> {
    use json_ld::syntax::IntoJson;
    match block_on(remote(doc).expand_using(loader, options)) {
        Ok(e) => Ok(canon(contextual::WithContext::into_with(e.into_objects(), &()).into_json())),
        Err(e) => Err(e.code().as_str().to_string()),
    }
}
pub fn expand(doc: &str) -> Result<String, String> { expand_with(doc, &Map::default(), Options::default()) }
pub fn same(what: &str, got: Result<String, String>, want: Result<&str, &str>) {
    let want: Result<String, String> = match want { Ok(s) => Ok(canon(parse(s))), Err(e) => Err(e.to_string()) };
    if got != want {
        println!("FAIL {what}:\n  got  {got:?}\n  want {want:?}");
        std::process::exit(1)
    }
}
pub fn compact(expanded: &str, ctx: &str) -> Result<String, String> {
    let c = json_ld::RemoteContextReference::Loaded(json_ld::RemoteContext::new(
        None, None, json_ld::syntax::TryFromJson::try_from_json(parse(ctx)).unwrap_or_else(|_| panic!("bad context"))));
    block_on(remote(expanded).compact(c, &Map::default())).map(canon).map_err(|e| format!("{e}"))
}
pub fn flatten(doc: &str) -> Result<String, String> {
    let mut g = rdf_types::generator::Blank::new();
    block_on(remote(doc).flatten(&mut g, &Map::default())).map(canon).map_err(|e| format!("{e}"))
}
pub fn rdf(doc: &str) -> Vec<String> {
    let mut g = rdf_types::generator::Blank::new();
    let mut r = block_on(remote(doc).to_rdf(&mut g, &Map::default())).unwrap_or_else(|_| panic!("to_rdf"));
    let mut v: Vec<String> = r.cloned_quads().map(|q| format!("{q}")).collect();
    v.sort();
    v
}
pub fn sorted(v: &mut Value) {
    match v {
        Value::Array(a) => {
            a.iter_mut().for_each(sorted);
            a.sort_by_key(|x| canon(x.clone()));
        }
        Value::Object(o) => o.iter_mut().for_each(|(_, v)| sorted(v)),
        _ => {}
    }
}
pub fn same_sets(what: &str, got: Result<String, String>, want: &str) {
    let f = |s: String| { let mut v = parse(&s); sorted(&mut v); canon(v) };
    let want = f(want.to_string());
    same(what, got.map(f), Ok(&want));
}
