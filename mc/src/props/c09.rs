//! C09: loaders give the document found at the requested URL, and nothing else.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::imp::block_on;
use crate::json::{from_impl, j, to_impl, J};
use iref::{Iri, IriBuf};
use json_ld::loader::{ChainLoader, FsLoader, NoLoader};
use json_ld::{LoadError, Loader, LoadingResult, RemoteDocument};
use std::collections::{BTreeMap, HashMap};
use std::path::{Component, Path, PathBuf};
use std::sync::OnceLock;

// --- file system ---

const MOUNT_URLS: &[&str] = &["http://a.org/", "http://a.org", "http://a.org/x", "http://a.org/x/", "http://a.org/x/y", "http://a.org/x%20z/", "https://a.org/", "http://a.org/x/..", "http://b.org/x/", "urn:"];
const URLS: &[&str] = &["http://a.org/", "http://a.org", "http://a.org/x/", "http://b.org/x/", "http://a.org/xx/", "https://a.org/", "http://a.org:80/", "http://u@a.org/", "urn:"];
const SEGMENTS: &[&str] = &["f", "x", "y", "", ".", "..", "%2e%2e", "%2f", "z%20w", "\u{e9}", "~", "..f", "C:"];
const TAILS: &[&str] = &["", "?q", "#h", "?../q", "/", "#/../h"];

fn lexical(p: &Path) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    for c in p.components() {
        match c {
            Component::ParentDir => {
                r.pop();
            }
            Component::CurDir => {}
            c => r.push(c.as_os_str().to_string_lossy().into_owned()),
        }
    }
    r
}

/// Path segments of a URL: (everything before the path, segments), without query and fragment.
fn split(u: &str) -> (String, Vec<String>) {
    let u = u.split(['?', '#']).next().unwrap();
    let (scheme, rest) = u.split_once(':').unwrap();
    let (auth, path) = match rest.strip_prefix("//") {
        Some(r) => match r.find('/') {
            Some(i) => (format!("{scheme}://{}", &r[..i]), &r[i..]),
            None => (format!("{scheme}://{r}"), ""),
        },
        None => (scheme.to_string(), rest),
    };
    let mut segs: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
    if path.starts_with('/') {
        segs.remove(0);
    }
    (auth, segs)
}

/// Dot segments removed (RFC 3986), keeping the empty last segment of a directory.
fn normal(segs: &[String]) -> Option<Vec<String>> {
    let mut r: Vec<String> = vec![];
    for (i, s) in segs.iter().enumerate() {
        let last = i + 1 == segs.len();
        match s.as_str() {
            "." => {
                if last {
                    r.push(String::new())
                }
            }
            ".." => {
                r.pop()?;
                if last {
                    r.push(String::new())
                }
            }
            s => r.push(s.to_string()),
        }
    }
    Some(r)
}

fn url(ch: &mut Chooser, segments: usize) -> String {
    let mut u = ch.of(URLS).to_string();
    for _ in 0..ch.pick(segments) {
        if !u.ends_with('/') && !u.ends_with(':') {
            u.push('/')
        }
        u.push_str(ch.of(SEGMENTS));
        if ch.dev(2) == 1 {
            u.push('/')
        }
    }
    u.push_str(ch.dev_of(TAILS));
    u
}

/// The file of a URL is inside the directory of the first mount point that contains the URL, at the
/// place the URL says.
fn paths(ch: &mut Chooser, segments: usize) -> Report {
    let n = 1 + ch.dev(2);
    let mounts: Vec<(&str, String)> = (0..n).map(|i| (*ch.dev_of(MOUNT_URLS), format!("/srv/m{i}/d"))).collect();
    let u = url(ch, segments);
    filepath(ch, mounts, u)
}

const NESTED: &[&str] = &["http://a.org/", "http://a.org", "http://a.org/x", "http://a.org/x/", "http://a.org/x/y/", "http://a.org/x/y/z", "http://b.org/x/", "http://a.org/y"];

/// Several mount points, one inside another: the first one that contains the URL is the one.
fn nested_mounts(ch: &mut Chooser) -> Report {
    let n = 2 + ch.pick(2);
    let mounts: Vec<(&str, String)> = (0..n).map(|i| (*ch.of(NESTED), format!("/srv/m{i}/d"))).collect();
    let mut u = ch.of(&["http://a.org", "http://b.org", "https://a.org"]).to_string();
    for _ in 0..1 + ch.pick(4) {
        u.push('/');
        u.push_str(ch.of(&["x", "y", "z"]));
    }
    filepath(ch, mounts, u)
}

fn filepath(ch: &mut Chooser, mounts: Vec<(&str, String)>, u: String) -> Report {
    ch.describe(|| format!("mounts={mounts:?} url={u}"));
    let mut l = FsLoader::new();
    let mut ok = Iri::new(&u).is_ok();
    for (m, p) in &mounts {
        match IriBuf::new(m.to_string()) {
            Ok(i) => l.mount(i, p),
            Err(_) => ok = false,
        }
    }
    if !ok {
        return Report { steps: 0, class: 0, trivial: true, verdict: V::Ok };
    }
    let got = l.filepath(Iri::new(&u).unwrap());
    // containment
    let mut verdict = V::Ok;
    if let Some(p) = &got {
        let inside = mounts.iter().any(|(_, m)| {
            // at no point does the path leave the mounted directory
            let m = lexical(Path::new(m));
            let mut q = PathBuf::new();
            let mut depth_ok = false;
            let mut left = false;
            for c in p.components() {
                q.push(c);
                let x = lexical(&q);
                let within = x.len() >= m.len() && x[..m.len()] == m[..];
                if depth_ok && !within {
                    left = true
                }
                depth_ok |= within;
            }
            depth_ok && !left
        });
        if !inside {
            verdict = V::Bad(format!("{p:?} is outside of the mounted directories"))
        }
    }
    // which file: only judged for URLs and mounts without dot or empty segments
    let plain = |u: &str| {
        let (_, s) = split(u);
        // an empty path and `/` are the same for HTTP, not for a loader of IRIs: both readings are fine
        !s.is_empty() && s[..] != [""] && s.iter().enumerate().all(|(i, s)| s != "." && s != ".." && (!s.is_empty() || i + 1 == split(u).1.len()))
    };
    let (ua, us) = split(&u);
    let _ = normal(&us);
    if matches!(verdict, V::Ok) && plain(&u) && !u.starts_with("urn") && mounts.iter().all(|m| plain(m.0) || NESTED[..2].contains(&m.0)) {
        let mut want = None;
        for (m, p) in &mounts {
            let (ma, mut ms) = split(m);
            let mut us = us.clone();
            if ms.last().is_some_and(|s| s.is_empty()) {
                ms.pop();
            }
            if us.last().is_some_and(|s| s.is_empty()) {
                us.pop();
            }
            if ma == ua && us.len() >= ms.len() && us[..ms.len()] == ms[..] {
                if us.len() == ms.len() {
                    // the mounted directory itself is no document
                    return Report { steps: 1, class: hash(&format!("{got:?}")), trivial: true, verdict };
                }
                let mut w = lexical(Path::new(p));
                w.extend_from_slice(&us[ms.len()..]);
                want = Some(w);
                break;
            }
        }
        let g = got.as_ref().map(|p| lexical(p));
        if g != want {
            verdict = V::Bad(format!("expected {want:?}\ngot {g:?}"))
        }
    }
    Report { steps: 1, class: hash(&format!("{got:?}")), trivial: got.is_none(), verdict }
}

struct Scratch(PathBuf);

fn scratch() -> &'static Scratch {
    static S: OnceLock<Scratch> = OnceLock::new();
    S.get_or_init(|| {
        let root = std::env::var("MC_ROOT").unwrap_or("/verif".into());
        let d = PathBuf::from(root).join("work").join("fs");
        for sub in ["in/x/y", "out"] {
            std::fs::create_dir_all(d.join(sub)).unwrap()
        }
        for (f, c) in [("in/f", "\"in/f\""), ("in/x/f", "{\"k\":[1,\"\u{e9}\"]}"), ("in/x/y/f", "\"in/x/y/f\""), ("out/f", "\"secret\""), ("f", "\"secret\""), ("in/bad", "{"), ("in/x/x", "[]")] {
            std::fs::write(d.join(f), c).unwrap()
        }
        std::fs::write(d.join("in/bin"), [0x22, 0xff, 0x22]).unwrap();
        Scratch(d)
    })
}

/// Real files: what is loaded is the content of the file, and never of one outside of the mount.
fn files(ch: &mut Chooser) -> Report {
    let s = scratch();
    let mut u = ch.of(&["http://a.org/", "http://a.org/x/", "http://a.org/in/", "http://b.org/"]).to_string();
    for _ in 0..ch.pick(4) {
        if !u.ends_with('/') {
            u.push('/')
        }
        u.push_str(ch.of(&["f", "x", "y", "..", "%2e%2e", "out", "in", "bad", "bin", "", "."]));
    }
    u.push_str(ch.of(&["", "?q", "#h", "/"]));
    ch.describe(|| format!("http://a.org/ mounted on in/, url={u}"));
    let mut l = FsLoader::new();
    l.mount(IriBuf::new("http://a.org/".into()).unwrap(), s.0.join("in"));
    let got = block_on(l.load(Iri::new(&u).unwrap())).map(|d| (d.url.map(|u| u.to_string()), from_impl(&d.document)));
    let (auth, segs) = split(&u);
    let want = match (auth.as_str(), normal(&segs)) {
        ("http://a.org", Some(mut n)) => {
            let dir = n.last().is_some_and(|s| s.is_empty());
            n.retain(|s| !s.is_empty());
            match n.join("/").as_str() {
                _ if dir => None,
                "f" => Some("\"in/f\""),
                "x/x" => Some("[]"),
                "x/f" => Some("{\"k\":[1,\"\u{e9}\"]}"),
                "x/y/f" => Some("\"in/x/y/f\""),
                _ => None,
            }
        }
        _ => None,
    };
    // empty segments and dot segments may be refused
    let odd = segs[..segs.len().saturating_sub(1)].iter().any(|s| s.is_empty()) || segs.iter().any(|s| s == "." || s == "..") || segs.last().is_some_and(|s| s.is_empty());
    let verdict = match (&got, want) {
        (Ok((_, d)), _) if *d == J::s("secret") => V::Bad(format!("loaded a file outside of the mount: {d:?}")),
        (Ok((at, d)), Some(w)) if *d == J::parse(w).unwrap() && at.as_deref() == Some(u.as_str()) => V::Ok,
        (Err(e), None) if e.target.as_str() == u => V::Ok,
        _ if odd => V::Ok,
        _ => V::Bad(format!("expected {want:?}\ngot {got:?}")),
    };
    Report { steps: 1, class: hash(&format!("{:?}", got.as_ref().map_err(|e| e.cause.to_string()))), trivial: got.is_err(), verdict }
}

// --- combinators ---

#[derive(Debug)]
struct Broken(usize);
impl std::fmt::Display for Broken {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "broken{}", self.0)
    }
}
impl std::error::Error for Broken {}

/// Leaf loaders, which record what they are asked.
struct Leaf<'a>(&'a LeafKind, usize, &'a std::cell::RefCell<Vec<usize>>);
#[derive(Clone, Debug)]
enum LeafKind {
    None,
    Hash(Vec<&'static str>),
    BTree(Vec<&'static str>),
    Broken,
    Late(u32, Vec<&'static str>),
}

fn doc(leaf: usize, u: &str) -> RemoteDocument<IriBuf> {
    RemoteDocument::new(Some(IriBuf::new(u.to_string()).unwrap()), None, to_impl(&J::s(&format!("{leaf}:{u}"))))
}

impl Loader for Leaf<'_> {
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        self.2.borrow_mut().push(self.1);
        match self.0 {
            LeafKind::None => NoLoader.load(url).await,
            LeafKind::Hash(us) => {
                let m: HashMap<IriBuf, RemoteDocument> = us.iter().map(|u| (IriBuf::new(u.to_string()).unwrap(), doc(self.1, u))).collect();
                m.load(url).await
            }
            LeafKind::BTree(us) => {
                let m: BTreeMap<IriBuf, RemoteDocument> = us.iter().map(|u| (IriBuf::new(u.to_string()).unwrap(), doc(self.1, u))).collect();
                (&m).load(url).await
            }
            LeafKind::Broken => Err(LoadError::new(url.to_owned(), Broken(self.1))),
            LeafKind::Late(n, us) => {
                crate::imp::YieldN(*n).await;
                if us.contains(&url.as_str()) {
                    Ok(doc(self.1, url.as_str()))
                } else {
                    Err(LoadError::new(url.to_owned(), Broken(self.1)))
                }
            }
        }
    }
}

impl LeafKind {
    fn has(&self, u: &str) -> bool {
        match self {
            LeafKind::Hash(v) | LeafKind::BTree(v) | LeafKind::Late(_, v) => v.contains(&u),
            _ => false,
        }
    }
}

fn chains(ch: &mut Chooser) -> Report {
    let pools: [&[&'static str]; 4] = [&["http://a.org/1"], &["http://a.org/1", "http://a.org/2"], &["http://a.org/2"], &["http://A.org/1", "http://a.org/1#f"]];
    let n = 1 + ch.pick(3);
    let leaves: Vec<LeafKind> = (0..n)
        .map(|_| match ch.pick(5) {
            0 => LeafKind::None,
            1 => LeafKind::Hash(ch.of(&pools).to_vec()),
            2 => LeafKind::BTree(ch.of(&pools).to_vec()),
            3 => LeafKind::Broken,
            _ => LeafKind::Late(1, ch.of(&pools).to_vec()),
        })
        .collect();
    let left = ch.pick(2) == 1;
    let u = *ch.of(&["http://a.org/1", "http://a.org/2", "http://a.org/3"]);
    let vocabulary = ch.pick(2) == 1;
    ch.describe(|| format!("{leaves:?} left-nested={left} with-vocabulary={vocabulary} url={u}"));
    let log = std::cell::RefCell::new(vec![]);
    let leaf = |i: usize| Leaf(&leaves[i], i, &log);
    let iri = Iri::new(u).unwrap();
    fn via(l: impl Loader, iri: &Iri, vocabulary: bool) -> Result<(Option<String>, J), LoadError> {
        use json_ld::rdf_types::vocabulary::{IndexVocabulary, IriVocabulary, IriVocabularyMut};
        if vocabulary {
            let mut v: IndexVocabulary = IndexVocabulary::new();
            let i = v.insert(iri);
            block_on(l.load_with(&mut v, i)).map(|d| (d.url.map(|u| v.iri(&u).unwrap().to_string()), from_impl(&d.document)))
        } else {
            block_on(l.load(iri)).map(|d| (d.url.map(|u| u.to_string()), from_impl(&d.document)))
        }
    }
    let got = match (n, left) {
        (1, _) => via(leaf(0), iri, vocabulary),
        (2, _) => via(ChainLoader::new(leaf(0), leaf(1)), iri, vocabulary),
        (_, true) => via(&ChainLoader::new(ChainLoader::new(leaf(0), leaf(1)), leaf(2)), iri, vocabulary),
        _ => via(ChainLoader::new(leaf(0), ChainLoader::new(leaf(1), leaf(2))), iri, vocabulary),
    };
    let first = leaves.iter().position(|l| l.has(u));
    let asked: Vec<usize> = (0..first.map_or(n, |i| i + 1)).collect();
    let verdict = match (&got, first) {
        (Ok(d), Some(i)) if *d == (Some(u.to_string()), J::s(&format!("{i}:{u}"))) && *log.borrow() == asked => V::Ok,
        (Err(e), None) if e.target.as_str() == u && *log.borrow() == asked => {
            let s = e.to_string();
            if (0..n).all(|i| !matches!(leaves[i], LeafKind::Broken | LeafKind::Late(..)) || s.contains(&format!("broken{i}"))) {
                V::Ok
            } else {
                V::Bad(format!("a cause is missing from {s:?}"))
            }
        }
        _ => V::Bad(format!("expected document of loader {first:?}\ngot {got:?}\nasked {:?}", log.borrow())),
    };
    Report { steps: asked.len() as u64, class: hash(&format!("{:?}", got.as_ref().map_err(|e| e.to_string()))), trivial: false, verdict }
}

/// Extraction of the context of a loaded document.
fn contexts(ch: &mut Chooser) -> Report {
    use json_ld::RemoteContextReference;
    let docs = crate::gen::list("{'@context':{'a':'http://e.org/a'}};;{'@context':'c','x':1};;{'@context':[null,{'@vocab':'v'}]};;{'x':1};;[{'@context':{}}];;'s';;null;;{'@context':5};;{'@context':{'a':5}};;{'@context':null}");
    let d = ch.of(&docs).clone();
    let dup = ch.pick(2) == 1 && d.has("@context");
    ch.describe(|| format!("{d:?} duplicate={dup}"));
    let mut v = to_impl(&d);
    if dup {
        v.as_object_mut().unwrap().push("@context".into(), json_syntax::Value::Null);
    }
    let mut m: HashMap<IriBuf, RemoteDocument> = HashMap::new();
    let u = IriBuf::new("http://a.org/c".into()).unwrap();
    m.insert(u.clone(), RemoteDocument::new(Some(u.clone()), None, v));
    let got = block_on(RemoteContextReference::Iri(u.clone()).load_context_with(&mut (), &m));
    let again = block_on(RemoteContextReference::Iri(u.clone()).loaded_context_with(&mut (), &m)).map(|c| c.into_owned());
    let print = |r: Result<json_ld::RemoteContext<IriBuf>, json_ld::ContextLoadError>| {
        use json_ld::syntax::IntoJson;
        r.map(|c| (c.url.map(|u| u.to_string()), from_impl(&c.document.into_json()))).map_err(|_| ())
    };
    let (got, again) = (print(got), print(again));
    let want = match d.get("@context") {
        Some(c) if !dup && c.as_obj().is_none() | c.get("a").map_or(true, |a| a.as_str().is_some()) && *c != j("5") => Ok((Some(u.to_string()), c.clone())),
        _ => Err(()),
    };
    let verdict = if got == want && again == want { V::Ok } else { V::Bad(format!("expected {want:?}\ngot {got:?}, {again:?}")) };
    Report { steps: 1, class: hash(&format!("{got:?}")), trivial: false, verdict }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as u32;
    #[allow(unused_mut)]
    let mut families = vec![family("paths", 2, move |ch| paths(ch, 4 + t as usize)), family("nested mount points", 0, nested_mounts), family("files", 0, files), family("chains", 0, chains), family("contexts", 0, contexts)];
    #[cfg(feature = "http")]
    {
        use super::c09http::*;
        families.push(family("http", 2 + t, one));
        families.push(family("http hops", 0, hops));
        families.push(family("http accept", 0, accept));
    }
    Prop {
        id: "C09",
        level: "fault_enumeration",
        rule: "mount points, URLs, files, chains of loaders, HTTP responses (status, content type, Link headers, bodies) and request profiles are enumerated from finite alphabets",
        assumptions: &[],
        families,
    }
}
