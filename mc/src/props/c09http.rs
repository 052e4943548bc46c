//! The HTTP loader against the LoadDocumentCallback of the recommendation (API §9.4), RFC 8288 (Link)
//! and RFC 9110 (Content-Type). Responses are canned: nothing is sent.
use crate::choose::Chooser;
use crate::explore::{hash, Report, V};
use crate::imp::block_on;
use crate::json::{from_impl, J};
use json_ld_core::loader::reqwest::{Options, ReqwestLoader};
use json_ld_core::{Loader, Profile};
use std::cell::RefCell;
use std::sync::OnceLock;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct Resp {
    status: u16,
    /// where the request ended up
    at: Option<String>,
    ctype: Option<String>,
    links: Vec<String>,
    body: String,
    /// the connection fails
    broken: bool,
}

#[derive(Default)]
struct Net {
    pages: BTreeMap<String, Resp>,
    log: Vec<(String, String)>,
}

thread_local! {
    static NET: RefCell<Net> = RefCell::new(Net::default());
}

fn client() -> reqwest_middleware::ClientWithMiddleware {
    static CLIENT: OnceLock<reqwest_middleware::ClientWithMiddleware> = OnceLock::new();
    CLIENT.get_or_init(|| reqwest_middleware::ClientBuilder::new(reqwest::Client::new()).with(Canned).build()).clone()
}

struct Canned;

#[async_trait::async_trait]
impl reqwest_middleware::Middleware for Canned {
    async fn handle(
        &self,
        req: reqwest::Request,
        _: &mut http::Extensions,
        _: reqwest_middleware::Next<'_>,
    ) -> reqwest_middleware::Result<reqwest::Response> {
        use reqwest::ResponseBuilderExt;
        let url = req.url().to_string();
        let accept = req.headers().get_all("accept").iter().map(|a| a.to_str().unwrap_or("?").to_string()).collect::<Vec<_>>().join(", ");
        let page = NET.with(|n| {
            n.borrow_mut().log.push((url.clone(), accept));
            n.borrow().pages.get(&url).cloned()
        });
        let page = page.unwrap_or(Resp { status: 404, ..Default::default() });
        if page.broken {
            return Err(reqwest_middleware::Error::middleware(std::io::Error::other("broken")));
        }
        let mut b = http::Response::builder().status(page.status).url(page.at.unwrap_or(url).parse().unwrap());
        if let Some(c) = &page.ctype {
            b = b.header("Content-Type", c)
        }
        for l in &page.links {
            b = b.header("Link", l)
        }
        Ok(b.body(page.body).unwrap().into())
    }
}

// --- reference ---

fn is_tchar(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}

struct P<'a>(&'a str);
impl<'a> P<'a> {
    fn ows(&mut self) {
        self.0 = self.0.trim_start_matches([' ', '\t'])
    }
    fn eat(&mut self, c: char) -> bool {
        match self.0.strip_prefix(c) {
            Some(r) => {
                self.0 = r;
                true
            }
            None => false,
        }
    }
    fn token(&mut self) -> Option<String> {
        let n = self.0.find(|c| !is_tchar(c)).unwrap_or(self.0.len());
        if n == 0 {
            return None;
        }
        let r = self.0[..n].to_string();
        self.0 = &self.0[n..];
        Some(r)
    }
    fn quoted(&mut self) -> Option<String> {
        let mut r = String::new();
        let mut it = self.0.char_indices();
        if it.next()?.1 != '"' {
            return None;
        }
        while let Some((i, c)) = it.next() {
            match c {
                '"' => {
                    self.0 = &self.0[i + 1..];
                    return Some(r);
                }
                '\\' => r.push(it.next()?.1),
                c => r.push(c),
            }
        }
        None
    }
    /// `*( OWS ";" OWS name [ "=" value ] )`
    fn params(&mut self) -> Option<Vec<(String, String)>> {
        let mut r = vec![];
        loop {
            self.ows();
            if !self.eat(';') {
                return Some(r);
            }
            self.ows();
            let Some(name) = self.token() else { continue };
            self.ows();
            let mut value = String::new();
            if self.eat('=') {
                self.ows();
                value = if self.0.starts_with('"') { self.quoted()? } else { self.loose()? };
            }
            let name = name.to_lowercase();
            if !r.iter().any(|(k, _)| *k == name) {
                r.push((name, value))
            }
        }
    }
    /// A token, or an unquoted IRI (which real servers send).
    fn loose(&mut self) -> Option<String> {
        let n = self.0.find([' ', '\t', ';', ',']).unwrap_or(self.0.len());
        if n == 0 {
            return None;
        }
        let r = self.0[..n].to_string();
        self.0 = &self.0[n..];
        Some(r)
    }
}

struct Lnk {
    href: String,
    params: Vec<(String, String)>,
}

fn links(headers: &[String]) -> Vec<Lnk> {
    let mut out = vec![];
    for h in headers {
        let mut p = P(h);
        loop {
            p.ows();
            if p.eat(',') {
                continue;
            }
            if !p.eat('<') {
                break;
            }
            let Some(n) = p.0.find('>') else { break };
            let href = p.0[..n].to_string();
            p.0 = &p.0[n + 1..];
            let Some(params) = p.params() else { break };
            // a target that is no IRI reference is no target
            if !href.contains(' ') {
                out.push(Lnk { href, params });
            }
            p.ows();
            if !p.eat(',') {
                break;
            }
        }
    }
    out
}

impl Lnk {
    fn get(&self, k: &str) -> &str {
        self.params.iter().find(|p| p.0 == k).map(|p| p.1.as_str()).unwrap_or("")
    }
    fn rel(&self, r: &str) -> bool {
        self.get("rel").split(' ').any(|x| x.eq_ignore_ascii_case(r))
    }
}

#[derive(Debug, PartialEq, Clone)]
struct Loaded {
    url: String,
    ctype: String,
    context: Option<String>,
    profile: BTreeSet<String>,
    doc: J,
}

const CTX: &str = "http://www.w3.org/ns/json-ld#context";

fn reference(pages: &BTreeMap<String, Resp>, url: &str, max: usize, log: &mut Vec<String>) -> Result<Loaded, String> {
    let mut url = url.to_string();
    for _ in 0..=max {
        log.push(url.clone());
        let page = pages.get(&url).ok_or("not found")?;
        if page.broken || page.status != 200 {
            return Err("failed".into());
        }
        if let Some(at) = &page.at {
            url = at.clone()
        }
        let (essence, params) = match &page.ctype {
            None => (String::new(), vec![]),
            Some(c) => {
                let mut p = P(c);
                p.ows();
                let n = p.0.find([';', ' ', '\t']).unwrap_or(p.0.len());
                let e = p.0[..n].to_lowercase();
                p.0 = &p.0[n..];
                match p.params() {
                    Some(x) => (e, x),
                    None => (String::new(), vec![]),
                }
            }
        };
        let json = essence == "application/json" || essence.ends_with("+json");
        let ls = links(&page.links);
        if !json {
            match ls.iter().find(|l| l.rel("alternate") && l.get("type").eq_ignore_ascii_case("application/ld+json")) {
                Some(l) => {
                    url = crate::iri::resolve(&url, &l.href);
                    continue;
                }
                None => return Err("content type".into()),
            }
        }
        let mut context = None;
        if essence != "application/ld+json" {
            let c: Vec<&Lnk> = ls.iter().filter(|l| l.rel(CTX)).collect();
            if c.len() > 1 {
                return Err("multiple context link headers".into());
            }
            context = c.first().map(|l| crate::iri::resolve(&url, &l.href));
        }
        let profile = params
            .iter()
            .find(|p| p.0 == "profile")
            .map(|p| p.1.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
            .unwrap_or_default();
        let doc = J::parse(&page.body).map_err(|_| "parse")?;
        return Ok(Loaded { url, ctype: essence, context, profile, doc });
    }
    Err("too many".into())
}

// --- enumeration ---

const BASE: &str = "http://h.org/d/doc";

const TYPES: &[Option<&str>] = &[
    Some("application/ld+json"),
    Some("application/json"),
    Some("text/html"),
    None,
    Some("application/vnd.x+json"),
    Some("application/json; charset=utf-8"),
    Some("application/json ; charset=utf-8"),
    Some("application/ld+json;profile=\"http://www.w3.org/ns/json-ld#expanded http://p.org/x\""),
    Some("application/ld+json; charset=utf-8; profile=\"http://www.w3.org/ns/json-ld#compacted\""),
    Some("application/ld+json; PROFILE=\"http://p.org/x\" ; q=1"),
    Some("Application/LD+JSON"),
    Some("APPLICATION/JSON"),
    Some("application/xhtml+xml"),
    Some("application/jsonx"),
    Some("text/json-ld"),
];

fn link_value(ch: &mut Chooser) -> String {
    let href = *ch.dev_of(&["ctx", "http://o.org/alt", "../up", "", "?q", "//k.org/x"]);
    let rel = match ch.pick(6) {
        0 => format!("\"{CTX}\""),
        1 => "\"alternate\"".into(),
        2 => "alternate".into(),
        3 => format!("\"alternate {CTX}\""),
        4 => "\"stylesheet\"".into(),
        _ => "\"Alternate\"".into(),
    };
    let ty = match ch.dev(4) {
        0 => Some("\"application/ld+json\""),
        1 => None,
        2 => Some("\"text/html\""),
        _ => Some("application/ld+json"),
    };
    let sep = *ch.dev_of(&["; ", ";", " ; ", ";\t"]);
    let mut ps = vec![format!("rel={rel}")];
    if let Some(t) = ty {
        ps.push(format!("type={t}"))
    }
    match ch.dev(8) {
        0 => {}
        1 => ps.reverse(),
        2 => ps.insert(0, "title=\"a;b,c\"".into()),
        3 => ps.insert(0, "title=\"a\\\"b\"".into()),
        4 => ps.insert(0, "crossorigin".into()),
        5 => ps[0] = format!("Rel={rel}"),
        6 => ps[0] = format!("rel = {rel}"),
        _ => ps.push("rel=\"prev\"".into()),
    }
    format!("<{href}>{sep}{}", ps.join(sep))
}

fn page(ch: &mut Chooser, free: bool) -> Resp {
    let ctype = TYPES[if free { ch.pick(TYPES.len()) } else { ch.dev(TYPES.len()) }].map(|s| s.to_string());
    let mut links = vec![];
    match ch.pick(5) {
        0 => {}
        1 => links.push(link_value(ch)),
        2 => {
            links.push(link_value(ch));
            links.push(link_value(ch))
        }
        3 => {
            let a = link_value(ch);
            let s = *ch.dev_of(&[", ", ",", " , ", ",, "]);
            links.push(format!("{a}{s}{}", link_value(ch)))
        }
        _ => {
            let bad = ch.dev_of(&["garbage", "<unclosed", "<x>; rel=\"unclosed", "<a b>; rel=\"alternate\"; type=\"application/ld+json\"", "<x>", ""]).to_string();
            links.push(bad);
            links.push(link_value(ch))
        }
    }
    let body = ch.dev_of(&["{\"a\":1}", "[\"\u{e9}\"]", "{", "", "{\"a\":1} x"]).to_string();
    let status = *ch.dev_of(&[200u16, 404, 500, 403]);
    let at = match ch.dev(3) {
        0 => None,
        1 => Some("http://m.org/moved/to".to_string()),
        _ => Some("http://h.org/e/".to_string()),
    };
    Resp { status, at, ctype, links, body, broken: ch.dev(2) == 1 }
}

fn loader(max: Option<usize>, profiles: Vec<Profile>) -> ReqwestLoader {
    // creating the client of the default options takes a long time
    static DEFAULT: OnceLock<usize> = OnceLock::new();
    let default = *DEFAULT.get_or_init(|| Options::default().max_redirections);
    ReqwestLoader::new_using(Options { request_profile: profiles, client: client(), max_redirections: max.unwrap_or(default) })
}

fn compare(ch: &mut Chooser, pages: BTreeMap<String, Resp>, url: &str, max: Option<usize>) -> Report {
    ch.describe(|| format!("{pages:?} max={max:?}"));
    let mut rlog = vec![];
    let spec = reference(&pages, url, max.unwrap_or(8), &mut rlog);
    NET.with(|n| {
        let mut n = n.borrow_mut();
        n.pages = pages;
        n.log.clear()
    });
    let l = loader(max, vec![]);
    let got = block_on(l.load(iref::Iri::new(url).unwrap()));
    let got = got
        .map(|d| Loaded {
            url: d.url.as_ref().map(|u| u.to_string()).unwrap_or_default(),
            ctype: d.content_type.as_ref().map(|m| m.essence_str().to_lowercase()).unwrap_or_default(),
            context: d.context_url.as_ref().map(|u| u.to_string()),
            profile: d.profile.iter().map(|p| p.iri().to_string()).collect(),
            doc: from_impl(&d.document),
        })
        .map_err(|e| e.to_string());
    let log = NET.with(|n| std::mem::take(&mut n.borrow_mut().log));
    let urls: Vec<String> = log.iter().map(|l| l.0.clone()).collect();
    let verdict = match (&spec, &got) {
        (Ok(a), Ok(b)) if a != b => V::Bad(format!("spec: {a:?}\nimpl: {b:?}")),
        (Ok(_), Err(_)) | (Err(_), Ok(_)) => V::Bad(format!("spec: {spec:?}\nimpl: {got:?}")),
        _ if urls != rlog => V::Bad(format!("spec requests {rlog:?}\nimpl requests {urls:?}")),
        _ if log.iter().any(|l| !accepts(&l.1, &[])) => V::Bad(format!("accept header {:?}", log[0].1)),
        _ => V::Ok,
    };
    Report { steps: rlog.len() as u64, class: hash(&format!("{got:?}")), trivial: false, verdict }
}

/// The Accept header asks for JSON-LD with the given profiles.
fn accepts(h: &str, profiles: &[String]) -> bool {
    let mut p = P(h);
    let mut found = false;
    loop {
        p.ows();
        let Some(n) = p.0.find([';', ',', ' ']).or(Some(p.0.len())) else { return false };
        let ty = p.0[..n].to_string();
        p.0 = &p.0[n..];
        // strict: an unquoted value is a token
        let mut params = vec![];
        loop {
            p.ows();
            if !p.eat(';') {
                break;
            }
            p.ows();
            let Some(k) = p.token() else { return false };
            if !p.eat('=') {
                return false;
            }
            let v = if p.0.starts_with('"') { p.quoted() } else { p.token() };
            let Some(v) = v else { return false };
            params.push((k, v))
        }
        if ty == "application/ld+json" {
            let got: Vec<String> = params.iter().find(|x| x.0 == "profile").map(|x| x.1.split(' ').map(|s| s.to_string()).collect()).unwrap_or_default();
            found |= got == profiles
        }
        p.ows();
        if p.0.is_empty() {
            return found;
        }
        if !p.eat(',') {
            return false;
        }
    }
}

pub fn one(ch: &mut Chooser) -> Report {
    let mut pages = BTreeMap::new();
    pages.insert(BASE.to_string(), page(ch, true));
    for u in ["http://h.org/d/ctx", "http://o.org/alt", "http://h.org/up", "http://m.org/moved/ctx", "http://h.org/e/ctx"] {
        pages.insert(u.to_string(), Resp { status: 200, ctype: Some("application/ld+json".into()), body: format!("\"{u}\""), ..Default::default() });
    }
    compare(ch, pages, BASE, None)
}

/// Chains of alternate representations.
pub fn hops(ch: &mut Chooser) -> Report {
    let n = ch.pick(12);
    let max = match ch.pick(5) {
        0 => None,
        k => Some(k - 1),
    };
    let end = ch.pick(4);
    let mut pages = BTreeMap::new();
    let u = |i: usize| format!("http://h.org/d/{i}");
    for i in 0..n {
        pages.insert(
            u(i),
            Resp {
                status: 200,
                ctype: Some("text/html".into()),
                links: vec![format!("<{}>; rel=\"alternate\"; type=\"application/ld+json\"", i + 1)],
                ..Default::default()
            },
        );
    }
    let last = match end {
        0 => Resp { status: 200, ctype: Some("application/ld+json".into()), body: "1".into(), ..Default::default() },
        1 => Resp { status: 200, ctype: Some("application/json".into()), body: "1".into(), links: vec![format!("<c>; rel=\"{CTX}\"")], ..Default::default() },
        2 => Resp { status: 200, ctype: Some("text/html".into()), links: vec!["<0>; rel=\"alternate\"; type=\"application/ld+json\"".into()], ..Default::default() },
        _ => Resp { status: 200, ctype: Some("text/html".into()), ..Default::default() },
    };
    pages.insert(u(n), last);
    compare(ch, pages, &u(0), max)
}

/// What is asked.
pub fn accept(ch: &mut Chooser) -> Report {
    let pool = ["http://www.w3.org/ns/json-ld#expanded", "http://www.w3.org/ns/json-ld#context", "http://p.org/x", "http://p.org/y?z=1;w,v"];
    let n = ch.pick(4);
    let want: Vec<String> = (0..n).map(|_| ch.of(&pool).to_string()).collect();
    ch.describe(|| format!("request_profile={want:?}"));
    let ps = want.iter().map(|p| Profile::new(iref::Iri::new(p.as_str()).unwrap())).collect();
    NET.with(|n| {
        let mut n = n.borrow_mut();
        n.pages.clear();
        n.log.clear()
    });
    let _ = block_on(loader(None, ps).load(iref::Iri::new(BASE).unwrap()));
    let log = NET.with(|n| std::mem::take(&mut n.borrow_mut().log));
    let h = log.first().map(|l| l.1.clone()).unwrap_or_default();
    let verdict = if log.len() == 1 && accepts(&h, &want) { V::Ok } else { V::Bad(format!("Accept: {h}")) };
    Report { steps: 1, class: hash(&h), trivial: false, verdict }
}
