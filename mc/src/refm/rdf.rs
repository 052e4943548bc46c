//! Serialization to RDF, after the recommendation. A dataset is an array of
//! `{"g","s","p","o"}` objects, a literal is `{"@value","@type","@language"}`.
use super::flatten::NodeMap;
use crate::iri::{is_blank, is_iri};
use crate::json::J;

pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dir {
    None,
    I18n,
    Compound,
}

/// Well-formed BCP47 tag, as far as the alphabets go: alphanumeric subtags of 1 to 8 characters,
/// the first one alphabetic (2 or more).
pub fn well_formed_lang(s: &str) -> bool {
    let mut it = s.split('-');
    let f = it.next().unwrap();
    (2..=8).contains(&f.len())
        && f.chars().all(|c| c.is_ascii_alphabetic())
        && it.all(|x| (1..=8).contains(&x.len()) && x.chars().all(|c| c.is_ascii_alphanumeric()))
}

pub fn lit(v: &str, ty: &str, lang: Option<&str>) -> J {
    let mut r = J::o(&[("@value", J::s(v)), ("@type", J::s(ty))]);
    if let Some(l) = lang {
        r.set("@language", J::s(&l.to_lowercase()))
    }
    r
}

pub fn canonical_double(n: f64) -> String {
    let s = format!("{n:.15e}");
    let (m, e) = s.split_once('e').unwrap();
    let m = m.trim_end_matches('0');
    let m = if m.ends_with('.') { format!("{m}0") } else { m.to_string() };
    format!("{m}E{e}")
}

/// RFC 8785.
pub fn jcs(j: &J) -> String {
    match j {
        J::Num(n) => {
            let mut b = ryu_js::Buffer::new();
            b.format(n.parse::<f64>().unwrap()).to_string()
        }
        J::Arr(a) => format!("[{}]", a.iter().map(jcs).collect::<Vec<_>>().join(",")),
        J::Obj(o) => {
            let mut o: Vec<&(String, J)> = o.iter().collect();
            o.sort_by_key(|(k, _)| k.encode_utf16().collect::<Vec<_>>());
            format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{}", J::s(k).print(), jcs(v))).collect::<Vec<_>>().join(","))
        }
        x => x.print(),
    }
}

struct S {
    quads: Vec<J>,
    fresh: usize,
    dir: Dir,
}

fn resource(s: &str) -> bool {
    is_iri(s) || is_blank(s)
}

impl S {
    fn bnode(&mut self) -> String {
        self.fresh += 1;
        format!("_:l{}", self.fresh - 1)
    }

    fn quad(&mut self, g: &str, s: &str, p: &str, o: J) {
        let q = J::o(&[("g", J::s(g)), ("s", J::s(s)), ("p", J::s(p)), ("o", o)]);
        if !self.quads.contains(&q) {
            self.quads.push(q)
        }
    }

    fn list(&mut self, g: &str, items: &[J]) -> J {
        let bs: Vec<String> = items.iter().map(|_| self.bnode()).collect();
        let nil = format!("{RDF}nil");
        for (i, x) in items.iter().enumerate() {
            if let Some(o) = self.object(g, x) {
                self.quad(g, &bs[i], &format!("{RDF}first"), o)
            }
            let rest = bs.get(i + 1).unwrap_or(&nil).clone();
            self.quad(g, &bs[i], &format!("{RDF}rest"), J::Str(rest))
        }
        J::Str(bs.first().cloned().unwrap_or(nil))
    }

    fn object(&mut self, g: &str, x: &J) -> Option<J> {
        if let Some(l) = x.get("@list") {
            return Some(self.list(g, &l.arrayify()));
        }
        if !x.has("@value") {
            let id = x.get("@id")?.as_str()?;
            return resource(id).then(|| J::s(id));
        }
        let v = x.get("@value").unwrap();
        let mut ty = x.get("@type").and_then(|t| t.as_str()).map(|t| t.to_string());
        if let Some(t) = &ty {
            if t != "@json" && !is_iri(t) {
                return None;
            }
        }
        let lang = x.get("@language").and_then(|l| l.as_str());
        if lang.map_or(false, |l| !well_formed_lang(l)) {
            return None;
        }
        let lex = if ty.as_deref() == Some("@json") {
            ty = Some(format!("{RDF}JSON"));
            jcs(v)
        } else {
            match v {
                J::Bool(b) => {
                    ty.get_or_insert(format!("{XSD}boolean"));
                    b.to_string()
                }
                J::Num(n) => {
                    let f: f64 = n.parse().unwrap();
                    if f % 1.0 != 0.0 || f.abs() >= 1e21 || ty.as_deref() == Some(&format!("{XSD}double")) {
                        ty.get_or_insert(format!("{XSD}double"));
                        canonical_double(f)
                    } else {
                        ty.get_or_insert(format!("{XSD}integer"));
                        match n.parse::<i128>() {
                            Ok(n) => n.to_string(),
                            Err(_) => (f as i128).to_string(),
                        }
                    }
                }
                v => v.as_str().unwrap_or("null").to_string(),
            }
        };
        if let (Some(d), true) = (x.get("@direction").and_then(|d| d.as_str()), self.dir != Dir::None) {
            let l = lang.unwrap_or("").to_lowercase();
            if self.dir == Dir::I18n {
                return Some(lit(&lex, &format!("https://www.w3.org/ns/i18n#{l}_{d}"), None));
            }
            let b = self.bnode();
            let s = format!("{XSD}string");
            self.quad(g, &b, &format!("{RDF}value"), lit(&lex, &s, None));
            if lang.is_some() {
                self.quad(g, &b, &format!("{RDF}language"), lit(&l, &s, None))
            }
            self.quad(g, &b, &format!("{RDF}direction"), lit(d, &s, None));
            return Some(J::Str(b));
        }
        match (lang, ty) {
            (Some(l), _) => Some(lit(&lex, &format!("{RDF}langString"), Some(l))),
            (None, Some(t)) => Some(lit(&lex, &t, None)),
            (None, None) => Some(lit(&lex, &format!("{XSD}string"), None)),
        }
    }
}

pub fn to_rdf(expanded: &J, dir: Dir, generalized: bool, steps: &mut u64) -> J {
    let m = NodeMap::of(expanded);
    *steps += m.steps;
    let mut s = S { quads: vec![], fresh: 0, dir };
    for (g, nodes) in &m.graphs {
        if !g.is_empty() && !resource(g) {
            continue;
        }
        for (id, node) in nodes {
            if !resource(id) {
                continue;
            }
            for (p, v) in node.as_obj().unwrap() {
                *steps += 1;
                if p == "@type" {
                    for t in v.arrayify() {
                        if resource(t.as_str().unwrap()) {
                            s.quad(g, id, &format!("{RDF}type"), t)
                        }
                    }
                    continue;
                }
                if p.starts_with('@') || !resource(p) || (is_blank(p) && !generalized) {
                    continue;
                }
                for x in v.arrayify() {
                    if let Some(o) = s.object(g, &x) {
                        s.quad(g, id, p, o)
                    }
                }
            }
        }
    }
    J::Arr(s.quads)
}
