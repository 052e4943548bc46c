//! Inverse context (API §4.3), IRI compaction (§6.2), value compaction (§6.3), compaction (§6.1).
use super::ctx::{self, expand_iri, Ctx};
use super::{Code, Env};
use crate::json::J;
use std::collections::BTreeMap;

type Sel = BTreeMap<String, String>;
/// var -> container -> "@language"/"@type"/"@any" -> value -> term
pub type Inverse = BTreeMap<String, BTreeMap<String, BTreeMap<&'static str, Sel>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct COpts {
    pub arrays: bool,
    pub relative: bool,
    pub ordered: bool,
}

fn first(m: &mut Sel, k: &str, t: &str) {
    m.entry(k.to_string()).or_insert_with(|| t.to_string());
}

fn lang_dir(l: &Option<String>, d: &Option<String>) -> String {
    match (l, d) {
        (l, Some(d)) => format!("{}_{}", l.clone().unwrap_or_default(), d).to_lowercase(),
        (Some(l), None) => l.to_lowercase(),
        (None, None) => "@none".to_string(),
    }
}

pub fn inverse(active: &Ctx) -> Inverse {
    let mut r = Inverse::new();
    // The default language alone, and with the default direction.
    let default_language = lang_dir(&active.language, &None);
    let mut terms: Vec<&String> = active.terms.keys().collect();
    terms.sort_by(|a, b| a.len().cmp(&b.len()).then(a.cmp(b)));
    for t in terms {
        let d = &active.terms[t];
        let Some(var) = &d.iri else { continue };
        let mut c = d.container.clone();
        c.sort();
        let c = if c.is_empty() { "@none".to_string() } else { c.concat() };
        let e = r.entry(var.clone()).or_default().entry(c).or_default();
        first(e.entry("@any").or_default(), "@none", t);
        e.entry("@language").or_default();
        e.entry("@type").or_default();
        let mut put = |map: &'static str, k: &str| first(e.get_mut(map).unwrap(), k, t);
        if d.reverse {
            put("@type", "@reverse")
        } else if d.ty.as_deref() == Some("@none") {
            put("@language", "@any");
            put("@type", "@any")
        } else if let Some(ty) = &d.ty {
            put("@type", ty)
        } else if let (Some(l), Some(dir)) = (&d.language, &d.direction) {
            let k = match (l, dir) {
                (None, None) => "@null".to_string(),
                (l, dir) => lang_dir(l, dir),
            };
            put("@language", &k)
        } else if let Some(l) = &d.language {
            put("@language", &l.clone().map(|l| l.to_lowercase()).unwrap_or("@null".into()))
        } else if let Some(dir) = &d.direction {
            put("@language", &dir.clone().map(|d| format!("_{d}")).unwrap_or("@none".into()))
        } else if active.direction.is_some() {
            put("@language", &lang_dir(&active.language, &active.direction));
            put("@language", "@none");
            put("@type", "@none")
        } else {
            put("@language", &default_language);
            put("@language", "@none");
            put("@type", "@none")
        }
    }
    r
}

fn str_of<'a>(j: &'a J, k: &str) -> Option<&'a str> {
    j.get(k).and_then(|v| v.as_str())
}
fn value_lang(v: &J) -> Option<String> {
    if !v.has("@language") && !v.has("@direction") {
        return None;
    }
    Some(lang_dir(&str_of(v, "@language").map(|s| s.into()), &str_of(v, "@direction").map(|s| s.into())))
}
fn is_graph(v: &J) -> bool {
    v.is_obj() && v.has("@graph") && v.as_obj().unwrap().iter().all(|(k, _)| k == "@graph" || k == "@id" || k == "@index")
}

/// IRI compaction. `value` guides the selection of a term.
pub fn iri(env: &Env, active: &Ctx, var: &str, value: Option<&J>, vocab: bool, reverse: bool) -> Result<String, Code> {
    env.step();
    if vocab {
        let inv = inverse(active);
        if let Some(entry) = inv.get(var) {
            let default_language = if active.direction.is_some() {
                lang_dir(&active.language, &active.direction)
            } else {
                lang_dir(&active.language, &None)
            };
            let mut containers: Vec<&str> = vec![];
            let mut tl = "@language";
            let mut tlv = "@null".to_string();
            let none = J::Null;
            let v = value.unwrap_or(&none);
            if v.is_obj() && v.has("@index") && !is_graph(v) {
                containers.extend(["@index", "@index@set"])
            }
            if reverse {
                tl = "@type";
                tlv = "@reverse".into();
                containers.push("@set")
            } else if v.has("@list") {
                if !v.has("@index") {
                    containers.push("@list")
                }
                let list = v.get("@list").unwrap().arrayify();
                let mut cl: Option<String> = if list.is_empty() { Some(default_language.clone()) } else { None };
                let mut ct: Option<String> = None;
                for i in &list {
                    let (mut il, mut it) = ("@none".to_string(), "@none".to_string());
                    if i.has("@value") {
                        if let Some(l) = value_lang(i) {
                            il = l
                        } else if let Some(t) = str_of(i, "@type") {
                            it = t.into()
                        } else {
                            il = "@null".into()
                        }
                    } else {
                        it = "@id".into()
                    }
                    match &cl {
                        None => cl = Some(il),
                        Some(c) if c != &il && i.has("@value") => cl = Some("@none".into()),
                        _ => {}
                    }
                    match &ct {
                        None => ct = Some(it),
                        Some(c) if c != &it => ct = Some("@none".into()),
                        _ => {}
                    }
                }
                let ct = ct.unwrap_or("@none".into());
                if ct != "@none" {
                    tl = "@type";
                    tlv = ct
                } else {
                    tlv = cl.unwrap_or("@none".into())
                }
            } else if is_graph(v) {
                if v.has("@index") {
                    containers.extend(["@graph@index", "@graph@index@set"])
                }
                if v.has("@id") {
                    containers.extend(["@graph@id", "@graph@id@set"])
                }
                containers.extend(["@graph", "@graph@set", "@set"]);
                if !v.has("@index") {
                    containers.extend(["@graph@index", "@graph@index@set"])
                }
                if !v.has("@id") {
                    containers.extend(["@graph@id", "@graph@id@set"])
                }
                containers.extend(["@index", "@index@set"]);
                tl = "@type";
                tlv = "@id".into()
            } else {
                if v.has("@value") {
                    if value_lang(v).is_some() && !v.has("@index") {
                        tlv = value_lang(v).unwrap();
                        containers.extend(["@language", "@language@set"])
                    } else if let Some(t) = str_of(v, "@type") {
                        tl = "@type";
                        tlv = t.into()
                    }
                } else {
                    tl = "@type";
                    tlv = "@id".into();
                    containers.extend(["@id", "@id@set", "@type", "@set@type"])
                }
                containers.push("@set")
            }
            containers.push("@none");
            if !env.v10 && !(v.is_obj() && v.has("@index")) {
                containers.extend(["@index", "@index@set"])
            }
            if !env.v10 && v.has("@value") && v.as_obj().unwrap().len() == 1 {
                containers.extend(["@language", "@language@set"])
            }
            let mut preferred: Vec<String> = vec![];
            if tlv == "@reverse" {
                preferred.push("@reverse".into())
            }
            if (tlv == "@id" || tlv == "@reverse") && v.is_obj() && v.has("@id") {
                let id = str_of(v, "@id").unwrap_or("");
                let c = iri(env, active, id, None, true, false)?;
                let same = active.term(&c).map_or(false, |t| t.iri.as_deref() == Some(id));
                let l = if same { ["@vocab", "@id", "@none"] } else { ["@id", "@vocab", "@none"] };
                preferred.extend(l.iter().map(|s| s.to_string()))
            } else {
                preferred.push(tlv.clone());
                preferred.push("@none".into());
                if v.get("@list").map_or(false, |l| l.arrayify().is_empty()) {
                    tl = "@any"
                }
            }
            preferred.push("@any".into());
            let dirs: Vec<String> = preferred.iter().filter_map(|p| p.find('_').map(|i| p[i..].to_string())).collect();
            if !dirs.is_empty() && tl == "@language" {
                preferred.extend(dirs)
            }
            for c in containers {
                let c = if c == "@set@type" { "@set@type".to_string() } else { sorted_key(c) };
                if let Some(m) = entry.get(&c).and_then(|m| m.get(tl)) {
                    for p in &preferred {
                        if let Some(t) = m.get(p) {
                            return Ok(t.clone());
                        }
                    }
                }
            }
        }
        if let Some(voc) = &active.vocab {
            if var.len() > voc.len() && var.starts_with(voc.as_str()) {
                let s = &var[voc.len()..];
                if active.term(s).is_none() {
                    return Ok(s.to_string());
                }
            }
        }
    }
    let mut best: Option<String> = None;
    for (t, d) in &active.terms {
        let Some(m) = &d.iri else { continue };
        if m == var || !var.starts_with(m.as_str()) || !d.prefix {
            continue;
        }
        let c = format!("{t}:{}", &var[m.len()..]);
        let usable = match active.term(&c) {
            None => true,
            Some(o) => o.iri.as_deref() == Some(var) && value.is_none(),
        };
        if usable && best.as_ref().map_or(true, |b| c.len() < b.len() || (c.len() == b.len() && &c < b)) {
            best = Some(c)
        }
    }
    if let Some(b) = best {
        return Ok(b);
    }
    if let Some(i) = var.find(':') {
        if !var[i + 1..].starts_with("//") && active.term(&var[..i]).map_or(false, |t| t.prefix) {
            return Err("IRI confused with prefix");
        }
    }
    if !vocab {
        if let (Some(b), Ok(i)) = (&active.base, iref::Iri::new(var)) {
            if let Ok(b) = iref::Iri::new(b.as_str()) {
                let r = i.relative_to(b).to_string();
                // a relative reference must not read as a keyword
                return Ok(if super::keyword_form(&r) && !super::is_keyword(&r) { format!("./{r}") } else { r });
            }
        }
    }
    Ok(var.to_string())
}

fn sorted_key(c: &str) -> String {
    let mut v: Vec<&str> = c.split('@').filter(|s| !s.is_empty()).collect();
    v.sort();
    v.iter().map(|s| format!("@{s}")).collect()
}

pub struct Compactor<'a> {
    pub env: &'a Env,
    pub o: COpts,
}

impl<'a> Compactor<'a> {
    fn kw(&self, c: &Ctx, k: &str) -> Result<String, Code> {
        iri(self.env, c, k, None, true, false)
    }

    /// Value compaction.
    fn value(&self, active: &Ctx, ap: Option<&str>, v: &J) -> Result<J, Code> {
        let env = self.env;
        let def = ap.and_then(|p| active.term(p));
        let ty = def.and_then(|d| d.ty.clone());
        let lang = def.and_then(|d| d.language.clone()).unwrap_or_else(|| active.language.clone());
        let dir = def.and_then(|d| d.direction.clone()).unwrap_or_else(|| active.direction.clone());
        let o = v.as_obj().unwrap();
        let index_ok = !v.has("@index") || def.map_or(false, |d| d.has("@index"));
        let mut r = v.clone();
        if v.has("@id") && o.iter().all(|(k, _)| k == "@id" || k == "@index") {
            let id = str_of(v, "@id").unwrap();
            if ty.as_deref() == Some("@id") && index_ok {
                return Ok(J::Str(iri(env, active, id, None, false, false)?));
            } else if ty.as_deref() == Some("@vocab") && index_ok {
                return Ok(J::Str(iri(env, active, id, None, true, false)?));
            }
            return Ok(v.clone());
        } else if !v.has("@value") {
            return Ok(v.clone());
        } else if v.has("@type") && str_of(v, "@type") == ty.as_deref() {
            if index_ok {
                return Ok(v.get("@value").unwrap().clone());
            }
        }
        // (as a scalar, a value to which the type mapping does not apply would be given that type back)
        if ty.is_some() && ty.as_deref() != Some("@none") && !v.has("@type") {
            *env.unspecified.borrow_mut() = true
        }
        if ty.as_deref() == Some("@none") || v.has("@type") {
            if let Some(t) = str_of(v, "@type") {
                r.set("@type", J::Str(iri(env, active, t, None, true, false)?))
            }
        } else if v.get("@value").map_or(true, |x| x.as_str().is_none()) {
            if index_ok {
                return Ok(v.get("@value").unwrap().clone());
            }
        } else {
            let eq = |a: Option<&str>, b: &Option<String>| a.map(|s| s.to_lowercase()) == b.as_ref().map(|s| s.to_lowercase());
            if eq(str_of(v, "@language"), &lang) && eq(str_of(v, "@direction"), &dir) && index_ok {
                return Ok(v.get("@value").unwrap().clone());
            }
        }
        // (an index map carries the index)
        if index_ok {
            r.remove("@index");
        }
        let mut out = J::obj();
        for (k, x) in r.as_obj().unwrap() {
            out.set(&self.kw(active, k)?, x.clone())
        }
        Ok(out)
    }

    pub fn compact(&self, active: &Ctx, ap: Option<&str>, el: &J) -> Result<J, Code> {
        let env = self.env;
        env.step();
        let type_scoped = active.clone();
        if let J::Arr(items) = el {
            let mut r = vec![];
            for i in items {
                let c = self.compact(active, ap, i)?;
                if !c.is_null() {
                    r.push(c)
                }
            }
            let cont = active.container(ap);
            let keep = ap == Some("@graph") || ap == Some("@set") || cont.iter().any(|c| c == "@list" || c == "@set");
            if r.len() != 1 || !self.o.arrays || keep {
                return Ok(J::Arr(r));
            }
            return Ok(r.pop().unwrap());
        }
        let Some(o) = el.as_obj() else { return Ok(el.clone()) };
        let mut active = active.clone();
        if let Some(p) = &active.previous {
            if !el.has("@value") && !(o.len() == 1 && el.has("@id")) {
                active = (**p).clone()
            }
        }
        // property-scoped context: the definition that chose the term is the one in scope
        if let Some(d) = ap.and_then(|p| type_scoped.term(p)) {
            if let Some(c) = &d.context {
                let mut po = ctx::Opts::base(d.base_url.clone());
                po.override_protected = true;
                active = ctx::process(env, &active, c, &po)?;
            }
        }
        let def = ap.and_then(|p| active.term(p)).cloned();
        if el.has("@value") || el.has("@id") {
            let v = self.value(&active, ap, el);
            if el.has("@value") {
                return v;
            }
            let v = v?;
            if !v.is_obj() {
                return Ok(v);
            }
        }
        if el.has("@list") && def.as_ref().map_or(false, |d| d.has("@list")) {
            return self.compact(&active, ap, el.get("@list").unwrap());
        }
        let inside_reverse = ap == Some("@reverse");
        let mut r = J::obj();
        if let Some(types) = el.get("@type") {
            let mut ct = vec![];
            for t in types.arrayify() {
                if let Some(t) = t.as_str() {
                    ct.push(iri(env, &type_scoped, t, None, true, false)?)
                }
            }
            ct.sort();
            for t in ct {
                if let Some(d) = type_scoped.term(&t) {
                    if let Some(c) = &d.context {
                        let mut po = ctx::Opts::base(d.base_url.clone());
                        po.propagate = false;
                        active = ctx::process(env, &active, c, &po)?;
                    }
                }
            }
        }
        let active = &active;
        let mut keys: Vec<&(String, J)> = o.iter().collect();
        if self.o.ordered {
            keys.sort_by(|a, b| a.0.cmp(&b.0))
        }
        for (prop, value) in keys {
            match prop.as_str() {
                "@id" => {
                    let c = iri(env, active, value.as_str().unwrap(), None, false, false)?;
                    r.set(&self.kw(active, "@id")?, J::Str(c));
                    continue;
                }
                "@type" => {
                    let c = match value {
                        J::Arr(a) => {
                            let mut l = vec![];
                            for t in a {
                                l.push(J::Str(iri(env, &type_scoped, t.as_str().unwrap(), None, true, false)?))
                            }
                            J::Arr(l)
                        }
                        t => J::Str(iri(env, &type_scoped, t.as_str().unwrap(), None, true, false)?),
                    };
                    let alias = self.kw(active, "@type")?;
                    let as_array = (!env.v10 && active.container(Some(&alias)).iter().any(|c| c == "@set")) || !self.o.arrays;
                    r.add_value(&alias, c, as_array);
                    continue;
                }
                "@reverse" => {
                    let c = self.compact(active, Some("@reverse"), value)?;
                    let mut rest = J::obj();
                    for (p, v) in c.as_obj().unwrap() {
                        match active.term(p) {
                            Some(d) if d.reverse => {
                                let as_array = d.has("@set") || !self.o.arrays;
                                r.add_value(p, v.clone(), as_array)
                            }
                            _ => rest.set(p, v.clone()),
                        }
                    }
                    if !rest.as_obj().unwrap().is_empty() {
                        r.set(&self.kw(active, "@reverse")?, rest)
                    }
                    continue;
                }
                "@index" if def.as_ref().map_or(false, |d| d.has("@index")) => continue,
                "@index" | "@direction" | "@language" | "@value" => {
                    r.set(&self.kw(active, prop)?, value.clone());
                    continue;
                }
                _ => {}
            }
            let items = value.arrayify();
            if items.is_empty() {
                let p = iri(env, active, prop, Some(value), true, inside_reverse)?;
                self.nest(active, &mut r, &p)?.add_value(&p, J::Arr(vec![]), true);
            }
            for item in &items {
                let p = iri(env, active, prop, Some(item), true, inside_reverse)?;
                let d = active.term(&p).cloned();
                let has = |c: &str| d.as_ref().map_or(false, |d| d.has(c));
                let as_array = has("@set") || p == "@graph" || p == "@list" || !self.o.arrays;
                let graph = is_graph(item);
                let inner = if item.has("@list") {
                    item.get("@list").unwrap()
                } else if graph {
                    item.get("@graph").unwrap()
                } else {
                    item
                };
                let mut ci = self.compact(active, Some(&p), inner)?;
                let nr = self.nest(active, &mut r, &p)?;
                if item.has("@list") {
                    if ci.as_arr().is_none() {
                        ci = J::Arr(vec![ci])
                    }
                    if !has("@list") {
                        let mut m = J::obj();
                        m.set(&self.kw(active, "@list")?, ci);
                        if let Some(i) = item.get("@index") {
                            m.set(&self.kw(active, "@index")?, i.clone())
                        }
                        nr.add_value(&p, m, as_array)
                    } else {
                        nr.set(&p, ci)
                    }
                    continue;
                }
                let simple = graph && !item.has("@id");
                if graph {
                    if items.len() > 1 && ci.as_arr().map_or(false, |a| a.is_empty()) {
                        // an empty graph among other values: there is no way to write it
                        *env.unspecified.borrow_mut() = true;
                    }
                    if has("@graph") && has("@id") {
                        let k = match str_of(item, "@id") {
                            Some(i) => iri(env, active, i, None, false, false)?,
                            None => self.kw(active, "@none")?,
                        };
                        self.map_entry(nr, &p, &k, ci, as_array)
                    } else if has("@graph") && has("@index") && simple {
                        let k = match str_of(item, "@index") {
                            Some(i) => i.to_string(),
                            None => self.kw(active, "@none")?,
                        };
                        self.map_entry(nr, &p, &k, ci, as_array)
                    } else if has("@graph") && simple {
                        if ci.as_arr().map_or(false, |a| a.len() > 1) {
                            let mut m = J::obj();
                            m.set(&self.kw(active, "@included")?, ci);
                            ci = m
                        }
                        nr.add_value(&p, ci, as_array)
                    } else {
                        let mut m = J::obj();
                        m.set(&self.kw(active, "@graph")?, ci);
                        if let Some(i) = str_of(item, "@id") {
                            m.set(&self.kw(active, "@id")?, J::Str(iri(env, active, i, None, false, false)?))
                        }
                        if let Some(i) = item.get("@index") {
                            m.set(&self.kw(active, "@index")?, i.clone())
                        }
                        nr.add_value(&p, m, as_array)
                    }
                    continue;
                }
                if (has("@language") || has("@index") || has("@id") || has("@type")) && !has("@graph") {
                    let index_key = d.as_ref().and_then(|d| d.index.clone()).unwrap_or("@index".into());
                    let mut key: Option<String> = None;
                    if has("@language") && item.has("@value") {
                        ci = item.get("@value").unwrap().clone();
                        key = str_of(item, "@language").map(|s| s.into())
                    } else if has("@index") && index_key == "@index" {
                        key = str_of(item, "@index").map(|s| s.into())
                    } else if has("@index") {
                        let x = expand_iri(active, &index_key, false, true).unwrap_or(index_key.clone());
                        let ck = iri(env, active, &x, None, true, false)?;
                        if let Some(v) = ci.get(&ck).cloned() {
                            let mut vs = v.arrayify();
                            if vs.first().map_or(false, |s| s.as_str().is_some()) {
                                key = vs.remove(0).as_str().map(|s| s.into());
                                match vs.len() {
                                    0 => {
                                        ci.remove(&ck);
                                    }
                                    1 => ci.set(&ck, vs.pop().unwrap()),
                                    _ => ci.set(&ck, J::Arr(vs)),
                                }
                            }
                        }
                    } else if has("@id") {
                        let ck = self.kw(active, "@id")?;
                        key = ci.remove(&ck).and_then(|v| v.as_str().map(|s| s.into()))
                    } else if has("@type") {
                        let ck = self.kw(active, "@type")?;
                        if let Some(v) = ci.remove(&ck) {
                            let mut vs = v.arrayify();
                            if !vs.is_empty() {
                                key = vs.remove(0).as_str().map(|s| s.into());
                                match vs.len() {
                                    0 => {}
                                    1 => ci.set(&ck, vs.pop().unwrap()),
                                    _ => ci.set(&ck, J::Arr(vs)),
                                }
                            }
                        }
                        let only_id = ci.as_obj().map_or(false, |o| {
                            o.len() == 1 && expand_iri(active, &o[0].0, false, true).as_deref() == Some("@id")
                        });
                        if only_id {
                            let m = J::o(&[("@id", item.get("@id").unwrap().clone())]);
                            ci = self.compact(active, Some(&p), &m)?
                        }
                    }
                    let k = match key {
                        Some(k) => k,
                        None => self.kw(active, "@none")?,
                    };
                    self.map_entry(nr, &p, &k, ci, as_array);
                    continue;
                }
                nr.add_value(&p, ci, as_array)
            }
        }
        Ok(r)
    }

    fn map_entry(&self, nr: &mut J, p: &str, k: &str, v: J, as_array: bool) {
        if !nr.has(p) {
            nr.set(p, J::obj())
        }
        if !nr.get(p).unwrap().is_obj() {
            // the recommendation does not say what becomes of such values
            *self.env.unspecified.borrow_mut() = true;
            return;
        }
        nr.get_mut(p).unwrap().add_value(k, v, as_array)
    }

    fn nest<'r>(&self, active: &Ctx, r: &'r mut J, p: &str) -> Result<&'r mut J, Code> {
        if let Some(n) = active.term(p).and_then(|d| d.nest.clone()) {
            if n != "@nest" && expand_iri(active, &n, false, true).as_deref() != Some("@nest") {
                return Err("invalid @nest value");
            }
            if !r.has(&n) {
                r.set(&n, J::obj())
            }
            return Ok(r.get_mut(&n).unwrap());
        }
        Ok(r)
    }
}

/// The `compact` API entry point, from an expanded document.
pub fn compact_document(
    env: &Env,
    expanded: &J,
    context: &J,
    url: Option<&str>,
    base: Option<&str>,
    o: COpts,
) -> Result<J, Code> {
    let context = context.get("@context").unwrap_or(context);
    let cb = url.or(base).map(|s| s.to_string());
    let mut active = ctx::process(env, &Ctx::new(None), context, &ctx::Opts::base(cb))?;
    match base {
        Some(b) => active.base = Some(b.to_string()),
        None => {
            if o.relative && active.base.is_none() {
                active.base = url.map(|s| s.to_string())
            }
        }
    }
    let c = Compactor { env, o };
    let mut r = c.compact(&active, None, expanded)?;
    if let J::Arr(a) = r {
        r = J::obj();
        if !a.is_empty() {
            r.set(&c.kw(&active, "@graph")?, J::Arr(a))
        }
    }
    let empty = match context {
        J::Null => true,
        J::Obj(o) => o.is_empty(),
        J::Arr(a) => a.is_empty(),
        _ => false,
    };
    if !empty && !r.as_obj().unwrap().is_empty() {
        let mut x = J::o(&[("@context", context.clone())]);
        for (k, v) in r.as_obj().unwrap() {
            x.set(k, v.clone())
        }
        r = x
    }
    Ok(r)
}
