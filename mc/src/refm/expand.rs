//! Expansion (API §5.1).
use super::ctx::{expand_iri, needs_vocab, process, Ctx, Opts};
use super::{Act, Policy, OPEN};
use super::{is_keyword, Code, Env};
use crate::iri;
use crate::json::J;
use std::rc::Rc;

pub struct Ex<'a> {
    pub env: &'a Env,
    pub ordered: bool,
    pub base_url: Option<String>,
}

/// Top-level expansion of a document (API `expand()`): always returns an array.
pub fn expand_document(
    env: &Env,
    doc: &J,
    base: Option<&str>,
    expand_context: Option<&J>,
    ordered: bool,
) -> Result<J, Code> {
    let base = base.map(|s| s.to_string());
    let mut active = Ctx::new(base.clone());
    if let Some(c) = expand_context {
        active = process(env, &active, c, &Opts::base(base.clone()))?;
    }
    expand_with(env, doc, &active, base, ordered)
}

pub fn expand_with(env: &Env, doc: &J, active: &Ctx, base: Option<String>, ordered: bool) -> Result<J, Code> {
    let ex = Ex { env, ordered, base_url: base };
    let mut r = ex.expand(active, None, doc, false)?;
    if let J::Obj(o) = &r {
        if o.len() == 1 && o[0].0 == "@graph" {
            r = o[0].1.clone()
        }
    }
    Ok(match r {
        J::Null => J::Arr(vec![]),
        J::Arr(a) => J::Arr(a),
        x => J::Arr(vec![x]),
    })
}

fn is_value(j: &J) -> bool {
    j.has("@value")
}
fn is_list(j: &J) -> bool {
    j.has("@list")
}
fn is_graph(j: &J) -> bool {
    // a graph object: map containing @graph, optionally @id, @index (and @context)
    match j {
        J::Obj(o) => {
            j.has("@graph") && o.iter().all(|e| ["@graph", "@id", "@index", "@context"].contains(&e.0.as_str()))
        }
        _ => false,
    }
}

impl<'a> Ex<'a> {
    fn process(&self, active: &Ctx, local: &J, base_url: Option<String>, ov: bool, prop: bool) -> Result<Ctx, Code> {
        process(
            self.env,
            active,
            local,
            &Opts { base_url, remote: vec![], checking: false, override_protected: ov, propagate: prop },
        )
    }

    /// Expansion of a key or type under the vocabulary policy: `None` when it is dropped.
    fn vocab_iri(&self, active: &Ctx, value: &str, doc_rel: bool) -> Result<Option<Option<String>>, Code> {
        if self.env.policy.vocab != Act::Keep && needs_vocab(active, value) {
            return match self.env.policy.vocab {
                Act::Drop => Ok(None),
                _ => Err("vocabulary mapping rejected"),
            };
        }
        Ok(Some(expand_iri(active, value, doc_rel, true)))
    }

    /// Is the identifier refused (or dropped) by the policy on invalid ones?
    fn invalid(&self, id: &str) -> Option<Act> {
        if self.env.policy.invalid == Act::Keep || is_keyword(id) || iri::is_iri(id) {
            return None;
        }
        if json_ld::rdf_types::BlankId::new(id).is_ok() {
            return None;
        }
        Some(self.env.policy.invalid)
    }

    /// Value expansion under the policy.
    fn value(&self, active: &Ctx, ap: &str, v: &J) -> Result<J, Code> {
        if let (J::Str(s), Some("@vocab")) = (v, active.term(ap).and_then(|t| t.ty.as_deref())) {
            if self.vocab_iri(active, s, true)?.is_none() {
                return Err(OPEN);
            }
        }
        Ok(expand_value(active, ap, v))
    }

    fn entries(&self, o: &[(String, J)]) -> Vec<(String, J)> {
        let mut v = o.to_vec();
        if self.ordered {
            v.sort_by(|a, b| a.0.cmp(&b.0));
        }
        v
    }

    pub fn expand(&self, active: &Ctx, ap: Option<&str>, el: &J, from_map: bool) -> Result<J, Code> {
        self.env.step();
        let term = ap.and_then(|p| active.term(p));
        let psc = term.and_then(|t| t.context.clone().map(|c| (c, t.base_url.clone())));
        match el {
            J::Null => Ok(J::Null),
            J::Bool(_) | J::Num(_) | J::Str(_) => {
                if ap.is_none() || ap == Some("@graph") {
                    return Ok(J::Null);
                }
                let a = match &psc {
                    Some((c, b)) => self.process(active, c, b.clone(), true, true)?,
                    None => active.clone(),
                };
                self.value(&a, ap.unwrap(), el)
            }
            J::Arr(items) => {
                let mut result = vec![];
                let list = active.container(ap).iter().any(|c| c == "@list");
                for i in items {
                    let mut e = self.expand(active, ap, i, from_map)?;
                    if list {
                        if let J::Arr(_) = e {
                            e = J::o(&[("@list", e)])
                        }
                    }
                    match e {
                        J::Arr(v) => result.extend(v),
                        J::Null => {}
                        v => result.push(v),
                    }
                }
                Ok(J::Arr(result))
            }
            J::Obj(o) => self.expand_map(active, ap, el, o, from_map, psc),
        }
    }

    fn expand_map(
        &self,
        active: &Ctx,
        ap: Option<&str>,
        el: &J,
        o: &[(String, J)],
        from_map: bool,
        psc: Option<(J, Option<String>)>,
    ) -> Result<J, Code> {
        let mut active = active.clone();
        // 7
        if let Some(prev) = active.previous.clone() {
            if !from_map {
                let ks: Vec<Option<String>> = o.iter().map(|e| expand_iri(&active, &e.0, false, true)).collect();
                let has_value = ks.iter().any(|k| k.as_deref() == Some("@value"));
                let only_id = o.len() == 1 && ks[0].as_deref() == Some("@id");
                if !has_value && !only_id {
                    active = (*prev).clone()
                }
            }
        }
        // 8
        if let Some((c, b)) = psc {
            active = self.process(&active, &c, b, true, true)?;
        }
        // 9
        if let Some(c) = el.get("@context") {
            active = self.process(&active, c, self.base_url.clone(), false, true)?;
        }
        // 10, 11
        let type_scoped = active.clone();
        let mut sorted: Vec<&(String, J)> = o.iter().collect();
        sorted.sort_by(|a, b| a.0.cmp(&b.0));
        let mut input_type: Option<String> = None;
        let mut first = true;
        for (k, v) in sorted.iter().map(|e| (&e.0, &e.1)) {
            if expand_iri(&type_scoped, k, false, true).as_deref() != Some("@type") {
                continue;
            }
            let mut ts: Vec<String> = v.arrayify().iter().filter_map(|t| t.as_str().map(|s| s.to_string())).collect();
            let last = ts.last().cloned();
            ts.sort();
            for t in &ts {
                if let Some(td) = type_scoped.term(t) {
                    if let Some(c) = &td.context {
                        active = self.process(&active, c, td.base_url.clone(), false, false)?;
                    }
                }
            }
            if first {
                input_type = last;
                first = false;
            }
        }
        // 12: the input type is the expansion of the last value, using the active context
        let input_type = input_type.and_then(|t| expand_iri(&active, &t, false, true));
        let mut result = J::obj();
        self.expand_entries(&active, &type_scoped, ap, o, &input_type, &mut result, false)?;
        // nested properties in value, list and set objects are left unspecified: rejected
        if (result.has("@value") || result.has("@list") || result.has("@set"))
            && o.iter().any(|e| {
                let k = match self.vocab_iri(&active, &e.0, false) {
                    Ok(Some(Some(k))) => k,
                    _ => return false,
                };
                k == "@nest" || k == "@reverse" || k == "@none" || (k == "@list" && !result.has("@list")) || (k.contains(':') && !is_keyword(&k))
            })
        {
            return Err(if result.has("@value") { "invalid value object" } else { "invalid set or list object" });
        }
        // 15
        if result.has("@value") {
            let ro = result.as_obj().unwrap();
            for (k, _) in ro {
                if !["@value", "@type", "@language", "@direction", "@index"].contains(&k.as_str()) {
                    return Err("invalid value object");
                }
            }
            if result.has("@type") && (result.has("@language") || result.has("@direction")) {
                return Err("invalid value object");
            }
            let v = result.get("@value").unwrap().clone();
            let ty = result.get("@type").cloned();
            let is_json = match &ty {
                Some(J::Str(s)) => s == "@json",
                _ => false,
            };
            if is_json {
                // an @json typed value: any JSON value, @type is the plain string
                result.set("@type", J::s("@json"));
            } else if v.is_null() {
                return Ok(J::Null);
            } else if v.as_str().is_none() && (result.has("@language") || result.has("@direction")) {
                return Err("invalid language-tagged value");
            } else if let Some(t) = ty {
                let t = match t {
                    J::Str(s) => s,
                    _ => return Err("invalid typed value"),
                };
                if !iri::is_iri(&t) {
                    return Err("invalid typed value");
                }
                result.set("@type", J::Str(t));
            }
        } else {
            // 16
            if let Some(t) = result.get("@type") {
                if t.as_arr().is_none() {
                    let t = t.clone();
                    result.set("@type", J::Arr(vec![t]))
                }
            }
            // 17
            if result.has("@list") || result.has("@set") {
                let n = result.as_obj().unwrap().len();
                if n > 2 || (n == 2 && !result.has("@index")) {
                    return Err("invalid set or list object");
                }
                if let Some(s) = result.get("@set") {
                    return Ok(match s {
                        J::Null => J::Null,
                        x => x.clone(),
                    });
                }
            }
        }
        // An empty @type and a null @id cannot be represented.
        let mut result = result;
        if result.get("@type").map_or(false, |t| t == &J::Arr(vec![])) {
            result.remove("@type");
        }
        if result.get("@id").map_or(false, |t| t.is_null()) {
            result.remove("@id");
        }
        // 18. A language or a direction means nothing on a node: a map with nothing else is dropped,
        // and otherwise the entry is (it cannot be represented).
        if !result.has("@value") && (result.has("@language") || result.has("@direction")) {
            result.remove("@language");
            result.remove("@direction");
            if result.as_obj().unwrap().is_empty() {
                return Ok(J::Null);
            }
        }
        let ro = result.as_obj().unwrap();
        // 19
        if ap.is_none() || ap == Some("@graph") {
            if ro.is_empty() || result.has("@value") || result.has("@list") {
                return Ok(J::Null);
            }
            if ro.len() == 1 && ro[0].0 == "@id" {
                return Ok(J::Null);
            }
        }
        Ok(result)
    }

    #[allow(clippy::too_many_arguments)]
    fn expand_entries(
        &self,
        active: &Ctx,
        type_scoped: &Ctx,
        ap: Option<&str>,
        o: &[(String, J)],
        input_type: &Option<String>,
        result: &mut J,
        nested: bool,
    ) -> Result<(), Code> {
        let env = self.env;
        let mut nests: Vec<String> = vec![];
        let json = input_type.as_deref() == Some("@json");
        let has_value = o.iter().any(|e| expand_iri(active, &e.0, false, true).as_deref() == Some("@value"));
        for (key, value) in self.entries(o) {
            if key == "@context" {
                continue;
            }
            let prop = match self.vocab_iri(active, &key, false)? {
                Some(Some(p)) if p.contains(':') || is_keyword(&p) => p,
                Some(Some(_)) if !env.policy.allow_undefined || env.policy.invalid == Act::Reject => {
                    return Err("undefined key rejected")
                }
                _ => continue,
            };
            match self.invalid(&prop) {
                None => {}
                Some(Act::Drop) if o.iter().any(|e| ["@value", "@list", "@set"].contains(&expand_iri(active, &e.0, false, true).unwrap_or_default().as_str())) => {
                    return Err(OPEN)
                }
                Some(Act::Drop) => continue,
                Some(_) => return Err("invalid key rejected"),
            }
            if is_keyword(&prop) {
                if ap == Some("@reverse") {
                    return Err("invalid reverse property map");
                }
                if result.get(&prop).map_or(false, |v| v != &J::Arr(vec![]) && !v.is_null() || !["@id", "@type", "@language", "@direction"].contains(&prop.as_str())) && prop != "@included" && (prop != "@type" || env.v10) {
                    return Err("colliding keywords");
                }
                match prop.as_str() {
                    "@id" => {
                        let s = value.as_str().ok_or("invalid @id value")?;
                        match expand_iri(active, s, true, false) {
                            Some(e) => result.set("@id", J::Str(e)),
                            None => result.set("@id", J::Null),
                        }
                    }
                    "@type" => {
                        let mut ts = vec![];
                        for t in value.arrayify() {
                            let s = t.as_str().ok_or("invalid type value")?;
                            let Some(e) = self.vocab_iri(type_scoped, s, true)? else {
                                if has_value {
                                    return Err(OPEN);
                                }
                                continue;
                            };
                            match e.as_deref().and_then(|e| self.invalid(e)) {
                                None => {}
                                Some(Act::Drop) if has_value => return Err(OPEN),
                                Some(Act::Drop) => continue,
                                Some(_) => return Err("invalid type rejected"),
                            }
                            match e {
                                // keywords (other than @json for value objects) are not types
                                Some(e) if is_keyword(&e) && !has_value => return Err("invalid type value"),
                                Some(e) => ts.push(J::Str(e)),
                                None => return Err("invalid type value"),
                            }
                        }
                        let v = if value.as_arr().is_none() && ts.len() == 1 { ts[0].clone() } else { J::Arr(ts) };
                        match result.get("@type") {
                            Some(old) => {
                                let mut all = old.arrayify();
                                all.extend(v.arrayify());
                                result.set("@type", J::Arr(all))
                            }
                            None => result.set("@type", v),
                        }
                    }
                    "@graph" => {
                        let e = self.expand(active, Some("@graph"), &value, false)?;
                        let e = if e.is_null() { J::Arr(vec![]) } else { J::Arr(e.arrayify()) };
                        result.set("@graph", e)
                    }
                    "@included" => {
                        if env.v10 {
                            continue;
                        }
                        let e = self.expand(active, Some("@included"), &value, false)?;
                        let e = if e.is_null() { vec![] } else { e.arrayify() };
                        for x in &e {
                            if !x.is_obj() || is_value(x) || is_list(x) || x.has("@set") {
                                return Err("invalid @included value");
                            }
                        }
                        let mut all = result.get("@included").map(|v| v.arrayify()).unwrap_or_default();
                        all.extend(e);
                        result.set("@included", J::Arr(all))
                    }
                    "@value" => {
                        if json {
                            if env.v10 {
                                return Err("invalid value object value");
                            }
                        } else if !value.is_scalar() && !value.is_null() {
                            return Err("invalid value object value");
                        }
                        result.set("@value", value.clone())
                    }
                    "@language" | "@direction" if !has_value => {
                        result.set(&prop, J::Null)
                    }
                    "@language" => {
                        value.as_str().ok_or("invalid language-tagged string")?;
                        result.set("@language", value.clone())
                    }
                    "@direction" => {
                        if env.v10 {
                            continue;
                        }
                        match value.as_str() {
                            Some("ltr") | Some("rtl") => {}
                            _ => return Err("invalid base direction"),
                        }
                        result.set("@direction", value.clone())
                    }
                    "@index" => {
                        value.as_str().ok_or("invalid @index value")?;
                        result.set("@index", value.clone())
                    }
                    // nested list and set objects are unspecified: ignored
                    "@list" | "@set" if nested => {}
                    "@list" => {
                        if ap.is_none() || ap == Some("@graph") {
                            continue;
                        }
                        let e = self.expand(active, ap, &value, false)?;
                        let e = if e.is_null() { vec![] } else { e.arrayify() };
                        result.set("@list", J::Arr(e))
                    }
                    "@set" => {
                        let e = self.expand(active, ap, &value, false)?;
                        result.set("@set", e)
                    }
                    "@reverse" => {
                        if !value.is_obj() {
                            return Err("invalid @reverse value");
                        }
                        let e = self.expand(active, Some("@reverse"), &value, false)?;
                        if let Some(J::Obj(rr)) = e.get("@reverse") {
                            for (p, items) in rr.clone() {
                                for item in items.arrayify() {
                                    result.add_value(&p, item, true)
                                }
                            }
                        }
                        if let J::Obj(eo) = &e {
                            if eo.iter().any(|e| e.0 != "@reverse") && !result.has("@reverse") {
                                result.set("@reverse", J::obj())
                            }
                            for (p, items) in eo {
                                if p == "@reverse" {
                                    continue;
                                }
                                for item in items.arrayify() {
                                    if is_value(&item) || is_list(&item) {
                                        return Err("invalid reverse property value");
                                    }
                                    if !result.has("@reverse") {
                                        result.set("@reverse", J::obj())
                                    }
                                    result.get_mut("@reverse").unwrap().add_value(p, item, true)
                                }
                            }
                        }
                    }
                    "@nest" => {
                        if !nests.contains(&key) {
                            nests.push(key.clone())
                        }
                    }
                    _ => {}
                }
                continue;
            }
            let term = active.term(&key);
            let cont = term.map(|t| t.container.clone()).unwrap_or_default();
            let c = |x: &str| cont.iter().any(|y| y == x);
            let ty = term.and_then(|t| t.ty.clone());
            let mut ev: J;
            if ty.as_deref() == Some("@json") {
                ev = J::o(&[("@value", value.clone()), ("@type", J::s("@json"))]);
            } else if c("@language") && value.is_obj() {
                let dir = match term.and_then(|t| t.direction.clone()) {
                    Some(d) => d,
                    None => active.direction.clone(),
                };
                let mut out = vec![];
                for (lang, lv) in self.entries(value.as_obj().unwrap()) {
                    for item in lv.arrayify() {
                        if item.is_null() {
                            continue;
                        }
                        if item.as_str().is_none() {
                            return Err("invalid language map value");
                        }
                        let mut v = J::o(&[("@value", item)]);
                        let none = lang == "@none" || expand_iri(active, &lang, false, true).as_deref() == Some("@none");
                        if !none {
                            v.set("@language", J::Str(lang.clone()))
                        }
                        if let Some(d) = &dir {
                            v.set("@direction", J::Str(d.clone()))
                        }
                        out.push(v)
                    }
                }
                ev = J::Arr(out)
            } else if (c("@index") || c("@type") || c("@id")) && value.is_obj() {
                let index_key = term.and_then(|t| t.index.clone()).unwrap_or_else(|| "@index".into());
                let mut out = vec![];
                for (index, iv) in self.entries(value.as_obj().unwrap()) {
                    let mut mctx = if c("@id") || c("@type") {
                        match &active.previous {
                            Some(p) => (**p).clone(),
                            None => active.clone(),
                        }
                    } else {
                        active.clone()
                    };
                    if c("@type") {
                        if let Some(td) = mctx.term(&index).cloned() {
                            if let Some(lc) = td.context {
                                mctx = self.process(&mctx, &lc, td.base_url.clone(), false, true)?;
                            }
                        }
                    }
                    let eindex = expand_iri(active, &index, false, true);
                    let none = eindex.as_deref() == Some("@none");
                    let iv = J::Arr(iv.arrayify());
                    let ivs = self.expand(&mctx, Some(&key), &iv, true)?;
                    for mut item in ivs.arrayify() {
                        if c("@graph") && !is_graph(&item) {
                            item = J::o(&[("@graph", J::Arr(vec![item]))])
                        }
                        if c("@index") && index_key != "@index" && !none {
                            let re = self.value(active, &index_key, &J::Str(index.clone()))?;
                            let ek = self.vocab_iri(active, &index_key, false)?.ok_or(OPEN)?.unwrap_or_default();
                            let mut vals = vec![re];
                            if let Some(old) = item.get(&ek) {
                                vals.extend(old.arrayify())
                            }
                            if is_value(&item) || is_list(&item) {
                                return Err("invalid value object");
                            }
                            item.set(&ek, J::Arr(vals));
                        } else if c("@index") && !item.has("@index") && !none {
                            item.set("@index", J::Str(index.clone()))
                        } else if is_value(&item) || is_list(&item) {
                            // values and lists have no identifier and no type
                            if c("@type") && !c("@id") && env.policy != Policy::STANDARD {
                                return Err(OPEN);
                            }
                            if c("@type") && !none && !c("@id") && eindex.as_deref().map_or(false, is_keyword) {
                                return Err("invalid type value");
                            }
                        } else if c("@id") && !item.has("@id") && !none {
                            match expand_iri(active, &index, true, false) {
                                Some(e) => item.set("@id", J::Str(e)),
                                None => item.set("@id", J::Null),
                            }
                        } else if c("@type") && !none {
                            let eindex = self.vocab_iri(active, &index, false)?.flatten();
                            if eindex.as_deref().and_then(|e| self.invalid(e)).is_some() {
                                return Err(OPEN);
                            }
                            let mut ts = match &eindex {
                                Some(e) if is_keyword(e) => return Err("invalid type value"),
                                Some(e) => vec![J::Str(e.clone())],
                                None => vec![],
                            };
                            if let Some(old) = item.get("@type") {
                                ts.extend(old.arrayify())
                            }
                            item.set("@type", J::Arr(ts))
                        }
                        out.push(item)
                    }
                }
                ev = J::Arr(out)
            } else {
                ev = self.expand(active, Some(&key), &value, false)?
            }
            if ev.is_null() {
                continue;
            }
            if c("@list") && !is_list(&ev) {
                ev = J::o(&[("@list", J::Arr(ev.arrayify()))])
            }
            if c("@graph") && !c("@id") && !c("@index") {
                ev = J::Arr(
                    ev.arrayify().into_iter().map(|x| J::o(&[("@graph", J::Arr(x.arrayify()))])).collect(),
                )
            }
            if term.map(|t| t.reverse).unwrap_or(false) {
                for item in ev.arrayify() {
                    if is_value(&item) || is_list(&item) {
                        return Err("invalid reverse property value");
                    }
                    if !result.has("@reverse") {
                        result.set("@reverse", J::obj())
                    }
                    result.get_mut("@reverse").unwrap().add_value(&prop, item, true)
                }
            } else {
                result.add_value(&prop, ev, true)
            }
        }
        // 14
        nests.sort_by(|a, b| if self.ordered { a.cmp(b) } else { std::cmp::Ordering::Equal });
        for n in nests {
            let vals = o.iter().find(|e| e.0 == n).unwrap().1.arrayify();
            for v in vals {
                let vo = match &v {
                    J::Obj(x) => x.clone(),
                    _ => return Err("invalid @nest value"),
                };
                if vo.iter().any(|e| expand_iri(active, &e.0, false, true).as_deref() == Some("@value")) {
                    return Err("invalid @nest value");
                }
                self.expand_entries(active, type_scoped, ap, &vo, input_type, result, true)?;
            }
        }
        Ok(())
    }
}

/// Value expansion (§5.3.2).
pub fn expand_value(active: &Ctx, ap: &str, v: &J) -> J {
    let t = active.term(ap);
    let ty = t.and_then(|t| t.ty.clone());
    if let J::Str(s) = v {
        match ty.as_deref() {
            Some("@id") => {
                return J::o(&[("@id", expand_iri(active, s, true, false).map(J::Str).unwrap_or(J::Null))])
            }
            Some("@vocab") => {
                return J::o(&[("@id", expand_iri(active, s, true, true).map(J::Str).unwrap_or(J::Null))])
            }
            _ => {}
        }
    }
    let mut r = J::o(&[("@value", v.clone())]);
    match ty.as_deref() {
        Some("@id") | Some("@vocab") | Some("@none") | None => {
            if let J::Str(_) = v {
                let l = match t.and_then(|t| t.language.clone()) {
                    Some(l) => l,
                    None => active.language.clone(),
                };
                let d = match t.and_then(|t| t.direction.clone()) {
                    Some(d) => d,
                    None => active.direction.clone(),
                };
                if let Some(l) = l {
                    r.set("@language", J::Str(l))
                }
                if let Some(d) = d {
                    r.set("@direction", J::Str(d))
                }
            }
        }
        Some(x) => r.set("@type", J::s(x)),
    }
    r
}

#[allow(dead_code)]
fn _unused(_: Rc<()>) {}

/// Canonical form for comparing expanded documents: the arrays of property values, types, graphs and
/// included blocks are unordered; `@list` arrays and JSON literals are ordered. `dedup` removes
/// repeated members where the data model is a set.
pub fn canon(j: &J) -> J {
    canon_top(j, true)
}

/// The same, with every array in the order it was found in.
pub fn canon_ordered(j: &J) -> J {
    canon_top(j, false)
}

fn canon_top(j: &J, sort: bool) -> J {
    let mut v: Vec<J> = vec![];
    for x in j.arrayify().iter().map(|x| canon_obj(x, sort)) {
        if !v.contains(&x) {
            v.push(x)
        }
    }
    if sort {
        v.sort()
    }
    J::Arr(v)
}

fn canon_obj(j: &J, sort: bool) -> J {
    match j {
        J::Obj(o) => {
            if j.has("@value") {
                let mut r: Vec<(String, J)> = o
                    .iter()
                    .map(|(k, v)| match (k.as_str(), v) {
                        ("@language", J::Str(s)) => (k.clone(), J::Str(s.to_lowercase())),
                        ("@value", v) => (k.clone(), v.sort_keys()),
                        _ => (k.clone(), v.clone()),
                    })
                    .collect();
                r.sort();
                return J::Obj(r);
            }
            if j.has("@list") {
                let mut r: Vec<(String, J)> = o
                    .iter()
                    .map(|(k, v)| {
                        if k == "@list" {
                            (k.clone(), J::Arr(v.arrayify().iter().map(|x| canon_obj(x, sort)).collect()))
                        } else {
                            (k.clone(), v.clone())
                        }
                    })
                    .collect();
                r.sort();
                return J::Obj(r);
            }
            let mut r: Vec<(String, J)> = vec![];
            for (k, v) in o {
                let v = match k.as_str() {
                    "@id" if v.is_null() => continue,
                    "@id" | "@index" => v.clone(),
                    "@type" => {
                        let mut a = v.arrayify();
                        if a.is_empty() {
                            continue;
                        }
                        if sort {
                            a.sort()
                        }
                        J::Arr(a)
                    }
                    "@graph" | "@included" => canon_top(v, sort),
                    "@reverse" => {
                        let mut rr: Vec<(String, J)> = v
                            .as_obj()
                            .unwrap()
                            .iter()
                            .map(|(k, v)| {
                                let mut a: Vec<J> = v.arrayify().iter().map(|x| canon_obj(x, sort)).collect();
                                if sort {
                            a.sort()
                        }
                                (k.clone(), J::Arr(a))
                            })
                            .filter(|(_, v)| v != &J::Arr(vec![]))
                            .collect();
                        rr.sort();
                        if rr.is_empty() {
                            continue;
                        }
                        J::Obj(rr)
                    }
                    _ => {
                        let mut a: Vec<J> = v.arrayify().iter().map(|x| canon_obj(x, sort)).collect();
                        if sort {
                            a.sort()
                        }
                        J::Arr(a)
                    }
                };
                r.push((k.clone(), v));
            }
            r.sort();
            J::Obj(r)
        }
        x => x.clone(),
    }
}
