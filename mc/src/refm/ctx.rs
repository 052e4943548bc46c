//! Context processing (API §4.1, §4.2) and IRI expansion (§5.2).
use super::{is_keyword, keyword_form, Code, Env};
use crate::iri;
use crate::json::J;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Term {
    /// `None` is the null IRI mapping.
    pub iri: Option<String>,
    pub prefix: bool,
    pub protected: bool,
    pub reverse: bool,
    pub base_url: Option<String>,
    pub context: Option<J>,
    pub container: Vec<String>,
    pub direction: Option<Option<String>>,
    pub index: Option<String>,
    pub language: Option<Option<String>>,
    pub nest: Option<String>,
    pub ty: Option<String>,
}

impl Term {
    fn new() -> Term {
        Term {
            iri: None,
            prefix: false,
            protected: false,
            reverse: false,
            base_url: None,
            context: None,
            container: vec![],
            direction: None,
            index: None,
            language: None,
            nest: None,
            ty: None,
        }
    }
    pub fn has(&self, c: &str) -> bool {
        self.container.iter().any(|x| x == c)
    }
    fn same_modulo_protected(&self, o: &Term) -> bool {
        let mut a = self.clone();
        let mut b = o.clone();
        a.protected = false;
        b.protected = false;
        a.container.sort();
        b.container.sort();
        if let Some(Some(l)) = &mut a.language {
            *l = l.to_lowercase()
        }
        if let Some(Some(l)) = &mut b.language {
            *l = l.to_lowercase()
        }
        a == b
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ctx {
    pub base: Option<String>,
    pub original_base: Option<String>,
    pub vocab: Option<String>,
    pub language: Option<String>,
    pub direction: Option<String>,
    pub previous: Option<Rc<Ctx>>,
    pub terms: BTreeMap<String, Term>,
}

impl Ctx {
    pub fn new(base: Option<String>) -> Ctx {
        Ctx {
            base: base.clone(),
            original_base: base,
            vocab: None,
            language: None,
            direction: None,
            previous: None,
            terms: BTreeMap::new(),
        }
    }
    pub fn term(&self, t: &str) -> Option<&Term> {
        self.terms.get(t)
    }
    pub fn container(&self, t: Option<&str>) -> Vec<String> {
        t.and_then(|t| self.terms.get(t)).map(|t| t.container.clone()).unwrap_or_default()
    }
}

#[derive(Clone)]
pub struct Opts {
    pub base_url: Option<String>,
    pub remote: Vec<String>,
    /// Negation of `validate scoped context`.
    pub checking: bool,
    pub override_protected: bool,
    pub propagate: bool,
}

impl Opts {
    pub fn base(base_url: Option<String>) -> Opts {
        Opts { base_url, remote: vec![], checking: false, override_protected: false, propagate: true }
    }
}

pub fn process(env: &Env, active: &Ctx, local: &J, o: &Opts) -> Result<Ctx, Code> {
    env.step();
    let mut remote = o.remote.clone();
    let mut propagate = o.propagate;
    let mut result = active.clone();
    if let Some(p) = local.get("@propagate") {
        if let J::Bool(b) = p {
            propagate = *b
        }
    }
    if !propagate && result.previous.is_none() {
        result.previous = Some(Rc::new(active.clone()))
    }
    for item in local.arrayify() {
        match &item {
            J::Null => {
                if !o.override_protected && result.terms.values().any(|t| t.protected) {
                    return Err("invalid context nullification");
                }
                let prev = result;
                result = Ctx::new(active.original_base.clone());
                if !propagate {
                    result.previous = Some(Rc::new(prev));
                }
            }
            J::Str(s) => {
                if !iri::is_iri_ref(s) {
                    return Err("loading document failed");
                }
                let url = match &o.base_url {
                    Some(b) => iri::resolve(b, s),
                    None if iri::is_iri(s) => s.clone(),
                    None => return Err("loading document failed"),
                };
                let mut nested = if o.checking { remote.clone() } else { o.remote.clone() };
                if nested.contains(&url) {
                    // a context that includes itself exceeds any limit
                    if o.checking {
                        continue;
                    }
                    return Err("context overflow");
                }
                nested.push(url.clone());
                remote.push(url.clone());
                let doc = env.load(&url).ok_or("loading remote context failed")?;
                let loaded = doc.get("@context").ok_or("invalid remote context")?;
                result = process(
                    env,
                    &result,
                    loaded,
                    &Opts {
                        base_url: Some(env.located(&url)),
                        remote: nested,
                        checking: o.checking,
                        override_protected: false,
                        propagate: true,
                    },
                )?;
            }
            J::Obj(_) => {
                let mut c = item.clone();
                shape_ctx(&c)?;
                if let Some(v) = c.get("@version") {
                    if *v != J::Num("1.1".into()) {
                        return Err("invalid @version value");
                    }
                    if env.v10 {
                        return Err("processing mode conflict");
                    }
                }
                if let Some(i) = c.get("@import") {
                    if env.v10 {
                        return Err("invalid context entry");
                    }
                    let i = i.as_str().ok_or("invalid @import value")?;
                    let url = match &o.base_url {
                        Some(b) => iri::resolve(b, i),
                        None if iri::is_iri(i) => i.to_string(),
                        None => return Err("invalid @import value"),
                    };
                    let doc = env.load(&url).ok_or("loading remote context failed")?;
                    let imp = doc.get("@context").ok_or("invalid remote context")?;
                    let imp = match imp {
                        J::Obj(_) => imp.clone(),
                        J::Arr(a) if a.len() == 1 && false => imp.clone(),
                        _ => return Err("invalid remote context"),
                    };
                    if imp.has("@import") {
                        return Err("invalid context entry");
                    }
                    // the version announcement of the imported context is checked as well
                    if imp.get("@version").map(|v| *v != J::Num("1.1".into())).unwrap_or(false) {
                        return Err("invalid @version value");
                    }
                    shape_ctx(&imp)?;
                    let mut merged = imp;
                    for (k, v) in c.as_obj().unwrap() {
                        merged.set(k, v.clone())
                    }
                    c = merged;
                }
                if let Some(v) = c.get("@base") {
                    if remote.is_empty() {
                        match v {
                            J::Null => result.base = None,
                            J::Str(s) if iri::is_iri(s) => result.base = Some(s.clone()),
                            J::Str(s) if iri::is_iri_ref(s) && result.base.is_some() => {
                                result.base = Some(iri::resolve(result.base.as_ref().unwrap(), s))
                            }
                            _ => return Err("invalid base IRI"),
                        }
                    }
                }
                if let Some(v) = c.get("@vocab") {
                    match v {
                        J::Null => result.vocab = None,
                        J::Str(s) => {
                            let e = expand_iri(&result, s, true, true);
                            match e {
                                Some(e) if iri::is_iri(&e) || iri::is_blank(&e) => result.vocab = Some(e),
                                // "" or a relative reference with no base
                                Some(e) if env.q("vocab-any-id") && !is_keyword(&e) => result.vocab = Some(e),
                                _ => return Err("invalid vocab mapping"),
                            }
                        }
                        _ => return Err("invalid vocab mapping"),
                    }
                }
                if let Some(v) = c.get("@language") {
                    match v {
                        J::Null => result.language = None,
                        J::Str(s) => result.language = Some(s.clone()),
                        _ => return Err("invalid default language"),
                    }
                }
                if let Some(v) = c.get("@direction") {
                    if env.v10 {
                        return Err("invalid context entry");
                    }
                    match v {
                        J::Null => result.direction = None,
                        J::Str(s) if s == "ltr" || s == "rtl" => result.direction = Some(s.clone()),
                        _ => return Err("invalid base direction"),
                    }
                }
                if let Some(v) = c.get("@propagate") {
                    if env.v10 {
                        return Err("invalid context entry");
                    }
                    if !matches!(v, J::Bool(_)) {
                        return Err("invalid @propagate value");
                    }
                }
                let protected = match c.get("@protected") {
                    None => false,
                    Some(J::Bool(b)) => *b,
                    Some(_) => return Err("invalid @protected value"),
                };
                let mut defined: BTreeMap<String, bool> = BTreeMap::new();
                let mut keys: Vec<String> = c.as_obj().unwrap().iter().map(|e| e.0.clone()).collect();
                env.permute(&mut keys);
                for k in keys {
                    if [
                        "@base", "@direction", "@import", "@language", "@propagate", "@protected",
                        "@version", "@vocab",
                    ]
                    .contains(&k.as_str())
                    {
                        continue;
                    }
                    define(
                        env,
                        &mut result,
                        &c,
                        &k,
                        &mut defined,
                        &Opts { remote: remote.clone(), ..o.clone() },
                        protected,
                    )?;
                }
            }
            _ => return Err("invalid local context"),
        }
    }
    Ok(result)
}

fn in_middle(t: &str, c: char) -> bool {
    match (t.find(c), t.rfind(c)) {
        (Some(i), Some(j)) => i > 0 && j < t.len() - 1,
        _ => false,
    }
}

/// Create term definition (§4.2.2).
pub fn define(
    env: &Env,
    active: &mut Ctx,
    local: &J,
    term: &str,
    defined: &mut BTreeMap<String, bool>,
    o: &Opts,
    protected: bool,
) -> Result<(), Code> {
    match defined.get(term) {
        Some(true) => return Ok(()),
        Some(false) => return Err("cyclic IRI mapping"),
        None => {}
    }
    if term.is_empty() {
        return Err("invalid term definition");
    }
    defined.insert(term.to_string(), false);
    let value = local.get(term).unwrap().clone();
    if term == "@type" {
        if env.v10 {
            return Err("keyword redefinition");
        }
        match &value {
            J::Obj(e) if !e.is_empty() => {
                if env.q("type-needs-container") && !value.has("@container") {
                    return Err("invalid term definition");
                }
                for (k, v) in e {
                    match (k.as_str(), v) {
                        ("@container", J::Str(s)) if s == "@set" => {}
                        ("@protected", _) => {}
                        _ => return Err("keyword redefinition"),
                    }
                }
            }
            _ => return Err("keyword redefinition"),
        }
    } else if is_keyword(term) {
        return Err("keyword redefinition");
    } else if keyword_form(term) {
        defined.insert(term.to_string(), true);
        return Ok(());
    }
    let previous = active.terms.remove(term);
    let (value, simple) = match value {
        J::Null => (J::o(&[("@id", J::Null)]), false),
        J::Str(s) => (J::o(&[("@id", J::Str(s))]), true),
        J::Obj(_) => (value, false),
        _ => return Err("invalid term definition"),
    };
    let mut d = Term::new();
    d.protected = protected;
    if let Some(p) = value.get("@protected") {
        if env.v10 {
            return Err("invalid term definition");
        }
        match p {
            J::Bool(b) => d.protected = *b,
            _ => return Err("invalid @protected value"),
        }
    }
    if let Some(t) = value.get("@type") {
        let t = t.as_str().ok_or("invalid type mapping")?;
        let e = expand_iri_in(env, active, t, false, true, local, defined, o, protected)?;
        match e {
            Some(e) if e == "@json" || e == "@none" => {
                if env.v10 {
                    return Err("invalid type mapping");
                }
                d.ty = Some(e)
            }
            Some(e) if e == "@id" || e == "@vocab" || iri::is_iri(&e) => d.ty = Some(e),
            _ => return Err("invalid type mapping"),
        }
    }
    if let Some(r) = value.get("@reverse") {
        if value.has("@id") || value.has("@nest") {
            return Err("invalid reverse property");
        }
        let r = r.as_str().ok_or("invalid IRI mapping")?;
        if keyword_form(r) {
            defined.insert(term.to_string(), true);
            return Ok(());
        }
        match expand_iri_in(env, active, r, false, true, local, defined, o, protected)? {
            Some(e) if iri::is_iri(&e) || iri::is_blank(&e) => d.iri = Some(e),
            _ => return Err("invalid IRI mapping"),
        }
        if let Some(c) = value.get("@container") {
            match c {
                J::Null => {}
                J::Str(s) if s == "@set" || s == "@index" => d.container = vec![s.clone()],
                // tolerated: an array of one of them
                                J::Arr(a) if !a.is_empty() && a.iter().all(|x| *x == a[0]) && (a[0] == J::s("@set") || a[0] == J::s("@index")) => {
                    d.container = vec![a[0].as_str().unwrap().to_string()]
                }
                _ => return Err("invalid reverse property"),
            }
        }
        d.reverse = true;
        check_protected(&mut d, previous, o)?;
        active.terms.insert(term.to_string(), d);
        defined.insert(term.to_string(), true);
        return Ok(());
    }
    let id = value.get("@id").cloned();
    match id {
        Some(id) if id != J::Str(term.to_string()) => match id {
            J::Null => {}
            J::Str(s) => {
                if keyword_form(&s) && !is_keyword(&s) {
                    defined.insert(term.to_string(), true);
                    return Ok(());
                }
                match expand_iri_in(env, active, &s, false, true, local, defined, o, protected)? {
                    Some(e) if e == "@context" => return Err("invalid keyword alias"),
                    Some(e) if is_keyword(&e) || iri::is_iri(&e) || iri::is_blank(&e) => d.iri = Some(e),
                    _ => return Err("invalid IRI mapping"),
                }
                if in_middle(term, ':') || term.contains('/') {
                    defined.insert(term.to_string(), true);
                    let e = expand_iri_in(env, active, term, false, true, local, defined, o, protected)?;
                    if e != d.iri {
                        return Err("invalid IRI mapping");
                    }
                }
                if !term.contains(':') && !term.contains('/') && simple {
                    let m = d.iri.as_ref().unwrap();
                    if (!is_keyword(m) && m.ends_with([':', '/', '?', '#', '[', ']', '@']))
                        || m.starts_with("_:")
                    {
                        d.prefix = true
                    }
                }
            }
            _ => return Err("invalid IRI mapping"),
        },
        _ => {
            let colon = term.char_indices().skip(1).any(|(_, c)| c == ':');
            if colon {
                let i = term[1..].find(':').unwrap() + 1;
                let (p, s) = (&term[..i], &term[i + 1..]);
                let compact = !s.starts_with("//") && p != "_";
                if compact && local.has(p) {
                    define(env, active, local, p, defined, o, protected)?;
                }
                match active.term(p) {
                    Some(pd) if compact => match &pd.iri {
                        Some(m) => {
                            d.iri = Some(format!("{m}{s}"));
                            if !iri::is_iri(d.iri.as_ref().unwrap())
                                && !iri::is_blank(d.iri.as_ref().unwrap())
                            {
                                return Err("invalid IRI mapping");
                            }
                        }
                        None => {
                            d.iri = Some(term.to_string());
                            if !iri::is_iri(term) {
                                return Err("invalid IRI mapping");
                            }
                        }
                    },
                    _ => {
                        if !iri::is_iri(term) && !iri::is_blank(term) {
                            return Err("invalid IRI mapping");
                        }
                        d.iri = Some(term.to_string())
                    }
                }
            } else if term.contains('/') {
                match expand_iri(active, term, false, true) {
                    Some(e) if iri::is_iri(&e) => d.iri = Some(e),
                    _ => return Err("invalid IRI mapping"),
                }
            } else if term == "@type" {
                d.iri = Some("@type".into())
            } else if let Some(v) = &active.vocab {
                let e = format!("{v}{term}");
                if !iri::is_iri(&e) && !iri::is_blank(&e) {
                    return Err("invalid IRI mapping");
                }
                d.iri = Some(e)
            } else {
                return Err("invalid IRI mapping");
            }
        }
    }
    if let Some(c) = value.get("@container") {
        let mut cs: Vec<String> = vec![];
        for x in c.arrayify() {
            match x {
                J::Str(s) => cs.push(s),
                J::Null if *c == J::Null => {}
                _ => return Err("invalid container mapping"),
            }
        }
        if env.v10 {
            match c {
                J::Str(s) if s == "@graph" || s == "@id" || s == "@type" => {
                    return Err("invalid container mapping")
                }
                J::Str(_) => {}
                _ => return Err("invalid container mapping"),
            }
        }
        let mut sorted = cs.clone();
        sorted.sort();
        sorted.dedup();
        let without: Vec<&str> = sorted.iter().map(|s| s.as_str()).filter(|s| *s != "@set").collect();
        // Repeated keywords, `[]` and `null` are tolerated (the recommendation is silent on the
        // first, and its grammar and algorithm disagree on the last).
        let ok = match without.as_slice() {
            [] => true,
            ["@list"] => sorted.len() == 1,
            ["@graph"] | ["@id"] | ["@index"] | ["@language"] | ["@type"] => true,
            ["@graph", "@id"] | ["@graph", "@index"] => true,
            _ => false,
        };
        if !ok {
            return Err("invalid container mapping");
        }
        d.container = sorted;
        if term != "@type" && d.has("@type") {
            match d.ty.as_deref() {
                None => d.ty = Some("@id".into()),
                Some("@id") | Some("@vocab") => {}
                _ => return Err("invalid type mapping"),
            }
        }
    }
    if let Some(i) = value.get("@index") {
        if env.v10 || !d.has("@index") {
            return Err("invalid term definition");
        }
        let i = i.as_str().ok_or("invalid term definition")?;
        match expand_iri(active, i, false, true) {
            Some(e) if iri::is_iri(&e) => {}
            _ => return Err("invalid term definition"),
        }
        d.index = Some(i.to_string())
    }
    if let Some(c) = value.get("@context") {
        if env.v10 {
            return Err("invalid term definition");
        }
        process(
            env,
            active,
            c,
            &Opts {
                base_url: o.base_url.clone(),
                remote: o.remote.clone(),
                checking: true,
                override_protected: true,
                propagate: true,
            },
        )
        .map_err(|_| "invalid scoped context")?;
        d.context = Some(c.clone());
        d.base_url = o.base_url.clone();
    }
    if let Some(l) = value.get("@language") {
        if !value.has("@type") {
            match l {
                J::Null => d.language = Some(None),
                J::Str(s) => d.language = Some(Some(s.clone())),
                _ => return Err("invalid language mapping"),
            }
        }
    }
    if let Some(x) = value.get("@direction") {
        if !value.has("@type") {
            match x {
                J::Null => d.direction = Some(None),
                J::Str(s) if s == "ltr" || s == "rtl" => d.direction = Some(Some(s.clone())),
                _ => return Err("invalid base direction"),
            }
        }
    }
    if let Some(n) = value.get("@nest") {
        if env.v10 {
            return Err("invalid term definition");
        }
        match n {
            J::Str(s) if !is_keyword(s) || s == "@nest" => d.nest = Some(s.clone()),
            _ => return Err("invalid @nest value"),
        }
    }
    if let Some(p) = value.get("@prefix") {
        if env.v10 || term.contains(':') || term.contains('/') {
            return Err("invalid term definition");
        }
        match p {
            J::Bool(b) => d.prefix = *b,
            _ => return Err("invalid @prefix value"),
        }
        if d.prefix && d.iri.as_deref().map(is_keyword).unwrap_or(false) {
            return Err("invalid term definition");
        }
    }
    for (k, _) in value.as_obj().unwrap() {
        if ![
            "@id", "@reverse", "@container", "@context", "@direction", "@index", "@language", "@nest",
            "@prefix", "@protected", "@type",
        ]
        .contains(&k.as_str())
        {
            return Err("invalid term definition");
        }
    }
    check_protected(&mut d, previous, o)?;
    active.terms.insert(term.to_string(), d);
    defined.insert(term.to_string(), true);
    Ok(())
}

/// Grammar of contexts. Entries that the algorithm never looks at (those of an ignored or replaced
/// definition) still have to follow it.
fn shape_ctx(c: &J) -> Result<(), Code> {
    for c in c.arrayify() {
        match c {
            J::Null => {}
            J::Str(s) if iri::is_iri_ref(&s) => {}
            J::Obj(e) => {
                for (k, v) in e {
                    match v {
                        _ if is_keyword(&k) => {}
                        J::Obj(_) => shape(&v)?,
                        J::Null | J::Str(_) => {}
                        _ => return Err("invalid term definition"),
                    }
                }
            }
            _ => return Err("invalid local context"),
        }
    }
    Ok(())
}

fn shape(v: &J) -> Result<(), Code> {
    for (k, v) in v.as_obj().unwrap() {
        let ok = match (k.as_str(), v) {
            ("@id", J::Str(_) | J::Null) | ("@reverse" | "@type" | "@index", J::Str(_)) => true,
            ("@language", J::Str(_) | J::Null) | ("@type", J::Null) => true,
            ("@direction", J::Null) => true,
            ("@direction", J::Str(s)) => s == "ltr" || s == "rtl",
            ("@prefix" | "@protected", J::Bool(_)) => true,
            ("@nest", J::Str(s)) => s == "@nest" || !is_keyword(s),
            ("@container", c) => *c == J::Null || c.arrayify().iter().all(|c| {
                matches!(c, J::Str(s) if ["@graph", "@id", "@index", "@language", "@list", "@set", "@type"].contains(&s.as_str()))
            }),
            ("@context", c) => shape_ctx(c).is_ok(),
            _ => false,
        };
        if !ok {
            return Err(match k.as_str() {
                "@id" | "@reverse" => "invalid IRI mapping",
                "@type" => "invalid type mapping",
                "@language" => "invalid language mapping",
                "@direction" => "invalid base direction",
                "@prefix" => "invalid @prefix value",
                "@protected" => "invalid @protected value",
                "@nest" => "invalid @nest value",
                "@container" => "invalid container mapping",
                "@context" => "invalid scoped context",
                _ => "invalid term definition",
            });
        }
    }
    Ok(())
}

fn check_protected(d: &mut Term, previous: Option<Term>, o: &Opts) -> Result<(), Code> {
    if !o.override_protected {
        if let Some(p) = previous {
            if p.protected {
                if !d.same_modulo_protected(&p) {
                    return Err("protected term redefinition");
                }
                *d = p;
            }
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn expand_iri_in(
    env: &Env,
    active: &mut Ctx,
    value: &str,
    doc_rel: bool,
    vocab: bool,
    local: &J,
    defined: &mut BTreeMap<String, bool>,
    o: &Opts,
    protected: bool,
) -> Result<Option<String>, Code> {
    if is_keyword(value) {
        return Ok(Some(value.to_string()));
    }
    if keyword_form(value) {
        return Ok(None);
    }
    if local.has(value) && defined.get(value) != Some(&true) {
        define(env, active, local, value, defined, o, protected)?;
    }
    if let Some(i) = value.char_indices().skip(1).find(|(_, c)| *c == ':').map(|x| x.0) {
        let (p, s) = (&value[..i], &value[i + 1..]);
        // only reached by the algorithm when the value is not itself a term
        if !(vocab && active.terms.contains_key(value))
            && p != "_"
            && !s.starts_with("//")
            && local.has(p)
            && defined.get(p) != Some(&true)
        {
            define(env, active, local, p, defined, o, protected)?;
        }
    }
    Ok(expand_iri(active, value, doc_rel, vocab))
}

/// Does expanding this key, type or `@vocab` value take the vocabulary mapping?
pub fn needs_vocab(active: &Ctx, value: &str) -> bool {
    const MARK: &str = "mark:/";
    let mut c = active.clone();
    if c.vocab.is_none() {
        return false;
    }
    c.vocab = Some(MARK.into());
    expand_iri(&c, value, false, true).map_or(false, |e| e.starts_with(MARK))
}

/// IRI expansion without a local context (§5.2.2).
pub fn expand_iri(active: &Ctx, value: &str, doc_rel: bool, vocab: bool) -> Option<String> {
    if is_keyword(value) {
        return Some(value.to_string());
    }
    if keyword_form(value) {
        return None;
    }
    if let Some(t) = active.term(value) {
        if let Some(i) = &t.iri {
            if is_keyword(i) {
                return Some(i.clone());
            }
        }
        if vocab {
            return t.iri.clone();
        }
    }
    if let Some(i) = value.char_indices().skip(1).find(|(_, c)| *c == ':').map(|x| x.0) {
        let (p, s) = (&value[..i], &value[i + 1..]);
        if p == "_" || s.starts_with("//") {
            return Some(value.to_string());
        }
        if let Some(t) = active.term(p) {
            if t.prefix {
                if let Some(m) = &t.iri {
                    return Some(format!("{m}{s}"));
                }
            }
        }
        if iri::is_iri(value) {
            return Some(value.to_string());
        }
    }
    if vocab {
        if let Some(v) = &active.vocab {
            return Some(format!("{v}{value}"));
        }
    }
    if doc_rel && iri::is_iri_ref(value) {
        if let Some(b) = &active.base {
            return Some(iri::resolve(b, value));
        }
    }
    Some(value.to_string())
}

/// Canonical description of an active context (for comparison with the implementation's).
pub fn dump(c: &Ctx) -> J {
    let opt = |s: &Option<String>| s.as_ref().map(|s| J::Str(s.clone())).unwrap_or(J::Null);
    let tri = |s: &Option<Option<String>>, lower: bool| match s {
        None => J::s("(none)"),
        Some(None) => J::Null,
        Some(Some(s)) => J::Str(if lower { s.to_lowercase() } else { s.clone() }),
    };
    let mut terms = vec![];
    for (k, t) in &c.terms {
        let mut cont = t.container.clone();
        cont.sort();
        terms.push((
            k.clone(),
            J::o(&[
                ("iri", if k == "@type" { J::Null } else { opt(&t.iri) }),
                ("prefix", J::Bool(t.prefix)),
                ("protected", J::Bool(t.protected)),
                ("reverse", J::Bool(t.reverse)),
                ("base_url", if t.context.is_some() { opt(&t.base_url) } else { J::Null }),
                ("context", t.context.as_ref().map(|c| c.sort_keys()).unwrap_or(J::Bool(false))),
                ("container", J::Arr(cont.into_iter().map(J::Str).collect())),
                ("direction", tri(&t.direction, false)),
                ("index", opt(&t.index)),
                ("language", tri(&t.language, true)),
                ("nest", opt(&t.nest)),
                ("type", opt(&t.ty)),
            ]),
        ))
    }
    terms.sort();
    J::o(&[
        ("base", opt(&c.base)),
        ("original_base", opt(&c.original_base)),
        ("vocab", opt(&c.vocab)),
        ("language", c.language.as_ref().map(|s| J::Str(s.to_lowercase())).unwrap_or(J::Null)),
        ("direction", opt(&c.direction)),
        ("previous", c.previous.as_ref().map(|p| dump(p)).unwrap_or(J::Null)),
        ("terms", J::Obj(terms)),
    ])
}
