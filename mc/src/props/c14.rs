//! C14: contexts survive being written down.
use super::{c10, Prop};
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen::{self, BASE};
use crate::imp::{self, MapLoader};
use crate::iri;
use crate::refm::{ctx, Env};
use crate::json::{from_impl, to_impl, J};
use json_ld::syntax::{context::definition::KeyOrKeyword, Container as SContainer, ContainerKind, Context, ContextEntry, Direction, IntoJson, Keyword, LenientLangTag, Print, TryFromJson};
use json_syntax::print::{Indent, Limit, Options};

const KEYWORDS: &[&str] = &[
    "@base", "@container", "@context", "@direction", "@graph", "@id", "@import", "@included", "@index", "@json", "@language", "@list", "@nest", "@none", "@prefix", "@propagate", "@protected", "@reverse", "@set", "@type", "@value", "@version", "@vocab",
];

/// Every way of laying out a context that differs in what is put on one line.
fn layouts() -> Vec<Options> {
    let mut r = vec![Options::pretty(), Options::compact(), Options::inline()];
    for l in [Limit::Always, Limit::Item(1), Limit::Item(2), Limit::Width(12), Limit::Width(30), Limit::ItemOrWidth(2, 16)] {
        for m in [None, Some(Limit::Item(1)), Some(Limit::Width(24))] {
            let mut o = Options::pretty();
            o.array_limit = Some(l);
            o.object_limit = m;
            o.indent = Indent::Tabs(1);
            o.object_before_colon = 1;
            r.push(o);
        }
    }
    r
}

fn same(a: &J, b: &J) -> bool {
    a.sort_keys() == b.sort_keys()
}

/// Every entry is listed once, with its key, and can be looked up.
fn listed(c: &Context, x: &J) -> Result<(), String> {
    let entries: Vec<&J> = match x {
        J::Arr(a) => a.iter().collect(),
        x => vec![x],
    };
    if c.len() != entries.len() || c.is_array() != matches!(x, J::Arr(_)) || c.iter().count() != entries.len() || c.is_empty() != entries.is_empty() {
        return Err(format!("{} entries listed", c.len()));
    }
    for (e, x) in c.iter().zip(entries) {
        let ContextEntry::Definition(d) = e else { continue };
        let x = x.as_obj().ok_or("not an object")?;
        let mut want: Vec<&str> = x.iter().map(|e| e.0.as_str()).collect();
        let it = d.iter();
        let n = it.len();
        let mut got: Vec<String> = it.map(|e| e.into_key().as_str().to_string()).collect();
        want.sort();
        got.sort();
        if got != want || n != got.len() {
            return Err(format!("definition entries listed ({n}): {got:?}"));
        }
        for k in KEYWORDS.iter().copied().chain(["a", "b", "t", "p", "zz"]).chain(want.iter().copied()) {
            let key: KeyOrKeyword = match Keyword::try_from(k) {
                Ok(k) => KeyOrKeyword::Keyword(k),
                Err(_) => KeyOrKeyword::Key(k.to_string().into()),
            };
            if d.get(&key).is_some() != want.contains(&k) {
                return Err(format!("looking up {k:?} fails"));
            }
        }
        for (k, v) in d.bindings.iter() {
            let v2 = &x.iter().find(|e| e.0 == k.as_str()).ok_or("unknown binding")?.1;
            if let json_ld::Nullable::Some(json_ld::syntax::context::TermDefinition::Expanded(e)) = v {
                let it = e.iter();
                let n = it.len();
                let mut got: Vec<&str> = it.map(|e| e.key().as_str()).collect();
                let mut want: Vec<&str> = v2.as_obj().ok_or("not an object")?.iter().map(|e| e.0.as_str()).collect();
                got.sort();
                want.sort();
                if got != want || n != got.len() {
                    return Err(format!("term definition entries listed ({n}): {got:?}"));
                }
                if let Some(c) = &e.context {
                    listed(c, v2.get("@context").ok_or("no context")?)?
                }
            }
        }
    }
    // every entry of the definitions is traversed once
    let mut keys = 0;
    let mut objects = 0;
    for f in c.traverse() {
        use json_ld::syntax::context::{definition::FragmentRef as D, FragmentRef as F};
        match f {
            F::DefinitionFragment(D::Entry(_)) => keys += 1,
            F::Context(e) if e.is_object() => objects += 1,
            _ => {}
        }
    }
    let defs: Vec<usize> = c.iter().filter_map(|e| if let ContextEntry::Definition(d) = e { Some(d.iter().count()) } else { None }).collect();
    if objects != defs.len() || keys != defs.iter().sum::<usize>() {
        return Err(format!("{keys} entries of {objects} definitions traversed"));
    }
    Ok(())
}

fn has_duplicates(j: &J) -> bool {
    match j {
        J::Obj(o) => o.iter().enumerate().any(|(i, e)| o[..i].iter().any(|f| f.0 == e.0) || has_duplicates(&e.1)),
        J::Arr(a) => a.iter().any(has_duplicates),
        _ => false,
    }
}

fn written(c: &Context, x: &J) -> Result<(), String> {
    let json = from_impl(&c.clone().into_json());
    if !same(&json, x) {
        return Err(format!("into_json gives {json:?}"));
    }
    for o in layouts() {
        let text = c.print_with(o).to_string();
        let back = J::parse(&text).map_err(|e| format!("printed as {text:?}: {e}"))?;
        if !same(&back, x) {
            return Err(format!("printed as {text}"));
        }
    }
    let again = Context::try_from_json(to_impl(&json)).map_err(|e| format!("not read again: {e}"))?;
    if again != *c || c.clone() != *c {
        return Err("read again as a different context".into());
    }
    let ser = json_syntax::to_value(c).map_err(|e| format!("serde: {e}"))?;
    if !same(&from_impl(&ser), x) {
        return Err(format!("serde writes {:?}", from_impl(&ser)));
    }
    let de: Context = json_syntax::from_value(to_impl(x)).map_err(|e| format!("serde does not read: {e}"))?;
    if de != *c {
        return Err(format!("serde reads {:?}", from_impl(&de.into_json())));
    }
    let doc = J::o(&[("@context", x.clone())]);
    let de: json_ld::syntax::ContextDocument = json_syntax::from_value(to_impl(&doc)).map_err(|e| format!("serde does not read the document: {e}"))?;
    if de.context != *c || !same(&from_impl(&json_syntax::to_value(&de).map_err(|e| e.to_string())?), &doc) {
        return Err("serde changes the document".into());
    }
    listed(c, x)
}

fn syntax(ch: &mut Chooser, x: &J) -> Report {
    ch.describe(|| format!("context={x:?}"));
    let r = Context::try_from_json(to_impl(x));
    let steps = x.size() as u64;
    let class = hash(&format!("{:?}", r.is_ok()));
    if has_duplicates(x) {
        return Report { steps, class, trivial: true, verdict: V::Ok };
    }
    let verdict = match r {
        Ok(c) => match written(&c, x) {
            Ok(()) => V::Ok,
            Err(e) => V::Bad(e),
        },
        // what serde makes of a context that is refused is left open
        Err(e) => {
            let env = Env::new(gen::remotes(), false);
            match ctx::process(&env, &ctx::Ctx::new(Some(BASE.into())), x, &ctx::Opts::base(Some(BASE.into()))) {
                // known finding of C01, and definitions that are ignored whatever they are
                Ok(_) if ["\"@type\":{\"@protected\"", "\"@foo\"", "\"@reverse\""].iter().any(|s| format!("{x:?}").contains(s)) => V::Ok,
                Ok(_) => V::Bad(format!("a valid context cannot be read: {e:?}")),
                Err(_) => V::Ok,
            }
        }
    };
    Report { steps, class: hash(&x.sort_keys()), trivial: false, verdict }
}

/// What a written context can express: the base of its scoped contexts and the previous context are lost.
fn expressible(c: &J) -> J {
    let mut c = c.clone();
    for k in ["original_base", "previous"] {
        c.set(k, J::Null)
    }
    if let Some(J::Obj(t)) = c.get_mut("terms") {
        for (_, d) in t {
            d.set("base_url", J::Null);
            // without effect
            if !d.get("type").unwrap().is_null() {
                d.set("language", J::Null);
                d.set("direction", J::Null);
            }
        }
    }
    c
}

fn relative(c: &J) -> bool {
    match c {
        J::Str(s) => !iri::is_iri(s),
        J::Arr(a) => a.iter().any(relative),
        J::Obj(o) => o.iter().any(|(k, v)| k == "@import" || k == "@context" && relative(v) || v.get("@context").is_some_and(relative)),
        _ => false,
    }
}

fn processed(ch: &mut Chooser, contexts: &[J], base: Option<&str>) -> Report {
    ch.describe(|| format!("contexts={contexts:?} base={base:?}"));
    let remotes = gen::remotes();
    let loader = MapLoader::new(&remotes);
    let mut c = Ok(imp::Ctx::new(base.map(imp::iri)));
    for x in contexts {
        c = c.and_then(|a| imp::process_ctx(&a, x, base, false, &loader));
    }
    let steps = contexts.iter().map(|c| c.size() as u64).sum();
    let Ok(c) = c else {
        return Report { steps, class: 0, trivial: true, verdict: V::Ok };
    };
    let dump = imp::dump_ctx(&c);
    let d = c.clone().into_syntax_definition(&());
    let x = from_impl(&d.clone().into_json());
    let class = hash(&format!("{x:?}"));
    let copy = c.clone().map_ids(|i| i, |i| i);
    let mut verdict = V::Ok;
    if imp::dump_ctx(&copy) != dump {
        verdict = V::Bad(format!("mapping identifiers to themselves:\n{}", super::c01::diff(&dump, &imp::dump_ctx(&copy))))
    }
    // A compact IRI or a term in place of an IRI would be expanded again.
    let terms: Vec<&str> = dump.get("terms").and_then(|t| t.as_obj()).unwrap().iter().map(|t| t.0.as_str()).collect();
    let ambiguous = |i: &J| i.as_str().is_some_and(|i| terms.contains(&i) || i.split_once(':').is_some_and(|(p, s)| !s.starts_with("//") && p != "_" && terms.contains(&p)));
    let mut open = dump.get("vocab").is_some_and(|v| ambiguous(v) || v.as_str().is_some_and(|v| !iri::is_iri(v) && !v.starts_with("_:")));
    for (t, d) in dump.get("terms").and_then(|t| t.as_obj()).unwrap() {
        let d0 = d;
        open |= t != d.get("iri").and_then(|i| i.as_str()).unwrap_or("") && ambiguous(d.get("iri").unwrap()) || ambiguous(d.get("type").unwrap());
        // Its base is lost.
        open |= relative(d.get("context").unwrap());
        // The IRI of such a term cannot be given if its prefix is not usable as prefix, or was defined later.
        open |= t.split_once(':').is_some_and(|(p, s)| {
            let prefix = dump.get("terms").and_then(|t| t.get(p)).filter(|_| !s.starts_with("//"));
            prefix.is_some_and(|d| d.get("prefix") == Some(&J::Bool(false)) || t == d0.get("iri").and_then(|i| i.as_str()).unwrap_or(""))
        });
    }
    if matches!(verdict, V::Ok) && !open {
        verdict = match imp::process_ctx(&imp::Ctx::new(None), &x, None, false, &loader) {
            Err(e) => V::Bad(format!("written as {x:?}, which is refused: {e}\nprocessed: {dump:?}")),
            Ok(again) => {
                let (a, b) = (expressible(&dump), expressible(&imp::dump_ctx(&again)));
                if a == b { V::Ok } else { V::Bad(format!("written as {x:?}:\n{}", super::c01::diff(&a, &b))) }
            }
        };
    }
    Report { steps, class, trivial: open, verdict }
}

/// Strings that are read as keywords, directions, container kinds, compact IRIs, language tags.
fn words(ch: &mut Chooser) -> Report {
    let s = match ch.pick(3) {
        0 => {
            let k = *ch.of(KEYWORDS);
            let i = ch.pick(k.len() + 1);
            let (a, b) = k.split_at(i);
            let n = b.chars().next();
            match ch.pick(5) {
                0 => k.to_string(),
                1 => format!("{a}{}", b.get(1..).unwrap_or("")),
                2 => format!("{a}{}{b}", ch.of(&["@", "a", "s", "A", "1", " ", "é"])),
                3 => match n {
                    Some(n) => format!("{a}{}{}", n.to_ascii_uppercase(), &b[1..]),
                    None => format!("{k} "),
                },
                _ => a.to_string(),
            }
        }
        1 => {
            // every text of up to 5 characters
            const C: &[char] = &['@', 'a', ':', '/', '_', '#', '%', '-', '1', ' '];
            let n = ch.pick(6);
            (0..n).map(|_| *ch.of(C)).collect()
        }
        _ => ch.of(&["ltr", "rtl", "LTR", "Rtl", "", "null", "en", "en-US", "en-", "e n", "de-Latn-1996", "x-a", "toolongsubtag", "i-default", "_:b:c", "_:", "x:y", "x://y", "x:/y", "x:y z", "x:%zz", "é:a", "a:é", ":a", "1:a", "@a:b", "x:y#z#t"]).to_string(),
    };
    ch.describe(|| format!("text={s:?}"));
    let mut bad = vec![];
    let mut check = |what: &str, got: bool, want: bool| {
        if got != want {
            bad.push(format!("{what}: {got}, expected {want}"))
        }
    };
    let kw = KEYWORDS.contains(&s.as_str());
    let got = Keyword::try_from(s.as_str());
    check("keyword", got.is_ok(), kw);
    check("is_keyword", json_ld::syntax::is_keyword(&s), kw);
    let like = s.strip_prefix('@').is_some_and(|r| !r.is_empty() && r.chars().all(|c| c.is_ascii_alphabetic()));
    check("is_keyword_like", json_ld::syntax::is_keyword_like(&s), like);
    if let Ok(k) = got {
        check("keyword text", k.into_str() == s && k.to_string() == s  , true);
        check("keyword JSON", from_impl(&k.into_json()) == J::s(&s), true);
        let v = json_syntax::to_value(k).map(|v| from_impl(&v));
        check("keyword serde", v.is_ok_and(|v| v == J::s(&s)), true);
    }
    check("keyword from serde", json_syntax::from_value::<Keyword>(to_impl(&J::s(&s))).is_ok_and(|k| k.into_str() == s), kw);
    let kind = ["@graph", "@id", "@index", "@language", "@list", "@set", "@type"].contains(&s.as_str());
    check("container kind", ContainerKind::try_from(s.as_str()).is_ok_and(|k| k.as_str() == s && k.keyword().into_str() == s), kind);
    check("container", SContainer::try_from_json(to_impl(&J::s(&s))).is_ok_and(|c| from_impl(&c.into_json()) == J::s(&s)), kind);
    check("container from serde", json_syntax::from_value::<SContainer>(to_impl(&J::s(&s))).is_ok_and(|c| from_impl(&c.into_json()) == J::s(&s)), kind);
    let dir = ["ltr", "rtl"].contains(&s.as_str());
    check("direction", Direction::try_from(s.as_str()).is_ok_and(|d| d.into_str() == s && d.to_string() == s), dir);
    check("direction from text", s.parse::<Direction>().is_ok_and(|d| d.as_str() == s), dir);
    check("direction from serde", json_syntax::from_value::<Direction>(to_impl(&J::s(&s))).is_ok_and(|d| d.as_str() == s), dir);
    let compact = s.split_once(':').is_some_and(|(p, x)| p != "_" && !x.starts_with("//")) && iref::IriRef::new(&s).is_ok();
    match json_ld::syntax::CompactIri::new(&s) {
        Ok(c) => {
            check("compact IRI", true, compact);
            let (p, x) = s.split_once(':').unwrap();
            check("compact IRI parts", c.prefix() == p && c.suffix() == x && c.as_str() == s, true)
        }
        Err(_) => check("compact IRI", false, compact),
    }
    check("owned compact IRI", json_ld::syntax::CompactIriBuf::new(s.clone()).is_ok_and(|c| c.into_string() == s), compact);
    let (tag, err) = LenientLangTag::new(&s);
    check("language tag", tag.as_str() == s && tag.is_well_formed() == err.is_none() && tag.as_well_formed().is_some() == err.is_none(), true);
    // simple definitions and identifiers say what kind of text they hold
    let simple = Context::try_from_json(to_impl(&J::o(&[("t", J::s(&s))])));
    match simple {
        Ok(Context::One(ContextEntry::Definition(d))) => match d.bindings.get(&"t".to_string().into()) {
            Some(json_ld::Nullable::Some(json_ld::syntax::context::TermDefinition::Simple(t))) => {
                check("simple definition", t.as_str() == s, true);
                check("simple definition IRI", t.as_iri().is_some(), iref::Iri::new(&s).is_ok());
                check("simple definition compact IRI", t.as_compact_iri().is_some(), compact);
                check("simple definition blank", t.as_blank_id().is_some(), if s.matches(':').count() > 1 { t.as_blank_id().is_some() } else { iri::is_blank(&s) });
            }
            _ => check("simple definition", false, true),
        },
        _ => check("simple definition", false, true),
    }
    let verdict = if bad.is_empty() { V::Ok } else { V::Bad(bad.join("\n")) };
    Report { steps: 20, class: hash(&s), trivial: false, verdict }
}

/// Combinations of containers.
fn containers(ch: &mut Chooser) -> Report {
    use json_ld::Container;
    const ALL: [ContainerKind; 7] = [ContainerKind::Graph, ContainerKind::Id, ContainerKind::Index, ContainerKind::Language, ContainerKind::List, ContainerKind::Set, ContainerKind::Type];
    let n = ch.pick(6);
    let ks: Vec<ContainerKind> = (0..n).map(|_| *ch.of(&ALL)).collect();
    ch.describe(|| format!("containers={ks:?}"));
    let set: std::collections::BTreeSet<&str> = ks.iter().map(|k| k.as_str()).collect();
    // the combinations of the recommendation (4.2.2, step 19)
    let mut rest = set.clone();
    rest.remove("@set");
    let with_set = set.contains("@set");
    let rest: Vec<&str> = rest.into_iter().collect();
    let ok = match rest[..] {
        [] => true,
        ["@list"] => !with_set,
        [_] => true,
        ["@graph", k] => k == "@id" || k == "@index",
        _ => false,
    };
    let mut bad = vec![];
    let syntax = SContainer::Many(ks.clone());
    let got = Container::from_syntax(json_ld::Nullable::Some(&syntax));
    let mut one = Container::new();
    let added = ks.iter().all(|k| one.add(*k));
    if got.is_ok() != ok || added != ok {
        bad.push(format!("accepted: {} {added}, expected {ok}", got.is_ok()))
    }
    if let Ok(c) = got {
        if c != one {
            bad.push(format!("{c:?} but {one:?} when added one by one"))
        }
        for k in ALL {
            if c.contains(k) != set.contains(k.as_str()) {
                bad.push(format!("contains {k:?}: {}", c.contains(k)))
            }
        }
        let mut s: Vec<&str> = c.as_slice().iter().map(|k| k.as_str()).collect();
        s.sort();
        if s != set.iter().copied().collect::<Vec<_>>() {
            bad.push(format!("slice {s:?}"))
        }
        let back = c.into_syntax();
        let again = Container::from_syntax(back.as_ref().map(json_ld::Nullable::Some).unwrap_or(json_ld::Nullable::Null));
        if !again.is_ok_and(|a| a == c) {
            bad.push(format!("written as {back:?}"))
        }
    }
    Report { steps: 10, class: hash(&set), trivial: false, verdict: if bad.is_empty() { V::Ok } else { V::Bad(bad.join("\n")) } }
}

fn pool() -> Vec<J> {
    gen::list("null;;{};;'http://r.org/c';;'c';;[];;{'@version':1.1};;{'@base':null};;{'@vocab':'','@language':null,'@direction':null};;{'a':null};;{'a':'b'};;{'a':{'@id':null}};;{'a':{'@context':null,'@type':null,'@language':null,'@container':null,'@direction':null}};;{'a':{'@context':[null,{'b':{'@context':{'@vocab':'x'}}}],'@container':['@graph','@set']}};;{'@type':{'@container':'@set','@protected':true},'@protected':false,'@propagate':true,'@import':'i'};;{'a':{'@reverse':'b','@index':'i','@nest':'@nest','@prefix':false}};;{'\\u0001\\\"\\\\é':'a\\nb'}")
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as u32;
    Prop {
        id: "C14",
        level: "model_checking",
        rule: "contexts are enumerated from the grammar of C01 and from every value under every key; processed contexts come from the same grammars; words are all texts near keywords and all short texts",
        assumptions: &["a written context cannot say which URL its scoped contexts are relative to, nor what it would roll back to"],
        families: vec![
            family("grammar", 2 + t, |ch| {
                let c = gen::gen_ctx(ch);
                syntax(ch, &c)
            }),
            family("entries", 1, |ch| {
                let c = c10::any_context(ch);
                syntax(ch, &c)
            }),
            family("arrays", t, |ch| {
                let p = pool();
                let n = ch.pick(4);
                let mut a: Vec<J> = (0..n).map(|_| ch.of(&p).clone()).collect();
                let c = match ch.pick(3) {
                    0 => J::Arr(a),
                    1 => J::Arr(vec![J::o(&[("a", J::o(&[("@context", J::Arr(a))]))])]),
                    _ if n == 1 => J::o(&[("a", J::o(&[("@context", a.remove(0)), ("@id", J::s("x:y"))]))]),
                    _ => J::obj(),
                };
                syntax(ch, &c)
            }),
            family("processed", 2 + t, |ch| {
                let base = if ch.dev(2) == 0 { Some(BASE) } else { None };
                let c = gen::gen_ctx(ch);
                processed(ch, &[c], base)
            }),
            family("processed chains", 1, move |ch| {
                let base = if ch.dev(2) == 0 { Some(BASE) } else { None };
                let n = 2 + ch.pick(1 + t as usize);
                let cs: Vec<J> = (0..n).map(|_| ch.of(super::c01::chain_pool()).clone()).collect();
                processed(ch, &cs, base)
            }),
            family("words", 0, words),
            family("containers", 0, containers),
        ],
    }
}
