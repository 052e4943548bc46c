//! C15: reading a dataset or a linked data value as JSON-LD loses and adds nothing.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{self, Case};
use crate::json::J;
use crate::refm::flatten::canon;
use crate::refm::fromrdf;
use crate::tree::{self, Data, Entry, Tree};
use crate::refm::rdf::{canonical_double, jcs, lit, to_rdf, well_formed_lang, Dir, RDF, XSD};

fn rdf(s: &str) -> String {
    format!("{RDF}{s}")
}

fn quad(g: &str, s: &str, p: &str, o: J) -> J {
    J::o(&[("g", J::s(g)), ("s", J::s(s)), ("p", J::s(p)), ("o", o)])
}

/// Numbers and JSON in canonical form.
fn norm_literal(o: &J) -> J {
    let (Some(v), Some(t)) = (o.get("@value"), o.get("@type")) else { return o.clone() };
    let (v, t) = (v.as_str().unwrap(), t.as_str().unwrap());
    if t == rdf("JSON") {
        if let Ok(j) = J::parse(v) {
            return lit(&jcs(&j), t, None);
        }
    }
    if t == format!("{XSD}integer") && v.parse::<i64>().is_ok() && !v.starts_with('+') {
        return lit(&v.parse::<i64>().unwrap().to_string(), t, None);
    }
    let number = |c: char| c.is_ascii_digit() || "+-.eE".contains(c);
    if t == format!("{XSD}double") && v.chars().all(number) && v.parse::<f64>().is_ok() {
        return lit(&canonical_double(v.parse().unwrap()), t, None);
    }
    o.clone()
}

fn norm(quads: &[J]) -> J {
    let mut out: Vec<J> = vec![];
    for q in quads {
        let mut q = q.clone();
        let o = norm_literal(q.get("o").unwrap());
        q.set("o", o);
        if !out.contains(&q) {
            out.push(q)
        }
    }
    canon(&J::Arr(out))
}

fn dataset_of(doc: &J, steps: &mut u64) -> J {
    norm(to_rdf(doc, Dir::None, true, steps).as_arr().unwrap())
}

/// Lists with at least one item.
fn lists(d: &J) -> usize {
    match d {
        J::Arr(a) => a.iter().map(lists).sum(),
        J::Obj(e) => e.iter().map(|(k, v)| lists(v) + (k == "@list" && v.as_arr().is_some_and(|a| !a.is_empty())) as usize).sum(),
        _ => 0,
    }
}

fn judge(ch: &mut Chooser, quads: &[J]) -> Report {
    ch.describe(|| format!("quads={quads:?}"));
    let mut steps = 0;
    let want = norm(quads);
    let spec = fromrdf::from_rdf(quads);
    let spec_quads = dataset_of(&spec, &mut steps);
    let got = imp::from_rdf(quads);
    let verdict = match &got {
        Err(e) => V::Bad(format!("error {e}")),
        Ok(d) => {
            let back = dataset_of(d, &mut steps);
            // The type rdf:List of the nodes of a list is implied by the list.
            let untyped = |q: &[J]| norm(&q.iter().filter(|q| q.get("p") != Some(&J::Str(rdf("type"))) || q.get("o") != Some(&J::Str(rdf("List")))).cloned().collect::<Vec<_>>());
            let typed = |q: &J| q.as_arr().unwrap().len() - untyped(q.as_arr().unwrap()).as_arr().unwrap().len();
            let same = untyped(quads) == untyped(back.as_arr().unwrap());
            if back != want && !(same && typed(&back) >= typed(&spec_quads) && typed(&back) <= typed(&want)) {
                V::Bad(format!("read as: {d:?}\nwhich is: {back:?}"))
            } else if untyped(quads) == untyped(spec_quads.as_arr().unwrap()) && lists(d) != lists(&spec) {
                V::Bad(format!("lists\nspec: {spec:?}\nimpl: {d:?}"))
            } else {
                V::Ok
            }
        }
    };
    Report { steps, class: hash(&format!("{got:?}")), trivial: false, verdict }
}

const ORDERS: usize = 2;

fn ordered(ch: &mut Chooser, mut q: Vec<J>) -> Vec<J> {
    if ch.pick(ORDERS) == 1 {
        q.reverse()
    }
    q
}

/// Every set of at most `max` quads over an alphabet.
fn sets(ch: &mut Chooser, max: usize, graphs: &[&str], subjects: &[&str]) -> Report {
    let mut all = vec![];
    for g in graphs {
        for s in subjects {
            for p in ["x:p".to_string(), rdf("type"), rdf("first"), rdf("rest")] {
                for o in [J::s("x:s"), J::s("_:a"), J::s("_:b"), J::Str(rdf("nil")), lit("v", &format!("{XSD}string"), None), J::Str(rdf("List"))] {
                    all.push(quad(g, s, &p, o))
                }
            }
        }
    }
    let mut q = vec![];
    let mut from = 0;
    for _ in 0..max {
        // 0 stops.
        let k = ch.pick(all.len() - from + 1);
        if k == 0 {
            break;
        }
        from += k;
        q.push(all[from - 1].clone());
    }
    let q = ordered(ch, q);
    judge(ch, &q)
}

/// Lists, and what spoils them.
fn list_shapes(ch: &mut Chooser, edits: usize) -> Report {
    let n = 1 + ch.pick(3);
    let g = *ch.of(&["", "x:g", "_:n1"]);
    let node = |i: usize| format!("_:n{i}");
    let items = |k: usize| match k {
        0 => lit("v", &format!("{XSD}string"), None),
        1 => J::s("x:o"),
        2 => J::s("_:i"),
        3 => J::Str(rdf("nil")),
        4 => J::s("_:n2"),
        _ => J::s("_:m"),
    };
    let mut q = vec![];
    match ch.pick(5) {
        0 => q.push(quad(g, "x:s", "x:p", J::s("_:n1"))),
        1 => q.push(quad(g, "_:s", "x:p", J::s("_:n1"))),
        2 => q.push(quad(g, "x:s", &rdf("rest"), J::s("_:n1"))),
        3 => q.push(quad(g, "x:s", &rdf("type"), J::s("_:n1"))),
        _ => {}
    }
    let typed = ch.pick(2) == 1;
    for i in 1..=n {
        if typed {
            q.push(quad(g, &node(i), &rdf("type"), J::Str(rdf("List"))))
        }
        q.push(quad(g, &node(i), &rdf("first"), items(if i == 1 { ch.pick(6) } else { ch.dev(6) })));
        let next = if i < n { J::Str(node(i + 1)) } else { J::Str(rdf("nil")) };
        q.push(quad(g, &node(i), &rdf("rest"), next));
    }
    if ch.pick(2) == 1 {
        q.push(quad(g, "_:m", &rdf("first"), J::s("x:o2")));
        q.push(quad(g, "_:m", &rdf("rest"), J::Str(rdf("nil"))));
    }
    if ch.pick(2) == 1 {
        q.push(quad(g, "_:i", "x:q", J::s(*["x:s", "_:s", "_:n1"].get(ch.pick(3)).unwrap())))
    }
    for _ in 0..edits {
        let which = node(1 + ch.dev(3));
        let e = match ch.dev(14) {
            0 => continue,
            1 => quad(g, &which, &rdf("type"), J::Str(rdf("List"))),
            2 => quad(g, &which, &rdf("type"), J::s("x:T")),
            3 => quad(g, &which, "x:p", J::s("x:o")),
            4 => quad(g, &which, &rdf("first"), J::s("x:other")),
            5 => quad(g, &which, &rdf("rest"), J::Str(rdf("nil"))),
            6 => quad(g, &which, &rdf("rest"), J::s("_:m")),
            7 => quad(g, "x:t", "x:p", J::Str(which)),
            8 => quad(g, "x:s", "x:p2", J::Str(which)),
            9 => quad("x:h", "x:t", "x:p", J::Str(which)),
            10 => quad("x:h", &which, "x:p", J::s("x:o")),
            11 => quad(&which, "x:t", "x:p", J::s("x:o")),
            12 => quad(g, "x:t", &rdf("type"), J::Str(which)),
            _ => {
                // an IRI instead of the blank node
                for x in q.iter_mut() {
                    for k in ["g", "s", "o"] {
                        if x.get(k).and_then(|v| v.as_str()) == Some(&which) {
                            x.set(k, J::s("x:named"))
                        }
                    }
                }
                continue;
            }
        };
        if !q.contains(&e) {
            q.push(e)
        }
    }
    let q = ordered(ch, q);
    judge(ch, &q)
}

fn literals(ch: &mut Chooser) -> Report {
    const LEX: &[&str] = &["", "v", "true", "false", "1", "0", "01", "+1", "-0", "-1", "1.0", "1.5", "1E0", "1e2", "INF", "NaN", "9007199254740993", "{}", "[1.0]", "{\"b\":1,\"a\":2}", "null", "\"s\"", " 1 ", "TRUE"];
    let types = [format!("{XSD}string"), format!("{XSD}boolean"), format!("{XSD}integer"), format!("{XSD}double"), format!("{XSD}decimal"), format!("{XSD}long"), rdf("JSON"), rdf("HTML"), "x:t".to_string(), "https://www.w3.org/ns/i18n#ar_rtl".to_string()];
    let value = *ch.of(LEX);
    let k = ch.pick(types.len() + 3);
    let l = match types.get(k) {
        Some(t) => lit(value, t, None),
        None => lit(value, &rdf("langString"), Some(["en", "en-us", "fr"][k - types.len()])),
    };
    // An invalid JSON literal is an error.
    if l.get("@type").and_then(|t| t.as_str()) == Some(&rdf("JSON")) && (J::parse(value).is_err() || matches!(value, "01" | "+1")) {
        return Report { steps: 0, class: 0, trivial: true, verdict: V::Ok };
    }
    let p = [rdf("type"), "x:p".to_string(), rdf("first"), rdf("rest")];
    let p = ch.of(&p);
    let mut q = vec![quad("", "x:s", p, l.clone())];
    match ch.pick(4) {
        0 => {}
        1 => q.push(quad("", "x:s", p, J::s("x:o"))),
        2 => q.push(quad("x:g", "_:s", "x:p", l)),
        _ => {
            q.push(quad("", "x:t", "x:p", J::s("_:l")));
            q.push(quad("", "_:l", &rdf("first"), l));
            q.push(quad("", "_:l", &rdf("rest"), J::Str(rdf("nil"))));
        }
    }
    let q = ordered(ch, q);
    judge(ch, &q)
}

fn judge_tree(ch: &mut Chooser, d: &Data) -> Report {
    ch.describe(|| format!("value={d:?}"));
    let mut steps = 0;
    let want = norm(&tree::quads(d));
    let got = tree::serialize(d);
    let verdict = match &got {
        Err(e) => V::Bad(format!("error {e}")),
        Ok(doc) => {
            let back = dataset_of(doc, &mut steps);
            if back != want {
                V::Bad(format!("serialized as: {doc:?}\nwhich is: {back:?}\ninstead of: {want:?}"))
            } else {
                V::Ok
            }
        }
    };
    Report { steps, class: hash(&format!("{got:?}")), trivial: false, verdict }
}

/// A linked data value: a few entries, any of them twice, nodes being named or not.
fn any_tree(ch: &mut Chooser, depth: usize, reverse: bool) -> Tree {
    let leaf = |ch: &mut Chooser| match ch.dev(6) {
        0 => tree::xsd("v", "string", false),
        1 => tree::xsd("1", "integer", true),
        2 => Tree::Node(Some("x:o".into()), vec![]),
        3 => Tree::Node(None, vec![]),
        4 => Tree::Node(Some(rdf("nil")), vec![]),
        _ => Tree::Lit(lit("l", &rdf("langString"), Some("en"))),
    };
    if depth == 0 {
        return if reverse { Tree::Node(Some("x:r".into()), vec![]) } else { leaf(ch) };
    }
    let id = [Some("x:a"), None, Some("_:a"), Some("x:b")][ch.dev(4)];
    let mut entries = vec![];
    let n = 1 + ch.dev(4);
    for _ in 0..n {
        let p = match ch.dev(5) {
            0 => "x:p".to_string(),
            1 => rdf("type"),
            2 => rdf("first"),
            3 => rdf("rest"),
            _ => "x:q".to_string(),
        };
        let objects = |ch: &mut Chooser, rev: bool| match ch.dev(3) {
            0 => vec![any_tree(ch, depth - 1, rev)],
            1 => vec![],
            _ => vec![any_tree(ch, depth - 1, rev), any_tree(ch, 0, rev)],
        };
        entries.push(match ch.dev(4) {
            0 => Entry::Pred(p, objects(ch, false)),
            1 => Entry::Rev(p, objects(ch, true)),
            2 => Entry::Graph(objects(ch, true)),
            _ => Entry::Include(any_tree(ch, depth - 1, true)),
        })
    }
    Tree::Node(id.map(String::from), entries)
}

fn trees(ch: &mut Chooser) -> Report {
    let depth = 1 + ch.pick(2);
    let t = any_tree(ch, depth, true);
    let d = match ch.dev(6) {
        0 => Data { default: vec![t], named: vec![] },
        1 => Data { default: vec![], named: vec![(Some("x:g".into()), vec![t])] },
        2 => Data { default: vec![], named: vec![(None, vec![t])] },
        3 => Data { default: vec![t.clone()], named: vec![(Some("x:g".into()), vec![t])] },
        4 => Data { default: vec![], named: vec![(Some("x:g".into()), vec![t]), (Some("x:g".into()), vec![Tree::Node(Some("x:z".into()), vec![Entry::Pred("x:p".into(), vec![Tree::Node(None, vec![])])])])] },
        // Documents are sets: the same subject twice, with other entries.
        _ => Data { default: vec![t.clone(), Tree::Node(Some("x:a".into()), vec![Entry::Pred("x:p".into(), vec![tree::xsd("w", "string", false)])])], named: vec![] },
    };
    judge_tree(ch, &d)
}

/// Lists as linked data: chains of first and rest, and what is not quite a list.
fn tree_lists(ch: &mut Chooser) -> Report {
    let n = ch.pick(4);
    let mut t = match ch.pick(5) {
        0 => Tree::Node(Some(rdf("nil")), vec![]),
        1 => Tree::Node(None, vec![]),
        2 => Tree::Node(Some("x:tail".into()), vec![]),
        3 => tree::xsd("v", "string", false),
        _ => Tree::Node(Some(rdf("nil")), vec![Entry::Pred("x:p".into(), vec![Tree::Node(Some("x:o".into()), vec![])])]),
    };
    let nil = Tree::Node(Some(rdf("nil")), vec![]);
    let one = Tree::Node(None, vec![Entry::Pred(rdf("first"), vec![tree::xsd("i", "string", false)]), Entry::Pred(rdf("rest"), vec![nil.clone()])]);
    for i in 0..n {
        let item = match ch.dev(6) {
            0 => tree::xsd(&format!("{i}"), "integer", true),
            1 => Tree::Node(Some("x:o".into()), vec![]),
            2 => one.clone(),
            3 => nil.clone(),
            4 => Tree::Node(None, vec![]),
            _ => Tree::Node(None, vec![Entry::Pred("x:p".into(), vec![one.clone()])]),
        };
        let mut e = vec![Entry::Pred(rdf("first"), vec![item]), Entry::Pred(rdf("rest"), vec![t])];
        let mut id = None;
        let x = || Tree::Node(Some("x:x".into()), vec![]);
        match ch.dev(14) {
            0 => {}
            1 => e.reverse(),
            2 => e.push(Entry::Pred("x:p".into(), vec![x()])),
            3 => e.push(Entry::Pred(rdf("type"), vec![x()])),
            4 => e.insert(0, Entry::Pred(rdf("first"), vec![x()])),
            5 => e.push(Entry::Pred(rdf("rest"), vec![nil.clone()])),
            6 => e.push(Entry::Rev("x:p".into(), vec![x()])),
            7 => e.push(Entry::Include(Tree::Node(Some("x:x".into()), vec![Entry::Pred("x:p".into(), vec![x()])]))),
            8 => e.push(Entry::Graph(vec![Tree::Node(Some("x:x".into()), vec![Entry::Pred("x:p".into(), vec![x()])])])),
            9 => e = vec![e.remove(0)],
            10 => e = vec![e.remove(1)],
            11 => id = Some("x:id".to_string()),
            12 => id = Some("_:id".to_string()),
            _ => e.push(Entry::Rev(rdf("rest"), vec![x()])),
        }
        t = Tree::Node(id, e);
    }
    let p = match ch.pick(4) {
        0 => "x:p".to_string(),
        1 => rdf("type"),
        2 => rdf("first"),
        _ => rdf("rest"),
    };
    let top = Tree::Node([Some("x:s".to_string()), None][ch.pick(2)].clone(), vec![Entry::Pred(p, vec![t.clone()])]);
    let d = match ch.pick(3) {
        0 => Data { default: vec![top], named: vec![] },
        1 => Data { default: vec![], named: vec![(Some("x:g".into()), vec![top])] },
        _ => Data { default: vec![t], named: vec![] },
    };
    judge_tree(ch, &d)
}

fn tree_literals(ch: &mut Chooser) -> Report {
    const LEX: &[&str] = &["", "v", "true", "0", "1", "01", "+1", "-1", "1.0", "1.50", "0.1", "1E0", "1e2", "-1.5E-3", "INF", "NaN", "12345678901234567890", "300", "2020-01-01", "2020-01-01T00:00:00Z", "aGVsbG8=", "x:iri", "[1,{\"b\":1,\"a\":2}]", "en"];
    const TYPES: &[&str] = &[
        "string", "boolean", "integer", "double", "decimal", "float", "long", "int", "short", "byte", "unsignedLong", "unsignedInt", "unsignedShort", "unsignedByte", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger", "date", "dateTime", "anyURI", "base64Binary", "language", "token",
    ];
    let v = *ch.of(LEX);
    let l = match ch.pick(TYPES.len() + 3) {
        k if k < TYPES.len() => tree::xsd(v, TYPES[k], ch.pick(2) == 1),
        k if k == TYPES.len() => Tree::Lit(lit(v, &rdf("langString"), Some("en-US"))),
        k if k == TYPES.len() + 1 => Tree::Lit(lit(v, "x:t", None)),
        _ if !["true", "0", "1", "-1", "1.0", "[1,{\"b\":1,\"a\":2}]"].contains(&v) => return Report { steps: 0, class: 0, trivial: true, verdict: V::Ok },
        _ => {
            let mut l = lit(v, &rdf("JSON"), None);
            l.set("native", J::Bool(true));
            Tree::Lit(l)
        }
    };
    let t = Tree::Node(Some("x:s".into()), vec![Entry::Pred("x:p".into(), vec![l])]);
    judge_tree(ch, &Data { default: vec![t], named: vec![] })
}

/// Documents, which are linked data too.
fn documents(ch: &mut Chooser) -> Report {
    let case = Case::new(match ch.pick(3) {
        0 => gen::fdoc(ch),
        1 => {
            let mut v = J::obj();
            v.set("@value", ch.of(&gen::a_rdf_lex()).clone());
            match ch.pick(gen::RDF_TYPES.len() + gen::RDF_LANGS.len()) {
                0 => {}
                k if k < gen::RDF_TYPES.len() => v.set("@type", J::s(gen::RDF_TYPES[k])),
                k => v.set("@language", J::s(gen::RDF_LANGS[k - gen::RDF_TYPES.len()])),
            }
            // Ill-formed language tags have no RDF form; the lexical form of a number whose type is not
            // numeric is its JSON form; a fractional number is not an integer.
            let whole = matches!(v.get("@value"), Some(J::Num(n)) if n.parse::<f64>().is_ok_and(|n| n.fract() == 0.0 && n.abs() < 1e21));
            let unknown = |t: &J| {
                t.as_str().is_some_and(|t| match t.strip_prefix(XSD) {
                    Some("double") => false,
                    Some("integer") => !whole,
                    _ => t != "@json",
                })
            };
            if v.get("@language").and_then(|l| l.as_str()).is_some_and(|l| !well_formed_lang(l)) || matches!(v.get("@value"), Some(J::Num(_))) && v.get("@type").is_some_and(unknown) {
                return Report { steps: 0, class: 0, trivial: true, verdict: V::Ok };
            }
            let p = if ch.pick(2) == 0 { v } else { J::o(&[("@list", J::Arr(vec![v]))]) };
            J::Arr(vec![J::o(&[("@id", J::s("x:s")), ("x:p", p)])])
        }
        _ => gen::nest(ch, 2),
    });
    ch.describe(|| format!("doc={:?}", case.doc));
    let mut steps = 0;
    let Ok((doc, got)) = imp::reserialize(&case) else {
        return Report { steps, class: 0, trivial: true, verdict: V::Ok };
    };
    let class = hash(&format!("{got:?}"));
    let verdict = match got {
        // Blank node properties may be refused.
        Err(_) if format!("{doc:?}").contains("\"_:p") => V::Ok,
        Err(e) => V::Bad(format!("error {e}")),
        Ok(d) => {
            let want = dataset_of(&doc, &mut steps);
            let back = dataset_of(&d, &mut steps);
            if back == want {
                V::Ok
            } else {
                V::Bad(format!("serialized as: {d:?}\nwhich is: {back:?}\ninstead of: {want:?}"))
            }
        }
    };
    Report { steps, class, trivial: false, verdict }
}

pub fn prop(thorough: bool) -> Prop {
    let t = thorough as usize;
    Prop {
        id: "C15",
        level: "model_checking",
        rule: "every set of quads over an alphabet of subjects, properties, objects and graphs; every list of a few nodes under a few modifications; every literal of a product of lexical forms and datatypes",
        assumptions: &[],
        families: vec![
            family("sets", 0, move |ch| sets(ch, 2 + t, &["", "x:g", "_:a"], &["x:s", "_:a", "_:b"])),
            family("sets of one graph", 0, move |ch| sets(ch, 3 + t, &[""], &["x:s", "_:a", "_:b"])),
            family("lists", 1 + t as u32, move |ch| list_shapes(ch, 2)),
            family("literals", 0, literals),
            family("values", 3 + t as u32, trees),
            family("lists of values", 2 + t as u32, tree_lists),
            family("literals of values", 0, tree_literals),
            family("documents", 2 + t as u32, documents),
        ],
    }
}
