//! Generators: alphabets and grammars whose choices are driven by the explorer.
use crate::choose::Chooser;
use crate::json::{j, J};
use crate::refm::Remote;
use std::collections::BTreeMap;

pub const BASE: &str = "http://b.org/d/doc";

/// Parses a `;;`-separated list of JSON texts (single quotes allowed).
pub fn list(s: &str) -> Vec<J> {
    s.split(";;").map(|x| j(x.trim())).collect()
}

#[macro_export]
macro_rules! alphabet {
    ($name:ident, $text:expr) => {
        pub fn $name() -> &'static [J] {
            static X: std::sync::OnceLock<Vec<$crate::json::J>> = std::sync::OnceLock::new();
            X.get_or_init(|| $crate::gen::list($text))
        }
    };
}

/// Deviation: the entry is absent by default.
pub fn opt(ch: &mut Chooser, o: &mut J, key: &str, alts: &[J]) {
    let i = ch.alt(alts.len() + 1);
    if i > 0 {
        if let J::Obj(e) = o {
            e.push((key.to_string(), alts[i - 1].clone()))
        }
    }
}

/// Entry whose default is `default`; index 1 removes it.
pub fn ent(ch: &mut Chooser, o: &mut J, key: &str, default: J, alts: &[J]) {
    let i = ch.alt(alts.len() + 2);
    let v = match i {
        0 => default,
        1 => return,
        i => alts[i - 2].clone(),
    };
    if let J::Obj(e) = o {
        e.push((key.to_string(), v))
    }
}

alphabet!(a_version, "1.1;;1.0;;'1.1';;2;;null;;1.10");
alphabet!(a_base, "null;;'http://c.org/x/y';;'rel/';;'';;'#f';;'../..';;5;;'//h/';;'a b';;'http://c.org/%'");
alphabet!(a_vocab, "'http://v.org/';;'';;'rel#';;null;;'p:';;'a';;'_:b';;5;;'@id';;'@foo';;'http://v.org/#';;'p:x/';;'u_p:x/'");
alphabet!(a_language, "'en';;'EN-us';;null;;5;;'';;'x y'");
alphabet!(a_direction, "'ltr';;'rtl';;null;;'up';;5");
alphabet!(a_bool, "true;;false;;'x';;null");
alphabet!(
    a_import,
    "'http://r.org/c';;'c';;5;;'http://r.org/missing';;'http://r.org/arr';;'http://r.org/nested';;'http://r.org/null';;'http://r.org/noctx';;'http://r.org/prot';;'http://r.org/prop';;'http://r.org/ver';;'http://r.org/badver';;'a b'"
);
alphabet!(
    a_simple,
    "'http://e.org/a2';;'p:a';;'b';;'a';;'@type';;'@id';;'@context';;'@graph';;'@foo';;'_:x';;'';;'rel';;'http://e.org/s/';;'http://e.org/s?';;'http://e.org/s#';;null;;5;;[];;true;;'@nest';;'@language';;'@none';;'a:x';;'x:y';;'b:c';;'//x';;'@index';;'@value';;'@json';;'@preserve';;'@reverse';;'@set';;'@version';;'a b';;'urn:x';;'p:';;'@';;'u_p:a';;'u_p:a b';;'http://e.org/a b';;'u_q:a'"
);
alphabet!(
    a_id,
    "null;;'p:x';;'b';;'a';;'@type';;'@id';;'@context';;'@foo';;'_:x';;'rel';;5;;'http://e.org/ns#';;'http://e.org/ns';;'@nest';;'';;'@graph';;'c:d';;'p';;'u_p:x';;'u_p:x y'"
);
alphabet!(a_reverse, "'http://e.org/r';;'p:r';;'b';;'@foo';;null;;5;;'rel';;'@id';;'_:r';;'@type';;'u_p:r'");
alphabet!(
    a_type,
    "'@id';;'@vocab';;'@json';;'@none';;'http://e.org/T';;'p:T';;'b';;'T';;'@foo';;null;;5;;'_:t';;'@value';;'@set';;'a';;'';;'u_p:T'"
);
alphabet!(
    a_container,
    "'@set';;'@list';;'@index';;'@language';;'@id';;'@type';;'@graph';;['@set','@index'];;['@graph','@id'];;['@graph','@index','@set'];;['@index','@graph'];;['@list','@set'];;['@id','@type'];;['@graph','@language'];;[];;null;;5;;'@foo';;['@set'];;['@set','@set'];;['@language','@set'];;['@type','@set'];;['@id','@set'];;['@set','@graph','@id'];;['@graph','@set'];;['@id','@index'];;['@graph','@id','@index'];;['@index','@type'];;['@list'];;['@graph','@list'];;['@graph','@type'];;['@none'];;'@none'"
);
alphabet!(a_tlanguage, "'en';;'EN';;null;;5;;'';;'x y'");
alphabet!(a_tdirection, "'ltr';;'rtl';;null;;'up';;5");
alphabet!(a_nest, "'@nest';;'b';;'n';;'@id';;'@foo';;5;;null;;''");
alphabet!(a_prefix, "true;;false;;5;;null");
alphabet!(
    a_index,
    "'b';;'http://e.org/i';;'p:i';;'@index';;'@type';;'@foo';;'rel';;5;;'a';;'_:i';;'u_p:i'"
);
alphabet!(
    a_tcontext,
    "{};;null;;{'b':'http://e.org/b2'};;'http://r.org/c';;{'a':'http://e.org/a3'};;{'@vocab':'http://v2.org/'};;{'c':5};;[{'b':'http://e.org/b3'},null];;'http://r.org/missing';;{'@version':1.1};;{'@propagate':false,'b':'http://e.org/b4'};;{'@protected':true,'b':'http://e.org/b5'};;[];;'http://r.org/scoped';;5;;{'@base':'http://s.org/'}"
);
alphabet!(a_x, "'x'");

/// Term definition: free choice between the string and the expanded form.
pub fn term_def(ch: &mut Chooser, default: &str, present: bool) -> Option<J> {
    if !present && ch.dev(2) == 0 {
        return None;
    }
    if ch.pick(2) == 0 {
        let i = ch.dev(a_simple().len() + 1);
        return Some(if i == 0 { J::s(default) } else { a_simple()[i - 1].clone() });
    }
    let mut d = J::obj();
    ent(ch, &mut d, "@id", J::s(default), a_id());
    opt(ch, &mut d, "@type", a_type());
    opt(ch, &mut d, "@container", a_container());
    opt(ch, &mut d, "@reverse", a_reverse());
    opt(ch, &mut d, "@language", a_tlanguage());
    opt(ch, &mut d, "@direction", a_tdirection());
    opt(ch, &mut d, "@nest", a_nest());
    opt(ch, &mut d, "@prefix", a_prefix());
    opt(ch, &mut d, "@protected", a_bool());
    opt(ch, &mut d, "@index", a_index());
    opt(ch, &mut d, "@context", a_tcontext());
    opt(ch, &mut d, "@foo", a_x());
    opt(ch, &mut d, "foo", a_x());
    Some(d)
}

alphabet!(
    a_extra,
    "{'p:q':'http://e.org/p#q'};;{'p:q':'http://e.org/other'};;{'p:q':{'@type':'@id'}};;{'http://e.org/x':{'@type':'@id'}};;{'http://e.org/x':'http://e.org/y'};;{'a/b':'http://e.org/ab'};;{'a/b':{'@type':'@id'}};;{'@type':{'@container':'@set'}};;{'@type':{'@protected':true}};;{'@type':{'@container':'@set','@protected':true}};;{'@type':{'@container':'@list'}};;{'@type':{}};;{'@type':'x'};;{'@type':{'@id':'@type','@container':'@set'}};;{'@foo':'http://e.org/f'};;{'':'http://e.org/f'};;{':x':'http://e.org/f'};;{'x:':'http://e.org/f'};;{'_:t':'http://e.org/f'};;{'_:t':{'@id':'_:t'}};;{'@id':'http://e.org/f'};;{'@context':{}};;{'rel':{'@type':'@id'}};;{'@vocab2':'x'};;{'c':{'@id':'c'}};;{'p:q':null};;{'http://e.org/x':null};;{'urn:x':{'@type':'@vocab'}};;{'@language2':'x'};;{'@':'http://e.org/at'};;{'q:r':{'@id':'p:r'}};;{'x//y':{}};;{'b:c':{'@type':'@id'}};;{'@set':'http://e.org/f'};;{'@none':'x'};;{'a b':'http://e.org/f'};;{'u_p:q':'http://e.org/u#q'};;{'u_p:q':'http://e.org/other'};;{'u_p:q':{'@type':'@id'}};;{'u_p:q r':'http://e.org/u#q'}"
);

pub fn gen_ctx(ch: &mut Chooser) -> J {
    let mut c = J::obj();
    opt(ch, &mut c, "@version", a_version());
    opt(ch, &mut c, "@base", a_base());
    opt(ch, &mut c, "@vocab", a_vocab());
    opt(ch, &mut c, "@language", a_language());
    opt(ch, &mut c, "@direction", a_direction());
    opt(ch, &mut c, "@propagate", a_bool());
    opt(ch, &mut c, "@protected", a_bool());
    opt(ch, &mut c, "@import", a_import());
    let mut terms: Vec<(String, J)> = vec![];
    if let Some(d) = term_def(ch, "http://e.org/a", true) {
        terms.push(("a".into(), d))
    }
    if let Some(d) = term_def(ch, "http://e.org/b", false) {
        terms.push(("b".into(), d))
    }
    let i = ch.dev(4);
    let p = match i {
        0 => Some(J::s("http://e.org/p#")),
        1 => None,
        2 => Some(j("{'@id':'http://e.org/pp','@prefix':true}")),
        _ => Some(j("{'@id':'http://e.org/pp'}")),
    };
    if let Some(p) = p {
        terms.push(("p".into(), p))
    }
    // a prefix that is no valid scheme
    terms.push(("u_p".into(), J::s("http://e.org/u#")));
    let i = ch.dev(a_extra().len() + 1);
    if i > 0 {
        terms.extend(a_extra()[i - 1].as_obj().unwrap().iter().cloned())
    }
    if ch.dev(2) == 1 {
        terms.reverse()
    }
    if let J::Obj(o) = &mut c {
        o.extend(terms)
    }
    c
}

/// Remote documents available to every family.
pub fn remotes() -> BTreeMap<String, Remote> {
    let mut m = BTreeMap::new();
    for (u, d) in [
        ("http://r.org/c", "{'@context':{'b':'http://e.org/rb','rt':'http://e.org/rt'}}"),
        ("http://b.org/d/c", "{'@context':{'rel':'http://e.org/relc'}}"),
        ("http://r.org/arr", "{'@context':[{'b':'http://e.org/rb'}]}"),
        ("http://r.org/nested", "{'@context':{'@import':'http://r.org/c'}}"),
        ("http://r.org/null", "{'@context':null}"),
        ("http://r.org/noctx", "{'a':'http://e.org/rb'}"),
        ("http://r.org/prot", "{'@context':{'@protected':true,'b':'http://e.org/rb','a':'http://e.org/ra'}}"),
        ("http://r.org/prop", "{'@context':{'@propagate':false,'b':'http://e.org/rb'}}"),
        ("http://r.org/ver", "{'@context':{'@version':1.1,'@vocab':'http://rv.org/','@base':'http://rb.org/','@language':'fr','@direction':'rtl'}}"),
        ("http://r.org/badver", "{'@context':{'@version':1.0}}"),
        ("http://r.org/scoped", "{'@context':{'s':{'@id':'http://e.org/s','@context':'c'}}}"),
        ("http://r.org/loop", "{'@context':['http://r.org/loop2',{'l1':'http://e.org/l1'}]}"),
        ("http://r.org/loop2", "{'@context':['http://r.org/loop',{'l2':'http://e.org/l2'}]}"),
        ("http://r.org/self", "{'@context':{'se':{'@id':'http://e.org/se','@context':'http://r.org/self'}}}"),
        ("http://r.org/string", "{'@context':'c'}"),
        ("http://r.org/notobj", "['x']"),
        ("http://r.org/bad", "{'@context':{'x':5}}"),
        ("http://r.org/base", "{'@context':{'@base':'http://rb.org/'}}"),
    ] {
        m.insert(u.to_string(), Remote::Doc(j(d)));
    }
    let rel = j("{'@context':['c',{'mv':{'@id':'http://e.org/mv','@context':'c'}}]}");
    m.insert("http://r.org/moved".into(), Remote::At("http://b.org/d/to".into(), rel.clone()));
    m.insert("http://r.org/anon".into(), Remote::Anonymous(rel));
    m
}

// ---------------------------------------------------------------- documents

// Definitions given to term `a`, the property under study: every kind of coercion and container.
alphabet!(
    defs,
    "'http://e.org/a';;{'@id':'http://e.org/a','@type':'@id'};;{'@id':'http://e.org/a','@type':'@vocab'};;{'@id':'http://e.org/a','@type':'@json'};;{'@id':'http://e.org/a','@type':'@none'};;{'@id':'http://e.org/a','@type':'http://e.org/D'};;{'@id':'http://e.org/a','@language':'en'};;{'@id':'http://e.org/a','@language':null};;{'@id':'http://e.org/a','@direction':'rtl'};;{'@id':'http://e.org/a','@language':'en','@direction':'ltr'};;{'@id':'http://e.org/a','@direction':null};;{'@id':'http://e.org/a','@container':'@list'};;{'@id':'http://e.org/a','@container':'@list','@type':'@id'};;{'@id':'http://e.org/a','@container':'@list','@language':'en'};;{'@id':'http://e.org/a','@container':'@set'};;{'@id':'http://e.org/a','@container':'@set','@type':'@id'};;{'@id':'http://e.org/a','@container':'@index'};;{'@id':'http://e.org/a','@container':['@index','@set']};;{'@id':'http://e.org/a','@container':'@index','@type':'@id'};;{'@id':'http://e.org/a','@container':'@index','@index':'http://e.org/i'};;{'@id':'http://e.org/a','@container':'@index','@index':'b'};;{'@id':'http://e.org/a','@container':'@index','@index':'http://e.org/b'};;{'@id':'http://e.org/a','@container':['@set','@index'],'@index':'b','@type':'@id'};;{'@id':'http://e.org/a','@container':'@language'};;{'@id':'http://e.org/a','@container':['@language','@set']};;{'@id':'http://e.org/a','@container':'@language','@direction':'rtl'};;{'@id':'http://e.org/a','@container':'@id'};;{'@id':'http://e.org/a','@container':['@id','@set']};;{'@id':'http://e.org/a','@container':'@type'};;{'@id':'http://e.org/a','@container':['@type','@set']};;{'@id':'http://e.org/a','@container':'@type','@type':'@vocab'};;{'@id':'http://e.org/a','@container':'@graph'};;{'@id':'http://e.org/a','@container':['@graph','@set']};;{'@id':'http://e.org/a','@container':['@graph','@index']};;{'@id':'http://e.org/a','@container':['@graph','@id']};;{'@id':'http://e.org/a','@container':['@graph','@id','@set']};;{'@id':'http://e.org/a','@container':['@graph','@set','@index']};;{'@id':'http://e.org/a','@container':['@graph','@index'],'@index':'b'};;{'@reverse':'http://e.org/a'};;{'@reverse':'http://e.org/a','@container':'@index'};;{'@reverse':'http://e.org/a','@container':'@set','@type':'@id'};;{'@id':'http://e.org/a','@nest':'n'};;{'@id':'http://e.org/a','@nest':'@nest','@container':'@list'};;{'@id':'http://e.org/a','@context':{'b':'http://e.org/pb'}};;{'@id':'http://e.org/a','@context':null};;{'@id':'http://e.org/a','@context':{'@vocab':'http://pv.org/','b':null}};;{'@id':'http://e.org/a','@context':{'@propagate':false,'b':'http://e.org/pb'}};;{'@id':'http://e.org/a','@context':{'@language':'fr','a':{'@id':'http://e.org/a','@type':'@id'}}};;{'@id':'http://e.org/a','@container':'@index','@context':{'b':'http://e.org/pb','b3':{'@id':'http://e.org/b3','@type':'@id'}}};;{'@id':'http://e.org/a','@container':'@list','@context':{'@base':'http://s.org/'},'@type':'@id'};;{'@id':'http://e.org/a','@type':'@json','@container':'@set'};;{'@id':'http://e.org/a','@type':'@json','@container':'@list'};;{'@id':'http://e.org/a','@type':'@json','@container':'@index'};;{'@id':'http://e.org/a','@context':'http://r.org/c'};;null;;'@type';;'@id';;{'@id':'@type','@container':'@set'};;'@graph';;'@nest';;'http://e.org/b';;{'@id':'_:a'};;'@set';;'@list';;'@reverse';;'@included';;{'@id':'http://e.org/a','@container':'@type','@context':{'T':{'@id':'http://e.org/TT','@context':{'b':'http://e.org/ttb'}}}}"
);

// Additions to the context, one per deviation.
alphabet!(
    extras,
    "{'@vocab':'http://v.org/'};;{'@vocab':''};;{'@language':'en'};;{'@direction':'rtl'};;{'@language':'EN-us','@direction':'ltr'};;{'@base':'http://c.org/z/'};;{'@base':null};;{'b':{'@id':'http://e.org/b','@type':'@id'}};;{'b':{'@id':'http://e.org/b','@container':'@set'}};;{'b':{'@reverse':'http://e.org/b'}};;{'b':{'@id':'http://e.org/b','@container':'@list'}};;{'b':{'@id':'http://e.org/b','@type':'@json'}};;{'b':{'@id':'http://e.org/b','@nest':'n'}};;{'T':{'@id':'http://e.org/T','@context':{'b':'http://e.org/tb'}}};;{'T':{'@id':'http://e.org/T','@context':{'@propagate':true,'b':'http://e.org/tb'}}};;{'T':{'@id':'http://e.org/T','@context':{'a':{'@id':'http://e.org/ta','@type':'@id'}}},'U':{'@id':'http://e.org/U','@context':{'a':'http://e.org/ua'}}};;{'T':{'@id':'http://e.org/T','@context':{'T':null,'@vocab':'http://tv.org/'}}};;{'T':{'@id':'http://e.org/T','@context':null}};;{'T':{'@id':'http://e.org/T','@context':{'type':'@type','U':'http://e.org/UU'}}};;{'T':{'@id':'http://e.org/T','@context':{'@base':'http://tb.org/'}}};;{'id':'@id','type':'@type'};;{'value':'@value','lang':'@language','dir':'@direction','idx':'@index'};;{'graph':'@graph','inc':'@included'};;{'none':'@none'};;{'n':'@nest'};;{'rev':'@reverse'};;{'list':'@list','set':'@set'};;{'@type':{'@container':'@set'}};;{'@version':1.1};;{'@protected':true};;{'en':'@none'};;{'k':'http://e.org/kk','x':'http://e.org/xx'};;{'id':'@id','n':'@nest'};;{'T':'http://e.org/T','U':'T'};;{'@propagate':false}"
);

pub fn doc_ctx(ch: &mut Chooser) -> J {
    let d = ch.of(defs()).clone();
    let mut c = J::o(&[
        ("a", d),
        ("b", J::s("http://e.org/b")),
        ("p", J::s("http://e.org/p#")),
        ("u_p", J::s("http://e.org/u#")),
    ]);
    let i = ch.alt(extras().len() + 1);
    if i > 0 {
        for (k, v) in extras()[i - 1].as_obj().unwrap() {
            c.set(k, v.clone())
        }
        let i = ch.alt(extras().len() + 1);
        if i > 0 {
            for (k, v) in extras()[i - 1].as_obj().unwrap() {
                c.set(k, v.clone())
            }
        }
    }
    c
}

alphabet!(a_did, "'_:b';;'rel';;'p:x';;'';;'#f';;'a';;'@foo';;null;;5;;'http://e.org/o';;'_:';;'x:y';;'urn:u';;'u_p:x';;'http://e.org/a b';;'_:a b'");
alphabet!(
    a_dtype,
    "'T';;['T','U'];;['U','T'];;'p:T';;'_:t';;'rel';;[];;null;;5;;['T',5];;'@json';;'@id';;'@foo';;['T','T'];;'http://e.org/T';;[null];;'u_p:T';;'u_p:T t'"
);
alphabet!(a_dindex, "'i';;5;;null;;'@none'");
alphabet!(
    a_scalar,
    "'http://e.org/o';;'rel';;'p:x';;'T';;'_:o';;'';;'a';;'@foo';;'@id';;5;;1.5;;true;;false;;null;;[];;['v','w'];;['v','v'];;['v',null,['w']];;[[]];;[[],['v']];;1.0;;1e30;;-0;;'en';;[true,'p:x',5];;'u_p:x'"
);
alphabet!(
    a_valobj,
    "{'@value':'v'};;{'@value':'v','@type':'http://e.org/D'};;{'@value':'v','@language':'en'};;{'@value':'v','@language':'EN'};;{'@value':'v','@direction':'rtl'};;{'@value':'v','@language':'en','@direction':'rtl'};;{'@value':'v','@index':'i'};;{'@value':5};;{'@value':true,'@type':'p:D'};;{'@value':null};;{'@value':null,'@type':'@json'};;{'@value':{'x':[1,null]},'@type':'@json'};;{'@value':['v'],'@type':'@json'};;{'@value':'v','@type':'@json'};;{'@value':['v']};;{'@value':{}};;{'@value':5,'@language':'en'};;{'@value':'v','@language':'en','@type':'http://e.org/D'};;{'@value':'v','@type':null};;{'@value':'v','@type':'rel'};;{'@value':'v','@type':'_:d'};;{'@value':'v','@type':['http://e.org/D']};;{'@value':'v','@type':[]};;{'@value':'v','@language':null};;{'@value':'v','@language':5};;{'@value':'v','@direction':'up'};;{'@value':'v','@id':'x:y'};;{'@value':'v','http://e.org/x':'y'};;{'@language':'en'};;{'@index':'i'};;{'@type':'T'};;{};;{'@id':'http://e.org/o','@index':'i'};;{'@id':'http://e.org/o'};;{'@id':'_:o'};;{'@list':[]};;{'@list':['v','w'],'@index':'i'};;{'@list':[['v'],[]]};;{'@list':[{'@list':['v']}]};;{'@list':'v','@id':'x:y'};;{'@list':null};;{'@list':[null]};;{'@set':[]};;{'@set':['v','w'],'@index':'i'};;{'@set':'v','@id':'x:y'};;{'@set':null};;{'@set':[{'@set':['v']}]};;{'@graph':[]};;{'@graph':[{'@id':'http://e.org/g','http://e.org/x':'v'}]};;{'@graph':[{'@id':'http://e.org/g','b':'v'}],'@id':'http://e.org/n'};;{'@graph':[{'b':'v'}],'@index':'i'};;{'@graph':'v'};;{'@graph':[{'@id':'http://e.org/g'}]};;{'en':'v','fr':['w',null]};;{'@none':'v'};;{'en':{'@value':'v'}};;{'k':{'b':'v'}};;{'k':[{'@id':'http://e.org/o'},'v']};;{'@none':{'b':'v'}};;{'none':{'b':'v'}};;{'http://e.org/k':{'b':'v'},'rel':{'@type':'T'}};;{'T':{'b':'v'}};;{'T':'p:x'};;{'T':{'@type':'U','b':'v'}};;{'_:k':{'b':'v','@id':'http://e.org/o'}};;{'k':{'@index':'j','b':'v'}};;{'k':{'@graph':[{'b':'v'}]}};;{'k':{'@graph':[{'b':'v'}],'b':'w'}};;{'k':null,'x':[]};;{'k':{'b':'v','@id':'http://e.org/o'},'x':{'@id':'http://e.org/o','b':'w'}};;{'@context':{'b':'http://e.org/nb'},'b':'v'};;{'@context':null,'b':'v','http://e.org/x':'y'};;{'@context':{'b':null,'a':'http://e.org/na'},'b':'v','a':'w'};;{'@context':'http://r.org/c','b':'v'};;{'@type':'T','b':'v','a':'w'};;{'@type':'T','b':{'b':'w'}};;{'@type':['T','U'],'a':'rel'};;{'@id':'p:x','a':'v','b':'w'};;{'b':{'b':{'b':'v'}}};;{'@context':{'@propagate':false,'b':'http://e.org/nb'},'b':{'b':'v'}};;{'@reverse':{'b':{'@id':'http://e.org/o','a':'v'}}};;{'type':'T','b':'v'};;{'value':'v','lang':'en'};;{'idx':'i','value':5,'dir':'rtl'};;{'@id':'http://e.org/o','b':'v','@included':{'@id':'http://e.org/i','b':'w'}};;{'k':{'@value':'v','@index':'j'}};;{'k':['v',{'@list':['w']}]};;{'@value':'v','value':'w'};;{'list':['v']};;{'set':'v'};;{'@type':'@json','@value':{}};;{'@type':['@json'],'@value':[1]};;{'k':5};;{'k':true};;{'@language':'en','@value':'v','@index':5};;{'@context':[],'@value':'v'};;{'@context':{'@language':'de'},'@value':'v'};;{'@context':{'@version':1.1,'D':'http://e.org/D'},'@value':'v','@type':'D'};;{'@nest':{'b':'v'}};;{'n':[{'b':'v'},{'a':'w'}]}"
);
alphabet!(
    a_key,
    "'b';;'p:q';;'http://e.org/x';;'rel';;'x:y';;'_:p';;'@graph';;'@included';;'@reverse';;'@nest';;'n';;'id';;'type';;'@list';;'@set';;'@value';;'@language';;'@direction';;'@foo';;'@index';;'graph';;'inc';;'rev';;'@none';;'@json';;'';;'@type';;'@id';;'@vocab';;'p:';;'p';;':x';;'value';;'http://e.org/a';;'u_p:q';;'u_p:q r';;'http://e.org/a b';;'u_q:q'"
);
// Whole property entries tried next to the default one.
alphabet!(
    a_second,
    "{'b':'w'};;{'b':{'@id':'http://e.org/o','b':'w'}};;{'http://e.org/a':'w'};;{'http://e.org/a':{'@list':['w']}};;{'@reverse':{'b':{'@id':'http://e.org/o'}}};;{'@reverse':{'b':'v'}};;{'@reverse':{'@id':'x:y'}};;{'@reverse':'v'};;{'@reverse':{'a':{'@id':'http://e.org/o','b':'v'},'b':[{'@id':'_:r'},{'a':'w'}]}};;{'@reverse':{'@reverse':{'b':'v'}}};;{'rev':{'b':{'@id':'http://e.org/o'}}};;{'@nest':{'a':'w'}};;{'@nest':[{'a':'w'},{'b':'v','@id':'http://e.org/o'}]};;{'@nest':{'@nest':{'b':'v'}}};;{'@nest':'v'};;{'@nest':{'@value':'v'}};;{'@nest':[]};;{'n':{'a':'w'}};;{'n':{'value':'w'}};;{'n':{'a':'w','n':{'b':'v'}}};;{'@included':{'@id':'http://e.org/i','b':'w'}};;{'@included':[{'b':'w'},{'@type':'T'}]};;{'@included':'v'};;{'@included':{'@value':'v'}};;{'@included':{'@list':[]}};;{'@included':[]};;{'@included':{'@id':'http://e.org/i'}};;{'@included':null};;{'inc':{'@id':'http://e.org/i','a':'w'},'@included':{'b':'v'}};;{'@graph':[{'@id':'http://e.org/g','a':'w'}]};;{'@graph':[]};;{'@graph':'v'};;{'@graph':null};;{'@graph':{'@id':'http://e.org/g'}};;{'@graph':[{'@graph':[{'b':'v'}],'@id':'_:g'}]};;{'@graph':[{'@value':'v'},{'@id':'_:x','@type':'T'}]};;{'@type':'U','type':'T'};;{'id':'http://e.org/o'};;{'type':'T'};;{'type':['T'],'b':'w'};;{'@set':'v'};;{'@list':['v']};;{'@value':'v'};;{'@language':'en'};;{'@foo':'v'};;{'@index':'i','idx':'j'};;{'rel':'v'};;{'x:y':['v']};;{'_:p':'v'};;{'p:q':null};;{'@context':'http://r.org/c','rt':'v','b':'w'}"
);

/// Value of a property; recursion costs one deviation per level.
pub fn value(ch: &mut Chooser, depth: u32) -> J {
    let (s, v) = (a_scalar().len(), a_valobj().len());
    let rec = if depth > 0 { 6 } else { 0 };
    let i = ch.alt(1 + s + v + rec);
    if i == 0 {
        return J::s("v");
    }
    if i <= s {
        return a_scalar()[i - 1].clone();
    }
    if i <= s + v {
        return a_valobj()[i - 1 - s].clone();
    }
    match i - 1 - s - v {
        0 => node(ch, depth - 1),
        1 => J::Arr(vec![value(ch, depth - 1), J::s("w")]),
        2 => J::o(&[("@list", J::Arr(vec![value(ch, depth - 1), J::s("w")]))]),
        3 => J::o(&[("@set", value(ch, depth - 1))]),
        4 => {
            let k = ["k", "@none", "en", "http://e.org/k", "T", "rel", "none"][ch.dev(7)];
            J::o(&[(k, value(ch, depth - 1))])
        }
        _ => J::o(&[("@graph", node(ch, depth - 1))]),
    }
}

/// Node object: identifier, types, index, one studied property and possibly another entry.
pub fn node(ch: &mut Chooser, depth: u32) -> J {
    let mut n = J::obj();
    ent(ch, &mut n, "@id", J::s("http://e.org/s"), a_did());
    opt(ch, &mut n, "@type", a_dtype());
    opt(ch, &mut n, "@index", a_dindex());
    let i = ch.alt(a_key().len() + 2);
    let k = match i {
        0 => Some("a".to_string()),
        1 => None,
        i => Some(a_key()[i - 2].as_str().unwrap().to_string()),
    };
    if let Some(k) = k {
        let v = value(ch, depth);
        if !n.has(&k) {
            n.set(&k, v)
        }
    }
    let i = ch.alt(a_second().len() + 1);
    if i > 0 {
        for (k, v) in a_second()[i - 1].as_obj().unwrap() {
            if !n.has(k) {
                n.set(k, v.clone())
            }
        }
    }
    n
}

/// A whole document with its context.
pub fn doc(ch: &mut Chooser, depth: u32) -> J {
    let c = doc_ctx(ch);
    match ch.dev(9) {
        0 => {
            let mut d = J::o(&[("@context", c)]);
            if let J::Obj(n) = node(ch, depth) {
                for (k, v) in n {
                    if !d.has(&k) {
                        d.set(&k, v)
                    }
                }
            }
            d
        }
        1 => J::o(&[("@context", c), ("@graph", J::Arr(vec![node(ch, depth)]))]),
        2 => J::o(&[("@context", c), ("@graph", J::Arr(vec![node(ch, depth), J::o(&[("@id", J::s("http://e.org/s")), ("b", J::s("w"))])]))]),
        3 => {
            let mut d = node(ch, depth);
            d.set("@context", J::Arr(vec![c, j("{'b':'http://e.org/later'}")]));
            d
        }
        4 => {
            let mut d = node(ch, depth);
            d.set("@context", c);
            J::Arr(vec![d, j("{'@id':'http://e.org/s','http://e.org/x':'y'}")])
        }
        5 => J::Arr(vec![value(ch, 0)]),
        6 => value(ch, 0),
        7 => J::o(&[("@context", c), ("@id", J::s("http://e.org/g")), ("@graph", J::Arr(vec![node(ch, depth)]))]),
        _ => J::o(&[("@graph", node(ch, depth)), ("@context", c)]),
    }
}

// ---------------------------------------------------------------- expanded documents (compaction)

alphabet!(
    a_cval,
    "{'@value':'v'};;{'@value':'v','@index':'i'};;{'@value':'v','@type':'http://e.org/D'};;{'@value':'v','@type':'http://e.org/D','@index':'i'};;{'@value':'v','@language':'en'};;{'@value':'v','@language':'EN'};;{'@value':'v','@language':'fr'};;{'@value':'v','@language':'en','@index':'i'};;{'@value':'v','@direction':'rtl'};;{'@value':'v','@language':'en','@direction':'ltr'};;{'@value':'v','@language':'en','@direction':'rtl'};;{'@value':'v','@direction':'rtl','@index':'i'};;{'@value':5};;{'@value':5,'@index':'i'};;{'@value':5,'@type':'http://e.org/D'};;{'@value':true};;{'@value':{'x':[1,null]},'@type':'@json'};;{'@value':null,'@type':'@json'};;{'@value':'v','@type':'@json'};;{'@value':[1,2],'@type':'@json'};;{'@value':[],'@type':'@json','@index':'i'};;{'@id':'http://e.org/o'};;{'@id':'_:o'};;{'@id':'http://b.org/d/rel'};;{'@id':'http://b.org/d/doc'};;{'@id':'http://e.org/T'};;{'@id':'http://e.org/p#x'};;{'@id':'http://v.org/x'};;{'@id':'http://e.org/o','@index':'i'};;{'@type':['http://e.org/T']};;{'@id':'http://e.org/o','@type':['http://e.org/T']};;{'@id':'http://e.org/o','@type':['http://e.org/T','http://e.org/U']};;{'@type':['http://e.org/T'],'http://e.org/b':[{'@value':'w'}]};;{'@type':['http://e.org/U'],'http://e.org/b':[{'@id':'http://e.org/T'}],'http://e.org/a':[{'@value':'w'}]};;{};;{'@index':'i'};;{'http://e.org/b':[{'@value':'w'}]};;{'http://e.org/b':[{'@value':'w'},{'@value':'x'}]};;{'http://e.org/b':[{'@id':'http://e.org/k'}]};;{'http://e.org/b':[{'@id':'http://e.org/k'},{'@value':'w'}]};;{'@id':'http://e.org/o','http://e.org/b':[{'@value':'w'}]};;{'@index':'i','http://e.org/b':[{'@value':'w'}]};;{'http://e.org/i':[{'@value':'k'}],'http://e.org/b':[{'@value':'w'}]};;{'http://e.org/b':[{'http://e.org/b':[{'@value':'w'}]}]};;{'@list':[]};;{'@list':[{'@value':'v'}]};;{'@list':[{'@value':'v'},{'@value':'w'}]};;{'@list':[{'@value':'v','@language':'en'}]};;{'@list':[{'@value':'v','@language':'en'},{'@value':'w','@language':'EN'}]};;{'@list':[{'@value':'v','@language':'en'},{'@value':'w'}]};;{'@list':[{'@value':'v','@language':'en'},{'@value':'w','@language':'fr'}]};;{'@list':[{'@value':'v','@direction':'rtl'}]};;{'@list':[{'@value':'v','@type':'http://e.org/D'}]};;{'@list':[{'@value':'v','@type':'http://e.org/D'},{'@value':'w'}]};;{'@list':[{'@id':'http://e.org/o'}]};;{'@list':[{'@id':'http://e.org/o'},{'@id':'http://b.org/d/rel'}]};;{'@list':[{'@id':'http://e.org/o'},{'@value':'v'}]};;{'@list':[{'@value':5},{'@value':true}]};;{'@list':[{'@value':[1],'@type':'@json'}]};;{'@list':[{'@list':[]}]};;{'@list':[{'@list':[{'@value':'v'}]},{'@list':[{'@value':'w'}]}]};;{'@list':[{'http://e.org/b':[{'@value':'w'}]}]};;{'@list':[{'@type':['http://e.org/T'],'http://e.org/b':[{'@value':'w'}]}]};;{'@list':[{'@value':'v'}],'@index':'i'};;{'@graph':[]};;{'@graph':[{'http://e.org/b':[{'@value':'w'}]}]};;{'@graph':[{'http://e.org/b':[{'@value':'w'}]},{'@id':'http://e.org/o','http://e.org/b':[{'@value':'x'}]}]};;{'@graph':[{'http://e.org/b':[{'@value':'w'}]}],'@id':'http://e.org/g'};;{'@graph':[{'http://e.org/b':[{'@value':'w'}]}],'@index':'i'};;{'@graph':[{'http://e.org/b':[{'@value':'w'}]}],'@id':'http://e.org/g','@index':'i'};;{'@graph':[{'http://e.org/b':[{'@value':'w'}]},{'http://e.org/b':[{'@value':'x'}]}],'@index':'i'};;{'@graph':[{'http://e.org/b':[{'@value':'w'}]}],'http://e.org/b':[{'@value':'x'}]};;{'@graph':[{'http://e.org/b':[{'@value':'w'}]}],'@id':'_:g'};;{'@id':'http://e.org/o','@included':[{'http://e.org/b':[{'@value':'w'}]}]};;{'@reverse':{'http://e.org/b':[{'@id':'http://e.org/o'}]}};;{'@graph':[{'@type':['http://e.org/T'],'http://e.org/b':[{'@value':'w'}]}]};;{'@type':['http://e.org/T'],'http://e.org/b':[{'http://e.org/b':[{'@value':'w'}]}]};;{'@type':['http://e.org/T'],'http://e.org/b':[{'@type':['http://e.org/T'],'http://e.org/b':[{'@value':'w'}]}]};;{'@id':'p:x'};;{'@id':'http://b.org/d/doc#f'};;{'@id':'http://b.org/x/y'};;{'@id':'http://e.org/b'};;{'@graph':[{'@id':'http://e.org/o','@graph':[{'http://e.org/b':[{'@value':'w'}]}]}]};;{'@value':'v','@type':'http://v.org/D'};;{'@list':[{'@value':'v','@index':'i'}]};;{'@list':[{'@value':'v','@language':'en','@direction':'ltr'},{'@value':'w','@language':'en','@direction':'ltr'}]};;{'@list':[{'@id':'_:o'},{'@type':['http://e.org/T']}]}"
);

// A second term that competes for the studied property, or another whole definition.
alphabet!(
    a_compete,
    "{'a2':{'@id':'http://e.org/a','@type':'@id'}};;{'a2':{'@id':'http://e.org/a','@language':'en'}};;{'a2':{'@id':'http://e.org/a','@language':null}};;{'a2':{'@id':'http://e.org/a','@type':'http://e.org/D'}};;{'a2':{'@id':'http://e.org/a','@type':'@vocab'}};;{'a2':{'@id':'http://e.org/a','@type':'@json'}};;{'a2':{'@id':'http://e.org/a','@type':'@none'}};;{'a2':{'@id':'http://e.org/a','@direction':'rtl'}};;{'a2':{'@id':'http://e.org/a','@language':'en','@direction':'ltr'}};;{'a2':{'@id':'http://e.org/a','@container':'@list'}};;{'a2':{'@id':'http://e.org/a','@container':'@list','@language':'en'}};;{'a2':{'@id':'http://e.org/a','@container':'@list','@type':'@id'}};;{'a2':{'@id':'http://e.org/a','@container':'@set'}};;{'a2':{'@id':'http://e.org/a','@container':'@index'}};;{'a2':{'@id':'http://e.org/a','@container':['@index','@set']}};;{'a2':{'@id':'http://e.org/a','@container':'@language'}};;{'a2':{'@id':'http://e.org/a','@container':['@language','@set']}};;{'a2':{'@id':'http://e.org/a','@container':'@id'}};;{'a2':{'@id':'http://e.org/a','@container':'@type'}};;{'a2':{'@id':'http://e.org/a','@container':'@graph'}};;{'a2':{'@id':'http://e.org/a','@container':['@graph','@id']}};;{'a2':{'@id':'http://e.org/a','@container':['@graph','@index']}};;{'a2':{'@id':'http://e.org/a','@container':['@graph','@set']}};;{'A':'http://e.org/a'};;{'a0':'http://e.org/a'};;{'aa':'http://e.org/a','e':'http://e.org/'};;{'r':{'@reverse':'http://e.org/a'}};;{'r':{'@reverse':'http://e.org/b'}};;{'r':{'@reverse':'http://e.org/b','@container':'@set'}};;{'r':{'@reverse':'http://e.org/b','@container':'@index'}};;{'e':'http://e.org/'};;{'e':{'@id':'http://e.org/','@prefix':true},'f':{'@id':'http://e.org/','@prefix':true}};;{'e':{'@id':'http://e.org/','@prefix':false}};;{'ee':'http://e.org/','p2':'http://e.org/p#'};;{'e':'http://e.org/','e:a':'http://e.org/zz'};;{'e':'http://e.org/','e:a':{'@id':'http://e.org/a','@type':'@id'}};;{'e':'http://e.org/a'};;{'http':'http://h.org/'};;{'o':'http://e.org/o','T':'http://e.org/T'};;{'o':{'@id':'http://e.org/o','@type':'@id'}};;{'i':'http://e.org/i'};;{'a':null,'@vocab':'http://e.org/'};;{'a':null,'p':null};;{'D':'http://e.org/D'};;{'graph':'@graph','inc':'@included','id':'@id'};;{'val':'@value','lang':'@language','dir':'@direction','idx':'@index','list':'@list','rev':'@reverse','type':'@type'};;{'none':'@none'};;{'@vocab':'http://e.org/'};;{'@vocab':'http://e.org/','o':'http://x.org/'};;{'_':'http://e.org/u'};;{'type':{'@id':'@type','@container':'@set'}}"
);

pub fn cctx(ch: &mut Chooser, free: bool) -> J {
    let d = if free { ch.of(defs()).clone() } else { defs()[ch.alt(defs().len())].clone() };
    let mut c = J::o(&[
        ("a", d),
        ("b", J::s("http://e.org/b")),
        ("p", J::s("http://e.org/p#")),
    ]);
    for _ in 0..2 {
        let (n, m) = (a_compete().len(), extras().len());
        let i = ch.alt(n + m + 1);
        if i == 0 {
            break;
        }
        let e = if i <= n { &a_compete()[i - 1] } else { &extras()[i - 1 - n] };
        for (k, v) in e.as_obj().unwrap() {
            c.set(k, v.clone())
        }
    }
    c
}

/// Expanded document built around the studied property.
pub fn cdoc(ch: &mut Chooser) -> J {
    let v = |ch: &mut Chooser| {
        let n = a_cval().len();
        a_cval()[ch.pick(n)].clone()
    };
    let mut vals = vec![v(ch)];
    // a second value
    let i = ch.alt(a_cval().len() + 1);
    if i > 0 {
        vals.push(a_cval()[i - 1].clone())
    }
    let vals = J::Arr(vals);
    let s = |k: &str| J::s(k);
    let nd = |e: &[(&str, J)]| J::o(e);
    let shape = ch.dev(16);
    let d = match shape {
        0 => nd(&[("@id", s("http://e.org/s")), ("http://e.org/a", vals)]),
        1 => nd(&[("@id", s("http://b.org/d/s")), ("@type", crate::json::j("['http://e.org/T']")), ("http://e.org/a", vals)]),
        2 => nd(&[("@type", crate::json::j("['http://e.org/U','http://e.org/T']")), ("http://e.org/a", vals)]),
        3 => nd(&[("@id", s("http://e.org/s")), ("http://e.org/a", vals), ("http://e.org/b", crate::json::j("[{'@value':'w'}]"))]),
        4 => return J::Arr(vec![nd(&[("@id", s("http://e.org/s")), ("http://e.org/a", vals)]), nd(&[("@id", s("http://e.org/s2")), ("http://e.org/b", crate::json::j("[{'@id':'http://e.org/s'}]"))])]),
        5 => nd(&[("@id", s("http://e.org/g")), ("@graph", J::Arr(vec![nd(&[("http://e.org/a", vals)])]))]),
        6 => nd(&[("@id", s("http://e.org/s")), ("http://e.org/b", J::Arr(vec![nd(&[("http://e.org/a", vals)])]))]),
        7 => nd(&[("@id", s("http://e.org/s")), ("@reverse", nd(&[("http://e.org/a", vals)]))]),
        8 => nd(&[("@id", s("http://e.org/s")), ("@reverse", nd(&[("http://e.org/a", vals), ("http://e.org/b", crate::json::j("[{'@id':'http://e.org/o'},{'@type':['http://e.org/T']}]"))]))]),
        9 => nd(&[("@id", s("http://e.org/s")), ("@included", vals)]),
        10 => nd(&[("@id", s("http://e.org/s")), ("http://e.org/a", J::Arr(vec![]))]),
        11 => nd(&[("@id", s("http://e.org/s")), ("@index", s("i")), ("http://e.org/a", vals)]),
        12 => return J::Arr(vec![]),
        13 => nd(&[("@id", s("_:s")), ("http://e.org/a", vals), ("http://e.org/p#q", crate::json::j("[{'@value':'w'}]"))]),
        14 => nd(&[("@type", crate::json::j("['http://e.org/T']")), ("http://e.org/b", J::Arr(vec![nd(&[("@type", crate::json::j("['http://e.org/U']")), ("http://e.org/a", vals)])]))]),
        _ => return vals,
    };
    J::Arr(vec![d])
}

// ------------------------------------------------------------------ graphs of nodes (flattening, RDF)

pub const RDF_TYPES: [&str; 9] = [
    "",
    "http://e.org/D",
    "http://www.w3.org/2001/XMLSchema#integer",
    "http://www.w3.org/2001/XMLSchema#double",
    "http://www.w3.org/2001/XMLSchema#boolean",
    "http://www.w3.org/2001/XMLSchema#string",
    "http://www.w3.org/2001/XMLSchema#date",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString",
    "@json",
];

pub const RDF_LANGS: [&str; 5] = ["en", "EN-us", "de-Latn-1996", "e n", "toolongsubtag"];

alphabet!(
    a_rdf_lex,
        "'v';;'';;'_:v';;'1';;true;;false;;0;;1;;-1;;1.0;;1.5;;-0.5;;10;;100.0;;1e2;;1E21;;1e20;;1e-7;;123456789012;;9007199254740991;;-9007199254740992;;0.1;;5.3e0;;[];;{};;[1,2.0,'x',null];;{'b':1,'a':{'d':true,'c':[]}};;{'\u{20ac}':1,'\u{f6}':2,'1':3};;null"
);

alphabet!(
    a_fvalue,
        "{'@id':'x:o'};;{'@id':'x:s'};;{'@id':'_:a'};;{'@id':'_:b0'};;{'@id':'rel'};;{'@id':'x:o','@index':'i'};;{'@id':'x:o','@type':['x:T']};;{'@value':'v'};;{'@value':'v','@index':'i'};;{'@value':'v','@language':'en'};;{'@value':1};;{'@value':'v','@direction':'rtl'};;{'@value':'v','@type':'x:D'};;{'@value':{'b':1,'a':[2.0]},'@type':'@json'};;{'@list':[]};;{'@list':[{'@value':'v'}]};;{'@list':[{'@value':'v'}],'@index':'i'};;{'@list':[{'@value':'v'},{'@value':'v'}]};;{'@list':[{'@id':'x:o','x:q':[{'@value':'n'}]}]};;{'@list':[{'@list':[{'@value':'v'}]},{'@list':[]}]};;{'@list':[{'@value':'v'},{'@id':'rel2'}]};;{'@list':[{'@id':'rel2'},{'@value':'v'}]};;{'@list':[{'@value':'v','@direction':'rtl'},{'@value':'w'}]};;{'@list':[{'@id':'_:a','@index':'j'},{'x:q':[{'@value':'n'}]}]};;{'@graph':[{'@id':'x:g','x:q':[{'@value':'v'}]}]};;{'@graph':[]};;{'@id':'_:a','@graph':[{'@id':'_:b','@type':['x:T']}]};;{'@graph':[{'@id':'x:s','x:p':[{'@id':'x:o'}]}],'@index':'i'}"
);

fn f_value(ch: &mut Chooser, depth: usize) -> J {
    let vals = a_fvalue();
    let k = ch.alt(vals.len() + if depth > 0 { 1 } else { 0 });
    if k < vals.len() {
        vals[k].clone()
    } else {
        f_node(ch, depth - 1)
    }
}

fn f_values(ch: &mut Chooser, depth: usize) -> J {
    let mut v = vec![f_value(ch, depth)];
    match ch.dev(4) {
        0 => {}
        1 => v.push(f_value(ch, depth)),
        2 => v.push(v[0].clone()),
        _ => v.clear(),
    }
    J::Arr(v)
}

pub fn f_node(ch: &mut Chooser, depth: usize) -> J {
    let s = |x: &str| J::s(x);
    let mut n = J::obj();
    match ch.dev(6) {
        0 => n.set("@id", s("x:s")),
        1 => {}
        2 => n.set("@id", s("_:a")),
        3 => n.set("@id", s("x:o")),
        4 => n.set("@id", s("_:b0")),
        _ => n.set("@id", s("rel")),
    }
    match ch.dev(7) {
        0 => {}
        6 => n.set("@type", J::Arr(vec![])),
        1 => n.set("@type", J::Arr(vec![s("x:T")])),
        2 => n.set("@type", J::Arr(vec![s("x:U"), s("x:T")])),
        3 => n.set("@type", J::Arr(vec![s("_:a")])),
        4 => n.set("@type", J::Arr(vec![s("x:T"), s("x:T")])),
        _ => n.set("@type", J::Arr(vec![s("rel"), s("x:V")])),
    }
    match ch.dev(3) {
        0 => {}
        1 => n.set("@index", s("i")),
        _ => n.set("@index", s("j")),
    }
    match ch.dev(3) {
        0 => n.set("x:p", f_values(ch, depth)),
        1 => {}
        _ => {
            n.set("x:p", f_values(ch, depth));
            n.set("x:q", f_values(ch, depth))
        }
    }
    match ch.dev(4) {
        0 => {}
        1 => n.set("_:a", f_values(ch, 0)),
        2 => n.set("_:p", f_values(ch, 0)),
        _ => n.set("rel", f_values(ch, 0)),
    }
    if depth > 0 {
        match ch.dev(5) {
            0 => {}
            1 => n.set("@reverse", J::o(&[("x:p", J::Arr(vec![f_node(ch, depth - 1)]))])),
            2 => n.set("@reverse", J::o(&[("x:q", J::Arr(vec![j("{'@id':'x:r'}"), f_node(ch, depth - 1)]))])),
            3 => n.set("@reverse", J::o(&[("_:p", J::Arr(vec![f_node(ch, depth - 1)]))])),
            _ => n.set("@reverse", j("{'x:p':[{'@id':'x:o'},{'@id':'_:b0','@index':'i'}],'x:q':[{'@id':'rel2','x:q':[]}]}")),
        }
        match ch.dev(5) {
            0 => {}
            1 => n.set("@graph", J::Arr(vec![f_node(ch, depth - 1)])),
            2 => n.set("@graph", J::Arr(vec![])),
            3 => n.set("@graph", J::Arr(vec![f_node(ch, depth - 1), j("{'@id':'x:o','@type':['x:W']}")])),
            _ => n.set("@graph", j("[{'@id':'x:s'},{'@id':'_:a','@graph':[{'@id':'_:b0','x:q':[{'@id':'_:a'}]}]}]")),
        }
        match ch.dev(4) {
            0 => {}
            1 => n.set("@included", J::Arr(vec![f_node(ch, depth - 1)])),
            2 => n.set("@included", j("[{'@id':'x:o','@type':['x:I']},{'x:q':[{'@value':'inc'}]}]")),
            _ => n.set("@included", j("[{'@id':'x:s','@type':['x:I'],'x:p':[{'@value':'v'}]}]")),
        }
    }
    n
}

/// A document in expanded form.
pub fn fdoc(ch: &mut Chooser) -> J {
    let mut d = vec![f_node(ch, 1)];
    match ch.dev(3) {
        0 => {}
        1 => d.push(f_node(ch, 1)),
        _ => d.push(j("{'@id':'_:a','@type':['x:Z'],'x:p':[{'@value':'z'},{'@id':'_:b0'}]}")),
    }
    J::Arr(d)
}

// ---------------------------------------------------------------- nested structures

/// Expanded documents made of a chain of nested nodes: every kind of link between them, every
/// sharing of identifiers. All choices are free.
pub fn nest(ch: &mut Chooser, depth: usize) -> J {
    fn node(ch: &mut Chooser, depth: usize, total: usize) -> J {
        let mut n = J::obj();
        match ch.pick(4) {
            0 => {}
            1 => n.set("@id", J::s("_:a")),
            2 => n.set("@id", J::s("x:s")),
            _ => n.set("@id", J::s(["x:leaf", "x:n1", "x:n2", "x:n3"][depth])),
        }
        let level = J::o(&[("@value", J::s(["leaf", "n1", "n2", "n3"][depth]))]);
        n.set("x:q", J::Arr(vec![level]));
        if depth == 0 {
            return n;
        }
        let links = if depth == total { 7 } else { 8 };
        let link = ch.pick(links);
        let m = node(ch, depth - 1, total);
        let one = |m: J| J::Arr(vec![m]);
        match link {
            0 => n.set("x:p", one(m)),
            1 => n.set("x:p", one(J::o(&[("@list", one(m))]))),
            2 => n.set("x:p", one(J::o(&[("@list", J::Arr(vec![J::o(&[("@list", one(m))]), j("{'@value':'after'}")]))]))),
            3 => n.set("@reverse", J::o(&[("x:p", one(m))])),
            4 => n.set("@graph", one(m)),
            5 => n.set("@included", one(m)),
            6 => n.set("x:p", one(J::o(&[("@graph", one(m))]))),
            _ => {
                n.set("@included", J::Arr(vec![j("{'@id':'x:s','x:r':[{'@id':'_:a'}]}"), m.clone()]));
                n.set("x:p", one(m))
            }
        }
        n
    }
    J::Arr(vec![node(ch, depth, depth)])
}

/// A context with a term of every kind and every kind of scoped context.
pub const RICH: &str = "{'@version':1.1,'@vocab':'http://v.org/','x':'http://x.org/','p':'x:p','i':{'@id':'x:i','@container':'@index'},'s':{'@id':'x:s','@container':'@set'},'l':{'@id':'x:l','@container':'@list'},'g':{'@id':'x:g','@container':'@graph'},\
'gi':{'@id':'x:gi','@container':['@graph','@id']},'gx':{'@id':'x:gx','@container':['@graph','@index']},'t':{'@id':'x:t','@container':'@type'},'n':'@nest','r':{'@reverse':'x:r'},'j':{'@id':'x:j','@type':'@json'},'d':{'@id':'x:d','@type':'x:D'},\
'lang':{'@id':'x:lang','@container':'@language'},'v':{'@id':'x:v','@type':'@vocab'},'k':{'@id':'x:k','@type':'@id','@container':'@id'},'pi':{'@id':'x:pi','@container':'@index','@index':'x:q'},\
'sc':{'@id':'x:sc','@context':{'p':'x:scp','d':{'@id':'x:d','@type':'x:E'}}},'sn':{'@id':'x:sn','@context':[null,{'p':'http://n.org/p','@language':'en'}]},'sp':{'@id':'x:sp','@context':{'@propagate':false,'p':'x:spp','@vocab':'http://w.org/'}},\
'T':{'@id':'x:T','@context':{'p':'x:Tp','s':{'@id':'x:Ts','@container':'@list'},'d':null}},'U':{'@id':'x:U','@context':{'@propagate':true,'p':{'@id':'x:Up','@language':'fr'},'T':'x:U2'}},'A':{'@id':'x:A','@context':{'@base':'http://a.org/','p':'x:Ap','T':{'@id':'x:T','@context':{'p':'x:ATp'}}}}}";

const RICH_TERMS: &[&str] = &["p", "i", "s", "l", "g", "gi", "gx", "t", "n", "r", "j", "d", "lang", "v", "k", "pi", "sc", "sn", "sp", "x:p", "u", "@included", "@graph", "@reverse"];
const RICH_TYPES: [&[Option<&str>]; 2] = [&[None, Some("'T'"), Some("'U'"), Some("['A','T']")], &[None, Some("'x:T'"), Some("['T','U']"), Some("['A','T']")]];

/// Compact documents: nested nodes under terms of every kind, in scoped contexts of every kind.
pub fn rich_doc(ch: &mut Chooser, leafs: &[J]) -> J {
    let mut d = rich_node(ch, 1, leafs);
    d.set("@context", j(RICH));
    d
}

fn rich_node(ch: &mut Chooser, depth: usize, leafs: &[J]) -> J {
    let mut n = J::obj();
    if depth == 1 {
        n.set("@id", J::s("http://e.org/s"))
    }
    let types = RICH_TYPES[depth];
    if let Some(t) = ch.of(&types[if ch.thin { types.len() / 2 } else { 0 }..]) {
        n.set("@type", j(t))
    }
    let t = *ch.of(RICH_TERMS);
    let m = if depth == 0 { ch.of(leafs).clone() } else { rich_node(ch, depth - 1, leafs) };
    let v = match ch.pick(if depth == 0 { 2 } else { 5 }) {
        0 => m,
        1 => J::o(&[("k", J::Arr(vec![m]))]),
        2 => J::Arr(vec![m, J::s("en")]),
        3 => J::o(&[("@list", m)]),
        _ => J::o(&[("@graph", m)]),
    };
    n.set(t, v);
    if depth == 1 {
        n.set("p", J::s("last"))
    }
    n
}

/// Expanded documents over the properties of the same context.
pub fn rich_expanded(ch: &mut Chooser, leafs: &[J]) -> J {
    fn node(ch: &mut Chooser, depth: usize, leafs: &[J]) -> J {
        const PROPS: &[&str] = &["p", "i", "s", "l", "g", "gi", "gx", "t", "r", "j", "d", "lang", "v", "k", "pi", "sc", "sn", "sp", "Tp", "Up", "scp", "spp", "Ap", "@graph", "@included"];
        const TYPES: [&[Option<&str>]; 2] = [
            &[None, Some("['http://x.org/T']"), Some("['http://x.org/U']"), Some("['http://x.org/A','http://x.org/T']")],
            &[None, Some("['http://x.org/U']"), Some("['http://x.org/U','http://x.org/T']"), Some("['http://x.org/A','http://x.org/T']")],
        ];
        let mut n = J::obj();
        if depth == 1 {
            n.set("@id", J::s("http://b.org/d/s"))
        }
        if let Some(t) = ch.of(TYPES[depth]) {
            n.set("@type", j(t))
        }
        let p = *ch.of(PROPS);
        let m = if depth == 0 { ch.of(leafs).clone() } else { node(ch, depth - 1, leafs) };
        let one = |m: J| J::Arr(vec![m]);
        if p.starts_with('@') {
            n.set(p, one(m))
        } else {
            let p = format!("http://x.org/{p}");
            match ch.pick(if depth == 0 { 1 } else { 6 }) {
                0 => n.set(&p, one(m)),
                1 => n.set(&p, one(J::o(&[("@list", one(m))]))),
                2 => n.set(&p, one(J::o(&[("@graph", one(m))]))),
                3 => n.set(&p, one(J::o(&[("@graph", J::Arr(vec![m, j("{'@id':'http://e.org/o'}")])), ("@id", J::s("http://e.org/g"))]))),
                4 => n.set("@reverse", J::o(&[(p.as_str(), one(m))])),
                _ => n.set(&p, J::Arr(vec![J::o(&[("@graph", one(m)), ("@index", J::s("i"))]), j("{'@value':'w','@language':'en'}")])),
            }
        }
        if depth == 1 {
            n.set("http://x.org/z", j("[{'@value':'last'}]"))
        }
        n
    }
    J::Arr(vec![node(ch, 1, leafs)])
}

/// Two terms for the same property, of every type, language, direction and container.
pub fn rivals(ch: &mut Chooser, containers: &[Option<&str>]) -> J {
    let term = |ch: &mut Chooser| {
        let mut t = J::o(&[("@id", J::s("http://e.org/a"))]);
        match ch.pick(18) {
            0 => {}
            k @ 1..=6 => t.set("@type", J::s(["@id", "@vocab", "http://e.org/D", "@none", "@json", "http://e.org/E"][k - 1])),
            k => {
                let k = k - 6; // 1..=11: language (absent, null, en, fr) x direction (absent, null, ltr)
                match k / 3 {
                    0 => {}
                    1 => t.set("@language", J::Null),
                    2 => t.set("@language", J::s("en")),
                    _ => t.set("@language", J::s("fr")),
                }
                match k % 3 {
                    0 => {}
                    1 => t.set("@direction", J::Null),
                    _ => t.set("@direction", J::s("ltr")),
                }
            }
        }
        if let Some(c) = ch.of(containers) {
            t.set("@container", j(c))
        }
        t
    };
    let mut c = J::o(&[("aa", term(ch)), ("bb", term(ch))]);
    match ch.pick(4) {
        0 => {}
        1 => c.set("@language", J::s("en")),
        2 => c.set("@direction", J::s("ltr")),
        _ => {
            c.set("@language", J::s("fr"));
            c.set("@direction", J::s("rtl"))
        }
    }
    c
}

pub fn rival_values() -> Vec<J> {
    list("[{'@value':'v'}];;[{'@value':'v','@language':'en'}];;[{'@value':'v','@language':'fr','@direction':'ltr'}];;[{'@value':'v','@direction':'ltr'}];;[{'@value':'v','@type':'http://e.org/D'}];;[{'@value':{'x':1},'@type':'@json'}];;[{'@id':'http://e.org/o'}];;[{'@value':1}];;\
          [{'@value':'v','@index':'i'}];;[{'@id':'http://e.org/o','@index':'i'}];;[{'@value':'v','@language':'en','@index':'i'}];;[{'@list':[{'@value':'v','@language':'en'},{'@value':'w','@language':'en'}]}];;[{'@list':[{'@value':'v','@language':'en'},{'@value':'w'}]}];;[{'@list':[{'@value':'v','@type':'http://e.org/D'},{'@value':'w','@type':'http://e.org/D'}]}];;\
          [{'@list':[{'@id':'http://e.org/o'},{'@value':'w'}]}];;[{'@list':[]}];;[{'@list':[{'@value':'v','@direction':'ltr'}]}];;[{'@list':[{'@value':1}],'@index':'i'}];;[{'@graph':[{'@id':'http://e.org/o'}]}];;[{'@value':'v','@language':'fr','@direction':'rtl'}]")
}
