//! C16: the expansion policies keep, drop or reject what they say, and nothing else.
use super::Prop;
use crate::choose::Chooser;
use crate::explore::{family, hash, Report, V};
use crate::gen;
use crate::imp::{self, Case, RdfVia};
use crate::json::{j, J};
use crate::refm::compact::COpts;
use crate::refm::rdf::Dir;
use crate::refm::{expand, Act, Env, Policy, OPEN};
use json_ld::expansion::{Action, Policy as ImpPolicy};

fn action(a: Act) -> Action {
    match a {
        Act::Keep => Action::Keep,
        Act::Drop => Action::Drop,
        Act::Reject => Action::Reject,
    }
}

fn with(case: &Case, p: Policy) -> Case {
    let policy = ImpPolicy { vocab: action(p.vocab), invalid: action(p.invalid), allow_undefined: p.allow_undefined };
    Case { policy, ..case.clone() }
}

/// Every other operation expands the document with the same policy.
fn operations(ch: &mut Chooser, case: &Case, p: Policy) -> Report {
    ch.describe(|| format!("policy={p:?} doc={:?}", case.doc));
    let case = &with(case, p);
    let e = imp::expand(case);
    let ctx = j("{'e':'http://e.org/','v':'http://v.org/'}");
    let run = |c: &Case| -> Vec<Result<J, String>> {
        vec![
            imp::compact(c, &ctx, None, COpts { arrays: true, relative: true, ordered: c.ordered }),
            imp::flatten(c, None),
            imp::flatten(c, Some(&ctx)),
            imp::to_rdf(c, RdfVia::Processor, Dir::None, true),
        ]
    };
    let i = run(case);
    let mut n = 5;
    let mut verdict = V::Ok;
    match &e {
        Err(_) => {
            if let Some(x) = i.iter().position(|r| r.is_ok()) {
                verdict = V::Bad(format!("expansion fails, operation {x} does not: {:?}", i[x]))
            }
        }
        Ok(d) => {
            // the expanded document says all that matters, unless expanding it changes it again
            let again = Case { doc: d.clone(), policy: Default::default(), ..case.clone() };
            if imp::expand(&again).map_or(false, |x| expand::canon(&x) == expand::canon(d)) {
                let r = run(&again);
                n += 5;
                for (x, (a, b)) in i.iter().zip(&r).enumerate() {
                    if a.as_ref().map(sets).ok() != b.as_ref().map(sets).ok() {
                        verdict = V::Bad(format!("operation {x} of the document: {a:?}\nof its expansion: {b:?}"));
                        break;
                    }
                }
            }
        }
    }
    Report { steps: n, class: hash(&format!("{i:?}")), trivial: e.map_or(false, |d| d == J::Arr(vec![])), verdict }
}

fn sets(d: &J) -> J {
    match d {
        J::Arr(a) => {
            let mut v: Vec<J> = a.iter().map(sets).collect();
            v.sort_by_key(|x| format!("{x:?}"));
            J::Arr(v)
        }
        J::Obj(o) => {
            let mut v: Vec<(String, J)> = o.iter().map(|(k, v)| (k.clone(), sets(v))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::Obj(v)
        }
        x => x.clone(),
    }
}

fn policies() -> Vec<Policy> {
    let all = [Act::Keep, Act::Drop, Act::Reject];
    let mut r = vec![];
    for vocab in all {
        for invalid in all {
            for allow_undefined in [true, false] {
                r.push(Policy { vocab, invalid, allow_undefined })
            }
        }
    }
    r
}

fn compare(ch: &mut Chooser, case: &Case, p: Policy) -> Report {
    ch.describe(|| format!("policy={p:?} doc={:?} base={:?} expandContext={:?} v10={}", case.doc, case.base, case.expand_context, case.v10));
    let mut env = Env::new(case.remotes.clone(), case.v10);
    env.policy = p;
    let r = expand::expand_document(&env, &case.doc, case.base.as_deref(), case.expand_context.as_ref(), case.ordered).map(|d| expand::canon(&d));
    let i = imp::expand(&with(case, p)).map(|d| expand::canon(&d));
    let ok = match (&r, &i) {
        (Ok(a), Ok(b)) => a == b,
        (Err(e), _) if *e == OPEN => true,
        (a, b) => a.is_err() == b.is_err(),
    };
    let steps = *env.steps.borrow();
    let trivial = matches!(&i, Ok(J::Arr(a)) if a.is_empty());
    let verdict = if ok { V::Ok } else { V::Bad(format!("expected: {r:?}\nimplementation: {i:?}")) };
    Report { steps, class: hash(&format!("{i:?}")), trivial, verdict }
}

fn contexts() -> Vec<J> {
    let terms = "'b':'http://e.org/b','x_y':'http://e.org/x/','L':{'@id':'x_y:L','@container':'@language'},'I':{'@id':'x_y:I','@container':'@index'},\
        'ID':{'@id':'x_y:ID','@container':'@id'},'TY':{'@id':'x_y:TY','@container':'@type'},'GI':{'@id':'x_y:GI','@container':['@graph','@id']},\
        'PI':{'@id':'x_y:PI','@container':'@index','@index':'b'},'V':{'@id':'x_y:V','@type':'@vocab'},'K':{'@id':'x_y:K','@type':'@id'},'J':{'@id':'x_y:J','@type':'@json'},\
        'N':null,'nest':'@nest','S':{'@id':'x_y:S','@context':{'foo':'http://e.org/foo'}},'T':{'@id':'x_y:T','@context':{'foo':'http://e.org/Tfoo','U':'http://e.org/U'}},\
        'W':{'@id':'x_y:W','@context':{'@vocab':null}},'type':'@type','val':'@value','R':{'@reverse':'x_y:R'}";
    ["", "'@vocab':'http://v.org/',", "'@vocab':'',", "'@vocab':'_:v',", "'@vocab':'http://v.org/','foo':'http://e.org/f',", "'@base':null,", "'@base':null,'@vocab':'http://v.org/a b/',", "'@vocab':'http://v.org/','@version':1.1,'@propagate':false,"]
        .iter()
        .map(|v| j(&format!("{{{v}{terms}}}")))
        .collect()
}

fn entries() -> Vec<J> {
    gen::list(
        "{'b':'w'};;{'foo':'w'};;{'bar':{'foo':'w'}};;{'b':{'foo':'w'}};;{'b':{'foo':'w','b':1}};;{'1:x':'w'};;{'x_y:a b':'w'};;{'http://e.org/a b':'w','@type':'_:a b'};;{'2:y':'w'};;{'b':{'2:y':'w','b':2}};;{'_:p':'w'};;{'_:':'w'};;\
         {'':'w'};;{'@foo':'w'};;{':x':'w'};;{'N':'w'};;{'foo':null};;{'foo':[]};;{'a/b':'w'};;\
         {'@type':'foo'};;{'@type':['T','foo']};;{'@type':['foo','T'],'foo':'w'};;{'@type':'1:x'};;{'@type':['2:y','x_y:ok']};;{'type':'T'};;{'type':'U','@type':'T'};;{'@type':'W','foo':1};;{'b':{'@type':'foo'}};;\
         {'b':{'@type':'T','foo':'w'}};;{'b':{'type':'T','U':'w'}};;{'b':{'@type':'T','b':{'foo':'w'}}};;\
         {'L':{'en':'e','foo':'f'}};;{'L':{'@none':'e'}};;{'I':{'foo':{'b':1}}};;{'I':{'foo':'w'}};;{'ID':{'foo':{'b':1}}};;{'ID':{'2:y':{'b':1}}};;{'TY':{'foo':{'b':1}}};;{'TY':{'T':{'foo':1}}};;{'TY':{'foo':'x'}};;{'GI':{'foo':{'b':1}}};;{'PI':{'foo':{'b':1}}};;{'PI':{'foo':{'foo':1}}};;\
         {'V':'b'};;{'V':'foo'};;{'V':'1:x'};;{'K':'foo'};;{'K':'1:x'};;{'J':{'foo':{'1:x':1}}};;{'J':[{'foo':'w'}]};;{'b':{'@value':{'foo':1},'@type':'@json'}};;\
         {'S':{'foo':'w'}};;{'S':{'bar':'w'}};;{'S':{'b':{'foo':'w'}}};;{'W':{'foo':'w','b':1}};;{'W':{'@type':'foo'}};;\
         {'b':{'@context':{'foo':'http://e.org/foo'},'foo':'w'}};;{'b':{'@context':{'@vocab':null},'foo':'w'}};;{'b':{'@context':{'@vocab':'http://w.org/'},'foo':'w'}};;{'b':{'@context':{'t':'@type','Q':'x_y:Q'},'t':'Q'}};;{'b':{'@context':null,'foo':'w','@type':'foo'}};;\
         {'b':{'@value':'w','foo':1}};;{'b':{'@value':'w','1:x':1}};;{'b':{'val':'w'}};;{'b':{'@value':'w','@type':'foo'}};;{'b':{'@value':'w','@type':'x_y:D'}};;{'b':{'@list':['w'],'foo':1}};;{'b':{'@list':[{'foo':1}]}};;{'b':{'@set':['w'],'foo':1}};;{'b':{'@set':[{'foo':1,'b':1}]}};;\
         {'@nest':{'foo':1}};;{'nest':{'foo':1,'b':2}};;{'nest':{'1:x':1}};;{'@reverse':{'foo':{'b':1}}};;{'@reverse':{'1:x':{'b':1}}};;{'R':{'foo':1}};;{'@included':{'foo':1,'b':1}};;{'@graph':[{'foo':1,'b':1}]};;{'@graph':[{'@id':'x_y:g','1:x':1}]};;{'@id':'foo'};;{'@id':'1:x','b':1};;{'@id':'x_y:i'};;{'@language':'en'};;{'@index':'foo'}",
    )
}

pub fn prop(thorough: bool) -> Prop {
    let ps = policies();
    let (p1, p2, p3) = (ps.clone(), ps.clone(), ps);
    let (cs, es) = (contexts(), entries());
    let (cs3, es3) = (cs.clone(), es.clone());
    let others = move |ch: &mut Chooser| {
        let p = *ch.of(&p3);
        let c = ch.of(&cs3).clone();
        let mut d = J::o(&[("b", J::s("w"))]);
        for (k, v) in ch.of(&es3).as_obj().unwrap() {
            d.set(k, v.clone())
        }
        d.set("@context", c);
        let mut case = Case::new(d);
        case.ordered = ch.pick(2) == 1;
        operations(ch, &case, p)
    };
    let positions = move |ch: &mut Chooser| {
        let p = *ch.of(&p1);
        let c = ch.of(&cs).clone();
        let mut d = J::obj();
        for _ in 0..2 {
            for (k, v) in ch.of(&es).as_obj().unwrap() {
                if !d.has(k) {
                    d.set(k, v.clone())
                }
            }
        }
        d.set("@context", c);
        compare(ch, &Case::new(d), p)
    };
    let documents = move |ch: &mut Chooser| {
        let p = *ch.of(&p2);
        let mut case = Case::new(J::Null);
        ch.thin = true;
        case.doc = gen::doc(ch, 2);
        case.remotes = gen::remotes();
        match ch.dev(4) {
            0 => {}
            1 => case.base = None,
            2 => case.expand_context = Some(j("{'@vocab':'http://xv.org/'}")),
            _ => case.v10 = true,
        }
        compare(ch, &case, p)
    };
    Prop {
        id: "C16",
        level: "model_checking",
        rule: "every policy is combined with documents that hold undefined, invalid and vocabulary-dependent keys and types in every position",
        assumptions: &[],
        families: vec![family("positions", 0, positions), family("other operations", 0, others), family("documents", if thorough { 2 } else { 1 }, documents)],
    }
}
