//! The JsonLdProcessor interface (API §9).
use super::compact::{compact_document, COpts};
use super::ctx::{process, Ctx, Opts};
use super::expand::expand_with;
use super::flatten::NodeMap;
use super::{Code, Env, Remote};
use crate::json::J;

#[derive(Clone, Debug)]
pub enum Input {
    Iri(String),
    Inline { url: Option<String>, context_url: Option<String>, doc: J },
}

#[derive(Clone, Debug)]
pub enum Op {
    Expand,
    Compact(J),
    Flatten(Option<J>),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub input: Input,
    pub base: Option<String>,
    pub expand_context: Option<J>,
    pub op: Op,
}

fn unwrap(c: &J) -> &J {
    c.get("@context").unwrap_or(c)
}

pub fn call(env: &Env, c: &Call) -> Result<J, Code> {
    let (url, context_url, doc) = match &c.input {
        Input::Inline { url, context_url, doc } => (url.clone(), context_url.clone(), doc.clone()),
        Input::Iri(i) => {
            let d = env.load(i).ok_or("loading document failed")?.clone();
            match env.remotes.get(i) {
                Some(Remote::Anonymous(_)) => (None, None, d),
                Some(Remote::Linked(l, _)) => (Some(i.clone()), Some(l.clone()), d),
                _ => (Some(env.located(i)), None, d),
            }
        }
    };
    let base = c.base.clone().or(url.clone());
    let mut active = Ctx::new(base.clone());
    if let Some(x) = &c.expand_context {
        active = process(env, &active, unwrap(x), &Opts::base(base))?
    }
    if let Some(u) = context_url {
        active = process(env, &active, &J::s(&u), &Opts::base(Some(u.clone())))?
    }
    let expanded = expand_with(env, &doc, &active, url.clone().or(c.base.clone()), false)?;
    let o = COpts { arrays: true, relative: true, ordered: false };
    let compact = |d: &J, x: &J| compact_document(env, d, unwrap(x), url.as_deref(), c.base.as_deref(), o);
    let flatten = |d: &J| {
        let m = NodeMap::of(d);
        if m.conflict {
            Err("conflicting indexes")
        } else {
            Ok(m.flatten())
        }
    };
    match &c.op {
        Op::Expand => Ok(expanded),
        Op::Compact(x) => compact(&expanded, x),
        Op::Flatten(None) => flatten(&expanded),
        Op::Flatten(Some(x)) => compact(&flatten(&expanded)?, x),
    }
}
