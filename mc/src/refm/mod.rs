//! Reference model: a direct, unoptimised transcription of the JSON-LD 1.1 Processing Algorithms
//! and API recommendation over plain JSON trees. Shares no code with the implementation.
pub mod api;
pub mod compact;
pub mod ctx;
pub mod expand;
pub mod flatten;
pub mod fromrdf;
pub mod rdf;

use crate::json::J;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// Error code, spelled as in the recommendation.
pub type Code = &'static str;

#[derive(Clone, Debug)]
pub enum Remote {
    Doc(J),
    /// The document found after a redirection, with its URL.
    At(String, J),
    /// A JSON document that links to its context.
    Linked(String, J),
    /// A document without URL.
    Anonymous(J),
    /// The loader fails.
    Fail,
}

/// What expansion does with the entries a caller may want to keep, drop or reject.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Keep,
    Drop,
    Reject,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Policy {
    pub vocab: Act,
    pub invalid: Act,
    pub allow_undefined: bool,
}

impl Policy {
    pub const STANDARD: Policy = Policy { vocab: Act::Keep, invalid: Act::Keep, allow_undefined: true };
}

/// Answer of the model where neither the recommendation nor the documentation settles the result.
pub const OPEN: &str = "(open)";

/// Environment of a model run.
pub struct Env {
    pub policy: Policy,
    pub remotes: BTreeMap<String, Remote>,
    pub v10: bool,
    /// Known deviations of the implementation that are switched on in this run.
    pub quirks: Vec<&'static str>,
    /// Model states reached: number of algorithm steps (active context / element pairs) visited.
    pub steps: RefCell<u64>,
    /// Which permutation of the entries of a context is followed (the order is unspecified).
    pub perm: u32,
    /// Order of load requests made by the model.
    pub loads: RefCell<Vec<String>>,
    /// The run reached a state the recommendation leaves open.
    pub unspecified: RefCell<bool>,
}

impl Env {
    pub fn new(remotes: BTreeMap<String, Remote>, v10: bool) -> Self {
        Env { policy: Policy::STANDARD, remotes, v10, quirks: vec![], perm: 0, steps: RefCell::new(0), loads: RefCell::new(vec![]), unspecified: RefCell::new(false) }
    }
    pub fn q(&self, name: &str) -> bool {
        self.quirks.contains(&name)
    }
    pub fn permute(&self, keys: &mut Vec<String>) {
        let mut n = self.perm as usize;
        let mut pool = std::mem::take(keys);
        while !pool.is_empty() {
            let i = n % pool.len();
            n /= pool.len();
            keys.push(pool.remove(i))
        }
    }
    pub fn step(&self) {
        *self.steps.borrow_mut() += 1
    }
    /// URL of the document found at `url`.
    pub fn located(&self, url: &str) -> String {
        match self.remotes.get(url) {
            Some(Remote::At(u, _)) => u.clone(),
            _ => url.to_string(),
        }
    }
    pub fn load(&self, url: &str) -> Option<&J> {
        self.loads.borrow_mut().push(url.to_string());
        match self.remotes.get(url) {
            Some(Remote::Doc(d) | Remote::At(_, d) | Remote::Linked(_, d) | Remote::Anonymous(d)) => Some(d),
            _ => None,
        }
    }
}

pub const KEYWORDS: &[&str] = &[
    "@base", "@container", "@context", "@direction", "@graph", "@id", "@import", "@included", "@index",
    "@json", "@language", "@list", "@nest", "@none", "@prefix", "@propagate", "@protected", "@reverse",
    "@set", "@type", "@value", "@version", "@vocab",
];

pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.contains(&s)
}

pub fn keyword_form(s: &str) -> bool {
    s.len() > 1 && s.starts_with('@') && s[1..].chars().all(|c| c.is_ascii_alphabetic())
}
