//! Exhaustive, deviation-bounded enumeration of choice sequences.
//!
//! A *family* is a closure `FnMut(&mut Chooser) -> Case`. Every non-deterministic decision of the
//! family goes through the chooser. The driver runs the closure on every choice sequence whose total
//! deviation cost is within the bound; nothing is sampled and nothing is skipped.

#[derive(Clone)]
pub struct Chooser {
    prefix: Vec<u32>,
    pos: usize,
    /// (choice, arity, cost of a non-zero choice)
    pub trace: Vec<(u32, u32, u32)>,
    budget: u32,
    used: u32,
    pub verbose: bool,
    /// Restricts `alt` to every other alternative (used to go one deviation deeper).
    pub thin: bool,
    /// Human-readable account of the case (verbose runs only).
    pub desc: String,
}

impl Chooser {
    pub fn new(prefix: &[u32], budget: u32) -> Self {
        Chooser { prefix: prefix.to_vec(), pos: 0, trace: vec![], budget, used: 0, verbose: false, thin: false, desc: String::new() }
    }

    fn choose(&mut self, n: u32, cost: u32) -> u32 {
        assert!(n > 0);
        let c = if self.pos < self.prefix.len() {
            let c = self.prefix[self.pos];
            assert!(c < n, "replay diverged: choice {c} out of {n} at {}", self.pos);
            c
        } else {
            0
        };
        self.pos += 1;
        if c != 0 {
            self.used += cost;
        }
        self.trace.push((c, n, cost));
        c
    }

    /// Free choice between `n` alternatives: all of them are always explored.
    pub fn pick(&mut self, n: usize) -> usize {
        self.choose(n as u32, 0) as usize
    }

    /// Deviation choice: alternative 0 is the default, any other one costs 1.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.used >= self.budget && self.pos >= self.prefix.len() {
            // budget exhausted: only the default remains; record arity 1 so that it is not expanded
            self.pos += 1;
            self.trace.push((0, 1, 1));
            return 0;
        }
        self.choose(n as u32, 1) as usize
    }

    /// Like `dev`, over an alphabet that the thin families thin out.
    pub fn alt(&mut self, n: usize) -> usize {
        if self.thin && n > 2 {
            match self.dev(n / 2 + 1) {
                0 => 0,
                k => 2 * k - 1,
            }
        } else {
            self.dev(n)
        }
    }

    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }

    pub fn dev_of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.dev(xs.len());
        &xs[i]
    }

    #[allow(dead_code)]
    pub fn flag(&mut self) -> bool {
        self.dev(2) == 1
    }

    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let d = f();
            if !self.desc.is_empty() {
                self.desc.push_str(" | ");
            }
            self.desc.push_str(&d);
        }
    }

    pub fn used(&self) -> u32 {
        self.used
    }

    pub fn choices(&self) -> Vec<u32> {
        self.trace.iter().map(|t| t.0).collect()
    }
}

