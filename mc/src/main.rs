mod choose;
mod explore;
mod gen;
mod generic;
mod imp;
mod iri;
mod json;
mod props;
mod refm;
mod tree;

use explore::{explore, run_one, watchdog, Found, Slots, Stats, V};
use json::J;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}

/// Findings committed in known-findings.txt: (property, id, text).
fn findings() -> Vec<(String, String, String)> {
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let (p, rest) = l.strip_prefix("property=")?.split_once(' ')?;
            let (id, text) = rest.strip_prefix("id=")?.split_once(' ')?;
            Some((p.to_string(), id.to_string(), text.to_string()))
        })
        .collect()
}

fn write_replay(prop: &str, n: usize, f: &Found) -> PathBuf {
    let dir = root().join("work/replays");
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join(format!("{prop}-{n}.json"));
    let j = J::o(&[
        ("property", J::s(prop)),
        ("family", J::s(f.family)),
        ("tier", J::s(tier())),
        ("budget", J::Num(f.budget.to_string())),
        ("choices", J::Arr(f.choices.iter().map(|c| J::Num(c.to_string())).collect())),
        ("input", J::s(&f.input)),
        ("observed", J::s(&f.what)),
        ("how_to_replay", J::s(&format!("target/release/mc replay {}", p.display()))),
    ]);
    std::fs::write(&p, j.print() + "\n").unwrap();
    p
}

fn violation(prop: &str, n: usize, f: &Found) {
    let p = write_replay(prop, n, f);
    println!("VIOLATION property={prop} replay={}", p.display());
    println!("  family: {}", f.family);
    println!("  input: {}", f.input);
    for l in f.what.lines() {
        println!("  {l}");
    }
}

fn evidence(prop: &props::Prop, st: &Stats, wall: f64, violations: usize) {
    let nums = |n: u64| J::Num(n.to_string());
    let fam = J::Arr(
        st.families
            .iter()
            .map(|f| {
                J::o(&[
                    ("family", J::s(&f.0)),
                    ("evaluations", nums(f.1)),
                    ("distinct_outcomes", nums(f.2 as u64)),
                    ("completed", J::Bool(f.3)),
                ])
            })
            .collect(),
    );
    let mut cov = vec![];
    if prop.level == "model_checking" {
        cov.push(("states", nums(st.classes.len() as u64)));
        cov.push(("transitions", nums(st.steps)));
        cov.push(("traces_validated_against_impl", nums(st.nontrivial)));
    }
    cov.push(("evaluations", nums(st.evaluations)));
    cov.push(("distinct_nontrivial", nums(st.classes.len() as u64)));
    cov.push(("rule", J::s(prop.rule)));
    cov.push(("samples", J::Arr(st.samples.iter().map(|s| J::s(s)).collect())));
    cov.push(("families", fam));
    cov.push(("exhaustive", J::Bool(st.complete)));
    cov.push((
        "known_findings_seen",
        J::Arr(st.known.iter().map(|(k, v)| J::s(&format!("{k}: {} executions, e.g. {}", v.0, v.1.input))).collect()),
    ));
    let e = J::o(&[
        ("property", J::s(prop.id)),
        ("tier", J::s(tier())),
        ("seed", J::Num(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1).to_string())),
        ("level", J::s(prop.level)),
        ("coverage", J::o(&cov)),
        ("assumptions", J::Arr(prop.assumptions.iter().map(|s| J::s(s)).collect())),
        ("wall_s", J::Num(format!("{wall:.2}"))),
        ("violations", nums(violations as u64)),
    ]);
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", prop.id)), e.print() + "\n").unwrap();
}

fn slots_dir(id: &str) -> PathBuf {
    root().join("work").join(format!("slots-{id}"))
}

fn check_child(id: &str) -> i32 {
    let t0 = Instant::now();
    explore::install_panic_hook();
    let thorough = tier() == "thorough";
    let prop = props::get(id, thorough);
    let slots: &'static Slots = Box::leak(Box::new(Slots::new(&slots_dir(id), explore::THREADS)));
    let cap = if thorough { 3 * 3600 } else { 600 };
    let deadline = t0 + Duration::from_secs(std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap));
    let fams: &'static Vec<explore::Family> = Box::leak(Box::new(prop.families));
    let idc: &'static str = Box::leak(id.to_string().into_boxed_str());
    std::thread::spawn(move || {
        watchdog(slots, Duration::from_secs(90), |fi, p| {
            let f = &fams[fi];
            violation(
                idc,
                0,
                &Found {
                    family: f.name,
                    budget: f.budget,
                    choices: p,
                    used: 0,
                    what: "execution did not finish within 90 s".into(),
                    input: "(see replay)".into(),
                },
            );
            std::process::exit(1)
        })
    });
    let prop = props::Prop { families: vec![], ..prop };
    let mut st = Stats { complete: true, ..Default::default() };
    let only = std::env::var("MC_FAMILY").ok();
    for (i, f) in fams.iter().enumerate() {
        if only.as_deref().map(|o| o != f.name).unwrap_or(false) {
            continue;
        }
        let t = Instant::now();
        explore(i, f, slots, deadline, &mut st);
        let l = st.families.last().unwrap();
        println!(
            "{id} {}: {} executions, {} distinct outcomes, complete={} in {:.1}s",
            l.0,
            l.1,
            l.2,
            l.3,
            t.elapsed().as_secs_f64()
        );
    }
    let listed = findings();
    let mut bad = std::mem::take(&mut st.bad);
    for (k, v) in &st.known {
        match listed.iter().find(|f| f.0 == id && f.1 == *k) {
            Some(f) => println!("KNOWN-FINDING: property={id} {} ({} executions, e.g. {})", f.2, v.0, v.1.input),
            None => bad.push(Found { what: format!("unlisted finding {k}: {}", v.1.what), ..v.1.clone() }),
        }
    }
    bad.sort_by_key(|b| (b.used, b.input.len(), b.choices.clone()));
    let mut seen = BTreeSet::new();
    let mut shown = 0;
    let limit = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
    for b in &bad {
        // one report per distinct observation prefix, to keep the output readable
        let n = std::env::var("MC_KEY").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        let key: String = b.what.chars().take(n).collect();
        if shown < limit && seen.insert((b.family, key)) {
            shown += 1;
            violation(id, shown, b);
        }
    }
    if !st.complete {
        println!("note: a family was not explored completely (time cap or too many violations)");
    }
    println!(
        "{id}: {} executions, {} distinct outcomes, {} model steps, {} violations, {:.1}s",
        st.evaluations,
        st.classes.len(),
        st.steps,
        bad.len(),
        t0.elapsed().as_secs_f64()
    );
    evidence(&prop, &st, t0.elapsed().as_secs_f64(), bad.len());
    if bad.is_empty() {
        0
    } else {
        1
    }
}

fn check(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let dir = slots_dir(id);
    let _ = std::fs::create_dir_all(&dir);
    let run = |args: &[&str]| {
        // bounded memory: a runaway allocation aborts the child instead of the sandbox
        std::process::Command::new("sh")
            .arg("-c")
            .arg("ulimit -v 25000000; exec \"$0\" \"$@\"")
            .arg(&exe)
            .args(args)
            // the implementation prints warnings
            .stderr(if std::env::var("MC_STDERR").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
            .status()
            .unwrap()
    };
    let st = run(&["check-child", id]);
    if let Some(c) = st.code() {
        if c < 128 {
            return c;
        }
    }
    // The child died: find the execution that kills it.
    let sig = st.signal();
    let prop = props::get(id, tier() == "thorough");
    for w in 0..explore::THREADS {
        let Ok(s) = std::fs::read_to_string(dir.join(format!("slot{w}"))) else { continue };
        let s = s.split(';').next().unwrap_or("");
        let v: Vec<u32> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.is_empty() {
            continue;
        }
        let f = &prop.families[v[0] as usize];
        let found = Found {
            family: f.name,
            budget: f.budget,
            choices: v[1..].to_vec(),
            used: 0,
            what: format!("the process is killed (signal {sig:?}): stack overflow, abort or runaway memory"),
            input: "(see replay)".into(),
        };
        let p = write_replay(id, 100 + w, &found);
        let r = run(&["replay", p.to_str().unwrap()]);
        if r.code().map(|c| c >= 128).unwrap_or(true) {
            println!("VIOLATION property={id} replay={}", p.display());
            println!("  family: {}\n  {}", f.name, found.what);
            return 1;
        }
    }
    println!("check process died with {st:?}, and no single execution reproduces it");
    2
}

fn replay(path: &Path) -> i32 {
    explore::install_panic_hook();
    let j = J::parse(std::fs::read_to_string(path).unwrap().trim()).unwrap();
    let id = j.get("property").unwrap().as_str().unwrap().to_string();
    let thorough = j.get("tier").and_then(|t| t.as_str()) == Some("thorough");
    let fam = j.get("family").unwrap().as_str().unwrap().to_string();
    let choices: Vec<u32> = j
        .get("choices")
        .unwrap()
        .arrayify()
        .iter()
        .map(|c| c.print().parse().unwrap())
        .collect();
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let prop = props::get(&id, thorough);
        let f = prop.families.iter().find(|f| f.name == fam).expect("family");
        let (ch, r) = run_one(f, &choices, true);
        println!("input: {}", ch.desc);
        println!("{:?}", r.verdict);
        match r.verdict {
            V::Bad(_) => 1,
            _ => 0,
        }
    });
    h.unwrap().join().unwrap()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("check-child") => check_child(&a[2]),
        Some("replay") => replay(Path::new(&a[2])),
        Some("expand") => {
            let d = json::j(&a[2]);
            let case = imp::Case::new(d);
            let env = refm::Env::new(case.remotes.clone(), false);
            println!("ref : {:?}", refm::expand::expand_document(&env, &case.doc, case.base.as_deref(), None, false));
            println!("impl: {:?}", imp::expand(&case));
            0
        }
        Some("compact") => {
            let (c, d) = (json::j(&a[2]), json::j(&a[3]));
            let mut case = imp::Case::new(d);
            case.base = None;
            let o = refm::compact::COpts { arrays: true, relative: true, ordered: false };
            let env = refm::Env::new(case.remotes.clone(), false);
            println!("ref : {:?}", refm::compact::compact_document(&env, &case.doc, &c, Some("http://b.org/d/doc"), None, o));
            println!("impl: {:?}", imp::compact(&case, &c, Some("http://b.org/d/doc"), o));
            let active = refm::ctx::process(&env, &refm::ctx::Ctx::new(None), &c, &refm::ctx::Opts::base(None)).unwrap();
            println!("inv : {:?}", refm::compact::inverse(&active));
            0
        }
        _ => {
            eprintln!("usage: mc check <property> | mc replay <file>");
            2
        }
    };
    std::process::exit(code)
}
