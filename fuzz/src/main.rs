//! Coverage-guided search with the oracles for texts (harness/src/props/text.rs).
//! FUZZ_ID selects the property, FUZZ_STATS is where the counts go.
#![no_main]
use harness::{props::text::CHECKS, runner::{run_case, CaseResult}, sys};
use libfuzzer_sys::fuzz_target;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::{Mutex, OnceLock};

#[derive(Default)]
struct Stats {
    runs: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
}

static STATS: Mutex<Option<Stats>> = Mutex::new(None);

fn check() -> fn(&str) -> harness::runner::Verdict {
    static CHECK: OnceLock<fn(&str) -> harness::runner::Verdict> = OnceLock::new();
    *CHECK.get_or_init(|| {
        sys::install_panic_hook();
        let id = std::env::var("FUZZ_ID").expect("FUZZ_ID");
        CHECKS.iter().find(|c| c.0 == id).expect("a property with an oracle for texts").2
    })
}

fn save(s: &Stats) {
    let Ok(path) = std::env::var("FUZZ_STATS") else { return };
    let classes: Vec<String> = s.classes.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    let _ = std::fs::write(
        path,
        format!(
            "{{\"texts\": {}, \"distinct_nontrivial\": {}, \"classes\": {{{}}}}}\n",
            s.runs,
            s.nontrivial.len(),
            classes.join(", ")
        ),
    );
}

fuzz_target!(|data: &[u8]| {
    let check = check();
    let text = String::from_utf8_lossy(data);
    let mut violated = None;
    let mut info = None;
    let f = move |t: &String| check(t);
    match run_case(&f, &text.to_string(), harness::runner::seed_of_text(&text)) {
        CaseResult::Held(i) => info = Some(i),
        CaseResult::Violated(m) | CaseResult::Broken(m) => violated = Some(m),
    }
    {
        let mut s = STATS.lock().unwrap();
        let s = s.get_or_insert_with(Stats::default);
        s.runs += 1;
        if let Some(i) = info {
            if i.nontrivial {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                text.hash(&mut h);
                s.nontrivial.insert(h.finish());
            }
            for c in i.classes {
                *s.classes.entry(c).or_default() += 1;
            }
        }
        if s.runs % 4096 == 0 || violated.is_some() {
            save(s);
        }
    }
    if let Some(m) = violated {
        eprintln!("ORACLE: {m}");
        std::process::abort();
    }
});
