//! `harness check <id>`: decides a property. `harness replay <file>`: repeats a failure.
use harness::{known, props, runner, sys};
use props::text::{sample_text, CHECKS};
use props::{Prop, ALL};
use runner::{CaseResult, Ctx, Facet, WORKERS};
use serde::Deserialize;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

const VERIF: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

fn env(name: &str) -> Option<String> {
    std::env::var(name).ok().filter(|s| !s.is_empty())
}

fn seed() -> u64 {
    env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn thorough() -> bool {
    env("VERIF_TIER").as_deref() == Some("thorough")
}

fn scale(id: &str) -> f64 {
    find(id).scale * env("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

fn find(id: &str) -> &'static Prop {
    ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

fn write(path: &Path, v: &Value) {
    std::fs::create_dir_all(path.parent().unwrap()).expect("create directory");
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n").expect("write file");
}

fn read_json(path: &Path) -> Option<Value> {
    // a failing case may be nested deeply
    let text = std::fs::read_to_string(path).ok()?;
    let mut json = serde_json::Deserializer::from_str(&text);
    json.disable_recursion_limit();
    Value::deserialize(&mut json).ok()
}

// ------------------------------------------------------------------ worker

fn regressions(id: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(Path::new(VERIF).join("regress").join(id))
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    v.retain(|p| p.extension().map_or(false, |e| e == "json"));
    v.sort();
    v
}

fn facet_of<'a>(facets: &'a [Facet], v: &Value) -> Option<&'a Facet> {
    let name = v["facet"].as_str()?;
    facets.iter().find(|f| f.name == name)
}

/// Runs everything and writes the outcome to `out`.
fn worker(id: &str, out: &Path, trace: Option<PathBuf>) {
    sys::install_panic_hook();
    let prop = find(id);
    let facets = (prop.facets)();
    let ctx = Ctx { prop: id.into(), seed: seed(), thorough: thorough(), trace: trace.clone(), scale: scale(id), start: Instant::now() };
    let mut violations: Vec<Value> = vec![];
    let mut broken: Vec<String> = vec![];
    let mut known: Vec<String> = vec![];
    let list = std::fs::read_to_string(Path::new(VERIF).join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    for p in known::PROBES.iter().filter(|p| p.property == id) {
        if let Err(e) = (p.holds)() {
            if list.lines().any(|l| l.starts_with(&format!("known: property={id} {} ", p.key))) {
                known.push(format!("{} {}", p.key, p.what));
            } else {
                violations.push(json!({"facet": "probe", "index": 0, "message": format!("{}: {e}", p.key), "case": p.key}));
            }
        }
    }
    let mut replayed = 0;
    for path in regressions(id) {
        let Some(v) = read_json(&path) else {
            broken.push(format!("{} is no JSON", path.display()));
            continue;
        };
        let Some(f) = facet_of(&facets, &v) else {
            broken.push(format!("{}: unknown facet", path.display()));
            continue;
        };
        if let Some(dir) = &trace {
            write(&dir.join("regress.json"), &json!({"facet": f.name, "case": v["case"]}));
        }
        replayed += 1;
        match (f.replay)(&v["case"]) {
            CaseResult::Held(_) => {}
            CaseResult::Violated(m) => violations.push(
                json!({"facet": f.name, "message": m, "case": v["case"], "file": path.to_string_lossy()}),
            ),
            CaseResult::Broken(m) => broken.push(format!("{}: {m}", path.display())),
        }
    }
    if let Some(dir) = &trace {
        let _ = std::fs::remove_file(dir.join("regress.json"));
    }
    let mut reports = vec![];
    if violations.is_empty() {
        for f in &facets {
            if let Some(only) = env("VERIF_FACET") {
                if only != f.name {
                    continue;
                }
            }
            let t = Instant::now();
            let r = (f.run)(&ctx);
            eprintln!("{id} {}: {} cases, {:.1} s", f.name, r.evaluations, t.elapsed().as_secs_f64());
            reports.push(json!({
                "name": r.name,
                "evaluations": r.evaluations,
                "nontrivial": r.nontrivial,
                "distinct_nontrivial": r.distinct.len(),
                "classes": r.classes,
                "samples": r.samples.iter().map(|(i, s)| json!({"facet": r.name, "index": i, "case": s})).collect::<Vec<_>>(),
                "shrink_steps": r.shrink_steps,
            }));
            if let Some(b) = r.broken {
                broken.push(format!("{}: {b}", r.name));
                break;
            }
            if let Some(v) = r.failure {
                violations.push(json!({"facet": v.facet, "index": v.index, "message": v.message, "case": v.case}));
                break;
            }
        }
    }
    write(
        out,
        &json!({"facets": reports, "violations": violations, "broken": broken, "known": known, "replayed": replayed}),
    );
}

/// Exit codes: 0 held, 10 violated, 2 broken; or it crashes.
fn worker_replay(id: &str, file: &Path) -> i32 {
    sys::install_panic_hook();
    let facets = (find(id).facets)();
    let v = read_json(file).expect("replay file");
    if v["facet"] == "probe" {
        for p in known::PROBES.iter().filter(|p| v["case"] == p.key) {
            if let Err(e) = (p.holds)() {
                println!("{e}");
                return 10;
            }
        }
        return 0;
    }
    let Some(f) = facet_of(&facets, &v) else {
        eprintln!("unknown facet");
        return 2;
    };
    match (f.replay)(&v["case"]) {
        CaseResult::Held(_) => 0,
        CaseResult::Violated(m) => {
            println!("{m}");
            10
        }
        CaseResult::Broken(m) => {
            eprintln!("{m}");
            2
        }
    }
}

// ------------------------------------------------------------------ parent

enum End {
    Exit(i32),
    Crash(String),
    Timeout,
}

fn crash_name(st: &ExitStatus, stderr: &str) -> Option<String> {
    if st.code() == Some(sys::RUNAWAY_EXIT) && stderr.contains(sys::RUNAWAY_MARK) {
        return Some("a single case allocated more than its budget (does not terminate?)".into());
    }
    if st.code() == Some(runner::HANG_EXIT) && stderr.contains("WATCHDOG") {
        return Some(format!("a single case does not end within {} s", runner::WATCHDOG_S));
    }
    match st.signal()? {
        6 if stderr.contains("overflowed its stack") => Some("stack overflow".into()),
        6 if stderr.contains("memory allocation of") => None,
        6 => Some("abort".into()),
        11 => Some("segmentation fault".into()),
        7 => Some("bus error".into()),
        4 => Some("illegal instruction".into()),
        _ => None,
    }
}

fn spawn(args: &[&str], limit: Duration, log: &Path) -> (End, String, String) {
    let out = log.with_extension("out");
    let err = log.with_extension("err");
    let mut child = Command::new(std::env::current_exe().expect("own path"))
        .args(args)
        .env("TZ", "Asia/Kolkata")
        .env_remove("RUST_BACKTRACE")
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&out).expect("log"))
        .stderr(std::fs::File::create(&err).expect("log"))
        .spawn()
        .expect("spawn worker");
    let start = Instant::now();
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if start.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let text = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let (o, e) = (text(&out), text(&err));
    let end = match status {
        None => End::Timeout,
        Some(s) => match crash_name(&s, &e) {
            Some(n) => End::Crash(n),
            None => End::Exit(s.code().unwrap_or(-1)),
        },
    };
    (end, o, e)
}

fn report(id: &str, v: &Value, reported: Option<&str>) {
    let path = match reported {
        Some(p) => PathBuf::from(p),
        None => {
            let f = v["facet"].as_str().unwrap_or("x").replace(' ', "-");
            let p = Path::new(VERIF).join(format!("work/replays/{id}-{f}-{}.json", v["index"]));
            write(
                &p,
                &json!({"property": id, "facet": v["facet"], "seed": seed(), "index": v["index"], "message": v["message"], "case": v["case"]}),
            );
            std::fs::canonicalize(&p).unwrap_or(p)
        }
    };
    let message = v["message"].as_str().unwrap_or("");
    println!("{id} is violated ({}): {}", v["facet"].as_str().unwrap_or(""), shorten(message));
    let case = v["case"].to_string();
    println!("case: {}", case.chars().take(3000).collect::<String>());
    println!("VIOLATION property={id} replay={}", path.display());
}

/// The beginning and the end of a long message.
fn shorten(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.len() <= 6000 {
        return s.to_string();
    }
    let piece = |c: &[char]| c.iter().collect::<String>();
    format!("{} [...] {}", piece(&c[..4000]), piece(&c[c.len() - 1500..]))
}

fn evidence(id: &str, r: &Value, wall: f64, extra: u64) {
    let prop = find(id);
    let empty = vec![];
    let facets = r["facets"].as_array().unwrap_or(&empty);
    let sum = |k: &str| facets.iter().map(|f| f[k].as_u64().unwrap_or(0)).sum::<u64>();
    let samples: Vec<&Value> = facets.iter().flat_map(|f| f["samples"].as_array().unwrap_or(&empty)).collect();
    let v = r["violations"].as_array().map_or(0, |v| v.len() as u64) + extra;
    let per: Vec<Value> = facets
        .iter()
        .map(|f| {
            let mut f = f.clone();
            f.as_object_mut().unwrap().remove("samples");
            f
        })
        .collect();
    write(
        &Path::new(VERIF).join(format!("evidence/{id}.json")),
        &json!({
            "property": id,
            "tier": if thorough() { "thorough" } else { "quick" },
            "seed": seed(),
            "level": "exploration",
            "coverage": {
                "evaluations": sum("evaluations"),
                "distinct_nontrivial": sum("distinct_nontrivial"),
                "rule": format!("Cases are drawn by proptest from the generators of each facet (a pure function of the seed). Non-trivial: {}. Distinct: by the serialised case.", prop.rule),
                "samples": samples,
                "facets": per,
                "replayed_regressions": r["replayed"],
                "known_findings": r["known"],
            },
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": v,
        }),
    );
}

fn check(id: &str) -> i32 {
    let start = Instant::now();
    let dir = Path::new(VERIF).join(format!("work/{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("work directory");
    let code = check_in(id, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn check_in(id: &str, dir: &Path, start: Instant) -> i32 {
    let limit = Duration::from_secs(if thorough() { 6 * 3600 } else { 780 });
    let result = dir.join("result.json");
    let r = result.to_string_lossy().into_owned();
    let (end, _, err) = spawn(&["worker", id, &r], limit, &dir.join("worker"));
    for l in err.lines().filter(|l| l.starts_with(id) || l.starts_with("WATCHDOG")) {
        eprintln!("{l}");
    }
    match end {
        End::Exit(0) => {
            let Some(v) = read_json(&result) else {
                eprintln!("the worker left no result");
                return 2;
            };
            let mut v = v;
            let clean = |k: &str| v[k].as_array().map_or(true, |a| a.is_empty());
            if thorough() && clean("violations") && clean("broken") {
                match guided(id, dir) {
                    Ok(None) => {}
                    Ok(Some((facet, violation))) => {
                        v["facets"].as_array_mut().expect("facets").push(facet);
                        v["violations"].as_array_mut().expect("violations").extend(violation);
                    }
                    Err(e) => v["broken"].as_array_mut().expect("broken").push(json!(format!("coverage-guided: {e}"))),
                }
            }
            evidence(id, &v, start.elapsed().as_secs_f64(), 0);
            for k in v["known"].as_array().into_iter().flatten() {
                println!("KNOWN-FINDING: property={id} {}", k.as_str().unwrap_or(""));
            }
            let violations = v["violations"].as_array().cloned().unwrap_or_default();
            for x in &violations {
                report(id, x, x["file"].as_str());
            }
            if !violations.is_empty() {
                return 1;
            }
            let broken = v["broken"].as_array().cloned().unwrap_or_default();
            for b in &broken {
                eprintln!("error of the check: {}", b.as_str().unwrap_or(""));
            }
            if !broken.is_empty() {
                return 2;
            }
            0
        }
        End::Crash(what) => crashed(id, dir, &what, limit, start),
        End::Timeout => {
            eprintln!("error of the check: no answer within {} s", limit.as_secs());
            2
        }
        End::Exit(c) => {
            eprintln!("error of the check: worker exits with {c}\n{}", err.chars().take(2000).collect::<String>());
            2
        }
    }
}

/// Coverage-guided search over texts, with the oracle of the facet of the same property.
fn guided(id: &str, dir: &Path) -> Result<Option<(Value, Option<Value>)>, String> {
    let (Some(check), Some(binary)) = (CHECKS.iter().find(|c| c.0 == id), env("VERIF_FUZZ")) else { return Ok(None) };
    let io = |e: std::io::Error| e.to_string();
    let runs = env("VERIF_FUZZ_RUNS").and_then(|s| s.parse().ok()).unwrap_or(400_000u64);
    let corpus = dir.join("corpus");
    std::fs::create_dir_all(&corpus).map_err(io)?;
    for i in 0..200 {
        std::fs::write(corpus.join(format!("seed-{i}")), sample_text(seed(), i)).map_err(io)?;
    }
    let mut jobs = vec![];
    for w in 0..WORKERS {
        let log = std::fs::File::create(dir.join(format!("guided-{w}.log"))).map_err(io)?;
        let child = Command::new(&binary)
            .arg(&corpus)
            .arg(format!("-runs={runs}"))
            .arg(format!("-seed={}", (seed().wrapping_mul(WORKERS) + w) % 1_000_000_007 + 1))
            .arg(format!("-artifact_prefix={}/crash-{w}-", dir.display()))
            .arg(format!("-dict={VERIF}/fuzz/dict.txt"))
            .args(["-max_len=1500", "-timeout=100", "-rss_limit_mb=3000", "-reload=1", "-print_final_stats=1", "-verbosity=1"])
            .env("FUZZ_ID", id)
            .env("FUZZ_STATS", dir.join(format!("stats-{w}.json")))
            .env("TZ", "Asia/Kolkata")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(log)
            .spawn()
            .map_err(io)?;
        jobs.push((w, child));
    }
    let begin = Instant::now();
    let mut bad = None;
    let mut broken = None;
    for (w, mut child) in jobs {
        let status = loop {
            if let Some(s) = child.try_wait().map_err(io)? {
                break Some(s);
            }
            if begin.elapsed() > Duration::from_secs(3 * 3600) || bad.is_some() {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(50));
        };
        if status.map_or(true, |s| s.success()) {
            continue;
        }
        let name = format!("crash-{w}-");
        let artifact = std::fs::read_dir(dir)
            .map_err(io)?
            .filter_map(|e| e.ok())
            .find(|e| e.file_name().to_string_lossy().starts_with(&name));
        match artifact {
            Some(a) if a.file_name().to_string_lossy().contains("crash-") && a.file_name().to_string_lossy()[name.len()..].starts_with("crash-") => {
                bad = Some(String::from_utf8_lossy(&std::fs::read(a.path()).map_err(io)?).into_owned());
            }
            _ => broken = Some(format!("worker {w} ended: see {}/guided-{w}.log", dir.display())),
        }
    }
    let mut facet = json!({"name": "coverage-guided", "evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "classes": {}, "samples": []});
    for w in 0..WORKERS {
        let s = read_json(&dir.join(format!("stats-{w}.json"))).unwrap_or_default();
        let n = |v: &Value| v.as_u64().unwrap_or(0);
        facet["evaluations"] = json!(n(&facet["evaluations"]) + n(&s["texts"]));
        for k in ["nontrivial", "distinct_nontrivial"] {
            facet[k] = json!(n(&facet[k]) + n(&s["distinct_nontrivial"]));
        }
        for (k, c) in s["classes"].as_object().into_iter().flatten() {
            facet["classes"][k] = json!(n(&facet["classes"][k]) + n(c));
        }
    }
    let mut found: Vec<PathBuf> = std::fs::read_dir(&corpus).map_err(io)?.filter_map(|e| e.ok().map(|e| e.path())).collect();
    found.retain(|p| !p.file_name().map_or(false, |n| n.to_string_lossy().starts_with("seed-")));
    found.sort();
    facet["corpus"] = json!(found.len());
    facet["samples"] = found
        .iter()
        .step_by(found.len() / 3 + 1)
        .map(|p| json!({"facet": "coverage-guided", "case": String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).chars().take(700).collect::<String>()}))
        .collect();
    eprintln!("{id} coverage-guided: {} texts, {:.0} s", facet["evaluations"], begin.elapsed().as_secs_f64());
    let Some(text) = bad else {
        return match broken {
            Some(b) => Err(b),
            None => Ok(Some((facet, None))),
        };
    };
    // confirm and shrink
    let judge = |text: &str| -> Option<String> {
        let p = dir.join("candidate.json");
        write(&p, &json!({"facet": check.1, "case": text}));
        let s = p.to_string_lossy().into_owned();
        match spawn(&["worker-replay", id, &s], Duration::from_secs(60), &dir.join("candidate")) {
            (End::Exit(10), out, _) => Some(out.trim().to_string()),
            (End::Crash(n), _, _) => Some(format!("the process dies: {n}")),
            _ => None,
        }
    };
    let Some(mut message) = judge(&text) else { return Err(format!("not confirmed: {text:?}")) };
    let mut best: Vec<char> = text.chars().collect();
    let begin = Instant::now();
    let mut step = best.len() / 2;
    while step > 0 {
        let mut at = 0;
        while at < best.len() && begin.elapsed() < Duration::from_secs(120) {
            let mut c = best.clone();
            c.drain(at..(at + step).min(c.len()));
            match judge(&c.iter().collect::<String>()) {
                Some(m) => (best, message) = (c, m),
                None => at += step,
            }
        }
        step /= 2;
    }
    let case = best.iter().collect::<String>();
    Ok(Some((facet, Some(json!({"facet": check.1, "index": "guided", "message": message, "case": case})))))
}

/// The process died. Find the case that does it.
fn crashed(id: &str, dir: &Path, what: &str, limit: Duration, start: Instant) -> i32 {
    eprintln!("the worker crashed ({what}), looking for the case");
    let tdir = dir.join("trace");
    std::fs::create_dir_all(&tdir).expect("trace directory");
    let r = dir.join("traced.json").to_string_lossy().into_owned();
    let t = tdir.to_string_lossy().into_owned();
    let left = limit.saturating_sub(start.elapsed());
    let (end, _, _) = spawn(&["worker", id, &r, &t], left, &dir.join("traced"));
    if !matches!(end, End::Crash(_)) {
        eprintln!("error of the check: the crash does not come again");
        return 2;
    }
    let mut files: Vec<PathBuf> = std::fs::read_dir(&tdir).expect("trace").filter_map(|e| e.ok().map(|e| e.path())).collect();
    files.sort();
    let facets = (find(id).facets)();
    for f in files {
        let Some(v) = read_json(&f) else { continue };
        let crash_of = |case: &Value| -> Option<String> {
            let p = dir.join("candidate.json");
            write(&p, &json!({"facet": v["facet"], "case": case}));
            let s = p.to_string_lossy().into_owned();
            let (end, out, _) = spawn(&["worker-replay", id, &s], Duration::from_secs(40), &dir.join("candidate"));
            match end {
                End::Crash(n) => Some(format!("the process dies: {n}")),
                End::Timeout => Some("the process dies: does not end within 40 s".into()),
                // not quite deadly on its own, but wrong all the same
                End::Exit(10) => Some(out.trim().to_string()),
                _ => None,
            }
        };
        let Some(message) = crash_of(&v["case"]) else { continue };
        let Some(facet) = facet_of(&facets, &v) else { continue };
        let mut case = v["case"].clone();
        if let Some(index) = v["index"].as_u64() {
            let ctx = Ctx { prop: id.into(), seed: seed(), thorough: thorough(), trace: None, scale: scale(id), start: Instant::now() };
            let begin = Instant::now();
            case = (facet.shrink_with)(&ctx, index, &mut |c| {
                begin.elapsed() < Duration::from_secs(90) && crash_of(c).is_some()
            });
            if crash_of(&case).is_none() {
                case = v["case"].clone();
            }
        }
        let v = json!({"facet": v["facet"], "index": v["index"], "message": message, "case": case});
        evidence(
            id,
            &json!({"facets": [{"name": facet.name, "evaluations": v["index"].as_u64().unwrap_or(0) + 1, "distinct_nontrivial": 0,
                "samples": [{"facet": facet.name, "index": v["index"], "case": case.to_string()}]}], "replayed": 0, "known": []}),
            start.elapsed().as_secs_f64(),
            1,
        );
        report(id, &v, None);
        return 1;
    }
    eprintln!("error of the check: no single case crashes");
    2
}

fn replay(file: &Path) -> i32 {
    let v = read_json(file).unwrap_or_else(|| {
        eprintln!("cannot read {}", file.display());
        std::process::exit(2)
    });
    let id = v["property"].as_str().unwrap_or("").to_string();
    let dir = Path::new(VERIF).join(format!("work/replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("work directory");
    let f = file.to_string_lossy().into_owned();
    let (end, out, err) = spawn(&["worker-replay", &id, &f], Duration::from_secs(300), &dir.join("replay"));
    let _ = std::fs::remove_dir_all(&dir);
    print!("{out}");
    match end {
        End::Exit(0) => {
            println!("{id} holds for this case");
            0
        }
        End::Exit(10) => {
            println!("VIOLATION property={id} replay={f}");
            1
        }
        End::Crash(n) => {
            println!("the process dies: {n}");
            println!("VIOLATION property={id} replay={f}");
            1
        }
        _ => {
            eprint!("{err}");
            2
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(String::as_str);
    let code = match (a(1), a(2), a(3), a(4)) {
        (Some("check"), Some(id), None, None) => check(find(id).id),
        (Some("replay"), Some(f), None, None) => replay(Path::new(f)),
        (Some("worker"), Some(id), Some(out), trace) => {
            worker(id, Path::new(out), trace.map(PathBuf::from));
            0
        }
        (Some("worker-replay"), Some(id), Some(f), None) => worker_replay(id, Path::new(f)),
        (Some("print-case"), None, None, None) => {
            props::builder::print_case();
            0
        }
        (Some("uids-case"), None, None, None) => {
            props::builder::uids_case();
            0
        }
        (Some("list"), None, None, None) => {
            for p in ALL {
                let f: Vec<&str> = (p.facets)().iter().map(|f| f.name).collect();
                println!("{} {}", p.id, f.join(", "));
            }
            0
        }
        _ => {
            eprintln!("usage: harness check <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
