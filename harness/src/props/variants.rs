//! C27: the same recipe in other builds of the crate, and in another environment.
use super::text::any_text;
use crate::gen::*;
use crate::recipe::*;
use crate::runner::{facet, Facet, Info, Verdict};
use crate::{ensure, ensure_eq, strict};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

static IDLE: Mutex<Option<HashMap<&'static str, Vec<Server>>>> = Mutex::new(None);

/// Builds without overflow checks and debug assertions, and where they run.
const VARIANTS: &[(&str, &[(&str, &str)], &str)] = &[
    ("none", &[("TZ", "America/St_Johns"), ("LC_ALL", "tr_TR.UTF-8"), ("LANG", "tr_TR.UTF-8")], "/"),
    ("parser", &[("TZ", "Pacific/Apia"), ("LC_ALL", "C")], "/tmp"),
    ("tz", &[("TZ", "UTC0"), ("HOME", "/nonexistent")], "/usr"),
    ("parser,serde", &[], "/"),
];

fn program(name: &str) -> String {
    format!("{}/../variants/target/bin/{name}", env!("CARGO_MANIFEST_DIR"))
}

fn start(name: &str, env: &[(&str, &str)], dir: &str) -> Server {
    let path = program(name);
    let mut child = Command::new(&path)
        .env_clear()
        .envs(env.iter().copied())
        .current_dir(dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("{path}: {e}"));
    let (to, from) = (child.stdin.take().expect("pipe"), BufReader::new(child.stdout.take().expect("pipe")));
    Server { child, to, from }
}

type Answer = Result<Seen, (String, String)>;

fn ask(variant: &(&'static str, &[(&str, &str)], &str), recipe: &str) -> Result<Answer, String> {
    let idle = IDLE.lock().expect("pool").get_or_insert_with(HashMap::new).entry(variant.0).or_default().pop();
    let mut s = idle.unwrap_or_else(|| start(variant.0, variant.1, variant.2));
    let mut line = String::new();
    let sent = writeln!(s.to, "{recipe}").and_then(|_| s.to.flush()).and_then(|_| s.from.read_line(&mut line));
    if sent.is_err() || line.is_empty() {
        let end = s.child.wait().map_or_else(|e| e.to_string(), |e| e.to_string());
        return Err(format!("[{}] the process dies: {end}", variant.0));
    }
    let mut json = serde_json::Deserializer::from_str(&line);
    json.disable_recursion_limit();
    let answer = serde::Deserialize::deserialize(&mut json).expect("answer");
    IDLE.lock().expect("pool").get_or_insert_with(HashMap::new).entry(variant.0).or_default().push(s);
    Ok(answer)
}

/// Regardless of the order of parameters, which is not specified.
fn any_order(s: &str) -> Vec<Vec<char>> {
    let sorted = |l: &str| {
        let mut c: Vec<char> = l.chars().collect();
        c.sort();
        c
    };
    strict::ref_unfold(s).split('\n').map(sorted).collect()
}

fn same(variant: &str, got: &[(String, String)], want: &[(String, String)]) -> Result<(), String> {
    let names = |l: &[(String, String)]| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
    ensure_eq!(names(got), names(want), "[{variant}] what there is to see");
    for ((name, g), (_, w)) in got.iter().zip(want) {
        ensure!(
            g == w || any_order(g) == any_order(w),
            "[{variant}] {name} depends on the build or the environment\n there: {g:?}\n here:  {w:?}"
        );
    }
    Ok(())
}

fn c27(r: &Recipe) -> Verdict {
    let text = serde_json::to_string(r).expect("recipe");
    crate::sys::enter_case(r.seed, 1 << 30);
    let here = perform(r);
    crate::sys::enter_case(r.seed, 1 << 30);
    // features with which the crate does not compile are left out (run.sh says so)
    let built = || VARIANTS.iter().filter(|v| std::path::Path::new(&program(v.0)).exists());
    assert!(built().count() > 0, "run variants/build.sh first");
    for v in built() {
        let there = ask(v, &text)?.map_err(|(at, what)| format!("[{}] panicked at {at}: {what}", v.0))?;
        same(v.0, &there.base, &here.base)?;
        ensure_eq!(there.parser.is_some(), v.0.contains("parser"), "[{}] reading", v.0);
        if let (Some(g), Some(w)) = (&there.parser, &here.parser) {
            same(v.0, g, w)?;
        }
        if let (Some(g), Some(w)) = (&there.zones, &here.zones) {
            same(v.0, g, w)?;
        }
    }
    let read = here.parser.iter().flatten().any(|(k, _)| k == "given: parsed");
    let zones = here.zones.iter().flatten().any(|(_, v)| v.starts_with("Some"));
    Ok(Info::new(r.comps.len() > 1 || read).class("text accepted", read).class("times converted", zones))
}

fn at() -> BoxedStrategy<i64> {
    prop_oneof![3 => 0i64..4_102_444_800, 1 => -62_135_596_800i64..253_402_300_800].boxed()
}

fn r_when() -> BoxedStrategy<RWhen> {
    let zone = prop_oneof![
        4 => select(vec!["Europe/Berlin", "America/New_York", "Pacific/Apia", "UTC", "Asia/Kolkata", "Australia/Lord_Howe", "EST"])
            .prop_map(str::to_string),
        2 => select(vec!["", "Nowhere/Land", "europe/berlin", "W. Europe Standard Time", "/example.org/Zone"]).prop_map(str::to_string),
        1 => param_value(),
    ];
    prop_oneof![
        (-719_162i64..2_932_896).prop_map(RWhen::Date),
        at().prop_map(RWhen::Floating),
        at().prop_map(RWhen::Utc),
        (at(), zone).prop_map(|(s, z)| RWhen::Zoned(s, z)),
    ]
    .boxed()
}

fn r_params() -> BoxedStrategy<Vec<(String, String)>> {
    prop_oneof![
        4 => Just(vec![]),
        3 => (param_key(), param_value()).prop_map(|p| vec![p]),
        1 => value_decl().prop_map(|v| vec![("VALUE".to_string(), v)]),
        1 => params(3),
    ]
    .boxed()
}

fn some_value() -> BoxedStrategy<String> {
    prop_oneof![2 => text(), 2 => raw_value(), 1 => super::total::odd_value()].boxed()
}

fn seconds() -> BoxedStrategy<i64> {
    prop_oneof![3 => -200_000i64..200_000, 1 => -100_000_000_000i64..100_000_000_000, 1 => (-40i64..40).prop_map(|d| d * 86_400)].boxed()
}

fn r_op() -> BoxedStrategy<ROp> {
    prop_oneof![
        4 => (any_name(), some_value(), r_params()).prop_map(|(k, v, p)| ROp::Prop(k, v, p)),
        2 => (any_name(), some_value(), r_params()).prop_map(|(k, v, p)| ROp::Multi(k, v, p)),
        4 => (0u8..36, text()).prop_map(|(w, s)| ROp::Text(w, s)),
        2 => (0u8..6, prop_oneof![0u32..12, any::<u32>()]).prop_map(|(w, n)| ROp::Number(w, n)),
        4 => (0u8..12, r_when()).prop_map(|(w, d)| ROp::When(w, d)),
        1 => (option::of(text()), seconds(), 0u8..5, option::of((seconds(), any::<u32>()))).prop_map(|(t, s, r, n)| ROp::Alarm(t, s, r, n)),
        1 => (option::of(text()), r_when()).prop_map(|(t, w)| ROp::AlarmAt(t, w)),
        1 => (text(), param_value()).prop_map(|(l, id)| ROp::Venue(l, id)),
        1 => Just(ROp::Take),
    ]
    .boxed()
}

fn r_comp() -> BoxedStrategy<RComp> {
    let one = |children: BoxedStrategy<Vec<RComp>>| {
        (0u8..3, vec(r_op(), 0..8), children).prop_map(|(kind, ops, children)| RComp { kind, ops, children }).boxed()
    };
    let leaf = one(Just(vec![]).boxed());
    let mid = one(vec(leaf.clone(), 0..3).boxed());
    prop_oneof![4 => leaf, 1 => mid.clone(), 1 => one(vec(mid, 0..2).boxed())].boxed()
}

/// Nested about as deeply as is allowed, or many times as deeply.
fn deep_text() -> BoxedStrategy<String> {
    (prop_oneof![3 => 55usize..75, 1 => magnitude(20_000)], any_name(), text(), any::<bool>())
        .prop_map(|(n, name, v, closed)| {
            let v = v.replace('\\', "\\\\").replace(['\n', '\r'], "\\n");
            let end = if closed { "END:VEVENT\r\n".repeat(n) } else { String::new() };
            format!("{}{name}:{v}\r\n{end}", "BEGIN:VEVENT\r\n".repeat(n))
        })
        .boxed()
}

fn recipe() -> BoxedStrategy<Recipe> {
    let read = prop_oneof![12 => any_text(), 1 => deep_text()];
    (
        (any::<u64>(), any::<bool>(), vec((any_name(), some_value(), r_params()), 0..3)),
        (option::of(text()), option::of(seconds()), vec(r_comp(), 0..4), any::<u8>(), read),
    )
        .prop_map(|((seed, empty, props), (name, ttl, comps, how, text))| Recipe { seed, empty, props, name, ttl, comps, how, text })
        .boxed()
}

pub fn c27_facets() -> Vec<Facet> {
    vec![facet("recipe", 12_000, 250_000, recipe, c27)]
}
