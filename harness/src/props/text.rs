//! Oracles for any text whatsoever: what is accepted is accepted for good.
//! They are driven by generated texts here and by coverage-guided fuzzing in ../../fuzz.
use super::docs::{agree, c09_soup, doc, mutant, typed, LENIENT};
use super::total::{c05_string, soup};
use crate::gen::*;
use crate::model::*;
use crate::runner::{facet, Facet, Info, Verdict};
use crate::strict;
use crate::{ensure, ensure_eq};
use icalendar::{parser, Calendar, CalendarComponent};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::str::FromStr;

fn accepted(ok: bool, nontrivial: bool) -> Verdict {
    Ok(Info::new(ok && nontrivial).class("accepted", ok).class("rejected", !ok))
}

fn sizes(list: &[parser::Component]) -> (usize, usize) {
    list.iter().fold((0, 0), |(c, p), x| {
        let (a, b) = sizes(&x.components);
        (c + 1 + a, p + x.properties.len() + b)
    })
}

fn nontrivial(list: &[parser::Component]) -> bool {
    let (c, p) = sizes(list);
    c >= 1 && p >= 1
}

/// C04: loading and saving what was accepted.
pub fn load_and_save(text: &str) -> Verdict {
    let Ok(a) = Calendar::from_str(text) else { return accepted(false, false) };
    // parameters may not repeat; which of them counts is not specified
    fn repeats(c: &parser::Component) -> bool {
        c.properties.iter().any(|p| unique(p.params.iter().collect(), |q| q.key.as_str()).len() < p.params.len())
            || c.components.iter().any(repeats)
    }
    if parser::read_components(&parser::unfold(text)).map_or(false, |l| l.iter().any(repeats)) {
        return accepted(false, false);
    }
    let s1 = a.to_string();
    let b = typed(&s1).map_err(|e| format!("what was written is not accepted: {e}\ninput: {text:?}"))?;
    ensure_eq!(cal_props(&b), cal_props(&a), "calendar properties\ninput: {text:?}\nwritten: {s1:?}");
    ensure_eq!(b.components.len(), a.components.len(), "components\ninput: {text:?}\nwritten: {s1:?}");
    for (a, b) in a.components.iter().zip(&b.components) {
        same_component(&flat(b), &flat(a), "").map_err(|e| format!("{e}\ninput: {text:?}\nwritten: {s1:?}"))?;
    }
    let s2 = b.to_string();
    let c = typed(&s2).map_err(|e| format!("second generation: {e}\ninput: {text:?}"))?;
    ensure!(c == b, "the calendar drifts\ninput: {text:?}\nwritten: {s1:?}\nwritten again: {s2:?}");
    accepted(true, !a.components.is_empty())
}

/// C06: what an independent reader understands is understood in the same way.
pub fn like_reference(text: &str) -> Verdict {
    let Ok(want) = strict::read_any_layout(text) else { return accepted(false, false) };
    fn known(c: &strict::SComp, depth: usize) -> bool {
        depth > 60
            || c.props.iter().any(|p| p.params.iter().any(|(k, v)| v.len() > 1 || k != "VALUE" && k.eq_ignore_ascii_case("VALUE")))
            || c.children.iter().any(|c| known(c, depth + 1))
    }
    if want.is_empty()
        || want.iter().any(|c| known(c, 0))
        || (want.len() > 1 && want[0].name == "VCALENDAR")
        // line breaks of other systems
        || text.contains('\r') && text.replace("\r\n", "\n").contains('\r')
    {
        return accepted(false, false);
    }
    let u = parser::unfold(text);
    let got = parser::read_components(&u).map_err(|e| format!("a well-formed text is rejected: {e}\ninput: {text:?}"))?;
    let same = same_list(&got, &want);
    same.map_err(|e| format!("{e}\ninput: {text:?}"))?;
    accepted(true, nontrivial(&got))
}

fn same_list(got: &[parser::Component], want: &[strict::SComp]) -> Result<(), String> {
    ensure_eq!(
        got.iter().map(|c| c.name.as_str()).collect::<Vec<_>>(),
        want.iter().map(|c| c.name.as_str()).collect::<Vec<_>>(),
        "components"
    );
    for (g, w) in got.iter().zip(want) {
        ensure_eq!(
            g.properties.iter().map(|c| c.name.as_str()).collect::<Vec<_>>(),
            w.props.iter().map(|c| c.name.as_str()).collect::<Vec<_>>(),
            "properties of {}", w.name
        );
        for (g, w) in g.properties.iter().zip(&w.props) {
            let params: Vec<(&str, &str)> =
                g.params.iter().map(|p| (p.key.as_str(), p.val.as_ref().map_or("", |v| v.as_str()))).collect();
            let want: Vec<(&str, &str)> = w.params.iter().map(|(k, v)| (k.as_str(), v[0].as_str())).collect();
            ensure_eq!(params, want, "parameters of {w:?}");
            let decl = w.params.iter().find(|p| p.0 == "VALUE").map(|p| p.1[0].as_str());
            if effective_type(&w.name, decl) == Some("TEXT") {
                // only escapes that mean something
                if let Ok(t) = strict::unescape(&w.raw) {
                    ensure_eq!(g.val.as_str(), t, "text of {w:?}");
                }
            } else if rfc_type(&w.name.to_uppercase()).is_none() || !w.raw.contains('\\') {
                ensure_eq!(g.val.as_str(), w.raw, "value of {w:?}");
            }
        }
        same_list(&g.components, &w.children)?;
    }
    Ok(())
}

/// C07: line ends and blank lines do not matter for what is accepted.
pub fn any_layout(text: &str) -> Verdict {
    let read = |t: &str| parser::read_components(&parser::unfold(t)).map(parser_owned);
    let Ok(want) = read(text) else { return accepted(false, false) };
    let u = strict::ref_unfold(text);
    if stub(text) || u.replace("\r\n", "\n").contains('\r') {
        return accepted(false, false);
    }
    let lines: Vec<&str> = u.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).filter(|l| !l.is_empty()).collect();
    let last = lines.last().copied().unwrap_or("");
    let variants = [
        lines.join("\n"),
        lines.join("\r\n"),
        lines.join("\r\n") + "\r\n",
        lines.join("\n\n") + "\n\r\n",
        format!("\n{}\n", lines.join("\r\n\n\r\n")),
        lines.iter().map(|l| fold_at(l, 1) + "\n").collect(),
        lines.iter().map(|l| fold_at(l, 7) + "\r\n").collect(),
    ];
    for v in variants {
        // a line that begins with a blank would become a continuation
        if lines.iter().any(|l| l.starts_with([' ', '\t'])) {
            break;
        }
        let got = read(&v).map_err(|e| format!("not accepted in another layout: {e}\ninput: {text:?}\nlayout: {v:?}"))?;
        ensure_eq!(got, want, "input: {text:?}\nlayout: {v:?}");
    }
    accepted(true, nontrivial_owned(&want) && !last.is_empty())
}

fn fold_at(l: &str, every: usize) -> String {
    l.chars().enumerate().map(|(i, c)| if i > 0 && i % every == 0 { format!("\r\n {c}") } else { c.to_string() }).collect()
}

type Owned = serde_json::Value;

fn parser_owned(l: Vec<parser::Component>) -> Owned {
    serde_json::to_value(l).unwrap()
}

fn nontrivial_owned(v: &Owned) -> bool {
    v.as_array().map_or(false, |a| a.iter().any(|c| c["properties"].as_array().map_or(false, |p| !p.is_empty())))
}

/// A BEGIN without a name at the very end is taken for nothing (a test of the library says so).
fn stub(text: &str) -> bool {
    strict::ref_unfold(text).trim_end().lines().last().map_or(false, |l| l.trim().eq_ignore_ascii_case("BEGIN:"))
}

/// C08: every content line of an accepted text is in the model.
pub fn nothing_lost(text: &str) -> Verdict {
    let u = parser::unfold(text);
    let Ok(list) = parser::read_components(&u) else { return accepted(false, false) };
    let lines = u.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).filter(|l| !l.trim().is_empty()).count();
    let lines = lines - stub(text) as usize;
    let (c, p) = sizes(&list);
    // a CR of its own is no line ending, but ends some lines for the library
    let bare_cr = u.replace("\r\n", "\n").contains('\r');
    ensure!(bare_cr || 2 * c + p == lines, "{} content lines of {lines} are in the model\ninput: {text:?}\nread as: {list:?}", 2 * c + p);
    if let Ok(cal) = parser::read_calendar(&u) {
        let (cc, cp) = sizes(&cal.components);
        let is_cal = list.first().map_or(false, |c| c.name == "VCALENDAR");
        ensure_eq!(
            (cc + is_cal as usize, cp + if is_cal { cal.properties.len() } else { 0 }),
            (c, p),
            "components and properties of the calendar\ninput: {text:?}"
        );
        let t = Calendar::from(cal);
        let fl: Vec<FlatComp> = t.components.iter().map(flat).collect();
        fn total(f: &FlatComp) -> (usize, usize) {
            f.children.iter().map(total).fold((1, f.props.values().map(Vec::len).sum()), |a, b| (a.0 + b.0, a.1 + b.1))
        }
        let (tc, tp) = fl.iter().map(total).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
        let tp = tp + if is_cal { t.properties.len() } else { 0 };
        ensure_eq!((tc + is_cal as usize, tp), (c, p), "components and properties of the typed calendar\ninput: {text:?}");
    }
    accepted(true, nontrivial(&list))
}

/// C11: what was accepted is written as something that is read as the same.
pub fn rewritten(text: &str) -> Verdict {
    let u = parser::unfold(text);
    let Ok(list) = parser::read_components(&u) else { return accepted(false, false) };
    let ok = nontrivial(&list);
    let holder = parser::Calendar { properties: vec![], components: list };
    let w = holder.to_string();
    let wu = parser::unfold(&w);
    let back = parser::read_calendar(&wu).map_err(|e| format!("what is written is not accepted: {e}\ninput: {text:?}\nwritten: {w:?}"))?;
    ensure_eq!(back.components, holder.components, "input: {text:?}\nwritten: {w:?}");
    ensure_eq!(back.to_string(), w, "written once more\ninput: {text:?}");
    if let Ok(cal) = parser::read_calendar(&u) {
        let w = cal.to_string();
        let wu = parser::unfold(&w);
        let back = parser::read_calendar(&wu).map_err(|e| format!("what is written is not accepted: {e}\ninput: {text:?}\nwritten: {w:?}"))?;
        ensure_eq!(back.components, cal.components, "components\ninput: {text:?}\nwritten: {w:?}");
        ensure_eq!(back.properties, cal.properties, "properties\ninput: {text:?}\nwritten: {w:?}");
    }
    accepted(true, ok)
}

/// C20: what was accepted survives JSON.
pub fn json(text: &str) -> Verdict {
    let u = parser::unfold(text);
    let Ok(cal) = parser::read_calendar(&u) else { return accepted(false, false) };
    let j = serde_json::to_string(&cal).map_err(|e| e.to_string())?;
    let back: parser::Calendar = serde_json::from_str(&j).map_err(|e| format!("{e}\ninput: {text:?}\njson: {j}"))?;
    ensure_eq!(back.properties, cal.properties, "calendar properties\ninput: {text:?}");
    ensure_eq!(back.components, cal.components, "components\ninput: {text:?}");
    ensure_eq!(back.to_string(), cal.to_string(), "written\ninput: {text:?}");
    let value = serde_json::to_value(&cal).map_err(|e| e.to_string())?;
    let back: parser::Calendar = serde_json::from_value(value).map_err(|e| format!("{e}\ninput: {text:?}\njson: {j}"))?;
    ensure_eq!(back.components, cal.components, "components through a value\ninput: {text:?}");
    accepted(true, nontrivial(&cal.components))
}

/// C21: all entry points agree.
pub fn agreement(text: &str) -> Verdict {
    let ok = agree(text)?;
    // as a component: like the first of a list with one element
    let u = parser::unfold(text);
    let single = CalendarComponent::from_str(text);
    if let (Ok(list), true) = (parser::read_components(&u), single.is_ok()) {
        ensure_eq!(list.len(), 1, "components of an accepted single component\ninput: {text:?}");
        ensure!(single == Ok(CalendarComponent::from(list[0].clone())), "as a single component: {single:?}\ninput: {text:?}");
    }
    Ok(Info::new(true).class("accepted", ok).class("rejected", !ok))
}

fn c05(text: &str) -> Verdict {
    c05_string(&text.to_string())
}

fn c09(text: &str) -> Verdict {
    c09_soup(&text.to_string())
}

/// Property, name of the facet that takes the text, oracle.
#[allow(clippy::type_complexity)]
pub const CHECKS: &[(&str, &str, fn(&str) -> Verdict)] = &[
    ("C04", "any document", load_and_save),
    ("C05", "any string", c05),
    ("C06", "any document", like_reference),
    ("C07", "any document", any_layout),
    ("C08", "any document", nothing_lost),
    ("C09", "any text", c09),
    ("C11", "any document", rewritten),
    ("C20", "any document", json),
    ("C21", "any document", agreement),
];

/// Well-formed documents, more or less damaged, and token soup.
pub fn any_text() -> BoxedStrategy<String> {
    let framed = vec(
        prop_oneof![
            3 => super::docs::garbage_line(),
            3 => crate::doc::any_d_prop(LENIENT).prop_map(|p| p.line()),
            1 => proptest::sample::select(vec!["BEGIN:X", "END:X", "BEGIN:VEVENT", "END:VEVENT", "", " ", "\t", "\r", "end:x", "Begin:x"])
                .prop_map(String::from),
        ],
        0..4,
    )
    .prop_map(|l| format!("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\n{}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n", l.join("\r\n")));
    let bits = || {
        let bit = proptest::sample::select(vec![
            " ", "\t", "\r", "\n", "\r\n", "\u{feff}", "\0", "\u{1a}", "\u{a0}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "x", "X:1", "END:VCALENDAR",
            "END:VEVENT", "BEGIN:VCALENDAR", "BEGIN:", ":", "\\",
        ]);
        prop_oneof![2 => Just(String::new()), 3 => vec(bit, 0..4).prop_map(|v| v.concat())]
    };
    // odd things in front of or behind a whole document
    let edges = (prop_oneof![1 => doc(LENIENT).prop_map(|d| d.text()), 2 => mutant().prop_map(|m| m.plain())], bits(), bits(), any::<bool>()).prop_map(
        |(t, front, back, trim)| {
            let t = if trim { t.trim_end_matches(['\r', '\n']) } else { &t };
            format!("{front}{t}{back}")
        },
    );
    prop_oneof![
        5 => mutant().prop_map(|m| m.text()),
        5 => super::real::real_text(),
        2 => edges,
        3 => framed,
        1 => soup(),
        1 => doc(LENIENT).prop_map(|d| d.text()),
    ]
    .boxed()
}

pub fn any_document(id: &str, quick: u64, thorough: u64) -> Facet {
    let (_, name, check) = *CHECKS.iter().find(|c| c.0 == id).expect("an oracle for texts");
    facet(name, quick, thorough, any_text, move |s: &String| check(s))
}

/// One of the generated texts, to begin the coverage-guided search with.
pub fn sample_text(seed: u64, index: u64) -> String {
    use proptest::strategy::{Strategy, ValueTree};
    use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
    let mut s = [7u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&index.to_le_bytes());
    let config = Config { failure_persistence: None, ..Config::default() };
    let mut r = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &s));
    let g = match index % 3 {
        0 => any_text(),
        1 => super::real::real_text(),
        _ => doc(LENIENT).prop_map(|d| d.text()).boxed(),
    };
    g.new_tree(&mut r).expect("a text").current()
}
