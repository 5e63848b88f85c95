//! Properties of reading documents: C04 C06 C07 C08 C09 C10 C11 C20 C21.
use crate::doc::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{facet, Facet, Info, Verdict};
use crate::strict;
use crate::{ensure, ensure_eq};
use icalendar::{parser, Calendar, CalendarComponent, Property};
use proptest::collection::vec;
use proptest::prelude::*;
use crate::gen::Index;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

pub(super) const STRICT: DocOpts = DocOpts { lenient: false, repeat: true };
pub(super) const LENIENT: DocOpts = DocOpts { lenient: true, repeat: true };

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub roots: Vec<DComp>,
    pub layout: Layout,
}

impl Doc {
    pub fn text(&self) -> String {
        render(&lines(&self.roots), &self.layout)
    }
    fn info(&self) -> Info {
        let props: Vec<&DProp> = self.roots.iter().flat_map(|r| r.all_props()).collect();
        let size: usize = self.roots.iter().map(DComp::size).sum();
        Info::new(size >= 2 && props.len() >= 2)
            .class("nested", self.roots.iter().any(|r| r.depth() > 2))
            .class("several roots", self.roots.len() > 1)
            .class("escapes", props.iter().any(|p| p.raw() != p.decoded()))
            .class("parameters", props.iter().any(|p| !p.params.is_empty()))
            .class("quoted parameter", props.iter().any(|p| p.params.iter().any(|p| matches!(p.form, PForm::Quoted(_)))))
            .class("folds", !self.layout.folds.is_empty())
            .class("repeated property", self.roots.iter().any(|r| r.flat().props.values().any(|v| v.len() > 1)))
    }
}

pub(super) fn doc(o: DocOpts) -> BoxedStrategy<Doc> {
    (d_document(o), any_layout()).prop_map(|(roots, layout)| Doc { roots, layout }).boxed()
}

/// large in one respect
pub(super) fn large(o: DocOpts) -> BoxedStrategy<Doc> {
    (d_large(o), large_layout()).prop_map(|(roots, layout)| Doc { roots, layout }).boxed()
}

fn small_doc() -> BoxedStrategy<Vec<DComp>> {
    prop_oneof![
        4 => d_comp(Just("VCALENDAR".to_string()).boxed(), STRICT, 1).prop_map(|c| vec![c]),
        1 => vec(d_comp(comp_name(), STRICT, 1), 1..3).prop_map(|v| v.into_iter().map(|mut c| {
            if c.name == "VCALENDAR" { c.name = "VEVENT".into() }
            c
        }).collect::<Vec<_>>()),
    ]
    .boxed()
}

pub(super) fn typed(text: &str) -> Result<Calendar, String> {
    Calendar::from_str(text).map_err(|e| format!("not accepted: {e}\ninput: {text:?}"))
}

// ------------------------------------------------------------------ C04

/// The content lines of every component, in an order of their own.
fn tree(text: &str) -> Result<Tree, String> {
    fn comp(s: &strict::SComp) -> Tree {
        let mut lines: Vec<(String, Vec<(String, Vec<String>)>, String)> = s
            .props
            .iter()
            .map(|p| {
                let mut params = p.params.clone();
                params.sort();
                (p.name.clone(), params, p.raw.clone())
            })
            .collect();
        lines.sort();
        Tree { name: s.name.clone(), lines, children: s.children.iter().map(comp).collect() }
    }
    let roots = strict::read(text).map_err(|e| format!("the output is malformed: {e}\noutput: {text:?}"))?;
    ensure_eq!(roots.len(), 1, "top-level components in {text:?}");
    Ok(comp(&roots[0]))
}

#[derive(Debug, PartialEq)]
struct Tree {
    name: String,
    lines: Vec<(String, Vec<(String, Vec<String>)>, String)>,
    children: Vec<Tree>,
}

fn c04(d: &Doc) -> Verdict {
    let text = d.text();
    let a = typed(&text)?;
    let (props, comps) = typed_expectation(&d.roots);
    let s1 = a.to_string();
    let b = typed(&s1)?;
    same_calendar(&b, &props, &comps).map_err(|e| format!("written and read again: {e}\ninput: {text:?}\nwritten: {s1:?}"))?;
    // a and b differ only in what was added
    ensure_eq!(cal_props(&a), cal_props(&b), "calendar properties after writing");
    for (a, b) in a.components.iter().zip(&b.components) {
        same_component(&flat(b), &flat(a), "")?;
    }
    let s2 = b.to_string();
    ensure_eq!(tree(&s2)?, tree(&s1)?, "content lines drift\ninput: {text:?}");
    let c = typed(&s2)?;
    ensure!(c == b, "the calendar drifts\n   got: {c:?}\n  want: {b:?}");
    ensure_eq!(tree(&c.to_string())?, tree(&s1)?, "content lines drift in the third generation");
    // with all identifiers present nothing at all may be added
    let complete = b.components.iter().all(|c| {
        fn all(f: &FlatComp) -> bool {
            ADDED.iter().all(|a| f.props.contains_key(*a)) && f.children.iter().all(all)
        }
        all(&flat(c))
    });
    ensure!(complete, "UID or DTSTAMP missing after writing");
    Ok(d.info())
}

pub fn c04_facets() -> Vec<Facet> {
    vec![facet("document", 10_000, 120_000, || doc(STRICT), c04), facet("large", 3_000, 40_000, || large(STRICT), c04), super::text::any_document("C04", 20000, 300000)]
}

// ------------------------------------------------------------------ C06

fn c06(d: &Doc) -> Verdict {
    let text = d.text();
    let unfolded = parser::unfold(&text);
    let e = |e: String| format!("{e}\ninput: {text:?}");
    let want: Vec<&DComp> = d.roots.iter().collect();
    let list = parser::read_components(&unfolded).map_err(|x| e(format!("read_components: {x}")))?;
    same_parsed_list(&list, &want, "").map_err(e)?;
    let simple = parser::read_calendar_simple(&unfolded).map_err(|x| e(format!("read_calendar_simple: {x}")))?;
    same_parsed_list(&simple, &want, "").map_err(e)?;
    let cal = parser::read_calendar(&unfolded).map_err(|x| e(format!("read_calendar: {x}")))?;
    if d.roots[0].name == "VCALENDAR" {
        same_parsed_parts(&cal.properties, &cal.components, &d.roots[0], "").map_err(e)?;
    } else {
        ensure!(cal.properties.is_empty(), "calendar properties out of nothing");
        same_parsed_list(&cal.components, &want, "").map_err(e)?;
    }
    for c in list.iter() {
        // find_prop gives the first property of that name
        for p in &c.properties {
            let first = c.properties.iter().find(|q| q.name.as_str() == p.name.as_str());
            ensure_eq!(c.find_prop(p.name.as_str()), first, "find_prop");
        }
    }
    let (props, comps) = typed_expectation(&d.roots);
    same_calendar(&typed(&text)?, &props, &comps).map_err(|x| e(format!("typed: {x}")))?;
    Ok(d.info())
}

/// one content line
fn c06_line(c: &(DProp, u8)) -> Verdict {
    let (p, end) = c;
    let line = format!("{}{}", p.line(), ["", "\n", "\r\n"][*end as usize % 3]);
    let parsed = parser::Property::try_from(line.as_str()).map_err(|e| format!("{e}, line {line:?}"))?;
    same_parsed_prop(&parsed, p, "")?;
    let typed = Property::from_str(&line).map_err(|e| format!("{e}, line {line:?}"))?;
    ensure_eq!((typed.key(), flat_prop(&typed)), (p.name.as_str(), p.flat()), "typed, line {line:?}");
    Ok(Info::new(p.raw() != p.decoded() || !p.params.is_empty())
        .class("escapes", p.raw() != p.decoded())
        .class("parameters", !p.params.is_empty()))
}

pub fn c06_facets() -> Vec<Facet> {
    vec![
        facet("document", 12_000, 150_000, || doc(LENIENT), c06),
        facet("large", 3_000, 40_000, || large(LENIENT), c06),
        facet("content line", 40_000, 400_000, || (any_d_prop(LENIENT), any::<u8>()).boxed(), c06_line),
        super::text::any_document("C06", 20000, 300000),
    ]
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TwoLayouts {
    roots: Vec<DComp>,
    a: Layout,
    b: Layout,
}

fn c07(d: &TwoLayouts) -> Verdict {
    let l = lines(&d.roots);
    let (ta, tb) = (render(&l, &d.a), render(&l, &d.b));
    let (ca, cb) = (typed(&ta)?, typed(&tb)?);
    ensure!(ca == cb, "layouts are read differently\n   {ta:?}\n   {tb:?}\n   first: {ca:?}\n  second: {cb:?}");
    let (ua, ub) = (parser::unfold(&ta), parser::unfold(&tb));
    let (pa, pb) = (parser::read_components(&ua)?, parser::read_components(&ub)?);
    ensure_eq!(pa, pb, "parsed models of\n   {ta:?}\n   {tb:?}");
    let plain = render(&l, &Layout::plain());
    let cp = typed(&plain)?;
    ensure!(ca == cp, "layout is read differently\n   {ta:?}\n   {plain:?}\n   first: {ca:?}\n  second: {cp:?}");
    let folds = |l: &Layout| !l.folds.is_empty();
    Ok(Info::new(ta != tb && ta != plain && d.roots.iter().map(|r| r.all_props().len()).sum::<usize>() > 0)
        .class("folds", folds(&d.a) || folds(&d.b))
        .class("mixed line endings", d.a.eols.contains(&true) && d.a.eols.contains(&false))
        .class("blank lines", !d.a.blanks.is_empty() || !d.b.blanks.is_empty())
        .class("no final line ending", !d.a.final_eol || !d.b.final_eol))
}

/// fold at every possible place of one line
fn c07_everywhere(c: &(DProp, bool, bool)) -> Verdict {
    let (p, tab, crlf) = c;
    let root = DComp { name: "VEVENT".into(), items: vec![DItem::P(p.clone())] };
    let l = root.lines();
    let plain = render(&l, &Layout::plain());
    let want = CalendarComponent::from_str(&plain).map_err(|e| format!("{e}, input {plain:?}"))?;
    let n: u32 = l.iter().map(|l| l.chars().count() as u32 - 1).sum();
    for at in 0..n.min(260) {
        let layout = Layout { eols: vec![*crlf], folds: vec![(at, *tab)], ..Layout::plain() };
        let text = render(&l, &layout);
        let got = CalendarComponent::from_str(&text).map_err(|e| format!("{e}, input {text:?}"))?;
        ensure!(got == want, "folded differently\n   {text:?}\n   got: {got:?}\n  want: {want:?}");
    }
    Ok(Info::new(n > 20).class("escapes", p.raw() != p.decoded()).class("parameters", !p.params.is_empty()))
}

pub fn c07_facets() -> Vec<Facet> {
    vec![
        facet(
            "two layouts",
            12_000,
            150_000,
            || (d_document(LENIENT), layout(), layout()).prop_map(|(roots, a, b)| TwoLayouts { roots, a, b }).boxed(),
            c07,
        ),
        facet(
            "large",
            3_000,
            40_000,
            || {
                (d_large(LENIENT), large_layout(), large_layout())
                    .prop_map(|(roots, a, b)| TwoLayouts { roots, a, b })
                    .boxed()
            },
            c07,
        ),
        facet("fold everywhere", 3_000, 30_000, || (any_d_prop(LENIENT), any::<bool>(), any::<bool>()).boxed(), c07_everywhere),
        super::text::any_document("C07", 10000, 150000),
    ]
}

// ------------------------------------------------------------------ C08

/// What all entry points say; they must not disagree about whether the text can be read.
fn all_reject(text: &str, what: &str) -> Result<(), String> {
    if let Ok(c) = Calendar::from_str(text) {
        return Err(format!("{what} is accepted\ninput: {text:?}\nread as: {c:?}"));
    }
    let u = parser::unfold(text);
    if let Ok(c) = parser::read_components(&u) {
        return Err(format!("{what} is accepted by read_components\ninput: {text:?}\nread as: {c:?}"));
    }
    if let Ok(c) = parser::read_calendar_simple(&u) {
        return Err(format!("{what} is accepted by read_calendar_simple\ninput: {text:?}\nread as: {c:?}"));
    }
    if let Ok(c) = parser::read_calendar(&u) {
        return Err(format!("{what} is accepted by read_calendar\ninput: {text:?}\nread as: {c:?}"));
    }
    single_component_rejects(text, what)
}

fn single_component_rejects(text: &str, what: &str) -> Result<(), String> {
    if let Ok(c) = CalendarComponent::from_str(text) {
        return Err(format!("{what} is accepted as a component\ninput: {text:?}\nread as: {c:?}"));
    }
    let u = parser::unfold(text);
    if let Ok(c) = parser::Component::try_from(u.as_str()) {
        return Err(format!("{what} is accepted as a parsed component\ninput: {text:?}\nread as: {c:?}"));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    roots: Vec<DComp>,
    layout: Layout,
}

fn c08_truncate(d: &Cut) -> Verdict {
    let text = render(&lines(&d.roots), &d.layout);
    // where the first k top-level components end
    let mut ends = vec![];
    for k in 1..=d.roots.len() {
        let head = lines(&d.roots[..k]);
        let last = Layout { final_eol: false, ..d.layout.clone() };
        // only possible without folds and blank lines, which depend on the whole document
        ends.push(render(&head, &last).len());
    }
    let mut cuts = 0;
    for (at, _) in text.char_indices() {
        let head = &text[..at];
        let complete = ends.iter().filter(|e| **e <= at).count();
        let rest = &head[if complete == 0 { 0 } else { ends[complete - 1] }..];
        let rest = rest.trim_matches(|c| c == '\r' || c == '\n');
        let at_boundary = rest.is_empty() || rest.eq_ignore_ascii_case("BEGIN:");
        if at_boundary {
            // nothing has begun that is missing
            let (props, comps) = if complete == 0 { (vec![], vec![]) } else { typed_expectation(&d.roots[..complete]) };
            if let Ok(c) = Calendar::from_str(head) {
                same_calendar(&c, &props, &comps).map_err(|e| format!("{e}\ninput: {head:?}"))?;
            } else if complete > 0 && rest.is_empty() {
                return Err(format!("complete components are rejected: {head:?}"));
            }
        } else {
            all_reject(head, "a document that is cut off")?;
            cuts += 1;
        }
    }
    Ok(Info::new(cuts > 30).class("several roots", d.roots.len() > 1).class("LF", d.layout.eols == [false]))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damage {
    roots: Vec<DComp>,
    crlf: bool,
    which: Index,
    how: u8,
}

fn c08_structure(d: &Damage) -> Verdict {
    let l = lines(&d.roots);
    let marks: Vec<usize> =
        (0..l.len()).filter(|i| l[*i].starts_with("BEGIN:") || l[*i].starts_with("END:")).collect();
    let at = marks[d.which.index(marks.len())];
    let mut m = l.clone();
    let line = l[at].clone();
    let (key, name) = line.split_once(':').unwrap();
    let what = match d.how % 8 {
        0 => {
            m.remove(at);
            format!("a document without its line {line:?}")
        }
        1 => {
            m[at] = format!("{key}:{name}X");
            format!("a document with {:?} instead of {line:?}", m[at])
        }
        2 => {
            m[at] = format!("{key}:X-OTHER");
            format!("a document with {:?} instead of {line:?}", m[at])
        }
        3 => {
            m.insert(at, line.clone());
            format!("a document with {line:?} twice")
        }
        4 => {
            m[at] = format!("{}:{name}", if key == "END" { "BEGIN" } else { "END" });
            format!("a document with {:?} instead of {line:?}", m[at])
        }
        6 | 7 if at + 1 < l.len() => {
            let blank = ["", " ", "\t", "  ", "\u{a0}", ":", ";"][d.how as usize / 8 % 7];
            m[at] = format!("{line}{blank}{}", m.remove(at + 1));
            format!("a document with {:?} on one line", m[at])
        }
        _ => {
            if name.chars().count() < 2 {
                m.remove(at);
            } else {
                let mut short = name.to_string();
                short.pop();
                m[at] = format!("{key}:{short}");
            }
            format!("a document with a shortened {line:?}")
        }
    };
    let text = render(&m, &Layout { eols: vec![d.crlf], ..Layout::plain() });
    all_reject(&text, &what)?;
    Ok(Info::new(l.len() > 4).class("nested", d.roots.iter().any(|r| r.depth() > 2)).class("nested mark", at > 0 && at + 1 < l.len()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Garbage {
    roots: Vec<DComp>,
    crlf: bool,
    garbage: String,
    at: Index,
}

/// Lines that are no content lines: no name, or no way to tell where the value begins.
pub fn garbage_line() -> BoxedStrategy<String> {
    let fixed = select(
        [
            "@bad", "#comment", "=", "FOO@x:y", "FOO;A=\"x\"y:z", "FOO;A=\"unterminated:x", "\"quoted\"", "<html>",
            "FOO BAR:x", "hello, world", "two words", "{\"json\": 1}", "!", "*", "FOO;A=1;=2;\"", "FOO;A=1 B",
            "--- a/b@c", "FOO=BAR", "FOO=BAR:baz", "\\n", "SUMMARY;LANGUAGE=\"en:Hello", "DTSTART;TZID=\"a\"b\":1", "()", "~",
            "SUMMARY;LANGUAGE", "SUMMARY;LANGUAGE=en", "SUMMARY;", "ATTENDEE;CN=\"x\"", ":", ":value", ";A=b:c",
            "END", "End", "end", "BEGIN", "begin", "Begin", "END;X=1:VEVENT", "FOO;:x", "FOO;=b:x", "FOO;A=b;:x",
            "BEGIN:X A:b", "BEGIN:VEVENT:", "BEGIN:VEVENT;", "BEGIN: X", "BEGIN:X\tBEGIN:Y", "BEGIN:X\"", "END:X Y:z",
        ]
        .map(String::from)
        .to_vec(),
    );
    prop_oneof![
        3 => fixed,
        1 => (select("@#=!*<>()[]{}|~^`$%&?+'\"\\".chars().collect::<Vec<_>>()), raw_value())
            .prop_map(|(c, s)| format!("{c}{}", s.replace([':'], ""))),
    ]
    .boxed()
}

fn c08_garbage(d: &Garbage) -> Verdict {
    let l = lines(&d.roots);
    let mut m = l.clone();
    let at = d.at.index(l.len() + 1);
    m.insert(at, d.garbage.clone());
    let text = render(&m, &Layout { eols: vec![d.crlf], ..Layout::plain() });
    all_reject(&text, &format!("a document with the line {:?}", d.garbage))?;
    Ok(Info::new(l.len() > 4)
        .class("in front", at == 0)
        .class("behind", at == l.len())
        .class("between components", at > 0 && at < l.len()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Junk {
    roots: Vec<DComp>,
    crlf: bool,
    before: String,
    after: String,
}

fn junk() -> BoxedStrategy<String> {
    select(
        [
            "hello", "x:y", "SUMMARY:lost", "@", "\u{feff}@", "END:VEVENT", "END:VCALENDAR", "END:", "HTTP/1.1 200 OK",
            "BEGIN:VEVENT", "BEGIN VCALENDAR", "X-A;B=c:d", "-----BEGIN-----", "0", "<?xml version=\"1.0\"?>",
        ]
        .map(String::from)
        .to_vec(),
    )
    .boxed()
}

fn c08_junk(d: &Junk) -> Verdict {
    let l = lines(&d.roots);
    let eol = if d.crlf { "\r\n" } else { "\n" };
    let mut text = render(&l, &Layout { eols: vec![d.crlf], ..Layout::plain() });
    if !d.before.is_empty() {
        text = format!("{}{eol}{text}", d.before);
    }
    if !d.after.is_empty() {
        text = format!("{text}{}{eol}", d.after);
    }
    all_reject(&text, "a document with other text around it")?;
    // without a line break in between
    let glued = format!("{}{}", render(&l, &Layout { final_eol: false, eols: vec![d.crlf], ..Layout::plain() }), "X");
    all_reject(&glued, "a document with text glued to its end")?;
    Ok(Info::new(true).class("in front", !d.before.is_empty()).class("behind", !d.after.is_empty()))
}

/// a calendar followed by something that is well-formed by itself
fn c08_second_root(c: &(DComp, DComp, bool)) -> Verdict {
    let (first, second, swap) = c;
    let (a, b) = if *swap && second.name != "VCALENDAR" { (second, first) } else { (first, second) };
    let text = render(&lines(&[a.clone(), b.clone()]), &Layout::plain());
    single_component_rejects(&text, "a sequence of components")?;
    match Calendar::from_str(&text) {
        Err(_) => {}
        Ok(cal) => {
            // nothing may be lost
            let n = |c: &Calendar| c.components.iter().map(|c| count(&flat(c))).sum::<usize>();
            let total = n(&cal);
            let want = if a.name == "VCALENDAR" { usize::MAX } else { a.size() + b.size() };
            ensure!(total == want, "{total} components of {} + {} are left\ninput: {text:?}", a.size(), b.size());
        }
    }
    Ok(Info::new(second.size() > 1).class("calendar last", a.name != "VCALENDAR"))
}

fn count(f: &FlatComp) -> usize {
    1 + f.children.iter().map(count).sum::<usize>()
}

pub fn c08_facets() -> Vec<Facet> {
    vec![
        facet(
            "cut off",
            1_500,
            15_000,
            || {
                (small_doc(), any::<bool>(), any::<bool>())
                    .prop_map(|(roots, crlf, final_eol)| Cut {
                        roots,
                        layout: Layout { eols: vec![crlf], final_eol, ..Layout::plain() },
                    })
                    .boxed()
            },
            c08_truncate,
        ),
        facet(
            "structure",
            20_000,
            200_000,
            || {
                (d_document(STRICT), any::<bool>(), any::<Index>(), any::<u8>())
                    .prop_map(|(roots, crlf, which, how)| Damage { roots, crlf, which, how })
                    .boxed()
            },
            c08_structure,
        ),
        facet(
            "structure, large",
            3_000,
            40_000,
            || {
                (d_large(STRICT), any::<bool>(), any::<Index>(), any::<u8>())
                    .prop_map(|(roots, crlf, which, how)| Damage { roots, crlf, which, how })
                    .boxed()
            },
            c08_structure,
        ),
        facet(
            "no content line, large",
            3_000,
            40_000,
            || {
                (d_large(STRICT), any::<bool>(), garbage_line(), any::<Index>())
                    .prop_map(|(roots, crlf, garbage, at)| Garbage { roots, crlf, garbage, at })
                    .boxed()
            },
            c08_garbage,
        ),
        facet(
            "no content line",
            20_000,
            200_000,
            || {
                (d_document(STRICT), any::<bool>(), garbage_line(), any::<Index>())
                    .prop_map(|(roots, crlf, garbage, at)| Garbage { roots, crlf, garbage, at })
                    .boxed()
            },
            c08_garbage,
        ),
        facet(
            "text around",
            6_000,
            60_000,
            || {
                (d_document(STRICT), any::<bool>(), prop_oneof![
                    (junk(), Just(String::new())),
                    (Just(String::new()), junk()),
                    // an opened and closed component around the document is no damage
                    (junk(), junk()).prop_filter("wrapped", |(a, b)| !a.starts_with("BEGIN:") || !b.starts_with("END:V")),
                ])
                    .prop_map(|(roots, crlf, (before, after))| Junk { roots, crlf, before, after })
                    .boxed()
            },
            c08_junk,
        ),
        facet(
            "second calendar",
            4_000,
            40_000,
            || {
                (d_calendar(STRICT), prop_oneof![d_calendar(STRICT), d_comp(comp_name(), STRICT, 1)], any::<bool>()).boxed()
            },
            c08_second_root,
        ),
        super::text::any_document("C08", 20000, 300000),
    ]
}

// ------------------------------------------------------------------ C09

fn fold_soup() -> BoxedStrategy<String> {
    vec(
        prop_oneof![
            6 => select(vec!["\r", "\n", "\r\n", " ", "\t", "\r\n ", "\n ", "\r\n\t", "\n\t"]).prop_map(String::from),
            2 => select(vec!["a", "b", ":", "é", "老", "🎉", "\u{a0}", "\u{3000}", "\u{b}", "\u{85}", "\u{2028}", ""]).prop_map(String::from),
            1 => any::<char>().prop_map(String::from),
        ],
        0..24,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

pub(super) fn c09_soup(s: &String) -> Verdict {
    let want = strict::ref_unfold(s);
    ensure_eq!(parser::unfold(s), want, "unfold({s:?})");
    Ok(Info::new(want != *s).class("several folds", s.len() - want.len() > 4).class("breaks left", want.contains('\n')))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inserted {
    lines: Vec<String>,
    folds: Vec<(u32, u8)>,
    crlf: bool,
}

fn c09_inserted(c: &Inserted) -> Verdict {
    // a text in which no fold is left
    let eol = if c.crlf { "\r\n" } else { "\n" };
    let text: String = c.lines.iter().map(|l| format!("{}{eol}", l.trim_start_matches([' ', '\t']))).collect();
    ensure_eq!(parser::unfold(&text), text, "a text without folds");
    let n = text.chars().count() as u32;
    let mut at: Vec<(u32, u8)> = c.folds.iter().map(|(p, k)| (p % (n + 1), *k)).collect();
    at.sort();
    at.dedup_by_key(|x| x.0);
    let mut out = String::new();
    let mut it = at.iter().peekable();
    let chars: Vec<char> = text.chars().collect();
    for i in 0..=chars.len() {
        while let Some((p, k)) = it.peek() {
            if *p as usize != i {
                break;
            }
            // not inside of a CRLF: that would make a new line break out of its halves
            if !(i > 0 && chars[i - 1] == '\r') {
                out.push_str(["\r\n ", "\n ", "\r\n\t", "\n\t"][*k as usize % 4]);
            }
            it.next();
        }
        if let Some(c) = chars.get(i) {
            out.push(*c);
        }
    }
    ensure_eq!(parser::unfold(&out), text, "folds are not undone in {out:?}");
    Ok(Info::new(out.len() > text.len() + 2))
}

pub fn c09_facets() -> Vec<Facet> {
    vec![
        facet("any text", 120_000, 1_500_000, || prop_oneof![4 => fold_soup(), 1 => text()].boxed(), c09_soup),
        facet(
            "inserted folds",
            40_000,
            400_000,
            || {
                (
                    vec(prop_oneof![text(), raw_value()].prop_map(|s| s.replace(['\r', '\n'], "")), 0..6),
                    vec((any::<u32>(), any::<u8>()), 0..10),
                    any::<bool>(),
                )
                    .prop_map(|(lines, folds, crlf)| Inserted { lines, folds, crlf })
                    .boxed()
            },
            c09_inserted,
        ),
    ]
}

// ------------------------------------------------------------------ C10

/// RFC 5545 3.6.1-3.6.4 and 3.8.8.3: "the following are OPTIONAL, and MAY occur more than once"
const REPEATABLE: [&str; 11] = [
    "ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "FREEBUSY", "RDATE", "RELATED-TO",
    "REQUEST-STATUS", "RESOURCES",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Repeats {
    name: String,
    nest: Vec<String>,
    items: Vec<DProp>,
}

fn repeats() -> BoxedStrategy<Repeats> {
    let pool = prop_oneof![
        4 => select(REPEATABLE.map(String::from).to_vec()),
        2 => select(["SUMMARY", "DESCRIPTION", "X-A", "X-B", "RRULE", "URL", "UID", "DTSTAMP", "LOCATION", "TZNAME",
                     "X-PROP", "IANA-PROP", "RSTATUS", "RELATED", "attendee", "IMAGE"].map(String::from).to_vec()),
        1 => any_name(),
    ]
    .boxed();
    (
        comp_name(),
        vec(comp_name(), 0..3),
        vec(pool, 1..4),
        vec((any_d_prop(STRICT), any::<Index>(), text_value(false)), 0..14),
    )
        .prop_map(|(name, nest, pool, raw)| {
            let items = raw
                .into_iter()
                .map(|(mut p, i, t)| {
                    p.name = i.get(&pool).clone();
                    let decl = p.params.iter().find(|p| p.key == "VALUE").and_then(|p| p.value());
                    let is_text = effective_type(&p.name, decl) == Some("TEXT");
                    p.value = if is_text {
                        t
                    } else {
                        t.into_iter().map(|(_, d)| d.replace(['\\', '\n'], "/")).map(|d| (d.clone(), d)).collect()
                    };
                    p
                })
                .collect();
            Repeats { name, nest, items }
        })
        .boxed()
}

fn c10(c: &Repeats) -> Verdict {
    let mut root = DComp { name: c.name.clone(), items: c.items.iter().cloned().map(DItem::P).collect() };
    for n in &c.nest {
        root = DComp { name: n.clone(), items: vec![DItem::C(root)] };
    }
    let text = render(&root.lines(), &Layout::plain());
    let want = root.flat();
    let got = CalendarComponent::from_str(&text).map_err(|e| format!("{e}\ninput: {text:?}"))?;
    ensure_eq!(flat(&got), want, "typed component of {text:?}");
    lists(&got, c.nest.len(), &want)?;
    // everything is written again, and read back
    let out = write_component(&got);
    let back = CalendarComponent::from_str(&out).map_err(|e| format!("{e}\noutput: {out:?}"))?;
    same_component(&flat(&back), &want, "")?;
    lists(&back, c.nest.len(), &want)?;
    // as the parsed model
    let u = parser::unfold(&text);
    let parsed = parser::Component::try_from(u.as_str())?;
    same_parsed_list(std::slice::from_ref(&parsed), &[&root], "")?;
    // inside of a calendar
    let cal = typed(&format!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\n{text}END:VCALENDAR\r\n"))?;
    ensure_eq!(cal.components.iter().map(flat).collect::<Vec<_>>(), vec![want.clone()], "inside of a calendar");
    let mut deepest = &want;
    while let (false, Some(c)) = (deepest.props.values().any(|_| true), deepest.children.first()) {
        deepest = c;
    }
    let most = deepest.props.values().map(Vec::len).max().unwrap_or(0);
    Ok(Info::new(most > 1)
        .class("three or more", most > 2)
        .class("repeatable", deepest.props.iter().any(|(k, v)| REPEATABLE.contains(&k.as_str()) && v.len() > 1))
        .class("not repeatable", deepest.props.iter().any(|(k, v)| !REPEATABLE.contains(&k.as_str()) && v.len() > 1))
        .class("nested", !c.nest.is_empty()))
}

/// repeatable properties are in the list of repeated ones, in order
fn lists(got: &CalendarComponent, depth: usize, want: &FlatComp) -> Result<(), String> {
    fn check<C: icalendar::Component>(c: &C, depth: usize, want: &FlatComp) -> Result<(), String> {
        if depth > 0 {
            return check(&c.components()[0], depth - 1, &want.children[0]);
        }
        for (name, all) in &want.props {
            if REPEATABLE.contains(&name.as_str()) {
                let list: Vec<FlatProp> =
                    c.multi_properties().get(name).map(|v| v.iter().map(flat_prop).collect()).unwrap_or_default();
                ensure_eq!(&list, all, "list of {name}");
            } else if !["X-PROP", "IANA-PROP", "RSTATUS", "RELATED"].contains(&name.as_str()) {
                // the first one is what accessors report; the names excepted here stand for
                // others in the standard's grammar, the library takes them for repeatable
                ensure_eq!(c.property_value(name), Some(all[0].value.as_str()), "first {name}");
            }
        }
        Ok(())
    }
    match got {
        CalendarComponent::Event(c) => check(c, depth, want),
        CalendarComponent::Todo(c) => check(c, depth, want),
        CalendarComponent::Venue(c) => check(c, depth, want),
        CalendarComponent::Other(c) => check(c, depth, want),
        _ => unreachable!(),
    }
}

pub fn c10_facets() -> Vec<Facet> {
    let many = || {
        (repeats(), magnitude(600), any::<Index>())
            .prop_map(|(mut r, n, i)| {
                if !r.items.is_empty() {
                    let items: Vec<DProp> = r.items.iter().cycle().skip(i.index(r.items.len())).take(n).cloned().collect();
                    for (k, mut p) in items.into_iter().enumerate() {
                        let s = k.to_string();
                        p.value.insert(0, (s.clone(), s));
                        r.items.push(p);
                    }
                }
                r
            })
            .boxed()
    };
    vec![
        facet("repeated properties", 16_000, 200_000, repeats, c10),
        facet("many occurrences", 3_000, 40_000, many, c10),
    ]
}

// ------------------------------------------------------------------ C11

fn c11(d: &Doc) -> Verdict {
    let text = d.text();
    let u1 = parser::unfold(&text);
    let p1 = parser::read_components(&u1).map_err(|e| format!("{e}\ninput: {text:?}"))?;
    let want: Vec<&DComp> = d.roots.iter().collect();
    if d.roots[0].name == "VCALENDAR" {
        let cal = parser::read_calendar(&u1)?;
        let w1 = cal.to_string();
        let u2 = parser::unfold(&w1);
        let cal2 = parser::read_calendar(&u2).map_err(|e| format!("{e}\nwritten: {w1:?}"))?;
        ensure_eq!(cal2.properties, cal.properties, "calendar properties\ninput: {text:?}\nwritten: {w1:?}");
        ensure_eq!(cal2.components, cal.components, "components\ninput: {text:?}\nwritten: {w1:?}");
        same_parsed_parts(&cal2.properties, &cal2.components, &d.roots[0], "")?;
        ensure_eq!(cal2.to_string(), w1, "written once more");
        strict::read(&w1).map_err(|e| format!("what is written is malformed: {e}\nwritten: {w1:?}"))?;
    }
    let holder = parser::Calendar { properties: vec![], components: p1 };
    let w1 = holder.to_string();
    let u2 = parser::unfold(&w1);
    let p2 = parser::read_calendar(&u2).map_err(|e| format!("{e}\nwritten: {w1:?}"))?;
    ensure_eq!(p2.components, holder.components, "components\ninput: {text:?}\nwritten: {w1:?}");
    same_parsed_list(&p2.components, &want, "")?;
    ensure_eq!(p2.to_string(), w1, "written once more");
    let s = strict::read(&w1).map_err(|e| format!("what is written is malformed: {e}\nwritten: {w1:?}"))?;
    ensure_eq!(s[0].children.len(), d.roots.len(), "components in {w1:?}");
    Ok(d.info())
}

fn c11_lenient(d: &Doc) -> Verdict {
    let text = d.text();
    let u1 = parser::unfold(&text);
    let holder = parser::Calendar {
        properties: vec![],
        components: parser::read_components(&u1).map_err(|e| format!("{e}\ninput: {text:?}"))?,
    };
    let w1 = holder.to_string();
    let u2 = parser::unfold(&w1);
    let p2 = parser::read_calendar(&u2).map_err(|e| format!("{e}\nwritten: {w1:?}"))?;
    ensure_eq!(p2.components, holder.components, "components\ninput: {text:?}\nwritten: {w1:?}");
    ensure_eq!(p2.to_string(), w1, "written once more");
    Ok(d.info())
}

fn c11_property(p: &DProp) -> Verdict {
    let line = p.line();
    let a = parser::Property::try_from(line.as_str()).map_err(|e| format!("{e}, line {line:?}"))?;
    let w = a.to_string();
    let u = parser::unfold(&w);
    let b = parser::Property::try_from(u.as_str()).map_err(|e| format!("{e}, written {w:?}"))?;
    ensure_eq!(b, a, "line {line:?}, written {w:?}");
    ensure_eq!(b.to_string(), w, "written once more");
    Ok(Info::new(p.raw() != p.decoded() || !p.params.is_empty()))
}

/// Values that consist of several texts: what separates them is still a separator when written.
fn c11_list(c: &(String, DProp)) -> Verdict {
    let (sep, p) = c;
    let line = p.line();
    let u = parser::unfold(&line);
    let a = parser::Property::try_from(u.as_str()).map_err(|e| format!("{e}, line {line:?}"))?;
    let w = a.to_string();
    let lines = strict::content_lines(&w).map_err(|e| format!("{e}, written {w:?}"))?;
    ensure_eq!(lines.len(), 1, "lines of {w:?}");
    let got = strict::content_line(&lines[0])?;
    let elements = |raw: &str| raw.split(sep.as_str()).map(str::to_string).collect::<Vec<_>>();
    ensure_eq!(got.name, p.name, "name in {w:?}");
    ensure_eq!(elements(&got.raw), elements(&p.raw()), "elements of {line:?}, written {w:?}");
    Ok(Info::new(elements(&p.raw()).len() > 1))
}

fn list_prop() -> BoxedStrategy<(String, DProp)> {
    let element = vec(select("abcnN xyzÄ老019:=./'\"".chars().collect::<Vec<_>>()), 0..12)
        .prop_map(|v| v.into_iter().collect::<String>());
    (
        select(vec![("CATEGORIES", ","), ("RESOURCES", ","), ("REQUEST-STATUS", ";")]),
        vec(element, 1..9),
        d_prop(Just("COMMENT".to_string()).boxed(), STRICT),
    )
        .prop_map(|((name, sep), elements, p)| {
            let value = elements.join(sep);
            let params = p.params.into_iter().filter(|q| q.key != "VALUE").collect();
            (sep.to_string(), DProp { name: name.into(), params, value: vec![(value.clone(), value)] })
        })
        .boxed()
}

pub fn c11_facets() -> Vec<Facet> {
    vec![
        facet("document", 10_000, 120_000, || doc(STRICT), c11),
        facet("large", 3_000, 40_000, || large(STRICT), c11),
        facet("lenient document", 4_000, 40_000, || doc(LENIENT), c11_lenient),
        facet("property", 40_000, 400_000, || any_d_prop(STRICT), c11_property),
        facet("list", 8_000, 100_000, list_prop, c11_list),
        super::text::any_document("C11", 20000, 300000),
    ]
}

// ------------------------------------------------------------------ C20

fn c20(d: &Doc) -> Verdict {
    let text = d.text();
    let u = parser::unfold(&text);
    let list = parser::read_components(&u).map_err(|e| format!("{e}\ninput: {text:?}"))?;
    let je = |e: serde_json::Error| format!("json: {e}");
    let json = serde_json::to_string(&list).map_err(je)?;
    let back: Vec<parser::Component> = serde_json::from_str(&json).map_err(je)?;
    ensure_eq!(back, list, "components, json {json}");
    let value = serde_json::to_value(&list).map_err(je)?;
    let back: Vec<parser::Component> = serde_json::from_value(value).map_err(je)?;
    ensure_eq!(back, list, "components through a value");
    let want: Vec<&DComp> = d.roots.iter().collect();
    same_parsed_list(&back, &want, "")?;
    let cal = parser::read_calendar(&u)?;
    let json = serde_json::to_string_pretty(&cal).map_err(je)?;
    let back: parser::Calendar = serde_json::from_str(&json).map_err(je)?;
    ensure_eq!(back.properties, cal.properties, "calendar properties");
    ensure_eq!(back.components, cal.components, "calendar components");
    ensure_eq!(back.to_string(), cal.to_string(), "written document");
    // reader-based deserialisation owns its strings
    let back: parser::Calendar = serde_json::from_reader(json.as_bytes()).map_err(je)?;
    ensure_eq!(back.to_string(), cal.to_string(), "written document");
    ensure!(Calendar::from(back) == Calendar::from(cal.clone()), "typed calendar");
    for p in list.iter().flat_map(|c| &c.properties) {
        let json = serde_json::to_string(p).map_err(je)?;
        let b: parser::Property = serde_json::from_str(&json).map_err(je)?;
        ensure_eq!(&b, p, "property {json}");
        ensure_eq!(b.to_string(), p.to_string(), "property {json}");
        for q in &p.params {
            let json = serde_json::to_string(q).map_err(je)?;
            let b: parser::Parameter = serde_json::from_str(&json).map_err(je)?;
            ensure_eq!(&b, q, "parameter {json}");
        }
    }
    Ok(d.info())
}

/// models that were not parsed: any strings at any place
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Model {
    name: String,
    props: Vec<(String, String, Vec<(String, Option<String>)>)>,
    nest: u8,
}

fn c20_model(m: &Model) -> Verdict {
    let props: Vec<parser::Property> = m
        .props
        .iter()
        .map(|(n, v, ps)| parser::Property {
            name: n.as_str().into(),
            val: v.as_str().into(),
            params: ps
                .iter()
                .map(|(k, v)| parser::Parameter { key: k.as_str().into(), val: v.as_deref().map(Into::into) })
                .collect(),
        })
        .collect();
    let mut c = parser::Component { name: m.name.as_str().into(), properties: props.clone(), components: vec![] };
    for _ in 0..m.nest {
        c = parser::Component { name: m.name.as_str().into(), properties: vec![], components: vec![c.clone(), c] };
    }
    let json = serde_json::to_string(&c).map_err(|e| e.to_string())?;
    let b: parser::Component = serde_json::from_str(&json).map_err(|e| e.to_string())?;
    ensure_eq!(b, c, "component");
    let cal = parser::Calendar { properties: props, components: vec![c] };
    let json = serde_json::to_vec(&cal).map_err(|e| e.to_string())?;
    let b: parser::Calendar = serde_json::from_slice(&json).map_err(|e| e.to_string())?;
    ensure_eq!(b.properties, cal.properties, "properties");
    ensure_eq!(b.components, cal.components, "components");
    ensure_eq!(b.to_string(), cal.to_string(), "written document");
    Ok(Info::new(m.props.iter().any(|p| !p.2.is_empty())))
}

pub fn c20_facets() -> Vec<Facet> {
    let model = || {
        let s = || prop_oneof![2 => text(), 1 => any::<String>()];
        (s(), vec((s(), s(), vec((s(), proptest::option::of(s())), 0..3)), 0..4), 0u8..4)
            .prop_map(|(name, props, nest)| Model { name, props, nest })
            .boxed()
    };
    vec![
        facet("parsed document", 8_000, 100_000, || doc(LENIENT), c20),
        facet("large", 3_000, 40_000, || large(LENIENT), c20),
        facet("any model", 8_000, 100_000, model, c20_model),
        super::text::any_document("C20", 15000, 200000),
    ]
}

// ------------------------------------------------------------------ C21

/// Every way of reading the text, compared with each other.
pub(super) fn agree(text: &str) -> Result<bool, String> {
    let u = parser::unfold(text);
    let e = |e: &str| format!("{e}\ninput: {text:?}");
    let from_str = Calendar::from_str(text);
    let list = parser::read_components(&u);
    let simple = parser::read_calendar_simple(&u);
    let cal = parser::read_calendar(&u);
    ensure!(list.is_ok() == simple.is_ok(), "{}", e(&format!("read_components: {list:?}\nread_calendar_simple: {simple:?}")));
    ensure!(from_str.is_ok() == cal.is_ok(), "{}", e(&format!("from_str: {from_str:?}\nread_calendar: {cal:?}")));
    if let (Ok(l), Err(_)) = (&list, &cal) {
        ensure!(l.len() > 1 && l[0].name == "VCALENDAR", "{}", e("read_calendar rejects what read_components accepts"));
    }
    if let (Err(_), Ok(_)) = (&list, &cal) {
        return Err(e("read_components rejects what read_calendar accepts"));
    }
    // reading twice gives the same
    ensure!(Calendar::from_str(text) == from_str, "{}", e("reading twice gives different calendars"));
    // folded or not, unfolding by oneself or not
    ensure!(Calendar::from_str(&u) == from_str || strict::ref_unfold(&u) != u, "{}", e("from_str of the unfolded text differs"));
    let (Ok(from_str), Ok(list), Ok(simple), Ok(cal)) = (from_str, list, simple, cal) else {
        return Ok(false);
    };
    ensure_eq!(simple, list, "{}", e("simple reader"));
    let converted = Calendar::from(cal.clone());
    ensure!(converted == from_str, "{}", e(&format!("read_calendar, converted: {converted:?}\nfrom_str: {from_str:?}")));
    let of_list = Calendar::from(list.clone());
    if list.first().map_or(false, |c| c.name == "VCALENDAR") {
        ensure!(of_list == from_str, "{}", e(&format!("component list, converted: {of_list:?}\nfrom_str: {from_str:?}")));
        ensure_eq!(list[0].properties, cal.properties, "{}", e("calendar properties"));
        ensure_eq!(list[0].components, cal.components, "{}", e("components"));
    } else {
        ensure!(of_list.components == from_str.components, "{}", e("components of the converted list"));
        ensure_eq!(list, cal.components, "{}", e("components"));
    }
    // components on their own
    for (parsed, typed) in cal.components.iter().zip(&from_str.components) {
        ensure!(&CalendarComponent::from(parsed.clone()) == typed, "{}", e("converted component"));
    }
    // serialised on their own and read as components
    for p in &cal.components {
        let holder = parser::Calendar { properties: vec![], components: vec![p.clone()] };
        let w = holder.to_string();
        let w = w.strip_prefix("BEGIN:VCALENDAR\r\n").unwrap().strip_suffix("END:VCALENDAR\r\n").unwrap();
        let (want, typed) = (CalendarComponent::from(p.clone()), CalendarComponent::from_str(w));
        if p.components.len() + p.properties.len() > 0 {
            ensure!(typed.as_ref() == Ok(&want), "component on its own {w:?}\n   got: {typed:?}\n  want: {want:?}");
        }
        let wu = parser::unfold(w);
        ensure_eq!(parser::Component::try_from(wu.as_str()).as_ref(), Ok(p), "component on its own {w:?}");
    }
    Ok(true)
}

fn c21_document(d: &Doc) -> Verdict {
    let text = d.text();
    ensure!(agree(&text)?, "a well-formed document is rejected: {text:?}");
    // single components and lines like inside of a document
    let root = &d.roots[0];
    let u = parser::unfold(&text);
    let list = parser::read_components(&u)?;
    let lines_ = lines(std::slice::from_ref(root));
    let one = render(&lines_, &Layout { folds: d.layout.folds.clone(), ..Layout::plain() });
    let single = CalendarComponent::from_str(&one).map_err(|e| format!("{e}\ninput: {one:?}"))?;
    ensure!(single == CalendarComponent::from(list[0].clone()), "single component {one:?}");
    for (want, got) in root.props().iter().zip(&list[0].properties) {
        let line = want.line();
        let p = parser::Property::try_from(line.as_str())?;
        ensure_eq!(&p, got, "single line {line:?}");
        let t = Property::from_str(&render(&[line.clone()], &Layout { eols: d.layout.eols.clone(), folds: d.layout.folds.clone(), final_eol: d.layout.final_eol, ..Layout::plain() }))?;
        ensure!(t == Property::from(got.clone()), "single folded line {line:?}: {t:?}");
        for q in want.params.iter().zip(&got.params) {
            let s = DProp { name: String::new(), params: vec![q.0.clone()], value: vec![] }.line();
            let s = s.strip_suffix(':').unwrap();
            let r = parser::Parameter::try_from(s)?;
            ensure_eq!(&r, q.1, "single parameter {s:?}");
        }
    }
    Ok(d.info())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Mutant {
    roots: Vec<DComp>,
    layout: Layout,
    edits: Vec<(Index, u8, String)>,
}

pub(super) fn mutant() -> BoxedStrategy<Mutant> {
    let bit = prop_oneof![
        select(vec!["End", "end", "begin:x", "end:x", "BEGIN", "X", "X;", "\r\n", "\n", ":", ";", "\"", "=", " ", "BEGIN:", "END:", "BEGIN:VEVENT\r\n", "END:VEVENT\r\n", "\\", ",", "\t", "@", "é", "END:VCALENDAR\r\n"]).prop_map(String::from),
        garbage_line(),
    ];
    (small_doc(), layout(), vec((any::<Index>(), any::<u8>(), bit), 1..4))
        .prop_map(|(roots, layout, edits)| Mutant { roots, layout, edits })
        .boxed()
}

impl Mutant {
    pub(super) fn plain(&self) -> String {
        render(&lines(&self.roots), &self.layout)
    }

    pub(super) fn text(&self) -> String {
        let mut c: Vec<char> = render(&lines(&self.roots), &self.layout).chars().collect();
        for (at, how, bit) in &self.edits {
            let i = at.index(c.len() + 1);
            match how % 6 {
                // a line of its own
                5 => {
                    let i = c[..i].iter().rposition(|c| *c == '\n').map_or(0, |n| n + 1);
                    c.splice(i..i, format!("{bit}\r\n").chars());
                }
                0 => c.truncate(i),
                1 => {
                    let e = (i + (*how as usize / 5)).min(c.len());
                    c.drain(i..e);
                }
                2 => {
                    let e = (i + (*how as usize / 5)).min(c.len());
                    let part: Vec<char> = c[i..e].to_vec();
                    c.splice(i..i, part);
                }
                _ => {
                    c.splice(i..i, bit.chars());
                }
            }
        }
        c.into_iter().collect()
    }
}

fn c21_mutant(m: &Mutant) -> Verdict {
    let ok = agree(&m.text())?;
    Ok(Info::new(true).class("accepted", ok).class("rejected", !ok))
}

pub fn c21_facets() -> Vec<Facet> {
    vec![
        facet("document", 6_000, 80_000, || doc(LENIENT), c21_document),
        facet("large", 3_000, 40_000, || large(LENIENT), c21_document),
        facet("damaged document", 16_000, 200_000, mutant, c21_mutant),
        super::text::any_document("C21", 15000, 200000),
    ]
}
