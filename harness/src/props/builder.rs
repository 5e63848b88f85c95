//! Properties of what the builder writes: C01 C02 C03 C16 C17 C18 C22 C23.
use crate::gen::*;
use crate::model::*;
use crate::runner::{facet, Facet, Info, Verdict};
use crate::strict;
use crate::{ensure, ensure_eq};
use icalendar::{
    parser, Alarm, Calendar, CalendarComponent, Component, Event, EventLike, Parameter, Property, Todo,
    ValueType, Venue,
};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryInto;
use std::str::FromStr;

fn read(s: &str) -> Result<Calendar, String> {
    Calendar::from_str(s).map_err(|e| format!("the output is not accepted: {e}\noutput: {s:?}"))
}

fn tricky(s: &str) -> bool {
    s.len() > 70 || s.chars().any(|c| !c.is_ascii() || c.is_control() || matches!(c, '\\' | ',' | ';' | '"' | ':'))
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextAt {
    path: Vec<Kind>,
    prop: PropM,
    multi: bool,
    /// neighbours, so that a leak into or out of them shows
    before: String,
    after: String,
}

fn text_prop() -> BoxedStrategy<PropM> {
    (
        prop_oneof![
            6 => (select(text_names()), Just(None)),
            2 => (select(text_names()), Just(Some("TEXT".to_string()))),
            2 => (x_name(), Just(Some("TEXT".to_string()))),
            1 => (select(other_names()), Just(Some("TEXT".to_string()))),
            1 => (select(text_names()), Just(Some("X-UNKNOWN".to_string()))),
        ],
        params(2),
        text(),
    )
        .prop_map(|((name, decl), mut params, value)| {
            if let Some(d) = decl {
                params.push(("VALUE".into(), d));
            }
            PropM { name, value, params }
        })
        .boxed()
}

fn text_at() -> BoxedStrategy<TextAt> {
    (kind(), vec(child_kind(), 0..4), text_prop(), any::<bool>(), text(), text())
        .prop_map(|(k, ks, prop, multi, before, after)| {
            let multi = multi && !ADDED.contains(&prop.name.as_str());
            TextAt { path: std::iter::once(k).chain(ks).collect(), prop, multi, before, after }
        })
        .boxed()
}

/// texts of up to many thousand octets
fn long_text() -> BoxedStrategy<TextAt> {
    (text_at(), magnitude(150_000), any::<bool>())
        .prop_map(|(mut c, n, shift)| {
            let s = if c.prop.value.is_empty() { "x" } else { &c.prop.value };
            c.prop.value = format!("{}{}", if shift { "ab" } else { "" }, s.repeat(n / s.len() + 1));
            c
        })
        .boxed()
}

fn plain(name: &str, value: &str) -> PropM {
    PropM { name: name.into(), value: value.into(), params: vec![] }
}

fn c01_component(c: &TextAt) -> Verdict {
    let mut comp: Option<CompM> = None;
    for k in c.path.iter().rev() {
        comp = Some(match comp {
            None => CompM {
                kind: k.clone(),
                props: if c.multi { vec![] } else { vec![c.prop.clone()] },
                multis: {
                    let mut m = vec![];
                    if c.multi {
                        m.push(PropM { value: c.before.clone(), ..c.prop.clone() });
                        m.push(c.prop.clone());
                        m.push(PropM { value: c.after.clone(), ..c.prop.clone() });
                    }
                    m
                },
                children: vec![],
            },
            Some(child) => CompM {
                kind: k.clone(),
                props: vec![plain("DESCRIPTION", &c.before), plain("SUMMARY", &c.after)],
                multis: vec![],
                children: vec![child],
            },
        });
    }
    let m = CalM { defaults: true, props: vec![plain("NAME", &c.before)], comps: vec![comp.unwrap()] };
    let out = m.build().to_string();
    let back = read(&out)?;
    same_calendar(&back, &m.flat_props(), &m.comps.iter().map(CompM::flat).collect::<Vec<_>>())?;
    Ok(Info::new(tricky(&c.prop.value))
        .class("nested", c.path.len() > 1)
        .class("repeated", c.multi)
        .class("declared by VALUE", c.prop.value_param() == Some("TEXT"))
        .class("backslash", c.prop.value.contains('\\'))
        .class("line break", c.prop.value.contains('\n'))
        .class("folded", c.prop.value.len() > 70))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CalText {
    props: Vec<PropM>,
    name: String,
    desc: String,
    tz: String,
}

fn c01_calendar(c: &CalText) -> Verdict {
    let mut cal = Calendar::new();
    for p in &c.props {
        cal.append_property(p.build());
    }
    cal.name(&c.name).description(&c.desc).timezone(&c.tz);
    let want = cal_props(&cal);
    let back = read(&cal.to_string())?;
    ensure_eq!(cal_props(&back), want, "calendar properties changed");
    let first = |n: &str, dflt: &str| {
        c.props.iter().find(|p| p.name == n).map(|p| p.value.clone()).unwrap_or(dflt.to_string())
    };
    ensure_eq!(back.get_name(), Some(first("NAME", &c.name).as_str()), "get_name");
    ensure_eq!(back.get_description(), Some(first("DESCRIPTION", &c.desc).as_str()), "get_description");
    ensure_eq!(back.get_timezone(), Some(first("TIMEZONE-ID", &c.tz).as_str()), "get_timezone");
    for n in ["X-WR-CALNAME", "X-WR-CALDESC", "X-WR-TIMEZONE"] {
        let w = match n {
            "X-WR-CALNAME" => &c.name,
            "X-WR-CALDESC" => &c.desc,
            _ => &c.tz,
        };
        ensure_eq!(back.property_value(n), Some(first(n, w).as_str()), "{n}");
    }
    let n = [&c.name, &c.desc, &c.tz].iter().filter(|s| tricky(s)).count();
    Ok(Info::new(n > 0).class("own properties", !c.props.is_empty()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Setters {
    t: Vec<String>,
}

fn c01_setters(c: &Setters) -> Verdict {
    let t = |i: usize| c.t[i].as_str();
    let mut cal = Calendar::new();
    let mut e = Event::new();
    e.summary(t(0)).description(t(1)).location(t(2)).uid(t(3)).add_multi_property("COMMENT", t(4));
    e.add_multi_property("COMMENT", t(5)).alarm(Alarm::display(t(6), -chrono::Duration::minutes(5)));
    cal.push(e.done());
    let mut d = Todo::new();
    d.summary(t(1)).description(t(2)).location(t(3)).add_property("CONTACT", t(4));
    cal.push(d.done());
    let mut v = Venue::new();
    v.street_address(t(0)).extended_address(t(1)).locality(t(2)).region(t(3)).country(t(4)).postal_code(t(5));
    v.description(t(6)).summary(t(7));
    cal.push(v.done());
    let mut e2 = Event::new();
    e2.venue(t(7), "venue-1").description(t(0));
    cal.push(e2.done());
    let back = read(&cal.to_string())?;
    ensure_eq!(back.components.len(), 4, "number of components");
    let (e, d, v, e2) = match &back.components[..] {
        [CalendarComponent::Event(e), CalendarComponent::Todo(d), CalendarComponent::Venue(v), CalendarComponent::Event(e2)] => {
            (e, d, v, e2)
        }
        o => return Err(format!("kinds of components changed: {o:?}")),
    };
    ensure_eq!(e.get_summary(), Some(t(0)), "event summary");
    ensure_eq!(e.get_description(), Some(t(1)), "event description");
    ensure_eq!(e.get_location(), Some(t(2)), "event location");
    ensure_eq!(e.get_uid(), Some(t(3)), "event uid");
    let comments: Vec<&str> = e.multi_properties().get("COMMENT").map(|v| v.iter().map(|p| p.value()).collect()).unwrap_or_default();
    ensure_eq!(comments, vec![t(4), t(5)], "comments");
    ensure_eq!(e.components().len(), 1, "alarms");
    ensure_eq!(e.components()[0].property_value("DESCRIPTION"), Some(t(6)), "alarm description");
    ensure_eq!(d.get_summary(), Some(t(1)), "todo summary");
    ensure_eq!(d.get_description(), Some(t(2)), "todo description");
    ensure_eq!(d.get_location(), Some(t(3)), "todo location");
    let contact: Vec<&str> = d
        .multi_properties().get("CONTACT").map(|v| v.iter().map(|p| p.value()).collect()).unwrap_or_default();
    ensure_eq!(contact, vec![t(4)], "todo contact");
    ensure_eq!(v.get_street_address(), Some(t(0)), "street");
    ensure_eq!(v.get_extended_address(), Some(t(1)), "extended address");
    ensure_eq!(v.get_locality(), Some(t(2)), "locality");
    ensure_eq!(v.get_region(), Some(t(3)), "region");
    ensure_eq!(v.get_country(), Some(t(4)), "country");
    ensure_eq!(v.get_postal_code(), Some(t(5)), "postal code");
    ensure_eq!(v.get_description(), Some(t(6)), "venue description");
    ensure_eq!(v.get_summary(), Some(t(7)), "venue summary");
    ensure_eq!(e2.get_location(), Some(t(7)), "location with venue");
    ensure_eq!(e2.get_description(), Some(t(0)), "second description");
    Ok(Info::new(c.t.iter().any(|s| tricky(s))))
}

fn c01_line(p: &PropM) -> Verdict {
    let line: String = p.build().try_into().map_err(|e| format!("{e}"))?;
    let back = Property::from_str(&line).map_err(|e| format!("line {line:?}: {e}"))?;
    ensure_eq!(back.key(), p.name.as_str(), "name, line {line:?}");
    ensure_eq!(back.value(), p.value.as_str(), "value, line {line:?}");
    Ok(Info::new(tricky(&p.value)).class("folded", line.contains("\r\n ")))
}

pub fn c01() -> Vec<Facet> {
    vec![
        facet("component text", 40_000, 400_000, text_at, c01_component),
        facet(
            "calendar text",
            15_000,
            150_000,
            || {
                (vec(text_prop(), 0..3), text(), text(), text())
                    .prop_map(|(props, name, desc, tz)| CalText { props, name, desc, tz })
                    .boxed()
            },
            c01_calendar,
        ),
        facet("long text", 3_000, 40_000, long_text, c01_component),
        facet("typed setters", 10_000, 100_000, || vec(text(), 8).prop_map(|t| Setters { t }).boxed(), c01_setters),
        facet("single line", 40_000, 400_000, text_prop, c01_line),
    ]
}

// ------------------------------------------------------------------ C02

fn clean(mut m: CalM) -> CalM {
    m.map_props(&|p| {
        p.value = without_controls(&p.value);
        if !p.is_text() {
            p.value = p.value.replace('\n', "?");
        }
    });
    m
}

/// One property: the unfolded line is exactly name, parameters, value.
fn c02_line(p: &PropM) -> Verdict {
    let out: String = p.build().try_into().map_err(|e| format!("{e}"))?;
    let lines = strict::physical_lines(&out).map_err(|e| format!("{e}\noutput: {out:?}"))?;
    let n = lines.len();
    for l in &lines[1..] {
        ensure!(l.starts_with(' '), "continuation line {l:?} does not begin with a space, output {out:?}");
        ensure!(l.len() > 1, "empty continuation line, output {out:?}");
    }
    let content = strict::content_lines(&out)?;
    ensure_eq!(content.len(), 1, "content lines");
    same_line(&content[0], p)?;
    ensure_eq!(parser::unfold(&out), format!("{}\r\n", content[0]), "unfold() of the output");
    Ok(Info::new(n > 1)
        .class("three or more lines", n > 2)
        .class("multi-byte", out.len() != out.chars().count())
        .class("blank at a fold", lines.iter().any(|l| l.ends_with(char::is_whitespace) || l.starts_with("  "))))
}

fn same_line(line: &str, p: &PropM) -> Result<(), String> {
    let s = strict::content_line(line)?;
    ensure_eq!(s.name, p.name, "name in {line:?}");
    let got: BTreeMap<String, String> = s.params.iter().map(|(k, v)| (k.clone(), v.join(","))).collect();
    ensure_eq!(s.params.len(), got.len(), "a parameter is repeated in {line:?}");
    let want: BTreeMap<String, String> = p.params.iter().cloned().collect();
    ensure_eq!(got, want, "parameters in {line:?}");
    if p.is_text() {
        ensure_eq!(strict::unescape(&s.raw)?, p.value, "text in {line:?}");
    } else {
        ensure_eq!(s.raw, p.value, "value in {line:?}");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Anything {
    name: String,
    params: Vec<(String, String)>,
    value: String,
}

fn anything() -> BoxedStrategy<Anything> {
    let s = || prop_oneof![3 => text(), 1 => raw_value(), 1 => any::<String>()];
    (
        prop_oneof![3 => any_name(), 1 => s()],
        vec((prop_oneof![param_key(), text()], s()), 0..3),
        s(),
    )
        .prop_map(|(name, params, value)| Anything { name, params, value })
        .boxed()
}

fn c02_anything(a: &Anything) -> Verdict {
    let mut p = Property::new(&a.name, &a.value);
    for (k, v) in &a.params {
        p.add_parameter(k, v);
    }
    let out: String = p.done().try_into().map_err(|e| format!("{e}"))?;
    let body = out.strip_suffix("\r\n").ok_or_else(|| format!("no CRLF at the end: {out:?}"))?;
    for l in body.split("\r\n") {
        ensure!(l.len() <= 75, "a line of {} octets: {l:?}, output {out:?}", l.len());
    }
    if a.params.is_empty() && !format!("{}{}", a.name, a.value).contains(['\r', '\n']) {
        let unfolded = body.replace("\r\n ", "");
        let rest = unfolded.strip_prefix(&format!("{}:", a.name));
        ensure!(rest.is_some(), "{unfolded:?} does not begin with {:?}", a.name);
        if effective_type(&a.name, None).is_none() {
            ensure_eq!(rest.unwrap(), a.value.as_str(), "unfolded value");
        }
    }
    Ok(Info::new(body.len() > 75).class("no key syntax", a.name.contains(|c: char| !c.is_ascii_alphanumeric() && c != '-')))
}

fn c02_calendar(m: &CalM) -> Verdict {
    let out = m.build().to_string();
    let lines = strict::physical_lines(&out).map_err(|e| format!("{e}\noutput: {out:?}"))?;
    let folded = lines.iter().filter(|l| l.starts_with(' ')).count();
    let content = strict::content_lines(&out)?;
    let props: usize = m.all_props().len() + if m.defaults { 3 } else { 0 };
    let mut alarms = 0;
    let mut added = 0;
    for c in &m.comps {
        c.each(&mut |c| {
            let have = |n: &str| c.props.iter().any(|p| p.name == n);
            added += 2 - have("UID") as usize - have("DTSTAMP") as usize;
            if c.kind == Kind::Alarm {
                alarms += 2 - have("ACTION") as usize - have("TRIGGER") as usize;
            }
        });
    }
    let want = props + alarms + added + 2 * (m.components() + 1);
    ensure_eq!(content.len(), want, "number of content lines in {out:?}");
    Ok(Info::new(folded > 0).class("nested", m.comps.iter().any(|c| !c.children.is_empty())))
}

fn c02_parsed(roots: &Vec<crate::doc::DComp>) -> Verdict {
    let lines = crate::doc::lines(roots);
    let text = crate::doc::render(&lines, &crate::doc::Layout::plain());
    let cal = parser::read_components(&text).map_err(|e| format!("{e}\ninput: {text:?}"))?;
    let cal = parser::Calendar { properties: vec![], components: cal };
    let out = cal.to_string();
    let phys = strict::physical_lines(&out).map_err(|e| format!("{e}\noutput: {out:?}"))?;
    let content = strict::content_lines(&out)?;
    ensure_eq!(content.len(), lines.len() + 2, "number of content lines in {out:?}");
    ensure_eq!(parser::unfold(&out), content.iter().map(|l| format!("{l}\r\n")).collect::<String>(), "unfold()");
    for (got, want) in content[1..].iter().zip(reorder(roots)) {
        let g = strict::content_line(got)?;
        let w = strict::content_line(&want)?;
        ensure_eq!(g.name, w.name, "content line");
        ensure_eq!(
            g.params.iter().map(|(k, v)| (k, v.join(","))).collect::<Vec<_>>(),
            w.params.iter().map(|(k, v)| (k, v.join(","))).collect::<Vec<_>>(),
            "parameters of {got:?}"
        );
    }
    // every property on its own
    for p in cal.components.iter().flat_map(|c| &c.properties) {
        strict::physical_lines(&p.to_string()).map_err(|e| format!("{e} in property {p:?}"))?;
    }
    Ok(Info::new(phys.len() > content.len()).class("several roots", roots.len() > 1))
}

/// the lines as the parsed model orders them: properties before components
fn reorder(roots: &[crate::doc::DComp]) -> Vec<String> {
    fn go(c: &crate::doc::DComp, out: &mut Vec<String>) {
        out.push(format!("BEGIN:{}", c.name));
        out.extend(c.props().iter().map(|p| p.line()));
        c.comps().into_iter().for_each(|c| go(c, out));
        out.push(format!("END:{}", c.name));
    }
    let mut out = vec![];
    roots.iter().for_each(|c| go(c, &mut out));
    out
}

fn clean_prop(p: BoxedStrategy<PropM>) -> BoxedStrategy<PropM> {
    p.prop_map(|mut p| {
        p.value = without_controls(&p.value);
        if !p.is_text() {
            p.value = p.value.replace('\n', "?");
        }
        p
    })
    .boxed()
}

pub fn c02() -> Vec<Facet> {
    vec![
        facet("single property", 80_000, 800_000, || clean_prop(any_prop()), c02_line),
        facet("any strings", 40_000, 400_000, anything, c02_anything),
        facet("built calendar", 4_000, 60_000, || cal_m().prop_map(clean).boxed(), c02_calendar),
        facet("large calendar", 3_000, 40_000, || cal_large().prop_map(clean).boxed(), c02_calendar),
        facet("large document", 3_000, 40_000, || crate::doc::d_large(crate::doc::DocOpts { lenient: false, repeat: true }), c02_parsed),
        facet(
            "parsed document",
            4_000,
            60_000,
            || crate::doc::d_document(crate::doc::DocOpts { lenient: false, repeat: true }),
            c02_parsed,
        ),
    ]
}

// ------------------------------------------------------------------ C03

fn c03_calendar(m: &CalM) -> Verdict {
    let cal = m.build();
    let out = cal.to_string();
    let back = read(&out)?;
    let comps: Vec<FlatComp> = m.comps.iter().map(CompM::flat).collect();
    same_calendar(&cal, &m.flat_props(), &comps).map_err(|e| format!("as built: {e}"))?;
    same_calendar(&back, &m.flat_props(), &comps).map_err(|e| format!("{e}\noutput: {out:?}"))?;
    let props = m.all_props().len();
    Ok(Info::new(m.components() >= 2 && props >= 3)
        .class("nested", m.comps.iter().any(|c| !c.children.is_empty()))
        .class("nested twice", m.comps.iter().any(|c| c.children.iter().any(|c| !c.children.is_empty())))
        .class("repeated", m.comps.iter().any(|c| c.multis.len() > 1))
        .class("empty", m.components() == 0))
}

fn c03_deep(c: &(CompM, u8)) -> Verdict {
    let mut comp = CompM { children: vec![], ..c.0.clone() };
    for i in 0..c.1 {
        comp = CompM { children: vec![comp], multis: vec![], props: vec![plain("X-LEVEL", &i.to_string())], kind: c.0.kind.clone() };
    }
    c03_calendar(&CalM { defaults: true, props: vec![], comps: vec![comp] })
        .map(|i| Info { nontrivial: c.1 > 4, ..i })
}

pub fn c03() -> Vec<Facet> {
    vec![
        facet("calendar", 16_000, 200_000, cal_m, c03_calendar),
        facet("large", 3_000, 40_000, cal_large, c03_calendar),
        facet("deep", 1_000, 10_000, || (comp_m(), 0u8..55).boxed(), c03_deep),
    ]
}

// ------------------------------------------------------------------ C16

fn stamp(raw: &str) -> Option<i64> {
    let b = raw.as_bytes();
    if b.len() != 16 || b[8] != b'T' || b[15] != b'Z' {
        return None;
    }
    let n = |a: usize, e: usize| raw.get(a..e)?.parse::<i64>().ok();
    let (y, m, d) = (n(0, 4)?, n(4, 6)?, n(6, 8)?);
    let (h, mi, s) = (n(9, 11)?, n(11, 13)?, n(13, 15)?);
    // days from civil
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    Some(((era * 146097 + doe - 719468) * 86400) + h * 3600 + mi * 60 + s)
}

fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

fn c16_walk(s: &strict::SComp, m: &CompM, lo: i64, hi: i64, uids: &mut Vec<(String, bool)>) -> Result<(), String> {
    ensure_eq!(s.name, m.kind.name(), "component");
    let all = |n: &str| s.props.iter().filter(|p| p.name == n).collect::<Vec<_>>();
    let given = |n: &str| m.props.iter().find(|p| p.name == n);
    let (u, d) = (all("UID"), all("DTSTAMP"));
    ensure_eq!(u.len(), 1, "number of UIDs in {}", s.name);
    ensure_eq!(d.len(), 1, "number of DTSTAMPs in {}", s.name);
    match given("UID") {
        Some(p) => {
            let v = if p.is_text() { strict::unescape(&u[0].raw)? } else { u[0].raw.clone() };
            ensure_eq!(v, p.value, "given UID");
            uids.push((v, true));
        }
        None => {
            ensure!(!u[0].raw.trim().is_empty(), "generated UID is empty");
            ensure!(u[0].params.is_empty(), "generated UID has parameters");
            uids.push((strict::unescape(&u[0].raw)?, false));
        }
    }
    match given("DTSTAMP") {
        Some(p) => {
            let v = if p.is_text() { strict::unescape(&d[0].raw)? } else { d[0].raw.clone() };
            ensure_eq!(v, p.value, "given DTSTAMP");
        }
        None => {
            let t = stamp(&d[0].raw);
            ensure!(t.is_some(), "generated DTSTAMP {:?} is no UTC date-time", d[0].raw);
            // the clock of a case goes on with every look at it (see sys.rs)
            ensure!(
                t.unwrap() >= lo && t.unwrap() <= hi,
                "generated DTSTAMP {:?} is not the current time ({lo}..{hi})",
                d[0].raw
            );
            ensure!(d[0].params.is_empty(), "generated DTSTAMP has parameters");
        }
    }
    ensure_eq!(s.children.len(), m.children.len(), "children of {}", s.name);
    for (s, m) in s.children.iter().zip(&m.children) {
        c16_walk(s, m, lo, hi, uids)?;
    }
    Ok(())
}

fn c16(m: &CalM) -> Verdict {
    let cal = m.build();
    let lo = now();
    let outs = [cal.to_string(), cal.components.iter().map(write_component).collect::<String>(), cal.to_string()];
    let hi = now();
    let mut generated: BTreeSet<String> = BTreeSet::new();
    let mut n_given = 0;
    for (i, out) in outs.iter().enumerate() {
        let roots = strict::read(out).map_err(|e| format!("{e}\noutput {out:?}"))?;
        let comps = if i == 1 { &roots } else { &roots[0].children };
        ensure_eq!(comps.len(), m.comps.len(), "components");
        let mut uids = vec![];
        for (s, m) in comps.iter().zip(&m.comps) {
            c16_walk(s, m, lo, hi, &mut uids)?;
        }
        if i != 1 {
            let root = &roots[0];
            for n in ADDED {
                let want = m.flat_props().iter().filter(|(k, _)| k == n).count();
                ensure_eq!(root.props.iter().filter(|p| p.name == n).count(), want, "{n} on the calendar itself");
            }
        }
        let given: BTreeSet<&String> = uids.iter().filter(|u| u.1).map(|u| &u.0).collect();
        n_given = given.len();
        for (u, g) in &uids {
            if !g {
                ensure!(!given.contains(u), "generated UID {u} is one of the given ones");
                ensure!(generated.insert(u.clone()), "UID {u} was generated twice");
            }
        }
    }
    Ok(Info::new(!generated.is_empty() && m.components() >= 2)
        .class("given UID", n_given > 0)
        .class("nested", m.comps.iter().any(|c| !c.children.is_empty()))
        .class("all given", generated.is_empty() && n_given > 0))
}

fn with_ids(m: CalM, pick: Vec<u8>) -> CalM {
    fn go(c: &mut CompM, pick: &[u8], n: &mut usize) {
        let p = pick[*n % pick.len()];
        *n += 1;
        if p & 1 == 1 {
            c.props.retain(|p| p.name != "UID");
            if p & 4 == 4 {
                c.props.push(plain("UID", &format!("uid-{n};,\\{}", "x".repeat(p as usize))));
            }
        }
        if p & 2 == 2 {
            c.props.retain(|p| p.name != "DTSTAMP");
            if p & 8 == 8 {
                c.props.push(plain("DTSTAMP", "20010203T040506Z"));
            }
        }
        c.children.iter_mut().for_each(|c| go(c, pick, n));
    }
    let mut m = m;
    let mut n = 0;
    m.comps.iter_mut().for_each(|c| go(c, &pick, &mut n));
    m
}

/// The same calendar is written in other threads and processes, at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Elsewhere {
    cal: CalM,
    random: Vec<u64>,
    seconds: u64,
}

fn generated_uids(m: &CalM) -> Result<Vec<String>, String> {
    let out = m.build().to_string();
    let roots = strict::read(&out).map_err(|e| format!("{e}\noutput {out:?}"))?;
    let mut uids = vec![];
    for (s, m) in roots[0].children.iter().zip(&m.comps) {
        c16_walk(s, m, i64::MIN, i64::MAX, &mut uids)?;
    }
    Ok(uids.into_iter().filter(|u| !u.1).map(|u| u.0).collect())
}

/// Runs in a process of its own.
pub fn uids_case() {
    let (m, random, seconds): (CalM, u64, u64) = serde_json::from_reader(std::io::stdin()).expect("case");
    crate::sys::pretend(random, seconds);
    println!("{}", serde_json::to_string(&generated_uids(&m)).unwrap());
}

fn c16_elsewhere(e: &Elsewhere) -> Verdict {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut all: Vec<Result<Vec<String>, String>> = vec![];
    let (threads, processes) = e.random.split_at(2);
    all.extend(std::thread::scope(|s| {
        let running: Vec<_> = threads
            .iter()
            .map(|r| {
                s.spawn(move || {
                    crate::sys::pretend(*r, e.seconds);
                    generated_uids(&e.cal)
                })
            })
            .collect();
        running.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("writing in another thread panics".into()))).collect::<Vec<_>>()
    }));
    for r in processes {
        let mut child = Command::new(std::env::current_exe().expect("own path"))
            .arg("uids-case")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("child");
        child.stdin.take().unwrap().write_all(serde_json::to_string(&(&e.cal, r, e.seconds)).unwrap().as_bytes()).expect("child reads");
        let out = child.wait_with_output().expect("child ends");
        ensure!(out.status.success(), "writing in another process fails");
        all.push(serde_json::from_slice(&out.stdout).expect("identifiers"));
    }
    let mut seen = BTreeSet::new();
    for list in all {
        for u in list? {
            ensure!(seen.insert(u.clone()), "UID {u} was generated twice, in threads or processes next to each other");
        }
    }
    Ok(Info::new(seen.len() >= 4).class("all given", seen.is_empty()))
}

pub fn c16_facets() -> Vec<Facet> {
    vec![
        facet(
            "calendar",
            16_000,
            200_000,
            || (cal_m().prop_map(clean), vec(any::<u8>(), 1..8)).prop_map(|(m, p)| with_ids(m, p)).boxed(),
            c16,
        ),
        facet(
            "large",
            3_000,
            40_000,
            || (cal_large().prop_map(clean), vec(any::<u8>(), 1..8)).prop_map(|(m, p)| with_ids(m, p)).boxed(),
            c16,
        ),
        facet(
            "elsewhere",
            600,
            6_000,
            || {
                (cal_m().prop_map(clean), vec(any::<u8>(), 1..8), any::<u64>(), 1u64..4_000_000_000)
                    .prop_map(|(m, p, r, seconds)| Elsewhere {
                        cal: with_ids(m, p),
                        random: (0..4).map(|i: u64| r ^ (i << 60)).collect(),
                        seconds,
                    })
                    .boxed()
            },
            c16_elsewhere,
        ),
    ]
}

// ------------------------------------------------------------------ C17

fn strict_flat(s: &strict::SComp) -> Result<Vec<(String, FlatProp)>, String> {
    s.props
        .iter()
        .map(|p| {
            let params: BTreeMap<String, String> = p.params.iter().map(|(k, v)| (k.clone(), v.join(","))).collect();
            ensure_eq!(params.len(), p.params.len(), "repeated parameter in {p:?}");
            let t = effective_type(&p.name, params.get("VALUE").map(String::as_str));
            let value = if t == Some("TEXT") { strict::unescape(&p.raw)? } else { p.raw.clone() };
            Ok((p.name.clone(), FlatProp { value, params }))
        })
        .collect()
}

fn strict_comp(s: &strict::SComp) -> Result<FlatComp, String> {
    let mut props: BTreeMap<String, Vec<FlatProp>> = BTreeMap::new();
    for (k, p) in strict_flat(s)? {
        props.entry(k).or_default().push(p);
    }
    Ok(FlatComp {
        kind: s.name.clone(),
        props,
        children: s.children.iter().map(strict_comp).collect::<Result<_, _>>()?,
    })
}

fn c17_calendar(m: &CalM) -> Verdict {
    let out = m.build().to_string();
    let e = |e: String| format!("{e}\noutput: {out:?}");
    let roots = strict::read(&out).map_err(e)?;
    ensure_eq!(roots.len(), 1, "top-level components in {out:?}");
    ensure_eq!(roots[0].name, "VCALENDAR", "top-level component");
    ensure_eq!(strict_flat(&roots[0])?, m.flat_props(), "calendar properties");
    ensure_eq!(roots[0].children.len(), m.comps.len(), "components in {out:?}");
    for (s, c) in roots[0].children.iter().zip(&m.comps) {
        same_component(&strict_comp(s).map_err(e)?, &c.flat(), "").map_err(e)?;
    }
    Ok(Info::new(m.all_props().iter().any(|p| tricky(&p.value)) && m.components() > 0)
        .class("parameters that need quotes", m.all_props().iter().any(|p| p.params.iter().any(|(_, v)| v.contains([':', ';']))))
        .class("nested", m.comps.iter().any(|c| !c.children.is_empty())))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ApiCal {
    t: Vec<String>,
    tz: String,
    secs: i32,
    n: u32,
}

/// the convenience setters, read by the strict reader
fn c17_setters(c: &ApiCal) -> Verdict {
    let t = |i: usize| c.t[i].as_str();
    let dt = chrono::DateTime::from_timestamp(c.secs as i64 * 7, 0).unwrap();
    let mut cal = Calendar::new();
    cal.name(t(0)).description(t(1)).timezone(t(2)).ttl(&chrono::Duration::seconds(c.n as i64));
    let mut e = Event::new();
    e.summary(t(3)).starts(dt).ends(icalendar::CalendarDateTime::WithTimezone { date_time: dt.naive_utc(), tzid: c.tz.clone() });
    e.venue(t(4), &c.tz).class(icalendar::Class::Private).status(icalendar::EventStatus::Tentative);
    e.priority(c.n % 11).sequence(c.n).url("https://example.com/a,b;c").created(dt).last_modified(dt).timestamp(dt);
    e.alarm(Alarm::display(t(5), (-chrono::Duration::seconds(c.n as i64), icalendar::Related::End)).duration_and_repeat(chrono::Duration::minutes(5), c.n));
    e.alarm(Alarm::audio(icalendar::Trigger::from(dt)));
    cal.push(e.done());
    let out = cal.to_string();
    let roots = strict::read(&out).map_err(|e| format!("{e}\noutput: {out:?}"))?;
    ensure!(roots.len() == 1 && roots[0].children.len() == 1, "components in {out:?}");
    let want: BTreeMap<&str, &str> = [
        ("VERSION", "2.0"), ("PRODID", "ICALENDAR-RS"), ("CALSCALE", "GREGORIAN"), ("NAME", t(0)), ("X-WR-CALNAME", t(0)),
        ("DESCRIPTION", t(1)), ("X-WR-CALDESC", t(1)), ("TIMEZONE-ID", t(2)), ("X-WR-TIMEZONE", t(2)),
    ].into_iter().collect();
    let got = strict_flat(&roots[0])?;
    for (k, v) in &want {
        ensure_eq!(got.iter().filter(|(n, _)| n == k).map(|(_, p)| p.value.as_str()).collect::<Vec<_>>(), vec![*v], "{k}");
    }
    ensure_eq!(got.len(), want.len() + 2, "number of calendar properties");
    let ev = strict_comp(&roots[0].children[0])?;
    let utc = dt.format("%Y%m%dT%H%M%SZ").to_string();
    let naive = dt.format("%Y%m%dT%H%M%S").to_string();
    let one = |c: &FlatComp, k: &str| -> Result<FlatProp, String> {
        match c.props.get(k).map(Vec::as_slice) {
            Some([p]) => Ok(p.clone()),
            o => Err(format!("{k} is {o:?} in {out:?}")),
        }
    };
    for (k, v) in [("SUMMARY", t(3)), ("DTSTART", &utc), ("DTEND", &naive), ("LOCATION", t(4)), ("CLASS", "PRIVATE"),
                   ("STATUS", "TENTATIVE"), ("PRIORITY", &(c.n % 11).to_string()), ("SEQUENCE", &c.n.to_string()),
                   ("URL", "https://example.com/a,b;c"), ("CREATED", &utc), ("LAST-MODIFIED", &utc), ("DTSTAMP", &utc)] {
        ensure_eq!(one(&ev, k)?.value, v, "{k}");
    }
    ensure_eq!(one(&ev, "DTEND")?.params.get("TZID"), Some(&c.tz), "TZID");
    ensure_eq!(one(&ev, "LOCATION")?.params.get("VVENUE"), Some(&c.tz), "VVENUE");
    ensure_eq!(ev.children.len(), 2, "alarms");
    let (a, b) = (&ev.children[0], &ev.children[1]);
    ensure_eq!((a.kind.as_str(), b.kind.as_str()), ("VALARM", "VALARM"), "alarms");
    ensure_eq!(one(a, "ACTION")?.value, "DISPLAY", "action");
    ensure_eq!(one(a, "DESCRIPTION")?.value, t(5), "alarm description");
    ensure_eq!(one(a, "REPEAT")?.value, c.n.to_string(), "repeat");
    ensure_eq!(one(a, "TRIGGER")?.params.get("RELATED").map(String::as_str), Some("END"), "related");
    ensure_eq!(one(b, "ACTION")?.value, "AUDIO", "action");
    ensure_eq!(one(b, "TRIGGER")?.value, utc, "absolute trigger");
    ensure_eq!(one(b, "TRIGGER")?.params.get("VALUE").map(String::as_str), Some("DATE-TIME"), "absolute trigger");
    Ok(Info::new(c.t.iter().any(|s| tricky(s))))
}

pub fn c17() -> Vec<Facet> {
    vec![
        facet("calendar", 16_000, 200_000, || cal_m().prop_map(clean).boxed(), c17_calendar),
        facet("large", 3_000, 40_000, || cal_large().prop_map(clean).boxed(), c17_calendar),
        facet(
            "convenience setters",
            8_000,
            80_000,
            || {
                (vec(text().prop_map(|t| without_controls(&t)), 6), param_value(), any::<i32>().prop_map(|s| s / 2), any::<u32>())
                    .prop_map(|(t, tz, secs, n)| ApiCal { t, tz, secs, n })
                    .boxed()
            },
            c17_setters,
        ),
    ]
}

// ------------------------------------------------------------------ C18

pub fn type_name(t: ValueType) -> &'static str {
    use ValueType::*;
    match t {
        Binary => "BINARY",
        Boolean => "BOOLEAN",
        CalAddress => "CAL-ADDRESS",
        Date => "DATE",
        DateTime => "DATE-TIME",
        Duration => "DURATION",
        Float => "FLOAT",
        Integer => "INTEGER",
        Period => "PERIOD",
        Recur => "RECUR",
        Text => "TEXT",
        Time => "TIME",
        Uri => "URI",
        UtcOffset => "UTC-OFFSET",
    }
}

const TYPES: [ValueType; 14] = [
    ValueType::Binary,
    ValueType::Boolean,
    ValueType::CalAddress,
    ValueType::Date,
    ValueType::DateTime,
    ValueType::Duration,
    ValueType::Float,
    ValueType::Integer,
    ValueType::Period,
    ValueType::Recur,
    ValueType::Text,
    ValueType::Time,
    ValueType::Uri,
    ValueType::UtcOffset,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Typed {
    prop: PropM,
    depth: u8,
}

fn c18_property(c: &Typed) -> Verdict {
    let p = &c.prop;
    let want = effective_type(&p.name, p.value_param());
    let built = p.build();
    ensure_eq!(built.value_type().map(type_name), want, "value type of {p:?}");
    // writing
    let line: String = built.clone().try_into().map_err(|e| format!("{e}"))?;
    let content = line.strip_suffix("\r\n").unwrap_or(&line).replace("\r\n ", "");
    let escaped = !content.ends_with(&format!(":{}", p.value));
    if want != Some("TEXT") {
        ensure!(!escaped, "a value of type {want:?} was changed when written: {content:?}, value {:?}", p.value);
    } else if p.value.contains(['\\', ',', ';', '\n']) {
        ensure!(escaped, "a text was not escaped when written: {content:?}, value {:?}", p.value);
    }
    // reading
    let single = Property::from_str(&line).map_err(|e| format!("{line:?}: {e}"))?;
    ensure_eq!(single.value(), p.value.as_str(), "value of the single line {line:?}");
    ensure_eq!(single.value_type().map(type_name), want, "value type of the line {line:?}");
    let unfolded = parser::unfold(&line);
    let parsed = parser::Property::try_from(unfolded.as_str())?;
    ensure_eq!(parsed.val.as_str(), p.value.as_str(), "value of the parsed property {line:?}");
    // writing what was read
    let again = parser::unfold(&parsed.to_string());
    if want != Some("TEXT") {
        ensure!(
            again.trim_end_matches(['\r', '\n']).ends_with(&format!(":{}", p.value)),
            "a value of type {want:?} was changed when rewritten: {again:?}"
        );
    }
    // inside of a component
    let mut comp = CompM { kind: Kind::Event, props: vec![p.clone()], multis: vec![], children: vec![] };
    for _ in 0..c.depth {
        comp = CompM { kind: Kind::Other("X-C".into()), props: vec![], multis: vec![], children: vec![comp] };
    }
    let m = CalM { defaults: false, props: vec![p.clone()], comps: vec![comp] };
    let back = read(&m.build().to_string())?;
    same_calendar(&back, &m.flat_props(), &m.comps.iter().map(CompM::flat).collect::<Vec<_>>())?;
    ensure_eq!(back.properties[0].value_type().map(type_name), want, "value type after reading");
    Ok(Info::new(want.is_some() && p.value.contains(['\\', ',', ';', '\n', ':']))
        .class("declared", p.value_param().map_or(false, |v| VALUE_TYPES.contains(&v)))
        .class("unknown declaration", p.value_param().map_or(false, |v| !VALUE_TYPES.contains(&v)))
        .class("text", want == Some("TEXT"))
        .class("no type", want.is_none()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TypeConv {
    i: usize,
    key: String,
    junk: String,
}

fn c18_convert(c: &TypeConv) -> Verdict {
    let t = TYPES[c.i];
    let n = VALUE_TYPES[c.i];
    ensure_eq!(type_name(t), n, "harness table");
    ensure_eq!(ValueType::from_str(n), Ok(t), "from_str");
    let p = Parameter::from(t);
    ensure_eq!((p.key(), p.value()), ("VALUE", n), "parameter");
    ensure_eq!(ValueType::try_from(p), Ok(t), "try_from");
    if c.key != "VALUE" {
        ensure_eq!(ValueType::try_from(Parameter::new(&c.key, n)), Err(()), "parameter {}", c.key);
    }
    let known = VALUE_TYPES.iter().any(|v| v.eq_ignore_ascii_case(&c.junk));
    if !known {
        ensure_eq!(ValueType::from_str(&c.junk), Err(()), "from_str({:?})", c.junk);
        ensure_eq!(ValueType::try_from(Parameter::new("VALUE", &c.junk)), Err(()), "{:?}", c.junk);
    }
    Ok(Info::new(!known))
}

pub fn c18() -> Vec<Facet> {
    let typed = || {
        let name = prop_oneof![5 => select(RFC_TYPES.iter().map(|t| t.0.to_string()).collect::<Vec<_>>()), 2 => x_name()];
        (prop_m(name.boxed()), 0u8..3).prop_map(|(prop, depth)| Typed { prop, depth }).boxed()
    };
    vec![
        facet("typed property", 30_000, 300_000, typed, c18_property),
        facet(
            "type conversion",
            4_000,
            40_000,
            || {
                (
                    0usize..14,
                    param_key(),
                    prop_oneof![text(), value_decl(), select(VALUE_TYPES.to_vec()).prop_map(|s| format!("{s}X")),
                        select(VALUE_TYPES.to_vec()).prop_map(|s| s[1..].to_string())],
                )
                    .prop_map(|(i, key, junk)| TypeConv { i, key, junk })
                    .boxed()
            },
            c18_convert,
        ),
    ]
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ParamCase {
    name: String,
    value: String,
    params: Vec<(String, String)>,
    kind: Kind,
    multi: bool,
}

fn c22_params(c: &ParamCase) -> Verdict {
    let p = PropM { name: c.name.clone(), value: c.value.clone(), params: c.params.clone() };
    let built = p.build();
    ensure_eq!(flat_prop(&built), p.flat(), "as built");
    // the last of several settings counts
    for (k, v) in &p.flat().params {
        ensure_eq!(built.get_param_as(k, |s| Some(s.to_string())).as_ref(), Some(v), "get_param_as({k})");
    }
    let line: String = built.try_into().map_err(|e| format!("{e}"))?;
    let single = Property::from_str(&line).map_err(|e| format!("{line:?}: {e}"))?;
    ensure_eq!(flat_prop(&single), p.flat(), "single line {line:?}");
    let unfolded = parser::unfold(&line);
    let parsed = parser::Property::try_from(unfolded.as_str())?;
    ensure_eq!(parsed.params.len(), p.flat().params.len(), "parameters of {line:?}");
    // inside of components and calendars
    let inner = CompM {
        kind: Kind::Alarm,
        props: if c.multi { vec![] } else { vec![p.clone()] },
        multis: if c.multi { vec![p.clone(), PropM { params: vec![], ..p.clone() }, p.clone()] } else { vec![] },
        children: vec![],
    };
    let outer = CompM { kind: c.kind.clone(), props: vec![p.clone()], multis: vec![], children: vec![inner] };
    let m = CalM { defaults: true, props: vec![p.clone()], comps: vec![outer] };
    let out = m.build().to_string();
    let back = read(&out)?;
    let comps: Vec<FlatComp> = m.comps.iter().map(CompM::flat).collect();
    same_calendar(&back, &m.flat_props(), &comps).map_err(|e| format!("{e}\noutput {out:?}"))?;
    // the parsed model, rewritten
    let text = parser::unfold(&out);
    let parsed = parser::read_calendar(&text)?;
    let again = read(&parsed.to_string())?;
    same_calendar(&again, &m.flat_props(), &comps).map_err(|e| format!("parsed and rewritten: {e}\noutput {out:?}"))?;
    Ok(Info::new(c.params.iter().any(|(_, v)| v.is_empty() || v.contains([':', ';', ',', '=', '\\', ' ']) || !v.is_ascii()))
        .class("two or more", c.params.len() > 1)
        .class("set again", p.flat().params.len() < c.params.len())
        .class("empty value", c.params.iter().any(|(_, v)| v.is_empty()))
        .class("needs quotes", c.params.iter().any(|(_, v)| v.contains([':', ';'])))
        .class("folded", line.contains("\r\n ")))
}

pub fn c22() -> Vec<Facet> {
    let case = || {
        (
            prop_oneof![3 => select(text_names()), 2 => select(other_names()), 2 => x_name()],
            raw_value(),
            vec((param_key(), param_value()), 1..7).prop_map(|v| unique(v, |(k, _)| k.clone())),
            kind(),
            any::<bool>(),
        )
            .prop_map(|(name, value, params, kind, multi)| ParamCase {
                multi: multi && !ADDED.contains(&name.as_str()),
                name,
                value,
                params,
                kind,
            })
            .boxed()
    };
    let large = move || {
        (case(), magnitude(400), magnitude(60_000), param_value(), any::<bool>())
            .prop_map(|(mut c, n, len, v, many)| {
                if many {
                    // no key twice
                    c.params.extend((0..n).map(|i| (format!("X-NUMBER-{i}"), format!("{v}{i}"))));
                } else {
                    let v = if v.is_empty() { "x".to_string() } else { v };
                    c.params[0].1 = v.repeat(len / v.len() + 1);
                }
                c
            })
            .boxed()
    };
    // a history of settings, some of them of the same name
    let again = move || {
        (case(), vec((0..8usize, param_value()), 1..6))
            .prop_map(|(mut c, more)| {
                for (i, v) in more {
                    let k = c.params[i % c.params.len()].0.clone();
                    c.params.push((k, v));
                }
                c
            })
            .boxed()
    };
    vec![
        facet("parameters", 20_000, 250_000, case, c22_params),
        facet("set again", 10_000, 120_000, again, c22_params),
        facet("large", 3_000, 40_000, large, c22_params),
    ]
}

// ------------------------------------------------------------------ C23

fn with_all_ids(mut m: CalM) -> CalM {
    fn go(c: &mut CompM, n: &mut usize) {
        *n += 1;
        if !c.props.iter().any(|p| p.name == "UID") {
            c.props.push(plain("UID", &format!("uid-{n}")));
        }
        if !c.props.iter().any(|p| p.name == "DTSTAMP") {
            c.props.push(plain("DTSTAMP", "20010203T040506Z"));
        }
        c.children.iter_mut().for_each(|c| go(c, n));
    }
    let mut n = 0;
    m.comps.iter_mut().for_each(|c| go(c, &mut n));
    m
}

fn own_writers(c: &CalendarComponent) -> Result<Vec<String>, String> {
    fn two<C: Component>(c: &C) -> Vec<String> {
        vec![c.try_into_string().unwrap(), Component::to_string(c)]
    }
    let by = |r: Result<String, std::fmt::Error>| r.map_err(|e| e.to_string());
    Ok(match c {
        CalendarComponent::Event(c) => {
            let mut v = two(c);
            v.push(by(c.clone().try_into())?);
            v.push(c.clone().done().try_into_string().unwrap());
            v
        }
        CalendarComponent::Todo(c) => {
            let mut v = two(c);
            v.push(by(c.clone().try_into())?);
            v.push(c.clone().done().try_into_string().unwrap());
            v
        }
        CalendarComponent::Venue(c) => {
            let mut v = two(c);
            v.push(by(c.clone().try_into())?);
            v.push(c.clone().done().try_into_string().unwrap());
            v
        }
        CalendarComponent::Other(c) => two(c),
        _ => unreachable!(),
    })
}

fn c23_writers(m: &CalM) -> Verdict {
    let cal = m.build();
    let before = (cal_props(&cal), cal.components.iter().map(flat).collect::<Vec<_>>());
    let out = cal.to_string();
    ensure_eq!(format!("{cal}"), out, "displayed again");
    let conv: String = (&cal).try_into().map_err(|e: std::fmt::Error| e.to_string())?;
    ensure_eq!(conv, out, "converted");
    let mut parts = String::from("BEGIN:VCALENDAR\r\n");
    for p in &cal.properties {
        let s: String = p.clone().try_into().map_err(|e: std::fmt::Error| e.to_string())?;
        parts.push_str(&s);
    }
    for c in cal.iter() {
        let own = own_writers(c)?;
        for w in &own {
            ensure_eq!(w, &own[0], "writers of {} disagree", flat(c).kind);
        }
        for w in own_writers(&c.clone())? {
            ensure_eq!(w, own[0], "a clone is written differently");
        }
        parts.push_str(&own[0]);
    }
    parts.push_str("END:VCALENDAR\r\n");
    ensure_eq!(out, parts, "the calendar is not written like its parts");
    ensure_eq!(cal.to_string(), out, "written once more");
    let after = (cal_props(&cal), cal.components.iter().map(flat).collect::<Vec<_>>());
    ensure_eq!(after, before, "writing changed the calendar");
    ensure_eq!(after.0, m.flat_props(), "calendar properties");
    for (g, w) in after.1.iter().zip(&m.comps) {
        same_component(g, &w.flat(), "")?;
    }
    let mut moved = cal;
    let done = moved.done();
    ensure_eq!(done.to_string(), out, "written after done()");
    Ok(Info::new(m.components() > 0 && m.all_props().len() > 2)
        .class("nested", m.comps.iter().any(|c| !c.children.is_empty()))
        .class("parameters", m.all_props().iter().any(|p| p.params.len() > 1)))
}

/// without given identifiers: everything but those agrees
fn c23_masked(m: &CalM) -> Verdict {
    fn strip(s: &str, m: &CalM) -> Result<Vec<String>, String> {
        let given: BTreeSet<String> = m.all_props().iter().map(|p| p.name.clone()).collect();
        Ok(s.replace("\r\n ", "")
            .split("\r\n")
            .filter(|l| !ADDED.iter().any(|a| l.starts_with(&format!("{a}:")) && !given.contains(*a)))
            .map(String::from)
            .collect())
    }
    let cal = m.build();
    let before = cal.components.iter().map(flat).collect::<Vec<_>>();
    let a = strip(&cal.to_string(), m)?;
    let b: String = (&cal).try_into().map_err(|e: std::fmt::Error| e.to_string())?;
    ensure_eq!(strip(&b, m)?, a, "converted");
    let own: String = cal.components.iter().map(write_component).collect();
    let all: Vec<String> = strip(&own, m)?;
    let n = all.len() - 1;
    ensure_eq!(a[a.len() - 2 - n..a.len() - 2], all[..n], "components on their own");
    ensure_eq!(cal.components.iter().map(flat).collect::<Vec<_>>(), before, "writing changed the calendar");
    Ok(Info::new(m.components() > 0))
}

/// Refuses the piece with which it would get more than it likes, as a whole or in part; after that it takes everything again.
struct Refusing {
    left: Option<usize>,
    part: bool,
    got: String,
    refused: bool,
}

impl std::fmt::Write for Refusing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.left {
            Some(n) if s.len() > n => {
                let n = (0..=n).rev().find(|i| s.is_char_boundary(*i)).unwrap();
                if self.part {
                    self.got += &s[..n];
                }
                (self.left, self.refused) = (None, true);
                Err(std::fmt::Error)
            }
            _ => {
                self.left = self.left.map(|n| n - s.len());
                self.got += s;
                Ok(())
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refused {
    cal: CalM,
    at: Vec<crate::gen::Index>,
    part: bool,
}

fn c23_refused(r: &Refused) -> Verdict {
    use std::fmt::Write;
    let cal = r.cal.build();
    type Writer<'a> = Box<dyn Fn(&mut Refusing) -> std::fmt::Result + 'a>;
    let out = cal.to_string();
    let unfolded = parser::unfold(&out);
    let parsed = parser::read_calendar(&unfolded)?;
    let again = parsed.to_string();
    let mut writers: Vec<(&str, String, Writer)> = vec![
        ("calendar", out.clone(), Box::new(|w| write!(w, "{cal}"))),
        ("parsed calendar", again, Box::new(|w| write!(w, "{parsed}"))),
    ];
    for p in parsed.properties.iter().take(2) {
        writers.push(("parsed property", p.to_string(), Box::new(move |w| write!(w, "{p}"))));
    }
    for c in cal.iter().take(2) {
        let text = write_component(c);
        writers.push((
            "component",
            text,
            match c {
                CalendarComponent::Event(c) => Box::new(move |w| c.fmt_write(w)),
                CalendarComponent::Todo(c) => Box::new(move |w| c.fmt_write(w)),
                CalendarComponent::Venue(c) => Box::new(move |w| c.fmt_write(w)),
                CalendarComponent::Other(c) => Box::new(move |w| c.fmt_write(w)),
                _ => unreachable!(),
            },
        ));
    }
    for (what, whole, write) in writers {
        let places = r.at.iter().map(|i| i.index(whole.len())).chain([0, whole.len() - 1]);
        for n in places {
            let mut w = Refusing { left: Some(n), part: r.part, got: String::new(), refused: false };
            let result = write(&mut w);
            ensure!(w.refused && result.is_err(), "{what}: {n} of {} bytes could be written, but there is no error: {whole:?}", whole.len());
            ensure!(whole.starts_with(&w.got), "{what}: what was written up to the error at {n} is no beginning: {:?} of {whole:?}", w.got);
        }
        let mut w = Refusing { left: Some(whole.len()), part: r.part, got: "before".into(), refused: false };
        ensure!(write(&mut w).is_ok() && w.got == format!("before{whole}"), "{what}: not appended to what is there: {:?}", w.got);
    }
    Ok(Info::new(r.cal.components() > 0))
}

const PRINTED: &str = "\u{1}---- printed ----\u{1}";

/// Runs in a process of its own: prints on stdout, says on stderr what should have come.
pub fn print_case() {
    fn own<C: Component + Clone>(c: &C, want: &mut Vec<String>) {
        want.push(c.try_into_string().unwrap());
        c.print().unwrap();
        print!("{PRINTED}");
        for x in c.components() {
            own(x, want);
        }
    }
    let m: CalM = serde_json::from_reader(std::io::stdin()).expect("case");
    let mut want = vec![];
    let cal = m.build();
    want.push(cal.to_string());
    cal.print().unwrap();
    print!("{PRINTED}");
    for c in cal.iter() {
        match c {
            CalendarComponent::Event(c) => own(c, &mut want),
            CalendarComponent::Todo(c) => own(c, &mut want),
            CalendarComponent::Venue(c) => own(c, &mut want),
            CalendarComponent::Other(c) => own(c, &mut want),
            _ => unreachable!(),
        }
    }
    let text = parser::unfold(&want[0]);
    let parsed = parser::read_calendar(&text).unwrap();
    want.push(parsed.to_string());
    parsed.print().unwrap();
    eprint!("{}", serde_json::to_string(&want).unwrap());
}

fn c23_print(m: &CalM) -> Verdict {
    use std::io::Write;
    use std::process::{Command, Stdio};
    // the harness's own trouble is no violation
    let exe = std::env::current_exe().expect("own path");
    let mut child = Command::new(exe)
        .arg("print-case")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("child");
    child.stdin.take().unwrap().write_all(serde_json::to_string(m).unwrap().as_bytes()).expect("child reads");
    let out = child.wait_with_output().expect("child ends");
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    ensure!(out.status.success(), "printing fails: {err}");
    let want: Vec<String> = serde_json::from_str(&err).map_err(|e| format!("{e}: {err}"))?;
    let got = String::from_utf8(out.stdout).map_err(|e| format!("what is printed is no UTF-8: {e}"))?;
    let got: Vec<&str> = got.split(PRINTED).collect();
    ensure_eq!(got.len(), want.len(), "number of printed objects");
    for (g, w) in got.iter().zip(&want) {
        // print() ends with a line break of its own
        ensure_eq!(g.trim_end_matches("\r\n"), w.trim_end_matches("\r\n"), "printed");
    }
    for g in [got[0], got[got.len() - 1]] {
        let comps: Vec<FlatComp> = m.comps.iter().map(CompM::flat).collect();
        same_calendar(&read(g)?, &m.flat_props(), &comps)?;
    }
    Ok(Info::new(m.components() > 0 && m.all_props().len() > 2))
}

pub fn c23() -> Vec<Facet> {
    let drop_ids = |mut m: CalM| {
        m.map_props(&|p| {
            if ADDED.contains(&p.name.as_str()) {
                p.name = "X-ID".into();
                p.params.retain(|(k, _)| k != "VALUE");
                p.value = p.value.replace(['\r', '\n'], "");
            }
        });
        m
    };
    vec![
        facet("given identifiers", 12_000, 150_000, || cal_m().prop_map(with_all_ids).boxed(), c23_writers),
        facet("large", 3_000, 40_000, || cal_large().prop_map(with_all_ids).boxed(), c23_writers),
        facet(
            "refusing writer",
            4_000,
            60_000,
            || {
                (cal_m().prop_map(with_all_ids), vec(any::<crate::gen::Index>(), 1..6), any::<bool>())
                    .prop_map(|(cal, at, part)| Refused { cal, at, part })
                    .boxed()
            },
            c23_refused,
        ),
        facet("print", 600, 6_000, || cal_m().prop_map(with_all_ids).boxed(), c23_print),
        facet(
            "generated identifiers",
            6_000,
            60_000,
            move || cal_m().prop_map(clean).prop_map(drop_ids).boxed(),
            c23_masked,
        ),
    ]
}
