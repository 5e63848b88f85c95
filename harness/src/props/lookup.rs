//! C24: looking things up in what was read, copying it, building it by hand.
use super::docs::{doc, large, Doc, STRICT};
use crate::doc::*;
use crate::gen::*;
use crate::model::*;
use crate::runner::{facet, Facet, Info, Verdict};
use crate::{ensure, ensure_eq};
use icalendar::{parser, Calendar, CalendarComponent, Component, Property, ValueType};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::str::FromStr;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lookup {
    doc: Doc,
    probes: Vec<String>,
}

/// names that come close
fn near(names: &BTreeSet<String>, probes: &[String]) -> BTreeSet<String> {
    let mut v = names.clone();
    for n in names {
        v.insert(n.to_lowercase());
        v.insert(n.to_uppercase());
        v.insert(format!("{n}X"));
        v.insert(format!("X{n}"));
        v.insert(format!(" {n}"));
        v.insert(format!("{n} "));
        v.insert(format!("X-{n}"));
        v.extend(n.strip_prefix("X-").map(String::from));
        v.extend(n.rsplit_once('-').map(|(a, _)| a.to_string()));
        v.extend(n.split_once('-').map(|(_, b)| b.to_string()));
        v.insert(n.chars().skip(1).collect());
        v.insert(n.chars().take(n.chars().count().saturating_sub(1)).collect());
        v.insert(n.chars().take(1).collect());
    }
    v.insert(String::new());
    v.extend(["SUMMARY", "DESCRIPTION", "UID", "NAME", "URL"].map(String::from));
    v.extend(probes.iter().cloned());
    v
}

fn params_of(p: &Property, flat: &FlatProp, probes: &[String]) -> Result<(), String> {
    for (k, v) in &flat.params {
        ensure_eq!(p.get_param_as(k, |s| Some(s.to_string())).as_ref(), Some(v), "parameter {k}");
        ensure_eq!(p.params().get(k).map(|q| (q.key(), q.value())), Some((k.as_str(), v.as_str())), "parameter {k}");
    }
    for n in near(&flat.params.keys().cloned().collect(), probes) {
        if !flat.params.contains_key(&n) {
            ensure!(!p.params().contains_key(&n), "parameter {n:?} out of nothing");
            ensure_eq!(p.get_param_as(&n, |s| Some(s.to_string())), None, "parameter {n:?} out of nothing");
        }
    }
    ensure_eq!(p.params().len(), flat.params.len(), "number of parameters");
    ensure_eq!(p.get_value_as(|s| Some(s.to_string())).as_ref(), Some(&flat.value), "get_value_as");
    ensure_eq!(p.get_value_as(|_| None::<()>), None, "get_value_as");
    Ok(())
}

fn typed<C: Component>(c: &C, want: &FlatComp, d: &DComp, probes: &[String]) -> Result<(), String> {
    ensure_eq!(c.component_kind(), want.kind, "kind");
    let names = want.props.keys().cloned().collect();
    for n in near(&names, probes) {
        let all = want.props.get(&n).cloned().unwrap_or_default();
        let single = c.properties().get(&n).map(flat_prop);
        let list: Vec<FlatProp> = c.multi_properties().get(&n).into_iter().flatten().map(flat_prop).collect();
        let both: Vec<FlatProp> = single.iter().cloned().chain(list).collect();
        ensure_eq!(both, all, "occurrences of {n:?}");
        ensure_eq!(c.property_value(&n), single.as_ref().map(|p| p.value.as_str()), "property_value({n:?})");
    }
    for p in c.properties().values().chain(c.multi_properties().values().flatten()) {
        let first = flat_prop(p);
        params_of(p, &first, probes)?;
    }
    ensure_eq!(c.get_summary(), c.property_value("SUMMARY"), "summary");
    ensure_eq!(c.get_description(), c.property_value("DESCRIPTION"), "description");
    ensure_eq!(c.get_uid(), c.property_value("UID"), "uid");
    ensure_eq!(c.get_url(), c.property_value("URL"), "url");
    ensure_eq!(c.components().len(), want.children.len(), "components");
    for ((c, want), d) in c.components().iter().zip(&want.children).zip(d.comps()) {
        typed(c, want, d, probes)?;
    }
    Ok(())
}

fn found(c: &parser::Component, d: &DComp, probes: &[String]) -> Result<(), String> {
    let props = d.props();
    let names: BTreeSet<String> = props.iter().map(|p| p.name.clone()).collect();
    for n in near(&names, probes) {
        let got = c.find_prop(&n).map(|p| c.properties.iter().position(|q| std::ptr::eq(p, q)));
        let want = props.iter().position(|p| p.name == n);
        ensure_eq!(got, want.map(Some), "find_prop({n:?}) in {:?}", d.lines());
        // however the name is given
        ensure_eq!(c.find_prop(n.as_str()), c.find_prop(n.clone()), "find_prop({n:?})");
    }
    for (c, d) in c.components.iter().zip(d.comps()) {
        found(c, d, probes)?;
    }
    Ok(())
}

fn by_hand<'a>(c: &'a parser::Component<'_>) -> parser::Component<'a> {
    parser::Component {
        name: c.name.as_str().into(),
        properties: c
            .properties
            .iter()
            .map(|p| {
                let mut q = parser::Property::new_ref(p.name.as_str(), p.val.as_str());
                for x in &p.params {
                    q.params.push(parser::Parameter::new_ref(x.key.as_str(), x.val.as_ref().map(|v| v.as_str())));
                }
                q
            })
            .collect(),
        components: c.components.iter().map(by_hand).collect(),
    }
}

/// independent of the text it was read from
fn owned(c: &parser::Component<'_>, how: &mut usize) -> parser::Component<'static> {
    let mut own = |s: &parser::ParseString<'_>| -> parser::ParseString<'static> {
        *how += 1;
        match *how % 4 {
            0 => s.to_owned(),
            1 => s.clone().into_owned(),
            2 => parser::ParseString::from(s.to_string()),
            _ => s.to_owned().to_owned().into_owned(),
        }
    };
    let properties = c
        .properties
        .iter()
        .map(|p| parser::Property {
            name: own(&p.name),
            val: own(&p.val),
            params: p
                .params
                .iter()
                .map(|q| parser::Parameter { key: own(&q.key), val: q.val.as_ref().map(&mut own) })
                .collect(),
        })
        .collect();
    let name = own(&c.name);
    parser::Component { name, properties, components: c.components.iter().map(|c| owned(c, how)).collect() }
}

fn written(c: parser::Component<'_>) -> String {
    parser::Calendar { properties: vec![], components: vec![c] }.to_string()
}

fn c24(l: &Lookup) -> Verdict {
    let text = l.doc.text();
    let e = |e: String| format!("{e}\ninput: {text:?}");
    let free: Vec<parser::Component<'static>> = {
        let u = parser::unfold(&text);
        let list = parser::read_components(&u).map_err(|x| e(x))?;
        for (c, d) in list.iter().zip(&l.doc.roots) {
            found(c, d, &l.probes).map_err(e)?;
            let hand = by_hand(c);
            ensure_eq!(&hand, c, "{}", e("built by hand".into()));
            ensure_eq!(written(hand.clone()), written(c.clone()), "{}", e("built by hand, written".into()));
            ensure!(CalendarComponent::from(hand.clone()) == CalendarComponent::from(c.clone()), "{}", e("built by hand, typed".into()));
            let own = owned(c, &mut text.len().clone());
            ensure_eq!(&own, c, "{}", e("owned".into()));
            ensure_eq!(written(own.clone()), written(c.clone()), "{}", e("owned, written".into()));
        }
        list.iter().map(|c| owned(c, &mut text.len().clone())).collect()
    };
    // the text is gone
    let want: Vec<&DComp> = l.doc.roots.iter().collect();
    same_parsed_list(&free, &want, "").map_err(e)?;
    for (c, d) in free.iter().zip(&l.doc.roots) {
        found(c, d, &l.probes).map_err(e)?;
    }
    // typed
    let cal = Calendar::from_str(&text).map_err(|x| e(x.to_string()))?;
    let (props, comps) = typed_expectation(&l.doc.roots);
    let names: BTreeSet<String> = props.iter().map(|(n, _)| n.clone()).collect();
    if l.doc.roots[0].name == "VCALENDAR" {
        for n in near(&names, &l.probes) {
            let first = props.iter().find(|(k, _)| *k == n).map(|(_, p)| p.value.as_str());
            ensure_eq!(cal.property_value(&n), first, "{}", e(format!("calendar property {n:?}")));
        }
        for (p, (_, f)) in cal.properties.iter().zip(&props) {
            params_of(p, f, &l.probes).map_err(e)?;
        }
        if let [a, b, c, ..] = &cal.properties[..] {
            ensure_eq!(Property::from_array([a.clone(), b.clone(), c.clone()]), cal.properties[..3].to_vec(), "{}", e("from_array".into()));
        }
    }
    let roots: Vec<&DComp> = if l.doc.roots[0].name == "VCALENDAR" { l.doc.roots[0].comps() } else { want };
    for ((c, f), d) in cal.iter().zip(&comps).zip(roots) {
        ensure_eq!(c.as_event().is_some(), f.kind == "VEVENT", "{}", e(format!("{} as an event", f.kind)));
        ensure_eq!(c.as_todo().is_some(), f.kind == "VTODO", "{}", e(format!("{} as a to-do", f.kind)));
        match c {
            CalendarComponent::Event(x) => {
                ensure!(c.as_event() == Some(x), "as_event gives another one");
                typed(x, f, d, &l.probes)
            }
            CalendarComponent::Todo(x) => {
                ensure!(c.as_todo() == Some(x), "as_todo gives another one");
                typed(x, f, d, &l.probes)
            }
            CalendarComponent::Venue(x) => typed(x, f, d, &l.probes),
            CalendarComponent::Other(x) => typed(x, f, d, &l.probes),
            _ => unreachable!(),
        }
        .map_err(e)?;
    }
    let repeated = l.doc.roots.iter().flat_map(|r| r.flat().props.into_values()).any(|v| v.len() > 1);
    let size: usize = l.doc.roots.iter().map(DComp::size).sum();
    Ok(Info::new(size >= 2 && l.doc.roots.iter().any(|r| r.all_props().len() >= 2))
        .class("repeated property", repeated)
        .class("parameters", l.doc.roots.iter().any(|r| r.all_props().iter().any(|p| !p.params.is_empty()))))
}

// ------------------------------------------------------------------ equality

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: String,
    b: String,
}

/// a text, and one that is nearly the same
fn pair() -> BoxedStrategy<Pair> {
    let base = prop_oneof![2 => super::real::real_text(), 3 => doc(STRICT).prop_map(|d| d.text())];
    (base, vec((any::<Index>(), any::<Index>(), 0u8..13), 0..3))
        .prop_map(|(a, edits)| {
            let u = crate::strict::ref_unfold(&a);
            let mut l: Vec<String> = u.lines().map(String::from).collect();
            for (at, to, how) in edits {
                if l.is_empty() {
                    break;
                }
                let i = at.index(l.len());
                let j = to.index(l[i].chars().count().max(1));
                let mut c: Vec<char> = l[i].chars().collect();
                let name = l[i].find([':', ';']).unwrap_or(l[i].len());
                let value = l[i].find(':').unwrap_or(l[i].len());
                match how {
                    0 => l.insert(i, l[i].clone()),
                    1 => drop(l.remove(i)),
                    2 if i + 1 < l.len() => l.swap(i, i + 1),
                    3 => l[i] += " ",
                    4 => l[i].insert_str(name, ";X-Q=1"),
                    5 => l[i].insert_str(value, ";X-Q"),
                    6 => l[i].insert(name, 'X'),
                    7 if !l[i].to_uppercase().starts_with("BEGIN") && !l[i].to_uppercase().starts_with("END") => l[i] = l[i].to_lowercase(),
                    8 => l.insert(i, "BEGIN:X\r\nEND:X".into()),
                    9 => l[i] = l[i].replacen('"', "", 2),
                    10 => l[i] = l[i].replace("VEVENT", "VTODO"),
                    // a single character
                    _ if !c.is_empty() => {
                        c[j] = match c[j] {
                            x if how == 11 && x.is_lowercase() => x.to_ascii_uppercase(),
                            x if x.is_ascii_digit() => char::from(b'0' + (x as u8 - b'0' + 1) % 10),
                            x if x.is_alphabetic() => 'q',
                            x => x,
                        };
                        l[i] = c.into_iter().collect();
                    }
                    _ => {}
                }
            }
            Pair { a, b: l.join("\r\n") + "\r\n" }
        })
        .boxed()
}

#[derive(PartialEq)]
struct Content {
    name: String,
    properties: Vec<(String, String, Vec<(String, Option<String>)>)>,
    components: Vec<Content>,
}

type Params = Vec<(String, Option<String>)>;

fn property_content(p: &parser::Property) -> (String, String, Params) {
    (
        p.name.to_string(),
        p.val.to_string(),
        p.params.iter().map(|q| (q.key.to_string(), q.val.as_ref().map(|v| v.to_string()))).collect(),
    )
}

fn content(c: &parser::Component) -> Content {
    Content {
        name: c.name.to_string(),
        properties: c.properties.iter().map(property_content).collect(),
        components: c.components.iter().map(content).collect(),
    }
}

fn c24_pair(p: &Pair) -> Verdict {
    let (ua, ub) = (parser::unfold(&p.a), parser::unfold(&p.b));
    let (Ok(a), Ok(b)) = (parser::read_components(&ua), parser::read_components(&ub)) else {
        return Ok(Info::new(false).class("rejected", true));
    };
    let e = |e: &str| format!("{e}\ninputs: {:?}\n{:?}", p.a, p.b);
    let mut differ = a.len() != b.len();
    for x in &a {
        for y in a.iter().chain(&b) {
            let same = content(x) == content(y);
            ensure!((x == y) == same && (y == x) == same, "{}: {x:?} and {y:?}", e(if same { "equal components differ" } else { "different components are equal" }));
            differ |= !same;
            for (p, q) in x.properties.iter().zip(&y.properties) {
                let same = property_content(p) == property_content(q);
                ensure!((p == q) == same, "{}: {p:?} and {q:?}", e("comparing properties"));
                for (p, q) in p.params.iter().zip(&q.params) {
                    let same = p.key.as_str() == q.key.as_str() && p.val.as_ref().map(|v| v.as_str()) == q.val.as_ref().map(|v| v.as_str());
                    ensure!((p == q) == same, "{}: {p:?} and {q:?}", e("comparing parameters"));
                }
            }
        }
    }
    let (ca, cb) = (Calendar::from_str(&p.a), Calendar::from_str(&p.b));
    if let (Ok(ca), Ok(cb)) = (&ca, &cb) {
        let flats = |c: &Calendar| c.iter().map(|c| (variant(c), flat(c))).collect::<Vec<_>>();
        let (fa, fb) = (flats(ca), flats(cb));
        let same = cal_props(ca) == cal_props(cb) && fa == fb;
        ensure!((ca == cb) == same && (cb == ca) == same, "{}", e(if same { "equal calendars differ" } else { "different calendars are equal" }));
        for (x, f) in ca.iter().zip(&fa) {
            for (y, g) in ca.iter().zip(&fa).chain(cb.iter().zip(&fb)) {
                ensure!((x == y) == (f == g), "{}: {x:?} and {y:?}", e("comparing typed components"));
            }
        }
        for (x, y) in ca.properties.iter().zip(&cb.properties) {
            let same = x.key() == y.key() && flat_prop(x) == flat_prop(y);
            ensure!((x == y) == same, "{}: {x:?} and {y:?}", e("comparing typed properties"));
        }
    }
    Ok(Info::new(differ).class("different", differ).class("same", !differ))
}

// ------------------------------------------------------------------ parsed strings

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Strings {
    a: String,
    b: String,
}

fn ref_unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        let rest = it.as_str();
        match rest.chars().next() {
            Some(x @ ('\\' | ';' | ',' | ':')) => {
                out.push(x);
                it.next();
            }
            Some('n' | 'N') => {
                out.push('\n');
                it.next();
            }
            _ => out.push('\\'),
        }
    }
    out
}

const TYPES: [ValueType; 14] = [
    ValueType::Binary, ValueType::Boolean, ValueType::CalAddress, ValueType::Date, ValueType::DateTime,
    ValueType::Duration, ValueType::Float, ValueType::Integer, ValueType::Period, ValueType::Recur,
    ValueType::Text, ValueType::Time, ValueType::Uri, ValueType::UtcOffset,
];

fn c24_strings(s: &Strings) -> Verdict {
    type P<'a> = parser::ParseString<'a>;
    let (a, b) = (P::from(s.a.as_str()), P::from(s.b.clone()));
    let (c, d): (P<'static>, P<'static>) = (a.to_owned(), b.clone().into_owned());
    for (x, t) in [(&a, &s.a), (&b, &s.b), (&c, &s.a), (&d, &s.b)] {
        ensure_eq!(x.as_str(), t.as_str(), "as_str");
        ensure_eq!(x.as_ref(), t.as_str(), "as_ref");
        ensure_eq!(x.to_string(), *t, "to_string");
        ensure_eq!(String::from(x.to_owned()), *t, "String::from");
        ensure_eq!(String::from(x.clone().into_owned()), *t, "String::from");
        ensure!(*x == t.as_str(), "equal to its text");
        ensure_eq!(*x == s.a.as_str(), *t == s.a, "compared with {:?}", s.a);
        ensure_eq!(*x == s.b.as_str(), *t == s.b, "compared with {:?}", s.b);
        for (y, u) in [(&a, &s.a), (&b, &s.b), (&c, &s.a), (&d, &s.b)] {
            ensure_eq!(x == y, t == u, "{t:?} compared with {u:?}");
        }
        ensure_eq!(x.clone().unescape_text().as_str(), ref_unescape(t), "unescape_text {t:?}");
        for ty in TYPES {
            let want = if ty == ValueType::Text { ref_unescape(t) } else { t.clone() };
            ensure_eq!(x.clone().unescape_by_value_type(ty).as_str(), want, "unescape {t:?} as {ty:?}");
        }
    }
    Ok(Info::new(s.a != s.b && (s.a.contains('\\') || s.b.contains('\\'))).class("equal", s.a == s.b))
}

fn strings() -> BoxedStrategy<Strings> {
    (text(), prop_oneof![3 => text().prop_map(Some), 1 => Just(None)], any::<Index>(), 0u8..5)
        .prop_map(|(a, b, at, how)| {
            let b = b.unwrap_or_else(|| {
                // almost the same
                let mut v: Vec<char> = a.chars().collect();
                let i = at.index(v.len() + 1);
                match how {
                    0 => v.truncate(i),
                    1 => v.insert(i, ' '),
                    2 if i < v.len() => v[i] = v[i].to_ascii_uppercase(),
                    3 if i < v.len() => v[i] = '\u{0}',
                    _ => {}
                }
                v.into_iter().collect()
            });
            Strings { a, b }
        })
        .boxed()
}

pub fn c24_facets() -> Vec<Facet> {
    let probes = || vec(any_name(), 0..3);
    vec![
        facet("lookup", 12_000, 150_000, move || (doc(STRICT), probes()).prop_map(|(doc, probes)| Lookup { doc, probes }).boxed(), c24),
        facet("large", 1_500, 20_000, move || (large(STRICT), probes()).prop_map(|(doc, probes)| Lookup { doc, probes }).boxed(), c24),
        facet("pairs", 15_000, 200_000, pair, c24_pair),
        facet("strings", 40_000, 400_000, strings, c24_strings),
    ]
}
