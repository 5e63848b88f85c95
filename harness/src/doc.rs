//! Documents as other producers write them: the content (components, properties,
//! parameters) and, apart from it, the layout (line endings, folds, blank lines).
use crate::gen::*;
use crate::model::{FlatComp, FlatProp};
use icalendar::parser;
use proptest::collection::vec;
use proptest::prelude::*;
use crate::gen::Index;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PForm {
    /// `;KEY` (vCard style, accepted by the library)
    Absent,
    /// `;KEY=`
    Empty,
    /// `;KEY=""`
    EmptyQuoted,
    Unquoted(String),
    Quoted(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DParam {
    pub key: String,
    pub form: PForm,
}

impl DParam {
    pub fn value(&self) -> Option<&str> {
        match &self.form {
            PForm::Unquoted(s) | PForm::Quoted(s) => Some(s),
            _ => None,
        }
    }
    fn render(&self) -> String {
        let k = &self.key;
        match &self.form {
            PForm::Absent => format!(";{k}"),
            PForm::Empty => format!(";{k}="),
            PForm::EmptyQuoted => format!(";{k}=\"\""),
            PForm::Unquoted(v) => format!(";{k}={v}"),
            PForm::Quoted(v) => format!(";{k}=\"{v}\""),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DProp {
    pub name: String,
    pub params: Vec<DParam>,
    /// pieces of the value: as written, as meant
    pub value: Vec<(String, String)>,
}

impl DProp {
    pub fn raw(&self) -> String {
        self.value.iter().map(|(r, _)| r.as_str()).collect()
    }
    pub fn decoded(&self) -> String {
        self.value.iter().map(|(_, d)| d.as_str()).collect()
    }
    pub fn line(&self) -> String {
        let params: String = self.params.iter().map(DParam::render).collect();
        format!("{}{}:{}", self.name, params, self.raw())
    }
    pub fn flat(&self) -> FlatProp {
        FlatProp {
            value: self.decoded(),
            params: self
                .params
                .iter()
                .map(|p| (p.key.clone(), p.value().unwrap_or("").to_string()))
                .collect(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum DItem {
    P(DProp),
    C(DComp),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DComp {
    pub name: String,
    pub items: Vec<DItem>,
}

impl DComp {
    pub fn props(&self) -> Vec<&DProp> {
        self.items.iter().filter_map(|i| if let DItem::P(p) = i { Some(p) } else { None }).collect()
    }
    pub fn comps(&self) -> Vec<&DComp> {
        self.items.iter().filter_map(|i| if let DItem::C(c) = i { Some(c) } else { None }).collect()
    }
    pub fn lines(&self) -> Vec<String> {
        let mut v = vec![format!("BEGIN:{}", self.name)];
        for i in &self.items {
            match i {
                DItem::P(p) => v.push(p.line()),
                DItem::C(c) => v.extend(c.lines()),
            }
        }
        v.push(format!("END:{}", self.name));
        v
    }
    pub fn flat(&self) -> FlatComp {
        let mut props: BTreeMap<String, Vec<FlatProp>> = BTreeMap::new();
        for p in self.props() {
            props.entry(p.name.clone()).or_default().push(p.flat());
        }
        FlatComp {
            kind: self.name.clone(),
            props,
            children: self.comps().into_iter().map(DComp::flat).collect(),
        }
    }
    pub fn size(&self) -> usize {
        1 + self.comps().into_iter().map(DComp::size).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.comps().into_iter().map(DComp::depth).max().unwrap_or(0)
    }
    pub fn all_props(&self) -> Vec<&DProp> {
        let mut v = self.props();
        for c in self.comps() {
            v.extend(c.all_props());
        }
        v
    }
}

pub fn lines(roots: &[DComp]) -> Vec<String> {
    roots.iter().flat_map(DComp::lines).collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Layout {
    /// line endings, in turn: CRLF (true) or LF
    pub eols: Vec<bool>,
    /// where to fold and with what (tab = true)
    pub folds: Vec<(u32, bool)>,
    /// numbers of lines in front of which there is a blank line
    pub blanks: Vec<u32>,
    pub final_eol: bool,
    /// the case of the keywords BEGIN and END, in turn: upper (0), lower (1), capitalised (2)
    pub keywords: Vec<u8>,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout { eols: vec![true], folds: vec![], blanks: vec![], final_eol: true, keywords: vec![] }
    }
}

pub fn render(lines: &[String], layout: &Layout) -> String {
    let slots: u32 = lines.iter().map(|l| l.chars().count().saturating_sub(1) as u32).sum();
    let mut folds: BTreeMap<u32, bool> = BTreeMap::new();
    for (at, tab) in &layout.folds {
        if slots > 0 {
            folds.insert(at % slots, *tab);
        }
    }
    let mut blanks: BTreeMap<u32, u32> = BTreeMap::new();
    for b in &layout.blanks {
        *blanks.entry(b % (lines.len() as u32 + 1)).or_default() += 1;
    }
    let mut n = 0usize;
    let mut eol = || {
        n += 1;
        if layout.eols[n % layout.eols.len()] {
            "\r\n"
        } else {
            "\n"
        }
    };
    let mut out = String::new();
    let mut slot = 0;
    let mut k = 0;
    for (i, l) in lines.iter().enumerate() {
        let mut l = l.clone();
        for word in ["BEGIN:", "END:"] {
            if l.starts_with(word) && !layout.keywords.is_empty() {
                let w = match layout.keywords[k % layout.keywords.len()] {
                    0 => word.to_string(),
                    1 => word.to_lowercase(),
                    _ => word[..1].to_string() + &word[1..].to_lowercase(),
                };
                k += 1;
                l.replace_range(..word.len(), &w);
            }
        }
        for _ in 0..blanks.get(&(i as u32)).copied().unwrap_or(0) {
            out.push_str(eol());
        }
        for (j, c) in l.chars().enumerate() {
            if j > 0 {
                if let Some(tab) = folds.get(&slot) {
                    out.push_str(eol());
                    out.push(if *tab { '\t' } else { ' ' });
                }
                slot += 1;
            }
            out.push(c);
        }
        if i + 1 < lines.len() || layout.final_eol {
            out.push_str(eol());
        }
    }
    if layout.final_eol {
        for _ in 0..blanks.get(&(lines.len() as u32)).copied().unwrap_or(0) {
            out.push_str(eol());
        }
    }
    out
}

// ---------------------------------------------------------------- comparison with the parsed model

pub fn same_parsed_prop(got: &parser::Property, want: &DProp, path: &str) -> Result<(), String> {
    let line = want.line();
    if got.name.as_str() != want.name {
        return Err(format!("{path}: name {:?} instead of {:?} ({line:?})", got.name, want.name));
    }
    let params: Vec<(String, Option<String>)> = got
        .params
        .iter()
        .map(|p| (p.key.as_str().to_string(), p.val.as_ref().map(|v| v.as_str().to_string())))
        .collect();
    let want_params: Vec<(String, Option<String>)> =
        want.params.iter().map(|p| (p.key.clone(), p.value().map(str::to_string))).collect();
    if params != want_params {
        return Err(format!("{path}: parameters of {line:?}\n   got: {params:?}\n  want: {want_params:?}"));
    }
    if got.val.as_str() != want.decoded() {
        return Err(format!(
            "{path}: value of {line:?}\n   got: {:?}\n  want: {:?}",
            got.val.as_str(),
            want.decoded()
        ));
    }
    Ok(())
}

pub fn same_parsed_parts(
    props: &[parser::Property],
    comps: &[parser::Component],
    want: &DComp,
    path: &str,
) -> Result<(), String> {
    let path = format!("{path}/{}", want.name);
    let wp = want.props();
    if props.len() != wp.len() {
        return Err(format!(
            "{path}: {} properties instead of {}: {:?}",
            props.len(),
            wp.len(),
            props.iter().map(|p| p.name.as_str()).collect::<Vec<_>>()
        ));
    }
    for (g, w) in props.iter().zip(wp) {
        same_parsed_prop(g, w, &path)?;
    }
    same_parsed_list(comps, &want.comps(), &path)
}

pub fn same_parsed_list(got: &[parser::Component], want: &[&DComp], path: &str) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!(
            "{path}: {} components instead of {}: {:?}",
            got.len(),
            want.len(),
            got.iter().map(|c| c.name.as_str()).collect::<Vec<_>>()
        ));
    }
    for (g, w) in got.iter().zip(want) {
        if g.name.as_str() != w.name {
            return Err(format!("{path}: component {:?} instead of {:?}", g.name.as_str(), w.name));
        }
        same_parsed_parts(&g.properties, &g.components, w, path)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- generators

fn lit(l: &[(&str, &str)]) -> BoxedStrategy<(String, String)> {
    select(l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>()).boxed()
}

fn same(s: BoxedStrategy<String>) -> BoxedStrategy<(String, String)> {
    s.prop_map(|s| (s.clone(), s)).boxed()
}

/// A TEXT value in pieces. `lenient` adds forms that RFC 5545 does not allow but producers write.
pub fn text_value(lenient: bool) -> BoxedStrategy<Vec<(String, String)>> {
    let word = vec(select("abcnNxyz ABZ019.-_/'".chars().collect::<Vec<_>>()), 0..8)
        .prop_map(|v| v.into_iter().collect::<String>())
        .boxed();
    let uni = select(UNICODE.iter().map(|s| s.to_string()).collect::<Vec<_>>()).boxed();
    let long = (select(vec!["a", "é", "老", "🎉", " "]), 20usize..90).prop_map(|(s, n)| s.repeat(n)).boxed();
    let chars = vec(any_plain_char(), 1..3)
        .prop_map(|v| v.into_iter().map(|c| if matches!(c, '\\' | ',' | ';') { '_' } else { c }).collect::<String>())
        .boxed();
    let strict = prop_oneof![
        5 => same(word),
        6 => lit(&[("\\n", "\n"), ("\\N", "\n"), ("\\\\", "\\"), ("\\,", ","), ("\\;", ";")]),
        2 => lit(&[(":", ":"), ("\"", "\""), ("=", "="), ("n", "n"), ("BEGIN:VEVENT", "BEGIN:VEVENT"),
                   ("END:VCALENDAR", "END:VCALENDAR"), (" ", " "), ("\t", "\t")]),
        2 => same(uni),
        1 => same(long),
        1 => same(chars),
    ];
    if lenient {
        vec(
            prop_oneof![
                6 => strict,
                2 => lit(&[(",", ","), (";", ";"), ("\\:", ":")]),
            ],
            0..7,
        )
        .boxed()
    } else {
        vec(strict, 0..7).boxed()
    }
}

fn unquoted() -> BoxedStrategy<String> {
    param_value()
        .prop_map(|s| {
            let s = s.replace([':', ';'], "_");
            if s.is_empty() {
                "v".into()
            } else {
                s
            }
        })
        .boxed()
}

fn pform(absent: bool) -> BoxedStrategy<PForm> {
    let quoted = param_value().prop_map(|s| if s.is_empty() { "q".to_string() } else { s });
    if absent {
        prop_oneof![
            5 => unquoted().prop_map(PForm::Unquoted),
            5 => quoted.prop_map(PForm::Quoted),
            1 => Just(PForm::Empty),
            1 => Just(PForm::EmptyQuoted),
            1 => Just(PForm::Absent),
        ]
        .boxed()
    } else {
        prop_oneof![
            5 => unquoted().prop_map(PForm::Unquoted),
            5 => quoted.prop_map(PForm::Quoted),
            1 => Just(PForm::Empty),
            1 => Just(PForm::EmptyQuoted),
        ]
        .boxed()
    }
}

#[derive(Clone, Copy)]
pub struct DocOpts {
    /// accept forms RFC 5545 does not allow but the library documents to accept
    pub lenient: bool,
    /// only parameter keys that differ, as the standard demands
    pub repeat: bool,
}

pub fn d_prop(name: BoxedStrategy<String>, o: DocOpts) -> BoxedStrategy<DProp> {
    (
        name,
        prop_oneof![7 => Just(None), 3 => (value_decl(), any::<bool>()).prop_map(Some)],
        prop_oneof![3 => Just(vec![]), 4 => vec((param_key(), pform(o.lenient)), 0..4)],
        text_value(o.lenient),
        raw_value(),
        any::<Index>(),
    )
        .prop_map(|(name, decl, params, text, raw, at)| {
            let mut params: Vec<DParam> = unique(params, |(k, _)| k.clone())
                .into_iter()
                .map(|(key, form)| DParam { key, form })
                .collect();
            let is_text = effective_type(&name, decl.as_ref().map(|d| d.0.as_str())) == Some("TEXT");
            if let Some((d, quoted)) = decl {
                let form = if d.is_empty() {
                    PForm::Empty
                } else if quoted {
                    PForm::Quoted(d)
                } else {
                    PForm::Unquoted(d)
                };
                params.insert(at.index(params.len() + 1), DParam { key: "VALUE".into(), form });
            }
            // names are case-insensitive in the standard, so a text may not contain escapes here
            let value = if is_text {
                text
            } else if rfc_type(&name.to_uppercase()) == Some("TEXT") {
                let s = raw.replace('\\', "/");
                vec![(s.clone(), s)]
            } else {
                vec![(raw.clone(), raw)]
            };
            DProp { name, params, value }
        })
        .boxed()
}

pub fn doc_name() -> BoxedStrategy<String> {
    prop_oneof![
        8 => any_name(),
        1 => select(vec!["summary", "Description", "dtstart", "Uid", "attendee"])
            .prop_map(String::from),
    ]
    .boxed()
}

pub fn comp_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => Just("VEVENT".to_string()),
        1 => Just("VTODO".to_string()),
        1 => Just("VVENUE".to_string()),
        2 => crate::model::other_kind_names(),
    ]
    .boxed()
}

pub fn any_d_prop(o: DocOpts) -> BoxedStrategy<DProp> {
    d_prop(doc_name(), o)
}

fn repeat(items: Vec<DItem>, with: Vec<(Index, Vec<(String, String)>)>, allowed: bool) -> Vec<DItem> {
    let mut items = items;
    if !allowed {
        return items;
    }
    for (i, v) in with {
        // another occurrence of a property, with another value of the same type
        let props: Vec<DProp> =
            items.iter().filter_map(|x| if let DItem::P(p) = x { Some(p.clone()) } else { None }).collect();
        if props.is_empty() {
            break;
        }
        let mut p = i.get(&props).clone();
        let t = p.params.iter().find(|p| p.key == "VALUE").and_then(|p| p.value().map(str::to_string));
        p.value = if effective_type(&p.name, t.as_deref()) == Some("TEXT") {
            v
        } else {
            v.into_iter().map(|(_, d)| d.replace(['\\', '\n'], "/")).map(|d| (d.clone(), d)).collect()
        };
        let at = i.index(items.len() + 1);
        items.insert(at, DItem::P(p));
    }
    items
}

/// Component trees. Items are in any order.
pub fn d_comp(name: BoxedStrategy<String>, o: DocOpts, depth: u32) -> BoxedStrategy<DComp> {
    let leaf = (comp_name(), vec(any_d_prop(o).prop_map(DItem::P), 0..4))
        .prop_map(|(name, items)| DComp { name, items });
    let inner = leaf.prop_recursive(depth, 10, 3, move |inner| {
        (comp_name(), vec(any_d_prop(o).prop_map(DItem::P), 0..3), vec(inner, 0..3), vec(any::<Index>(), 3))
            .prop_map(|(name, items, comps, at)| DComp { name, items: mix(items, comps, at) })
    });
    (
        name,
        vec(any_d_prop(o).prop_map(DItem::P), 0..6),
        vec(inner, 0..4),
        vec(any::<Index>(), 4),
        vec((any::<Index>(), text_value(o.lenient)), 0..3),
    )
        .prop_map(move |(name, items, comps, at, rep)| {
            let items = repeat(items, rep, o.repeat);
            DComp { name, items: mix(items, comps, at) }
        })
        .boxed()
}

fn mix(mut items: Vec<DItem>, comps: Vec<DComp>, at: Vec<Index>) -> Vec<DItem> {
    for (c, i) in comps.into_iter().zip(at) {
        let i = i.index(items.len() + 1);
        items.insert(i, DItem::C(c));
    }
    items
}

pub fn d_calendar(o: DocOpts) -> BoxedStrategy<DComp> {
    d_comp(Just("VCALENDAR".to_string()).boxed(), o, 3)
}

/// A chain of components, up to the depth that the library accepts.
pub fn d_deep() -> BoxedStrategy<DComp> {
    (1usize..60, comp_name(), any_d_prop(DocOpts { lenient: false, repeat: false }))
        .prop_map(|(n, name, p)| {
            let mut c = DComp { name: name.clone(), items: vec![DItem::P(p.clone())] };
            for i in 0..n {
                let mut items = vec![DItem::C(c)];
                if i % 7 == 0 {
                    items.push(DItem::P(p.clone()));
                }
                c = DComp { name: name.clone(), items };
            }
            DComp { name: "VCALENDAR".into(), items: vec![DItem::C(c)] }
        })
        .boxed()
}

/// A document: one calendar, or a list of bare components.
pub fn d_document(o: DocOpts) -> BoxedStrategy<Vec<DComp>> {
    prop_oneof![
        10 => d_calendar(o).prop_map(|c| vec![c]),
        3 => vec(d_comp(comp_name(), o, 2), 1..4).prop_map(|v| {
            // only the first component makes the list a calendar
            let mut v = v;
            if v[0].name == "VCALENDAR" {
                v[0].name = "VEVENT".into();
            }
            v
        }),
        1 => (vec(d_comp(comp_name(), o, 1), 1..3), d_calendar(o)).prop_map(|(mut v, c)| {
            for c in &mut v {
                if c.name == "VCALENDAR" {
                    c.name = "VTODO".into();
                }
            }
            v.push(c);
            v
        }),
        1 => d_deep().prop_map(|c| vec![c]),
    ]
    .boxed()
}

pub fn layout() -> BoxedStrategy<Layout> {
    (
        prop_oneof![
            2 => Just(vec![true]),
            1 => Just(vec![false]),
            3 => vec(any::<bool>(), 1..6),
        ],
        prop_oneof![
            1 => Just(vec![]),
            2 => vec((any::<u32>(), any::<bool>()), 0..12),
            1 => vec((any::<u32>(), any::<bool>()), 0..80),
        ],
        prop_oneof![2 => Just(vec![]), 1 => vec(any::<u32>(), 0..5)],
        any::<bool>(),
    )
        .prop_map(|(eols, folds, blanks, final_eol)| Layout { eols, folds, blanks, final_eol, keywords: vec![] })
        .boxed()
}

/// Layouts in which the keywords may be in lower case, too.
pub fn any_layout() -> BoxedStrategy<Layout> {
    (layout(), prop_oneof![7 => Just(vec![]), 1 => vec(0u8..3, 1..4)])
        .prop_map(|(l, keywords)| Layout { keywords, ..l })
        .boxed()
}

/// The flat content a typed calendar has to have after reading `roots`.
pub fn typed_expectation(roots: &[DComp]) -> (Vec<(String, FlatProp)>, Vec<FlatComp>) {
    if roots[0].name == "VCALENDAR" {
        (
            roots[0].props().iter().map(|p| (p.name.clone(), p.flat())).collect(),
            roots[0].comps().into_iter().map(DComp::flat).collect(),
        )
    } else {
        (vec![], roots.iter().map(DComp::flat).collect())
    }
}

/// Documents that are large in one respect: many components, properties, parameters or
/// occurrences, long values or names, great depth, very many folds.
pub fn d_large(o: DocOpts) -> BoxedStrategy<Vec<DComp>> {
    fn fill(s: &str, n: usize) -> String {
        let s = if s.is_empty() { "x" } else { s };
        s.repeat(n / s.len() + 1)
    }
    fn host<'a>(c: &'a mut DComp, path: &[Index]) -> &'a mut DComp {
        let kids: Vec<usize> =
            (0..c.items.len()).filter(|i| matches!(c.items[*i], DItem::C(_))).collect();
        match path.split_first() {
            Some((i, rest)) if !kids.is_empty() => match &mut c.items[*i.get(&kids)] {
                DItem::C(k) => host(k, rest),
                DItem::P(_) => unreachable!(),
            },
            _ => c,
        }
    }
    (
        d_document(o),
        (any_d_prop(o), comp_name(), unquoted(), any::<bool>(), text_value(o.lenient)),
        vec(any::<Index>(), 0..4),
        any::<Index>(),
        0u8..8,
    )
        .prop_flat_map(move |(d, parts, path, at, dim)| {
            let dim = if dim == 3 && !o.repeat { 1 } else { dim };
            let max = [2_000u32, 800, 200, 1_500, 150_000, 100_000, 4_000, 1_000][dim as usize];
            (Just(d), Just(parts), Just(path), Just(at), Just(dim), magnitude(max))
        })
        .prop_map(|(mut d, (p, name, pv, quoted, text), path, at, dim, n)| {
            let root = at.index(d.len());
            let c = host(&mut d[root], &path);
            let slot = at.index(c.items.len() + 1);
            let one = |i: usize| {
                let s = format!("{i}");
                DProp { value: [vec![(s.clone(), s)], p.value.clone()].concat(), ..p.clone() }
            };
            let new: Vec<DItem> = match dim {
                0 => (0..n)
                    .map(|i| DItem::C(DComp { name: name.clone(), items: vec![DItem::P(one(i))] }))
                    .collect(),
                1 => (0..n)
                    .map(|i| {
                        // a name of the same type, as there is none
                        let s = format!("{i}");
                        DItem::P(DProp { name: format!("X-NO-{i}"), params: vec![], value: vec![(s.clone(), s)] })
                    })
                    .collect(),
                2 => {
                    let params = (0..n)
                        .map(|i| DParam {
                            key: format!("X-P{i}"),
                            form: if quoted { PForm::Quoted(format!("{pv};{i}")) } else { PForm::Unquoted(format!("{pv}{i}")) },
                        })
                        .chain(p.params.iter().filter(|q| !q.key.starts_with("X-P")).cloned())
                        .collect();
                    vec![DItem::P(DProp { params, ..p.clone() })]
                }
                3 => (0..n).map(|i| DItem::P(one(i))).collect(),
                4 => {
                    let mut p = p.clone();
                    p.params.retain(|q| q.key != "VALUE");
                    p.name = "DESCRIPTION".into();
                    let len: usize = text.iter().map(|t| t.0.len()).sum::<usize>().max(1);
                    p.value = if text.is_empty() { vec![(fill("x", n), fill("x", n))] } else { text.iter().cloned().cycle().take(text.len() * (n / len + 1)).collect() };
                    vec![DItem::P(p)]
                }
                5 => {
                    let form = if quoted { PForm::Quoted(fill(&pv, n)) } else { PForm::Unquoted(fill(&pv, n)) };
                    let mut p = p.clone();
                    p.params.insert(0, DParam { key: "X-VERY-LONG".into(), form });
                    vec![DItem::P(p)]
                }
                6 => {
                    let name = format!("X-{}", fill("LONG-NAME", n));
                    let s = String::from("x");
                    vec![
                        DItem::P(DProp { name: name.clone(), params: vec![], value: vec![(s.clone(), s)] }),
                        DItem::C(DComp { name, items: vec![] }),
                    ]
                }
                _ => {
                    // siblings and their own siblings
                    (0..n)
                        .map(|i| {
                            let leaf = DComp { name: "VALARM".into(), items: vec![DItem::P(one(i))] };
                            let items = (0..1 + i % 3).map(|_| DItem::C(leaf.clone())).collect();
                            DItem::C(DComp { name: name.clone(), items })
                        })
                        .collect()
                }
            };
            if d[root].depth() < 57 {
                let c = host(&mut d[root], &path);
                c.items.splice(slot..slot, new);
            }
            d
        })
        .boxed()
}

/// Layouts for large documents, with very many folds and blank lines.
pub fn large_layout() -> BoxedStrategy<Layout> {
    (
        layout(),
        magnitude(6_000).prop_flat_map(|n| vec((any::<u32>(), any::<bool>()), n..=n)),
        magnitude(300).prop_flat_map(|n| vec(any::<u32>(), n..=n)),
        0u8..4,
    )
        .prop_map(|(mut l, folds, blanks, how)| {
            if how & 1 == 1 {
                l.folds = folds;
            }
            if how & 2 == 2 {
                l.blanks = blanks;
            }
            l
        })
        .boxed()
}
