//! Calendars as the builder API is used to make them, and their plain content.
use crate::gen::*;
use icalendar::{parser, Alarm, Calendar, CalendarComponent, Component, Event, Parameter, Property, Todo, Venue};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct PropM {
    pub name: String,
    pub value: String,
    pub params: Vec<(String, String)>,
}

impl PropM {
    pub fn build(&self) -> Property {
        // every way there is to make one
        #[allow(deprecated)]
        let mut p = match self.route() % 4 {
            0 => Property::new(&self.name, &self.value),
            1 => Property::new(self.name.clone(), self.value.clone()),
            2 => Property::new_pre_alloc(self.name.clone(), self.value.clone()),
            _ => Property::from((self.name.as_str(), self.value.as_str())),
        };
        for (i, (k, v)) in self.params.iter().enumerate() {
            match (self.route() + i) % 3 {
                0 => p.add_parameter(k, v),
                1 => p.append_parameter((k.as_str(), v.as_str())),
                _ => p.append_parameter(Parameter::new(k, v)),
            };
        }
        p.done()
    }
    fn route(&self) -> usize {
        self.name.len() + self.value.len() + self.params.len()
    }
    pub fn value_param(&self) -> Option<&str> {
        self.params.iter().find(|(k, _)| k == "VALUE").map(|(_, v)| v.as_str())
    }
    pub fn is_text(&self) -> bool {
        effective_type(&self.name, self.value_param()) == Some("TEXT")
    }
    pub fn flat(&self) -> FlatProp {
        FlatProp {
            value: self.value.clone(),
            params: self.params.iter().cloned().collect(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Event,
    Todo,
    Venue,
    Alarm,
    Other(String),
}

impl Kind {
    pub fn name(&self) -> &str {
        match self {
            Kind::Event => "VEVENT",
            Kind::Todo => "VTODO",
            Kind::Venue => "VVENUE",
            Kind::Alarm => "VALARM",
            Kind::Other(n) => n,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CompM {
    pub kind: Kind,
    pub props: Vec<PropM>,
    pub multis: Vec<PropM>,
    pub children: Vec<CompM>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CalM {
    /// start from `Calendar::new()` rather than `Calendar::empty()`
    pub defaults: bool,
    pub props: Vec<PropM>,
    pub comps: Vec<CompM>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FlatProp {
    pub value: String,
    pub params: BTreeMap<String, String>,
}

/// The content of a component: per name the values in order.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FlatComp {
    pub kind: String,
    pub props: BTreeMap<String, Vec<FlatProp>>,
    pub children: Vec<FlatComp>,
}

pub fn flat_prop(p: &Property) -> FlatProp {
    FlatProp {
        value: p.value().to_string(),
        params: p.params().iter().map(|(k, v)| (k.clone(), v.value().to_string())).collect(),
    }
}

fn flat_component<C: Component>(c: &C) -> FlatComp {
    let mut props: BTreeMap<String, Vec<FlatProp>> = BTreeMap::new();
    for p in c.properties().values() {
        props.entry(p.key().to_string()).or_default().push(flat_prop(p));
    }
    for p in c.multi_properties().values().flatten() {
        props.entry(p.key().to_string()).or_default().push(flat_prop(p));
    }
    FlatComp {
        kind: c.component_kind(),
        props,
        children: c.components().iter().map(|o| flat_component(o)).collect(),
    }
}

pub fn flat(c: &CalendarComponent) -> FlatComp {
    match c {
        CalendarComponent::Event(c) => flat_component(c),
        CalendarComponent::Todo(c) => flat_component(c),
        CalendarComponent::Venue(c) => flat_component(c),
        CalendarComponent::Other(c) => flat_component(c),
        _ => unreachable!(),
    }
}

/// the enum variant has to fit to the name
pub fn variant(c: &CalendarComponent) -> &'static str {
    match c {
        CalendarComponent::Event(_) => "VEVENT",
        CalendarComponent::Todo(_) => "VTODO",
        CalendarComponent::Venue(_) => "VVENUE",
        _ => "other",
    }
}

pub fn variant_for(name: &str) -> &'static str {
    match name {
        "VEVENT" => "VEVENT",
        "VTODO" => "VTODO",
        "VVENUE" => "VVENUE",
        _ => "other",
    }
}

pub fn write_component(c: &CalendarComponent) -> String {
    match c {
        CalendarComponent::Event(c) => c.try_into_string().unwrap(),
        CalendarComponent::Todo(c) => c.try_into_string().unwrap(),
        CalendarComponent::Venue(c) => c.try_into_string().unwrap(),
        CalendarComponent::Other(c) => c.try_into_string().unwrap(),
        _ => unreachable!(),
    }
}

impl CompM {
    fn fill<C: Component>(&self, c: &mut C) {
        for p in &self.props {
            #[allow(deprecated)]
            match p.route() % 5 {
                1 if p.params.is_empty() => c.add_property(&p.name, &p.value),
                2 if p.params.is_empty() => c.add_property_pre_alloc(p.name.clone(), p.value.clone()),
                3 if p.params.is_empty() => c.append_property((p.name.as_str(), p.value.as_str())),
                _ => c.append_property(p.build()),
            };
        }
        for p in &self.multis {
            if p.route() % 2 == 0 && p.params.is_empty() {
                c.add_multi_property(&p.name, &p.value);
            } else {
                c.append_multi_property(p.build());
            }
        }
        for ch in &self.children {
            match ch.build() {
                CalendarComponent::Event(x) => c.append_component(x),
                CalendarComponent::Todo(x) => c.append_component(x),
                CalendarComponent::Venue(x) => c.append_component(x),
                CalendarComponent::Other(x) => c.append_component(x),
                _ => unreachable!(),
            };
        }
    }

    pub fn build(&self) -> CalendarComponent {
        match &self.kind {
            Kind::Event => {
                let mut c = Event::new();
                self.fill(&mut c);
                c.into()
            }
            Kind::Todo => {
                let mut c = Todo::new();
                self.fill(&mut c);
                c.done().into()
            }
            Kind::Venue => {
                let mut c = Venue::new();
                self.fill(&mut c);
                c.into()
            }
            Kind::Alarm => {
                let mut c = Alarm::audio(-chrono::Duration::minutes(15));
                self.fill(&mut c);
                CalendarComponent::Other(c.into())
            }
            Kind::Other(n) => {
                // made without reading anything
                let raw = parser::Component { name: n.as_str().into(), properties: vec![], components: vec![] };
                let mut c = CalendarComponent::Other(raw.into());
                let CalendarComponent::Other(o) = &mut c else { unreachable!() };
                self.fill(o);
                c
            }
        }
    }

    pub fn flat(&self) -> FlatComp {
        let mut props: BTreeMap<String, Vec<FlatProp>> = BTreeMap::new();
        let mut single: BTreeMap<String, FlatProp> = BTreeMap::new();
        if self.kind == Kind::Alarm {
            for (k, v) in [("ACTION", "AUDIO"), ("TRIGGER", "-PT900S")] {
                single.insert(k.into(), FlatProp { value: v.into(), params: BTreeMap::new() });
            }
        }
        for p in &self.props {
            single.insert(p.name.clone(), p.flat());
        }
        for (k, p) in single {
            props.entry(k).or_default().push(p);
        }
        for p in &self.multis {
            props.entry(p.name.clone()).or_default().push(p.flat());
        }
        FlatComp {
            kind: self.kind.name().to_string(),
            props,
            children: self.children.iter().map(CompM::flat).collect(),
        }
    }

    pub fn size(&self) -> usize {
        1 + self.children.iter().map(CompM::size).sum::<usize>()
    }

    pub fn each(&self, f: &mut impl FnMut(&CompM)) {
        f(self);
        for c in &self.children {
            c.each(f);
        }
    }

    pub fn map_props(&mut self, f: &impl Fn(&mut PropM)) {
        self.props.iter_mut().for_each(f);
        self.multis.iter_mut().for_each(f);
        self.children.iter_mut().for_each(|c| c.map_props(f));
    }
}

impl CalM {
    pub fn build(&self) -> Calendar {
        let mut cal = if self.defaults { Calendar::new() } else { Calendar::empty() };
        for p in &self.props {
            cal.append_property(p.build());
        }
        for c in &self.comps {
            cal.push(c.build());
        }
        cal
    }

    /// the calendar properties, in order
    pub fn flat_props(&self) -> Vec<(String, FlatProp)> {
        let mut v = vec![];
        if self.defaults {
            for (k, x) in [("VERSION", "2.0"), ("PRODID", "ICALENDAR-RS"), ("CALSCALE", "GREGORIAN")] {
                v.push((k.to_string(), FlatProp { value: x.into(), params: BTreeMap::new() }));
            }
        }
        v.extend(self.props.iter().map(|p| (p.name.clone(), p.flat())));
        v
    }

    pub fn all_props(&self) -> Vec<&PropM> {
        fn go<'a>(c: &'a CompM, v: &mut Vec<&'a PropM>) {
            v.extend(c.props.iter().chain(&c.multis));
            c.children.iter().for_each(|c| go(c, v));
        }
        let mut v: Vec<&PropM> = self.props.iter().collect();
        self.comps.iter().for_each(|c| go(c, &mut v));
        v
    }

    pub fn map_props(&mut self, f: &impl Fn(&mut PropM)) {
        self.props.iter_mut().for_each(f);
        self.comps.iter_mut().for_each(|c| c.map_props(f));
    }

    pub fn components(&self) -> usize {
        self.comps.iter().map(CompM::size).sum()
    }
}

pub fn cal_props(cal: &Calendar) -> Vec<(String, FlatProp)> {
    cal.properties.iter().map(|p| (p.key().to_string(), flat_prop(p))).collect()
}

pub const ADDED: [&str; 2] = ["DTSTAMP", "UID"];

/// Compares what came back with what was put in; a UID and a DTSTAMP may have been added where missing.
pub fn same_component(got: &FlatComp, want: &FlatComp, path: &str) -> Result<(), String> {
    let path = format!("{path}/{}", want.kind);
    if got.kind != want.kind {
        return Err(format!("{path}: kind is {:?}", got.kind));
    }
    for (name, w) in &want.props {
        match got.props.get(name) {
            None => return Err(format!("{path}: property {name} is missing, want {w:?}")),
            Some(g) if g != w => {
                return Err(format!("{path}: property {name}\n   got: {g:?}\n  want: {w:?}"))
            }
            _ => {}
        }
    }
    for (name, g) in &got.props {
        if !want.props.contains_key(name) {
            if ADDED.contains(&name.as_str()) && g.len() == 1 {
                continue;
            }
            return Err(format!("{path}: property {name} was added: {g:?}"));
        }
    }
    if got.children.len() != want.children.len() {
        return Err(format!(
            "{path}: has {} components, want {}",
            got.children.len(),
            want.children.len()
        ));
    }
    for (g, w) in got.children.iter().zip(&want.children) {
        same_component(g, w, &path)?;
    }
    Ok(())
}

pub fn same_calendar(
    got: &Calendar,
    props: &[(String, FlatProp)],
    comps: &[FlatComp],
) -> Result<(), String> {
    let got_props = cal_props(got);
    if got_props != props {
        return Err(format!("calendar properties\n   got: {got_props:?}\n  want: {props:?}"));
    }
    if got.components.len() != comps.len() {
        return Err(format!(
            "calendar has {} components, want {}",
            got.components.len(),
            comps.len()
        ));
    }
    for (g, w) in got.components.iter().zip(comps) {
        if variant(g) != variant_for(&w.kind) {
            return Err(format!("component {} is read as a {}", w.kind, variant(g)));
        }
        same_component(&flat(g), w, "")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- generators

pub fn prop_m(name: BoxedStrategy<String>) -> BoxedStrategy<PropM> {
    (
        name,
        prop_oneof![7 => Just(None), 3 => value_decl().prop_map(Some)],
        params(3),
        text(),
        raw_value(),
        any::<crate::gen::Index>(),
    )
        .prop_map(|(name, decl, mut params, text, raw, at)| {
            let is_text = effective_type(&name, decl.as_deref()) == Some("TEXT");
            if let Some(d) = decl {
                let i = at.index(params.len() + 1);
                params.insert(i, ("VALUE".into(), d));
            }
            PropM { name, value: if is_text { text } else { raw }, params }
        })
        .boxed()
}

pub fn any_prop() -> BoxedStrategy<PropM> {
    prop_m(any_name())
}

pub fn multi_names() -> Vec<String> {
    [
        "ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "RDATE", "RELATED-TO",
        "REQUEST-STATUS", "RESOURCES",
    ]
    .map(String::from)
    .to_vec()
}

fn multis() -> BoxedStrategy<Vec<PropM>> {
    let name = prop_oneof![
        6 => select(multi_names()),
        2 => any_name(),
        1 => Just("X-MULTI".to_string()),
    ]
    .prop_map(|n| if ADDED.contains(&n.as_str()) { "COMMENT".to_string() } else { n });
    prop_oneof![1 => Just(vec![]), 2 => vec(prop_m(name.boxed()), 0..5)].boxed()
}

pub fn other_kind_names() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(
            ["VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "X-COMP", "VAVAILABILITY", "VALARM",
             "ENDING", "BEGINNING", "PARTICIPANT", "x-lower", "vevent", "X-END", "VEVENTS", "VTODO-X", "V", "VCALENDAR",
             "calendar", "Calendar", "vcalendar", "valarm", "X_COMP", "X.COMP", "X/COMP", "VALARM_"]
                .map(String::from).to_vec()
        ),
        1 => (1usize..100).prop_map(|n| format!("X-{}", "NAME".repeat(25).chars().take(n).collect::<String>())),
    ]
    .boxed()
}

pub fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        4 => Just(Kind::Event),
        2 => Just(Kind::Todo),
        2 => Just(Kind::Venue),
        1 => Just(Kind::Alarm),
        2 => other_kind_names().prop_map(Kind::Other),
    ]
    .boxed()
}

pub fn child_kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        3 => Just(Kind::Alarm),
        1 => kind(),
        2 => other_kind_names().prop_map(Kind::Other),
    ]
    .boxed()
}

fn body(max_props: usize) -> BoxedStrategy<(Vec<PropM>, Vec<PropM>)> {
    (vec(any_prop(), 0..=max_props).prop_map(|v| unique(v, |p| p.name.clone())), multis()).boxed()
}

pub fn comp_m() -> BoxedStrategy<CompM> {
    let leaf = (child_kind(), body(4)).prop_map(|(kind, (props, multis))| CompM {
        kind,
        props,
        multis,
        children: vec![],
    });
    let tree = leaf.prop_recursive(3, 8, 3, |inner| {
        (child_kind(), body(3), vec(inner, 0..3)).prop_map(|(kind, (props, multis), children)| {
            CompM { kind, props, multis, children }
        })
    });
    (kind(), body(6), prop_oneof![2 => Just(vec![]), 2 => vec(tree, 0..3)])
        .prop_map(|(kind, (props, multis), children)| CompM { kind, props, multis, children })
        .boxed()
}

pub fn cal_m() -> BoxedStrategy<CalM> {
    (any::<bool>(), vec(any_prop(), 0..5), vec(comp_m(), 0..4))
        .prop_map(|(defaults, props, comps)| CalM { defaults, props, comps })
        .boxed()
}

/// Calendars that are large in one respect: many components, properties, parameters or
/// occurrences, long values or names.
pub fn cal_large() -> BoxedStrategy<CalM> {
    fn unit(i: usize) -> PropM {
        PropM { name: "SUMMARY".into(), value: format!("number {i}, one of many"), params: vec![] }
    }
    fn numbered(p: &PropM, name: &str, i: usize) -> PropM {
        PropM { name: name.to_string(), value: format!("{i} {}", p.value), params: p.params.clone() }
    }
    fn host(m: &mut CalM) -> &mut CompM {
        if m.comps.is_empty() {
            m.comps.push(CompM { kind: Kind::Event, props: vec![], multis: vec![], children: vec![] });
        }
        let mut c = m.comps.last_mut().unwrap();
        // a nested one, if there is any
        while !c.children.is_empty() {
            c = c.children.last_mut().unwrap();
        }
        c
    }
    fn text_prop(p: &PropM) -> PropM {
        // some value that may stand in any property
        let value = p.value.replace(['\r', '\n'], " ");
        PropM { name: "COMMENT".into(), value, params: p.params.iter().filter(|(k, _)| k != "VALUE").cloned().collect() }
    }
    (cal_m(), any_prop(), kind(), param_value(), text(), 0u8..9)
        .prop_flat_map(|(m, p, k, pv, t, dim)| {
            let max = [2_000u32, 600, 200, 1_500, 150_000, 100_000, 4_000, 400, 600][dim as usize];
            (Just(m), Just(p), Just(k), Just(pv), Just(t), Just(dim), magnitude(max))
        })
        .prop_map(|(mut m, p, k, pv, t, dim, n)| {
            let p = text_prop(&p);
            let fill = |s: &str, n: usize| {
                let s = if s.is_empty() { "x" } else { s };
                s.repeat(n / s.len() + 1)
            };
            match dim {
                0 => m.comps.extend((0..n).map(|i| CompM {
                    kind: k.clone(),
                    props: vec![if i % 50 == 7 { numbered(&p, "DESCRIPTION", i) } else { unit(i) }],
                    multis: vec![],
                    children: vec![],
                })),
                1 => {
                    let c = host(&mut m);
                    c.props.extend((0..n).map(|i| numbered(&p, &format!("X-NO-{i}"), i)));
                }
                2 => {
                    let params = (0..n).map(|i| (format!("X-P{i}"), format!("{pv}{i}"))).collect();
                    let c = host(&mut m);
                    c.props.retain(|q| q.name != "COMMENT");
                    c.props.push(PropM { params, ..p });
                }
                3 => {
                    let name = ["ATTENDEE", "COMMENT", "EXDATE", "X-MULTI", "CATEGORIES"][n % 5];
                    let c = host(&mut m);
                    c.multis.extend((0..n).map(|i| numbered(&p, name, i)));
                    if name == "ATTENDEE" || name == "EXDATE" {
                        // no TEXT
                        c.multis.iter_mut().for_each(|p| p.value = p.value.replace('\n', " "));
                    }
                }
                4 => {
                    let c = host(&mut m);
                    c.props.retain(|q| q.name != "DESCRIPTION");
                    c.props.push(PropM { name: "DESCRIPTION".into(), value: fill(&t, n), params: p.params });
                }
                5 => {
                    let c = host(&mut m);
                    c.multis.push(PropM { params: vec![("X-LONG".into(), fill(&pv, n))], ..p });
                }
                6 => {
                    let name = format!("X-{}", fill("LONG-NAME", n));
                    let c = host(&mut m);
                    c.props.push(PropM { name: name.clone(), ..p });
                    c.children.push(CompM { kind: Kind::Other(name), props: vec![], multis: vec![], children: vec![] });
                }
                7 => {
                    let kids = (0..n).map(|i| CompM {
                        kind: Kind::Alarm,
                        props: vec![unit(i)],
                        multis: vec![],
                        children: vec![],
                    });
                    host(&mut m).children.extend(kids);
                }
                _ => m.props.extend((0..n).map(|i| numbered(&p, "X-CAL", i))),
            }
            m
        })
        .boxed()
}
