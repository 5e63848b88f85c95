//! What to build and what to read, and everything that can be observed of the result. Shared
//! with `../../variants`, which runs it in builds of the crate with other features.
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Utc};
use icalendar::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;

type Params = Vec<(String, String)>;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RWhen {
    /// days since 1970
    Date(i64),
    Floating(i64),
    Utc(i64),
    Zoned(i64, String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum ROp {
    Prop(String, String, Params),
    Multi(String, String, Params),
    Text(u8, String),
    Number(u8, u32),
    When(u8, RWhen),
    /// text of a displayed one, seconds, relation, repetition
    Alarm(Option<String>, i64, u8, Option<(i64, u32)>),
    AlarmAt(Option<String>, RWhen),
    Venue(String, String),
    Take,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RComp {
    pub kind: u8,
    pub ops: Vec<ROp>,
    pub children: Vec<RComp>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Recipe {
    pub seed: u64,
    pub empty: bool,
    pub props: Vec<(String, String, Params)>,
    pub name: Option<String>,
    pub ttl: Option<i64>,
    pub comps: Vec<RComp>,
    /// how these get into the calendar
    pub how: u8,
    /// to be read
    pub text: String,
}

/// What was observed, by what is needed to observe it.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Seen {
    pub base: Vec<(String, String)>,
    pub parser: Option<Vec<(String, String)>>,
    pub zones: Option<Vec<(String, String)>>,
}

fn naive(secs: i64) -> NaiveDateTime {
    DateTime::<Utc>::from_timestamp(secs, 0).expect("time").naive_utc()
}

fn date(days: i64) -> NaiveDate {
    naive(days * 86_400).date()
}

fn date_time(w: &RWhen) -> CalendarDateTime {
    match w {
        RWhen::Date(d) => naive(d * 86_400).into(),
        RWhen::Floating(s) => naive(*s).into(),
        RWhen::Utc(s) => naive(*s).and_utc().into(),
        RWhen::Zoned(s, z) => CalendarDateTime::WithTimezone { date_time: naive(*s), tzid: z.clone() },
    }
}

fn when(w: &RWhen) -> DatePerhapsTime {
    match w {
        RWhen::Date(d) => date(*d).into(),
        w => date_time(w).into(),
    }
}

fn property(k: &str, v: &str, params: &Params) -> Property {
    let mut p = Property::new(k, v);
    for (k, v) in params {
        p.add_parameter(k, v);
    }
    p.done()
}

fn common<C: Component>(c: &mut C, op: &ROp) {
    match op {
        ROp::Prop(k, v, p) => drop(c.append_property(property(k, v, p))),
        ROp::Multi(k, v, p) => drop(c.append_multi_property(property(k, v, p))),
        ROp::Text(which, s) => drop(match which % 6 {
            0 => c.summary(s),
            1 => c.description(s),
            2 => c.uid(s),
            3 => c.url(s),
            4 => c.add_property("COMMENT", s.as_str()),
            _ => c.add_multi_property("CATEGORIES", s),
        }),
        ROp::Number(which, n) => drop(match which % 3 {
            0 => c.priority(*n),
            1 => c.sequence(*n),
            _ => c.class([Class::Public, Class::Private, Class::Confidential][*n as usize % 3]),
        }),
        ROp::When(which, w) => {
            let at = DatePerhapsTime::date_naive(&when(w)).and_hms_opt(1, 2, 3).expect("time").and_utc();
            drop(match which % 3 {
                0 => c.timestamp(at),
                1 => c.created(at),
                _ => c.last_modified(at),
            })
        }
        _ => {}
    }
}

fn alarm(text: &Option<String>, trigger: impl Into<Trigger>) -> Alarm {
    match text {
        Some(t) => Alarm::display(t, trigger),
        None => Alarm::audio(trigger),
    }
}

fn event_like<C: EventLike>(c: &mut C, op: &ROp) {
    match op {
        ROp::When(which, w) if which % 6 > 2 => drop(match which % 6 {
            3 => c.starts(when(w)),
            4 => c.ends(when(w)),
            _ => c.all_day(when(w).into()),
        }),
        ROp::Text(which, s) if which % 12 == 11 => drop(c.location(s)),
        ROp::Venue(s, id) => drop(c.venue(s, id)),
        ROp::Alarm(text, secs, related, repeat) => {
            let d = Duration::seconds(*secs);
            let mut a = alarm(
                text,
                match related % 5 {
                    0 => Trigger::from(d),
                    1 => Trigger::after_start(d),
                    2 => Trigger::after_end(d),
                    3 => Trigger::before_start(d),
                    _ => Trigger::before_end(d),
                },
            );
            if let Some((every, times)) = repeat {
                a = a.duration_and_repeat(Duration::seconds(*every), *times);
            }
            c.alarm(a);
        }
        ROp::AlarmAt(text, w) => drop(c.alarm(alarm(text, date_time(w)))),
        op => common(c, op),
    }
}

fn component(c: &RComp, out: &mut Vec<(String, String)>) -> CalendarComponent {
    fn attach<C: Component>(c: &RComp, to: &mut C, out: &mut Vec<(String, String)>) {
        for k in &c.children {
            match component(k, out) {
                CalendarComponent::Event(x) => drop(to.append_component(x)),
                CalendarComponent::Todo(x) => drop(to.append_component(x)),
                CalendarComponent::Venue(x) => drop(to.append_component(x)),
                CalendarComponent::Other(x) => drop(to.append_component(x)),
                _ => {}
            }
        }
    }
    let built: CalendarComponent = match c.kind % 3 {
        0 => {
            let mut e = Event::new();
            for op in &c.ops {
                match op {
                    ROp::Take => e = e.done(),
                    ROp::Number(which, n) if which % 6 > 4 => {
                        e.status([EventStatus::Tentative, EventStatus::Confirmed, EventStatus::Cancelled][*n as usize % 3]);
                    }
                    op => event_like(&mut e, op),
                }
            }
            attach(c, &mut e, out);
            e.into()
        }
        1 => {
            let mut t = Todo::new();
            for op in &c.ops {
                match op {
                    ROp::Take => t = t.done(),
                    ROp::Number(which, n) if which % 6 == 5 => drop(t.percent_complete(*n as u8)),
                    ROp::Number(which, n) if which % 6 == 4 => {
                        use TodoStatus::*;
                        t.status([NeedsAction, Completed, InProcess, Cancelled][*n as usize % 4]);
                    }
                    ROp::When(which, w) if which % 12 == 11 => drop(t.due(when(w))),
                    ROp::When(which, RWhen::Utc(s)) if which % 12 == 10 => drop(t.completed(naive(*s).and_utc())),
                    op => event_like(&mut t, op),
                }
            }
            attach(c, &mut t, out);
            t.into()
        }
        _ => {
            let mut v = Venue::new();
            for op in &c.ops {
                match op {
                    ROp::Take => v = v.done(),
                    ROp::Text(which, s) if which % 9 > 2 => drop(match which % 9 {
                        3 => v.street_address(s),
                        4 => v.extended_address(s),
                        5 => v.locality(s),
                        6 => v.region(s),
                        7 => v.country(s),
                        _ => v.postal_code(s),
                    }),
                    op => common(&mut v, op),
                }
            }
            attach(c, &mut v, out);
            v.into()
        }
    };
    let mut s = String::new();
    look(&built, &mut s);
    out.push(("getters".into(), s));
    built
}

fn one(p: &Property, s: &mut String) {
    let mut params: Vec<_> = p.params().values().map(|q| (q.key(), q.value())).collect();
    params.sort();
    let _ = write!(
        s,
        "{}={:?} {params:?} type {:?} when {:?} trigger {:?} related {:?};",
        p.key(),
        p.value(),
        p.value_type(),
        DatePerhapsTime::from_property(p).map(|d| (d.date_naive(), d)),
        Trigger::try_from(p).map(|t| (t.related(), t.as_duration().copied(), t.as_date_time().cloned())),
        p.get_param_as("RELATED", |v| Some(v.len())),
    );
    let _ = write!(s, "line {:?};", TryInto::<String>::try_into(p.clone()).map_err(|_| ()));
}

fn common_look<C: Component>(c: &C, s: &mut String) {
    let _ = write!(s, "{} {{", c.component_kind());
    c.properties().values().for_each(|p| one(p, s));
    c.multi_properties().values().flatten().for_each(|p| one(p, s));
    let _ = write!(
        s,
        "{:?}",
        (
            (c.get_timestamp(), c.get_start(), c.get_end(), c.get_priority(), c.get_summary(), c.get_description()),
            (c.get_uid(), c.get_sequence(), c.get_class(), c.get_url(), c.get_last_modified(), c.get_created()),
        )
    );
    c.components().iter().for_each(|x| common_look(x, s));
    s.push('}');
}

fn look(c: &CalendarComponent, s: &mut String) {
    match c {
        CalendarComponent::Event(x) => {
            common_look(x, s);
            let _ = write!(s, "{:?}", (x.get_status(), x.get_location()));
        }
        CalendarComponent::Todo(x) => {
            common_look(x, s);
            let _ = write!(s, "{:?}", (x.get_status(), x.get_location(), x.get_due(), x.get_completed(), x.get_percent_complete()));
        }
        CalendarComponent::Venue(x) => {
            common_look(x, s);
            let _ = write!(
                s,
                "{:?}",
                (x.get_street_address(), x.get_extended_address(), x.get_locality(), x.get_region(), x.get_country(), x.get_postal_code())
            );
        }
        CalendarComponent::Other(x) => common_look(x, s),
        _ => {}
    }
}

fn look_calendar(cal: &Calendar, what: &str, out: &mut Vec<(String, String)>) {
    let mut s = String::new();
    cal.properties.iter().for_each(|p| one(p, &mut s));
    let _ = write!(s, "{:?}", (cal.get_name(), cal.get_description(), cal.get_timezone(), cal.get_ttl(), cal.len()));
    cal.iter().for_each(|c| look(c, &mut s));
    out.push((format!("{what}: content"), s));
    out.push((format!("{what}: written"), cal.to_string()));
}

fn zoned(r: &RComp, out: &mut Vec<(String, String)>) {
    #[cfg(feature = "tz")]
    for op in &r.ops {
        if let ROp::When(_, w) | ROp::AlarmAt(_, w) = op {
            out.push((format!("{w:?}"), format!("{:?}", date_time(w).try_into_utc())));
            if let RWhen::Zoned(s, z) = w {
                let d: Result<DatePerhapsTime, _> = (naive(*s), z.as_str()).try_into();
                out.push((format!("{w:?} by name"), format!("{d:?}")));
            }
        }
    }
    r.children.iter().for_each(|c| zoned(c, out));
}

#[cfg(feature = "parser")]
fn reading(r: &Recipe, written: &str) -> Vec<(String, String)> {
    use icalendar::parser;
    let mut out = vec![];
    for (what, text) in [("given", r.text.as_str()), ("own", written)] {
        let u = parser::unfold(text);
        out.push((format!("{what}: unfolded"), u.clone()));
        match parser::read_calendar(&u) {
            Ok(c) => {
                out.push((format!("{what}: parsed"), format!("{:?}", (&c.properties, &c.components))));
                out.push((format!("{what}: rewritten"), c.to_string()));
            }
            Err(e) => out.push((format!("{what}: error"), e)),
        }
        out.push((format!("{what}: components"), format!("{:?}", parser::read_components(&u))));
        out.push((format!("{what}: simple"), format!("{:?}", parser::read_calendar_simple(&u))));
        if let Ok(c) = text.parse::<Calendar>() {
            look_calendar(&c, what, &mut out);
        }
        for l in u.lines().take(40) {
            if let Ok(p) = parser::Property::try_from(l) {
                out.push((format!("{what}: date"), format!("{:?}", DatePerhapsTime::try_from(&p))));
            }
        }
    }
    out
}

pub fn perform(r: &Recipe) -> Seen {
    let mut seen = Seen::default();
    let out = &mut seen.base;
    let mut cal = if r.empty { Calendar::empty() } else { Calendar::new() };
    for (k, v, p) in &r.props {
        cal.append_property(property(k, v, p));
    }
    if let Some(n) = &r.name {
        cal.name(n).description(n).timezone(n);
    }
    if let Some(t) = r.ttl {
        cal.ttl(&Duration::seconds(t));
    }
    let comps: Vec<CalendarComponent> = r.comps.iter().map(|c| component(c, out)).collect();
    match r.how % 6 {
        0 => comps.into_iter().for_each(|c| drop(cal.push(c))),
        1 => cal.extend(comps),
        2 => {
            let mut other: Calendar = comps.into_iter().collect();
            cal.append(&mut other);
            look_calendar(&other, "appended", out);
        }
        3 => {
            let mut other = Calendar::from(comps.first().cloned().unwrap_or_else(|| Event::new().uid("x").done().into()));
            other.extend(comps.into_iter().skip(1));
            cal.append(&mut other);
            other.properties.append(&mut cal.properties);
            look_calendar(&other, "appended", out);
        }
        4 => {
            cal.extend(comps);
            let taken = cal.done();
            look_calendar(&cal, "left behind", out);
            cal = taken;
        }
        _ => {
            cal.components = comps;
            cal.components.reverse();
        }
    }
    look_calendar(&cal, "built", out);
    #[cfg(feature = "tz")]
    {
        let mut z = vec![];
        r.comps.iter().for_each(|c| zoned(c, &mut z));
        seen.zones = Some(z);
    }
    #[cfg(not(feature = "tz"))]
    r.comps.iter().for_each(|c| zoned(c, &mut vec![]));
    #[cfg(feature = "parser")]
    {
        let written = cal.to_string();
        seen.parser = Some(reading(r, &written));
    }
    seen
}
