//! Typed values and containers: C12 C13 C14 C15 C19.
use crate::gen::*;
use crate::model::*;
use crate::runner::{facet, Facet, Info, Verdict};
use crate::{ensure, ensure_eq};
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Offset, TimeZone, Timelike, Utc};
use chrono_tz::{Tz, TZ_VARIANTS};
use icalendar::{
    parser, ymd_hm_tzid, Alarm, Calendar, CalendarComponent, CalendarDateTime, Class, Component, DatePerhapsTime,
    Event, EventLike, EventStatus, Property, Related, Todo, TodoStatus, Trigger, Venue,
};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::convert::TryInto;
use std::str::FromStr;

fn read(s: &str) -> Result<Calendar, String> {
    Calendar::from_str(s).map_err(|e| format!("the output is not accepted: {e}\noutput: {s:?}"))
}

// ------------------------------------------------------------------ points in time

/// year, month, day
pub type Ymd = (i32, u32, u32);
/// hour, minute, second (60 is a leap second)
pub type Hms = (u32, u32, u32);

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum When {
    Date(Ymd),
    Floating(Ymd, Hms),
    Utc(Ymd, Hms),
    Zoned(Ymd, Hms, String),
}

fn date((y, m, d): Ymd) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).expect("date")
}

fn naive(ymd: Ymd, (h, m, s): Hms) -> NaiveDateTime {
    let d = date(ymd);
    if s == 60 {
        d.and_hms_nano_opt(h, m, 59, 1_000_000_000).expect("leap second")
    } else {
        d.and_hms_opt(h, m, s).expect("time")
    }
}

fn text_of((y, mo, d): Ymd, (h, mi, s): Hms) -> String {
    format!("{y:04}{mo:02}{d:02}T{h:02}{mi:02}{s:02}")
}

impl When {
    fn value(&self) -> DatePerhapsTime {
        match self {
            When::Date(d) => DatePerhapsTime::Date(date(*d)),
            When::Floating(d, t) => DatePerhapsTime::DateTime(CalendarDateTime::Floating(naive(*d, *t))),
            When::Utc(d, t) => DatePerhapsTime::DateTime(CalendarDateTime::Utc(naive(*d, *t).and_utc())),
            When::Zoned(d, t, z) => DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone {
                date_time: naive(*d, *t),
                tzid: z.clone(),
            }),
        }
    }
    fn date_time(&self) -> Option<CalendarDateTime> {
        match self.value() {
            DatePerhapsTime::DateTime(d) => Some(d),
            _ => None,
        }
    }
    /// the standard form
    fn flat(&self) -> FlatProp {
        let mut params = BTreeMap::new();
        let value = match self {
            When::Date((y, m, d)) => {
                params.insert("VALUE".to_string(), "DATE".to_string());
                format!("{y:04}{m:02}{d:02}")
            }
            When::Floating(d, t) => text_of(*d, *t),
            When::Utc(d, t) => format!("{}Z", text_of(*d, *t)),
            When::Zoned(d, t, z) => {
                params.insert("TZID".to_string(), z.clone());
                text_of(*d, *t)
            }
        };
        FlatProp { value, params }
    }
    fn day(&self) -> NaiveDate {
        match self {
            When::Date(d) | When::Floating(d, _) | When::Utc(d, _) | When::Zoned(d, _, _) => date(*d),
        }
    }
    fn special(&self) -> bool {
        let near = |(y, m, d): Ymd| !(1900..=2100).contains(&y) || (m == 2 && d > 27) || (m == 12 && d == 31) || (m == 1 && d == 1);
        match self {
            When::Date(_) | When::Zoned(..) => true,
            When::Floating(d, _) | When::Utc(d, _) => near(*d),
        }
    }
}

pub fn ymd() -> BoxedStrategy<Ymd> {
    prop_oneof![
        6 => (1i32..=9999, 1u32..=12, 1u32..=31),
        6 => (1900i32..2101, 1u32..=12, 1u32..=31),
        1 => (select(vec![1, 99, 100, 999, 1000, 1582, 1900, 2000, 2024, 9999]), select(vec![1u32, 2, 12]), select(vec![1u32, 28, 29, 30, 31])),
    ]
    .prop_map(|(y, m, d)| {
        let mut d = d;
        while NaiveDate::from_ymd_opt(y, m, d).is_none() {
            d -= 1;
        }
        (y, m, d)
    })
    .boxed()
}

pub fn hms() -> BoxedStrategy<Hms> {
    prop_oneof![
        8 => (0u32..24, 0u32..60, 0u32..60),
        2 => select(vec![(0, 0, 0), (23, 59, 59), (12, 0, 0), (0, 0, 1), (9, 9, 9)]),
        1 => Just((23u32, 59u32, 60u32)),
    ]
    .boxed()
}

fn tzid() -> BoxedStrategy<String> {
    prop_oneof![
        5 => select(TZ_VARIANTS.iter().map(|t| t.name().to_string()).collect::<Vec<_>>()),
        2 => select(["W. Europe Standard Time", "/citadel.org/20210210_1/Europe/Berlin", "(UTC+01:00) Amsterdam, Berlin",
                     "America/Argentina/Buenos_Aires", "Zone;1", "GMT+2", "Étrange/Zone", "x"].map(String::from).to_vec()),
        2 => param_value().prop_map(|s| if s.is_empty() { "Z".into() } else { s }),
    ]
    .boxed()
}

pub fn date_time() -> BoxedStrategy<When> {
    prop_oneof![
        2 => (ymd(), hms()).prop_map(|(d, t)| When::Floating(d, t)),
        2 => (ymd(), hms()).prop_map(|(d, t)| When::Utc(d, t)),
        3 => (ymd(), hms(), tzid()).prop_map(|(d, t, z)| When::Zoned(d, t, z)),
    ]
    .boxed()
}

pub fn when() -> BoxedStrategy<When> {
    prop_oneof![
        2 => ymd().prop_map(When::Date),
        6 => date_time(),
    ]
    .boxed()
}

fn utc((d, t): &(Ymd, Hms), nanos: u32) -> DateTime<Utc> {
    let dt = naive(*d, *t);
    if t.2 == 60 {
        dt.and_utc()
    } else {
        dt.with_nanosecond(nanos).unwrap().and_utc()
    }
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dates {
    start: When,
    end: When,
    due: When,
    all_day: Option<Ymd>,
    stamps: Vec<(Ymd, Hms)>,
    nanos: u32,
    nested: bool,
}

fn one(props: &BTreeMap<String, Property>, name: &str, want: &FlatProp) -> Result<(), String> {
    let got = props.get(name).map(flat_prop);
    ensure_eq!(got.as_ref(), Some(want), "{name} as written");
    Ok(())
}

fn agree(p: &Property, want: &DatePerhapsTime) -> Result<(), String> {
    ensure_eq!(DatePerhapsTime::from_property(p).as_ref(), Some(want), "DatePerhapsTime::from_property of {p:?}");
    let line: String = p.clone().try_into().map_err(|e: std::fmt::Error| e.to_string())?;
    let single = Property::from_str(&line).map_err(|e| format!("{line:?}: {e}"))?;
    ensure_eq!(DatePerhapsTime::from_property(&single).as_ref(), Some(want), "from_property of the line {line:?}");
    let text = parser::unfold(&line);
    let parsed = parser::Property::try_from(text.as_str())?;
    ensure_eq!(DatePerhapsTime::try_from(&parsed).as_ref(), Ok(want), "conversion of the parsed property {line:?}");
    match want {
        DatePerhapsTime::DateTime(d @ (CalendarDateTime::Utc(_) | CalendarDateTime::Floating(_))) => {
            ensure_eq!(CalendarDateTime::from_str(p.value()).as_ref(), Ok(d), "CalendarDateTime::from_str");
        }
        DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time, .. }) => {
            ensure_eq!(
                CalendarDateTime::from_str(p.value()),
                Ok(CalendarDateTime::Floating(*date_time)),
                "CalendarDateTime::from_str"
            );
        }
        DatePerhapsTime::Date(_) => {}
    }
    Ok(())
}

fn c12_component(c: &Dates) -> Verdict {
    let stamp = |i: usize| utc(&c.stamps[i], c.nanos);
    let stamp_flat = |i: usize| When::Utc(c.stamps[i].0, c.stamps[i].1).flat();
    // what is expected back: whole seconds
    let stamp_back = |i: usize| utc(&c.stamps[i], 0);

    let mut e = Event::new();
    e.starts(c.start.value()).ends(c.end.value());
    let (mut start, mut end) = (c.start.clone(), c.end.clone());
    if let Some(d) = c.all_day {
        e.all_day(date(d));
        start = When::Date(d);
        end = When::Date(d);
    }
    e.timestamp(stamp(0)).created(stamp(1)).last_modified(stamp(2));
    let mut t = Todo::new();
    t.starts(c.start.value()).due(c.due.value()).completed(stamp(3));
    t.timestamp(stamp(1)).created(stamp(2)).last_modified(stamp(0));
    let mut v = Venue::new();
    v.timestamp(stamp(2)).created(stamp(3)).last_modified(stamp(1));

    let check = |e: &Event, t: &Todo, v: &Venue, what: &str| -> Result<(), String> {
        let at = |m: String| format!("{what}: {m}");
        one(e.properties(), "DTSTART", &start.flat()).map_err(at)?;
        one(e.properties(), "DTEND", &end.flat()).map_err(at)?;
        one(t.properties(), "DTSTART", &c.start.flat()).map_err(at)?;
        one(t.properties(), "DUE", &c.due.flat()).map_err(at)?;
        one(t.properties(), "COMPLETED", &stamp_flat(3)).map_err(at)?;
        for (p, i) in [
            (e.properties(), [0, 1, 2]),
            (t.properties(), [1, 2, 0]),
            (v.properties(), [2, 3, 1]),
        ] {
            for (n, i) in ["DTSTAMP", "CREATED", "LAST-MODIFIED"].iter().zip(i) {
                one(p, n, &stamp_flat(i)).map_err(at)?;
            }
        }
        ensure_eq!(e.get_start(), Some(start.value()), "{what}: event start");
        ensure_eq!(e.get_end(), Some(end.value()), "{what}: event end");
        ensure_eq!(e.get_timestamp(), Some(stamp_back(0)), "{what}: event timestamp");
        ensure_eq!(e.get_created(), Some(stamp_back(1)), "{what}: event created");
        ensure_eq!(e.get_last_modified(), Some(stamp_back(2)), "{what}: event last modified");
        ensure_eq!(t.get_start(), Some(c.start.value()), "{what}: todo start");
        ensure_eq!(t.get_end(), None, "{what}: todo end");
        ensure_eq!(t.get_due(), Some(c.due.value()), "{what}: todo due");
        ensure_eq!(t.get_completed(), Some(stamp_back(3)), "{what}: todo completed");
        ensure_eq!(t.get_timestamp(), Some(stamp_back(1)), "{what}: todo timestamp");
        ensure_eq!(t.get_created(), Some(stamp_back(2)), "{what}: todo created");
        ensure_eq!(t.get_last_modified(), Some(stamp_back(0)), "{what}: todo last modified");
        ensure_eq!(v.get_timestamp(), Some(stamp_back(2)), "{what}: venue timestamp");
        ensure_eq!(v.get_created(), Some(stamp_back(3)), "{what}: venue created");
        ensure_eq!(v.get_last_modified(), Some(stamp_back(1)), "{what}: venue last modified");
        for (p, w) in [
            (&e.properties()["DTSTART"], start.value()),
            (&e.properties()["DTEND"], end.value()),
            (&t.properties()["DUE"], c.due.value()),
            (&t.properties()["COMPLETED"], DatePerhapsTime::DateTime(CalendarDateTime::Utc(stamp_back(3)))),
            (&v.properties()["LAST-MODIFIED"], DatePerhapsTime::DateTime(CalendarDateTime::Utc(stamp_back(1)))),
        ] {
            agree(p, &w).map_err(at)?;
        }
        Ok(())
    };
    let (e, t, v) = (e.done(), t.done(), v.done());
    check(&e, &t, &v, "built")?;
    let mut cal = Calendar::new();
    cal.push(e.clone()).push(t.clone()).push(v.clone());
    let back = read(&cal.to_string())?;
    match &back.components[..] {
        [CalendarComponent::Event(e), CalendarComponent::Todo(t), CalendarComponent::Venue(v)] => {
            check(e, t, v, "written and read")?
        }
        o => return Err(format!("components changed: {o:?}")),
    }
    if c.nested {
        // a component in a component, reached as `Other`
        let mut outer = Event::new();
        outer.append_component(e.clone());
        let mut cal = Calendar::new();
        cal.push(outer);
        let back = read(&cal.to_string())?;
        let inner = back.components[0].as_event().and_then(|e| e.components().first()).ok_or("nested event is missing")?;
        ensure_eq!(inner.get_start(), Some(start.value()), "nested start");
        ensure_eq!(inner.get_end(), Some(end.value()), "nested end");
        ensure_eq!(inner.get_last_modified(), Some(stamp_back(2)), "nested last modified");
    }
    let kinds = |f: fn(&When) -> bool| [&c.start, &c.end, &c.due].into_iter().any(f);
    Ok(Info::new(c.start.special() || c.due.special() || c.end.special())
        .class("date", kinds(|w| matches!(w, When::Date(_))))
        .class("floating", kinds(|w| matches!(w, When::Floating(..))))
        .class("utc", kinds(|w| matches!(w, When::Utc(..))))
        .class("zone", kinds(|w| matches!(w, When::Zoned(..))))
        .class("year below 1000", c.start.day() < date((1000, 1, 1))))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    key: String,
    when: When,
    tz: usize,
}

#[allow(deprecated)]
fn c12_conversions(c: &Conv) -> Verdict {
    let want = c.when.value();
    let p = want.to_property(&c.key);
    ensure_eq!(p.key(), c.key.as_str(), "key");
    let mut flat = c.when.flat();
    ensure_eq!(flat_prop(&p), flat, "to_property");
    if effective_type(&c.key, flat.params.get("VALUE").map(String::as_str)) != Some("TEXT") {
        agree(&p, &want)?;
    }
    ensure_eq!(want.date_naive(), c.when.day(), "date_naive");
    ensure_eq!(NaiveDate::from(want.clone()), c.when.day(), "NaiveDate::from");
    // declaring the default type changes nothing
    if !matches!(c.when, When::Date(_)) {
        let mut q = p.clone();
        q.add_parameter("VALUE", "DATE-TIME");
        agree(&q, &want)?;
        let mut q = p.clone();
        q.add_parameter("X-A", "1").add_parameter("LANGUAGE", "de");
        agree(&q, &want)?;
        // nor do parameters whose names are similar
        let mut q = p.clone();
        for name in ["X-TZID", "TZIDX", "TZ", "X-TZ", "ID", "X-VALUE", "VALUES", "VALUE-X"] {
            q.add_parameter(name, if name.contains("VALUE") { "DATE" } else { "Europe/Lisbon" });
        }
        agree(&q, &want)?;
        flat.params.clear();
    }
    // the ways to make one
    match &c.when {
        When::Date(d) => {
            ensure_eq!(DatePerhapsTime::from(date(*d)), want, "from NaiveDate");
            ensure_eq!(DatePerhapsTime::from(Utc.from_utc_date(&date(*d))), want, "from Date<Utc>");
        }
        When::Floating(d, t) => {
            ensure_eq!(DatePerhapsTime::from(naive(*d, *t)), want, "from NaiveDateTime");
            ensure_eq!(DatePerhapsTime::from(CalendarDateTime::from(naive(*d, *t))), want, "from CalendarDateTime");
        }
        When::Utc(d, t) => {
            ensure_eq!(DatePerhapsTime::from(naive(*d, *t).and_utc()), want, "from DateTime<Utc>");
            ensure_eq!(DatePerhapsTime::from(CalendarDateTime::from(naive(*d, *t).and_utc())), want, "from CalendarDateTime");
        }
        When::Zoned(d, t, _) => {
            let tz = TZ_VARIANTS[c.tz % TZ_VARIANTS.len()];
            let want = DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone {
                date_time: naive(*d, *t),
                tzid: tz.name().to_string(),
            });
            ensure_eq!(DatePerhapsTime::from((naive(*d, *t), tz)), want, "from (NaiveDateTime, Tz)");
            ensure_eq!(DatePerhapsTime::try_from((naive(*d, *t), tz.name())), Ok(want.clone()), "from (NaiveDateTime, &str)");
            ensure_eq!(DatePerhapsTime::from(CalendarDateTime::from((naive(*d, *t), tz))), want, "from CalendarDateTime");
            if t.2 == 0 {
                let got = ymd_hm_tzid(d.0, d.1, d.2, t.0, t.1, tz).map(DatePerhapsTime::from);
                ensure_eq!(got, Some(want.clone()), "ymd_hm_tzid");
            }
            agree(&want.to_property(&c.key), &want)?;
        }
    }
    Ok(Info::new(c.when.special()).class("zone", matches!(c.when, When::Zoned(..))))
}

pub fn c12() -> Vec<Facet> {
    let dates = || {
        (
            when(),
            when(),
            when(),
            prop_oneof![3 => Just(None), 1 => ymd().prop_map(Some)],
            vec((ymd(), hms()), 4),
            prop_oneof![Just(0u32), 0u32..1_000_000_000, Just(999_999_999)],
            any::<bool>(),
        )
            .prop_map(|(start, end, due, all_day, stamps, nanos, nested)| Dates { start, end, due, all_day, stamps, nanos, nested })
            .boxed()
    };
    let conv = || {
        (
            select(["DTSTART", "DTEND", "DUE", "COMPLETED", "CREATED", "RECURRENCE-ID", "EXDATE", "RDATE", "X-DATE", "ACKNOWLEDGED", "TRIGGER"].map(String::from).to_vec()),
            when(),
            any::<usize>(),
        )
            .prop_map(|(key, when, tz)| Conv { key, when, tz })
            .boxed()
    };
    vec![
        facet("component", 30_000, 400_000, dates, c12_component),
        facet("conversions", 60_000, 800_000, conv, c12_conversions),
    ]
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Trig {
    /// seconds; relation: 0 none, 1 start, 2 end
    Relative(i64, u8),
    Absolute(When),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AlarmCase {
    trigger: Trig,
    display: Option<String>,
    repeat: Option<(i64, u32)>,
    on_todo: bool,
    other: Trig,
}

const MAX_S: i64 = u32::MAX as i64;

fn seconds() -> BoxedStrategy<i64> {
    let unit = select(vec![1i64, 60, 3600, 86_400, 604_800]);
    prop_oneof![
        4 => (unit, -400i64..400).prop_map(|(u, n)| u * n),
        3 => -100_000i64..100_000,
        2 => -MAX_S..=MAX_S,
        1 => select(vec![0, 1, -1, 59, 60, 3599, 3600, 86_399, 86_400, MAX_S, -MAX_S, i32::MAX as i64, i32::MIN as i64]),
    ]
    .boxed()
}

fn trig() -> BoxedStrategy<Trig> {
    prop_oneof![
        2 => (seconds(), 0u8..3).prop_map(|(s, r)| Trig::Relative(s, r)),
        1 => date_time().prop_map(Trig::Absolute),
    ]
    .boxed()
}

fn related(r: u8) -> Option<Related> {
    match r {
        0 => None,
        1 => Some(Related::Start),
        _ => Some(Related::End),
    }
}

fn make_trigger(t: &Trig) -> Trigger {
    match t {
        Trig::Relative(s, 0) => Trigger::from(Duration::seconds(*s)),
        // the named constructors take the amount
        Trig::Relative(s, 1) if *s > 0 => Trigger::after_start(Duration::seconds(*s)),
        Trig::Relative(s, 1) if *s < 0 => Trigger::before_start(Duration::seconds(-*s)),
        Trig::Relative(s, 2) if *s > 0 => Trigger::after_end(Duration::seconds(*s)),
        Trig::Relative(s, 2) if *s < 0 => Trigger::before_end(Duration::seconds(-*s)),
        Trig::Relative(s, r) => Trigger::from((Duration::seconds(*s), related(*r).unwrap())),
        Trig::Absolute(w) => match w {
            When::Floating(d, t) => Trigger::from(naive(*d, *t)),
            When::Utc(d, t) => Trigger::from(naive(*d, *t).and_utc()),
            _ => Trigger::DateTime(w.date_time().unwrap()),
        },
    }
}

fn want_trigger(t: &Trig) -> Trigger {
    match t {
        Trig::Relative(s, r) => Trigger::Duration(Duration::seconds(*s), related(*r)),
        Trig::Absolute(w) => Trigger::DateTime(w.date_time().unwrap()),
    }
}

/// An independent reader of the RFC 5545 duration grammar.
fn ref_duration(s: &str) -> Option<i64> {
    let (neg, s) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let mut rest = s.strip_prefix('P')?;
    let mut total = 0i64;
    let mut time = false;
    let mut any = false;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('T') {
            if time {
                return None;
            }
            time = true;
            rest = r;
            continue;
        }
        let n = rest.find(|c: char| !c.is_ascii_digit())?;
        let v: i64 = rest[..n].parse().ok()?;
        let unit = match (&rest[n..=n], time) {
            ("W", false) => 604_800,
            ("D", false) => 86_400,
            ("H", true) => 3600,
            ("M", true) => 60,
            ("S", true) => 1,
            _ => return None,
        };
        total += v * unit;
        any = true;
        rest = &rest[n + 1..];
    }
    any.then_some(if neg { -total } else { total })
}

fn check_trigger(p: Option<&Property>, t: &Trig, what: &str) -> Result<(), String> {
    let p = p.ok_or_else(|| format!("{what}: TRIGGER is missing"))?;
    let got = Trigger::try_from(p).map_err(|_| format!("{what}: no trigger in {p:?}, want {t:?}"))?;
    let want = want_trigger(t);
    ensure_eq!(got, want, "{what}: trigger of {p:?}");
    match t {
        Trig::Relative(s, r) => {
            ensure_eq!(got.as_duration(), Some(&Duration::seconds(*s)), "{what}: as_duration");
            ensure_eq!(got.related(), related(*r), "{what}: related");
            ensure_eq!(got.as_date_time(), None, "{what}: as_date_time");
            ensure_eq!(ref_duration(p.value()), Some(*s), "{what}: written duration {:?}", p.value());
            let mut params = BTreeMap::new();
            if *r > 0 {
                params.insert("RELATED".to_string(), if *r == 1 { "START" } else { "END" }.to_string());
            }
            ensure_eq!(flat_prop(p).params, params, "{what}: parameters");
        }
        Trig::Absolute(w) => {
            ensure_eq!(got.as_date_time(), w.date_time().as_ref(), "{what}: as_date_time");
            ensure_eq!(got.as_duration(), None, "{what}: as_duration");
            ensure_eq!(got.related(), None, "{what}: related");
            let mut flat = w.flat();
            flat.params.insert("VALUE".into(), "DATE-TIME".into());
            ensure_eq!(flat_prop(p), flat, "{what}: absolute trigger as written");
        }
    }
    Ok(())
}

fn c13_alarm(c: &AlarmCase) -> Verdict {
    let make = |t: &Trig| match &c.display {
        Some(d) => Alarm::display(d, make_trigger(t)),
        None => Alarm::audio(make_trigger(t)),
    };
    let mut alarm = make(&c.trigger);
    if let Some((s, n)) = c.repeat {
        alarm = alarm.duration_and_repeat(Duration::seconds(s), n);
    }
    let second = make(&c.other);
    let check = |a: &BTreeMap<String, Property>, t: &Trig, repeat: Option<(i64, u32)>, what: &str| -> Result<(), String> {
        check_trigger(a.get("TRIGGER"), t, what)?;
        let v = |n: &str| a.get(n).map(|p| p.value().to_string());
        ensure_eq!(v("ACTION").as_deref(), Some(if c.display.is_some() { "DISPLAY" } else { "AUDIO" }), "{what}: ACTION");
        ensure_eq!(v("DESCRIPTION"), c.display.clone(), "{what}: DESCRIPTION");
        ensure_eq!(v("REPEAT"), repeat.map(|r| r.1.to_string()), "{what}: REPEAT");
        ensure_eq!(v("DURATION").and_then(|d| ref_duration(&d)), repeat.map(|r| r.0), "{what}: DURATION {:?}", v("DURATION"));
        Ok(())
    };
    check(alarm.properties(), &c.trigger, c.repeat, "alarm")?;
    let mut cal = Calendar::new();
    if c.on_todo {
        let mut t = Todo::new();
        t.alarm(alarm).alarm(second);
        cal.push(t.done());
    } else {
        let mut e = Event::new();
        e.alarm(alarm).alarm(second);
        cal.push(e.done());
    }
    for what in ["built", "written and read", "twice"] {
        let alarms = match &cal.components[0] {
            CalendarComponent::Event(e) => e.components(),
            CalendarComponent::Todo(t) => t.components(),
            o => return Err(format!("{what}: component is {o:?}")),
        };
        ensure_eq!(alarms.len(), 2, "{what}: alarms");
        ensure!(alarms.iter().all(|a| a.component_kind() == "VALARM"), "{what}: kinds");
        check(alarms[0].properties(), &c.trigger, c.repeat, what)?;
        check(alarms[1].properties(), &c.other, None, what)?;
        cal = read(&cal.to_string())?;
    }
    Ok(Info::new(match &c.trigger {
        Trig::Relative(s, r) => *s < 0 || *r > 0,
        Trig::Absolute(w) => matches!(w, When::Zoned(..) | When::Utc(..)),
    })
    .class("negative", matches!(c.trigger, Trig::Relative(s, _) if s < 0))
    .class("absolute", matches!(c.trigger, Trig::Absolute(_)))
    .class("absolute with zone", matches!(c.trigger, Trig::Absolute(When::Zoned(..))))
    .class("related", matches!(c.trigger, Trig::Relative(_, r) if r > 0))
    .class("repeat", c.repeat.is_some()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Body {
    Weeks(u32),
    /// days, and a time
    Days(u32, Option<Clock>),
    Time(Clock),
}

/// At least one of them, without gaps, as the grammar demands.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Clock {
    first: u8,
    n: u8,
    values: (u32, u32, u32),
}

impl Clock {
    fn write(&self) -> (String, i64) {
        let v = [self.values.0, self.values.1, self.values.2];
        let mut s = String::from("T");
        let mut total = 0;
        for i in self.first..(self.first + self.n).min(3) {
            let i = i as usize;
            s.push_str(&format!("{}{}", v[i], ["H", "M", "S"][i]));
            total += v[i] as i64 * [3600, 60, 1][i];
        }
        (s, total)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Notation {
    sign: u8,
    body: Body,
    related: u8,
    declared: bool,
    zeros: usize,
}

impl Notation {
    fn write(&self) -> (String, i64) {
        let (s, n) = match &self.body {
            Body::Weeks(w) => (format!("{w}W"), *w as i64 * 604_800),
            Body::Days(d, None) => (format!("{d}D"), *d as i64 * 86_400),
            Body::Days(d, Some(c)) => {
                let (s, n) = c.write();
                (format!("{d}D{s}"), *d as i64 * 86_400 + n)
            }
            Body::Time(c) => c.write(),
        };
        // leading zeros are digits, too
        let s = if self.zeros > 0 && s.starts_with(|c: char| c.is_ascii_digit()) {
            format!("{}{s}", "0".repeat(self.zeros))
        } else {
            s
        };
        let sign = ["", "+", "-"][self.sign as usize];
        (format!("{sign}P{s}"), if self.sign == 2 { -n } else { n })
    }
}

fn notation() -> BoxedStrategy<Notation> {
    let amount = || prop_oneof![4 => 0u32..100, 2 => 0u32..100_000, 1 => Just(0u32), 1 => 0u32..2_000_000];
    let clock = move || {
        (0u8..3, 1u8..4, (amount(), amount(), amount())).prop_map(|(first, n, values)| Clock { first, n, values }).boxed()
    };
    (
        0u8..3,
        prop_oneof![
            1 => amount().prop_map(Body::Weeks),
            1 => amount().prop_map(|d| Body::Days(d, None)),
            2 => (amount(), clock()).prop_map(|(d, c)| Body::Days(d, Some(c))),
            2 => clock().prop_map(Body::Time),
        ],
        0u8..3,
        any::<bool>(),
        prop_oneof![4 => Just(0usize), 1 => 1usize..4],
    )
        .prop_map(|(sign, body, related, declared, zeros)| Notation { sign, body, related, declared, zeros })
        .boxed()
}

fn c13_notation(c: &Notation) -> Verdict {
    let (text, secs) = c.write();
    ensure_eq!(ref_duration(&text), Some(secs), "harness: {text}");
    let mut p = Property::new("TRIGGER", &text);
    let mut params = String::new();
    if c.related > 0 {
        let r = if c.related == 1 { "START" } else { "END" };
        p.add_parameter("RELATED", r);
        params.push_str(&format!(";RELATED={r}"));
    }
    if c.declared {
        p.add_parameter("VALUE", "DURATION");
        params.push_str(";VALUE=DURATION");
    }
    let want = Trigger::Duration(Duration::seconds(secs), related(c.related));
    ensure_eq!(Trigger::try_from(&p), Ok(want.clone()), "trigger {text}");
    let doc = format!(
        "BEGIN:VCALENDAR\r\nREFRESH-INTERVAL;VALUE=DURATION:{text}\r\nBEGIN:VEVENT\r\nBEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER{params}:{text}\r\nEND:VALARM\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"
    );
    let check = |cal: &Calendar, what: &str| -> Result<(), String> {
        ensure_eq!(cal.get_ttl(), Some(Duration::seconds(secs)), "{what}: refresh interval {text}");
        let alarm = cal.components[0].as_event().and_then(|e| e.components().first()).ok_or("no alarm")?;
        let p = alarm.properties().get("TRIGGER").ok_or("no trigger")?;
        ensure_eq!(Trigger::try_from(p).as_ref(), Ok(&want), "{what}: trigger {text}");
        Ok(())
    };
    let cal = read(&doc)?;
    check(&cal, "read")?;
    check(&read(&cal.to_string())?, "written and read")?;
    let published = read(&doc.replace("REFRESH-INTERVAL;VALUE=DURATION", "X-PUBLISHED-TTL"))?;
    ensure_eq!(published.get_ttl(), Some(Duration::seconds(secs)), "published interval {text}");
    Ok(Info::new(c.sign == 2 || c.related > 0 || matches!(&c.body, Body::Days(_, Some(_))))
        .class("weeks", matches!(c.body, Body::Weeks(_)))
        .class("negative", c.sign == 2)
        .class("explicit plus", c.sign == 1)
        .class("days and time", matches!(&c.body, Body::Days(_, Some(_)))))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ttl {
    secs: i64,
    more: Option<i64>,
}

fn c13_ttl(c: &Ttl) -> Verdict {
    let want = Some(Duration::seconds(c.secs));
    let mut cal = Calendar::new();
    ensure_eq!(cal.get_ttl(), None, "unset");
    cal.ttl(&Duration::seconds(c.secs));
    if let Some(m) = c.more {
        cal.ttl(&Duration::seconds(m));
    }
    ensure_eq!(cal.get_ttl(), want, "direct");
    for p in &cal.properties[3..] {
        let flat = flat_prop(p);
        let declared = flat.params.get("VALUE").map(String::as_str);
        match p.key() {
            "REFRESH-INTERVAL" => ensure_eq!(declared, Some("DURATION"), "declared type"),
            "X-PUBLISHED-TTL" => {}
            o => return Err(format!("{o} was added")),
        }
    }
    ensure_eq!(ref_duration(cal.property_value("REFRESH-INTERVAL").unwrap_or("")), Some(c.secs), "REFRESH-INTERVAL");
    ensure_eq!(ref_duration(cal.property_value("X-PUBLISHED-TTL").unwrap_or("")), Some(c.secs), "X-PUBLISHED-TTL");
    let back = read(&cal.to_string())?;
    ensure_eq!(back.get_ttl(), want, "after reading");
    // either of them is enough
    for gone in ["REFRESH-INTERVAL", "X-PUBLISHED-TTL"] {
        let mut one = read(&cal.to_string())?;
        one.properties.retain(|p| p.key() != gone);
        ensure_eq!(one.get_ttl(), want, "without {gone}");
    }
    Ok(Info::new(c.secs < 0 || c.secs > 60))
}

pub fn c13() -> Vec<Facet> {
    let alarm = || {
        (
            trig(),
            prop_oneof![Just(None), text().prop_map(Some)],
            prop_oneof![Just(None), (0i64..=MAX_S, any::<u32>()).prop_map(Some), (0i64..5000, 0u32..10).prop_map(Some)],
            any::<bool>(),
            trig(),
        )
            .prop_map(|(trigger, display, repeat, on_todo, other)| AlarmCase { trigger, display, repeat, on_todo, other })
            .boxed()
    };
    vec![
        facet("alarm", 25_000, 300_000, alarm, c13_alarm),
        facet("notation", 40_000, 500_000, notation, c13_notation),
        facet(
            "refresh interval",
            20_000,
            200_000,
            || (seconds(), prop_oneof![3 => Just(None), 1 => seconds().prop_map(Some)]).prop_map(|(secs, more)| Ttl { secs, more }).boxed(),
            c13_ttl,
        ),
    ]
}

// ------------------------------------------------------------------ C14

/// Text-valued setters.
const TEXTS: [&str; 5] = ["SUMMARY", "DESCRIPTION", "LOCATION", "UID", "URL"];
const ADDRESS: [&str; 6] = ["STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE"];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Val {
    Text(String),
    Num(u32),
    When(When),
    Stamp((Ymd, Hms)),
    Class(u8),
    Status(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// the setter of the name
    Set(String, Val),
    /// the same value through `add_property` / `append_property`
    Generic(String, Val),
    /// a value the getter cannot make sense of
    Junk(String),
    AllDay(Ymd),
    Venue(String, String),
    Extra(PropM),
    Multi(PropM),
    MultiPlain(usize, String),
    Alarm(i64),
    Done,
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    /// 0 event, 1 todo, 2 venue
    kind: u8,
    ops: Vec<Op>,
}

#[derive(Clone, Default)]
struct State {
    /// what the getters report
    vals: BTreeMap<String, Option<Val>>,
    props: BTreeMap<String, FlatProp>,
    multis: BTreeMap<String, Vec<FlatProp>>,
    alarms: Vec<i64>,
}

const CLASSES: [&str; 3] = ["PUBLIC", "PRIVATE", "CONFIDENTIAL"];
const EVENT_STATUS: [&str; 3] = ["TENTATIVE", "CONFIRMED", "CANCELLED"];
const TODO_STATUS: [&str; 4] = ["NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"];

fn class_of(i: u8) -> Class {
    [Class::Public, Class::Private, Class::Confidential][i as usize % 3]
}

fn event_status(i: u8) -> EventStatus {
    [EventStatus::Tentative, EventStatus::Confirmed, EventStatus::Cancelled][i as usize % 3]
}

fn todo_status(i: u8) -> TodoStatus {
    [TodoStatus::NeedsAction, TodoStatus::Completed, TodoStatus::InProcess, TodoStatus::Cancelled][i as usize % 4]
}

/// how a value has to be written
fn val_flat(name: &str, v: &Val, kind: u8) -> FlatProp {
    let plain = |value: String| FlatProp { value, params: BTreeMap::new() };
    match v {
        Val::Text(s) => plain(s.clone()),
        Val::Num(n) => plain(match name {
            "PRIORITY" => (*n).min(10).to_string(),
            "PERCENT-COMPLETE" => (*n % 101).to_string(),
            _ => n.to_string(),
        }),
        Val::When(w) => w.flat(),
        Val::Stamp((d, t)) => When::Utc(*d, *t).flat(),
        Val::Class(i) => plain(CLASSES[*i as usize % 3].into()),
        Val::Status(i) => plain(if kind == 0 { EVENT_STATUS[*i as usize % 3] } else { TODO_STATUS[*i as usize % 4] }.into()),
    }
}

trait Setters: Component + Clone {
    fn set(&mut self, name: &str, v: &Val) -> bool;
    fn get(&self, name: &str) -> Option<Val>;
    fn finish(&mut self) -> Self;
    fn all_day_(&mut self, _d: NaiveDate) -> bool {
        false
    }
    fn venue_(&mut self, _l: &str, _v: &str) -> bool {
        false
    }
    fn alarm_(&mut self, _s: i64) -> bool {
        false
    }
}

fn stamp_val(d: Option<DateTime<Utc>>) -> Option<Val> {
    d.map(|d| Val::When(when_of(&DatePerhapsTime::DateTime(CalendarDateTime::Utc(d)))))
}

fn when_of(d: &DatePerhapsTime) -> When {
    use chrono::Datelike;
    let ymd = |d: NaiveDate| (d.year(), d.month(), d.day());
    let hms = |t: NaiveDateTime| {
        let leap = t.nanosecond() >= 1_000_000_000;
        (t.hour(), t.minute(), t.second() + leap as u32)
    };
    match d {
        DatePerhapsTime::Date(d) => When::Date(ymd(*d)),
        DatePerhapsTime::DateTime(CalendarDateTime::Floating(n)) => When::Floating(ymd(n.date()), hms(*n)),
        DatePerhapsTime::DateTime(CalendarDateTime::Utc(u)) => {
            let n = u.naive_utc();
            When::Utc(ymd(n.date()), hms(n))
        }
        DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time: n, tzid }) => {
            When::Zoned(ymd(n.date()), hms(*n), tzid.clone())
        }
    }
}

/// the setters every component has
fn common_set<C: Component>(c: &mut C, name: &str, v: &Val) -> bool {
    match (name, v) {
        ("SUMMARY", Val::Text(s)) => c.summary(s),
        ("DESCRIPTION", Val::Text(s)) => c.description(s),
        ("UID", Val::Text(s)) => c.uid(s),
        ("URL", Val::Text(s)) => c.url(s),
        ("PRIORITY", Val::Num(n)) => c.priority(*n),
        ("SEQUENCE", Val::Num(n)) => c.sequence(*n),
        ("CLASS", Val::Class(i)) => c.class(class_of(*i)),
        ("DTSTAMP", Val::Stamp(s)) => c.timestamp(utc(s, 0)),
        ("CREATED", Val::Stamp(s)) => c.created(utc(s, 0)),
        ("LAST-MODIFIED", Val::Stamp(s)) => c.last_modified(utc(s, 0)),
        _ => return false,
    };
    true
}

fn common_get<C: Component>(c: &C, name: &str) -> Option<Val> {
    let text = |s: Option<&str>| s.map(|s| Val::Text(s.to_string()));
    match name {
        "SUMMARY" => text(c.get_summary()),
        "DESCRIPTION" => text(c.get_description()),
        "UID" => text(c.get_uid()),
        "URL" => text(c.get_url()),
        "PRIORITY" => c.get_priority().map(Val::Num),
        "SEQUENCE" => c.get_sequence().map(Val::Num),
        "CLASS" => c.get_class().map(|k| {
            Val::Class(match k {
                Class::Public => 0,
                Class::Private => 1,
                Class::Confidential => 2,
            })
        }),
        "DTSTAMP" => stamp_val(c.get_timestamp()),
        "CREATED" => stamp_val(c.get_created()),
        "LAST-MODIFIED" => stamp_val(c.get_last_modified()),
        "DTSTART" => c.get_start().map(|d| Val::When(when_of(&d))),
        "DTEND" => c.get_end().map(|d| Val::When(when_of(&d))),
        _ => None,
    }
}

fn event_like_set<C: EventLike>(c: &mut C, name: &str, v: &Val) -> bool {
    match (name, v) {
        ("LOCATION", Val::Text(s)) => c.location(s),
        ("DTSTART", Val::When(w)) => c.starts(w.value()),
        ("DTEND", Val::When(w)) => c.ends(w.value()),
        _ => return false,
    };
    true
}

macro_rules! event_like {
    () => {
        fn finish(&mut self) -> Self {
            self.done()
        }
        fn all_day_(&mut self, d: NaiveDate) -> bool {
            self.all_day(d);
            true
        }
        fn venue_(&mut self, l: &str, v: &str) -> bool {
            self.venue(l, v);
            true
        }
        fn alarm_(&mut self, s: i64) -> bool {
            self.alarm(Alarm::audio(Duration::seconds(s)));
            true
        }
    };
}

impl Setters for Event {
    fn set(&mut self, name: &str, v: &Val) -> bool {
        if let ("STATUS", Val::Status(i)) = (name, v) {
            self.status(event_status(*i));
            return true;
        }
        common_set(self, name, v) || event_like_set(self, name, v)
    }
    fn get(&self, name: &str) -> Option<Val> {
        match name {
            "STATUS" => self.get_status().map(|s| {
                Val::Status(match s {
                    EventStatus::Tentative => 0,
                    EventStatus::Confirmed => 1,
                    EventStatus::Cancelled => 2,
                })
            }),
            "LOCATION" => self.get_location().map(|s| Val::Text(s.to_string())),
            n => common_get(self, n),
        }
    }
    event_like!();
}

impl Setters for Todo {
    fn set(&mut self, name: &str, v: &Val) -> bool {
        match (name, v) {
            ("STATUS", Val::Status(i)) => self.status(todo_status(*i)),
            ("DUE", Val::When(w)) => self.due(w.value()),
            ("COMPLETED", Val::Stamp(s)) => self.completed(utc(s, 0)),
            ("PERCENT-COMPLETE", Val::Num(n)) => self.percent_complete((*n % 101) as u8),
            _ => return common_set(self, name, v) || event_like_set(self, name, v),
        };
        true
    }
    fn get(&self, name: &str) -> Option<Val> {
        match name {
            "STATUS" => self.get_status().map(|s| {
                Val::Status(match s {
                    TodoStatus::NeedsAction => 0,
                    TodoStatus::Completed => 1,
                    TodoStatus::InProcess => 2,
                    TodoStatus::Cancelled => 3,
                })
            }),
            "DUE" => self.get_due().map(|d| Val::When(when_of(&d))),
            "COMPLETED" => stamp_val(self.get_completed()),
            "PERCENT-COMPLETE" => self.get_percent_complete().map(|n| Val::Num(n as u32)),
            "LOCATION" => self.get_location().map(|s| Val::Text(s.to_string())),
            n => common_get(self, n),
        }
    }
    event_like!();
}

impl Setters for Venue {
    fn set(&mut self, name: &str, v: &Val) -> bool {
        match (name, v) {
            ("STREET-ADDRESS", Val::Text(s)) => self.street_address(s),
            ("EXTENDED-ADDRESS", Val::Text(s)) => self.extended_address(s),
            ("LOCALITY", Val::Text(s)) => self.locality(s),
            ("REGION", Val::Text(s)) => self.region(s),
            ("COUNTRY", Val::Text(s)) => self.country(s),
            ("POSTAL-CODE", Val::Text(s)) => self.postal_code(s),
            _ => return common_set(self, name, v),
        };
        true
    }
    fn get(&self, name: &str) -> Option<Val> {
        let text = |s: Option<&str>| s.map(|s| Val::Text(s.to_string()));
        match name {
            "STREET-ADDRESS" => text(self.get_street_address()),
            "EXTENDED-ADDRESS" => text(self.get_extended_address()),
            "LOCALITY" => text(self.get_locality()),
            "REGION" => text(self.get_region()),
            "COUNTRY" => text(self.get_country()),
            "POSTAL-CODE" => text(self.get_postal_code()),
            n => common_get(self, n),
        }
    }
    fn finish(&mut self) -> Self {
        self.done()
    }
}

fn getters(kind: u8) -> Vec<&'static str> {
    let mut v = vec![
        "SUMMARY", "DESCRIPTION", "UID", "URL", "PRIORITY", "SEQUENCE", "CLASS", "DTSTAMP", "CREATED", "LAST-MODIFIED",
        "DTSTART", "DTEND",
    ];
    match kind {
        0 => v.extend(["STATUS", "LOCATION"]),
        1 => v.extend(["STATUS", "LOCATION", "DUE", "COMPLETED", "PERCENT-COMPLETE"]),
        _ => v.extend(ADDRESS),
    }
    v
}

/// what the getter of `name` reports for a value set
fn reported(name: &str, v: &Val, kind: u8) -> Val {
    match v {
        Val::Num(n) => Val::Num(match name {
            "PRIORITY" => (*n).min(10),
            "PERCENT-COMPLETE" => *n % 101,
            _ => *n,
        }),
        Val::Stamp((d, t)) => Val::When(When::Utc(*d, *t)),
        Val::Class(i) => Val::Class(i % 3),
        Val::Status(i) => Val::Status(if kind == 0 { i % 3 } else { i % 4 }),
        v => v.clone(),
    }
}

fn same_val(a: &Option<Val>, b: &Option<Val>) -> bool {
    format!("{a:?}") == format!("{b:?}")
}

fn check_state<C: Setters>(c: &C, st: &State, kind: u8, parsed: bool, what: &str) -> Result<(), String> {
    for name in getters(kind) {
        let got = c.get(name);
        let want = st.vals.get(name).cloned().flatten();
        if parsed && ADDED.contains(&name) && !st.props.contains_key(name) {
            ensure!(got.is_some(), "{what}: {name} is not filled in");
            continue;
        }
        ensure!(same_val(&got, &want), "{what}: getter of {name}\n   got: {got:?}\n  want: {want:?}");
    }
    let single: BTreeMap<String, FlatProp> = c
        .properties()
        .iter()
        .filter(|(k, _)| !(parsed && ADDED.contains(&k.as_str()) && !st.props.contains_key(*k)))
        .map(|(k, p)| (k.clone(), flat_prop(p)))
        .collect();
    let multi: BTreeMap<String, Vec<FlatProp>> =
        c.multi_properties().iter().map(|(k, v)| (k.clone(), v.iter().map(flat_prop).collect())).collect();
    if parsed {
        // which of the two maps holds a property is up to the reader
        let mut all: BTreeMap<String, Vec<FlatProp>> = BTreeMap::new();
        for (k, p) in single {
            all.entry(k).or_default().push(p);
        }
        for (k, v) in multi {
            all.entry(k).or_default().extend(v);
        }
        let mut want: BTreeMap<String, Vec<FlatProp>> = BTreeMap::new();
        for (k, p) in &st.props {
            want.entry(k.clone()).or_default().push(p.clone());
        }
        for (k, v) in &st.multis {
            want.entry(k.clone()).or_default().extend(v.iter().cloned());
        }
        ensure_eq!(all, want, "{what}: properties");
    } else {
        ensure_eq!(single, st.props, "{what}: properties");
        ensure_eq!(multi, st.multis, "{what}: repeated properties");
        for (k, p) in &st.props {
            ensure_eq!(c.property_value(k), Some(p.value.as_str()), "{what}: property_value({k})");
        }
    }
    let alarms: Vec<Option<i64>> = c
        .components()
        .iter()
        .map(|a| {
            let t = a.properties().get("TRIGGER").and_then(|p| Trigger::try_from(p).ok())?;
            t.as_duration().map(|d| d.num_seconds())
        })
        .collect();
    ensure_eq!(alarms, st.alarms.iter().map(|a| Some(*a)).collect::<Vec<_>>(), "{what}: alarms");
    Ok(())
}

fn run_session<C: Setters + Default>(s: &Session, from: impl Fn(&CalendarComponent) -> Option<C>) -> Verdict
where
    C: Into<CalendarComponent>,
{
    let mut c = C::default();
    let mut st = State::default();
    let mut set_before = 0;
    let mut done = 0;
    check_state(&c, &st, s.kind, false, "new")?;
    for (i, op) in s.ops.iter().enumerate() {
        let what = format!("after operation {i} ({op:?})");
        match op {
            Op::Set(name, v) => {
                if c.set(name, v) {
                    set_before += st.props.contains_key(name) as u32;
                    st.vals.insert(name.clone(), Some(reported(name, v, s.kind)));
                    st.props.insert(name.clone(), val_flat(name, v, s.kind));
                }
            }
            Op::Generic(name, v) => {
                let f = val_flat(name, v, s.kind);
                if f.params.is_empty() {
                    c.add_property(name.clone(), f.value.clone());
                } else {
                    let mut p = Property::new(name, &f.value);
                    for (k, v) in &f.params {
                        p.add_parameter(k, v);
                    }
                    c.append_property(p.done());
                }
                set_before += st.props.contains_key(name) as u32;
                st.vals.insert(name.clone(), Some(reported(name, v, s.kind)));
                st.props.insert(name.clone(), f);
            }
            Op::Junk(name) => {
                c.add_property(name.clone(), "no such value");
                st.vals.insert(name.clone(), None);
                st.props.insert(name.clone(), FlatProp { value: "no such value".into(), params: BTreeMap::new() });
            }
            Op::AllDay(d) => {
                if c.all_day_(date(*d)) {
                    for n in ["DTSTART", "DTEND"] {
                        set_before += st.props.contains_key(n) as u32;
                        st.vals.insert(n.into(), Some(Val::When(When::Date(*d))));
                        st.props.insert(n.into(), When::Date(*d).flat());
                    }
                }
            }
            Op::Venue(l, v) => {
                if c.venue_(l, v) {
                    set_before += st.props.contains_key("LOCATION") as u32;
                    st.vals.insert("LOCATION".into(), Some(Val::Text(l.clone())));
                    let params = BTreeMap::from([("VVENUE".to_string(), v.clone())]);
                    st.props.insert("LOCATION".into(), FlatProp { value: l.clone(), params });
                }
            }
            Op::Extra(p) => {
                c.append_property(p.build());
                set_before += st.props.contains_key(&p.name) as u32;
                st.props.insert(p.name.clone(), p.flat());
            }
            Op::Multi(p) => {
                c.append_multi_property(p.build());
                st.multis.entry(p.name.clone()).or_default().push(p.flat());
            }
            Op::MultiPlain(i, v) => {
                let n = &multi_names()[*i % multi_names().len()];
                let v = if rfc_type(n) == Some("TEXT") { v.clone() } else { v.replace(['\n', '\r'], " ") };
                c.add_multi_property(n, &v);
                st.multis.entry(n.clone()).or_default().push(FlatProp { value: v, params: BTreeMap::new() });
            }
            Op::Alarm(t) => {
                if c.alarm_(*t) {
                    st.alarms.push(*t);
                }
            }
            Op::Done => {
                let d = c.finish();
                done += 1;
                let empty = State::default();
                check_state(&c, &empty, s.kind, false, "what done() left behind")?;
                c = d;
            }
            Op::Clone => {
                let d = c.clone();
                // changes to the old one must not show in the new one
                c.summary("changed after cloning").add_multi_property("COMMENT", "changed");
                c = d;
            }
        }
        check_state(&c, &st, s.kind, false, &what)?;
    }
    // once more through the format
    let mut cal = Calendar::new();
    cal.push(c.clone());
    let out = cal.to_string();
    let back = read(&out)?;
    ensure_eq!(back.components.len(), 1, "components");
    let r = from(&back.components[0]).ok_or_else(|| format!("kind changed: {:?}", back.components[0]))?;
    check_state(&r, &st, s.kind, true, "written and read")?;
    // and on its own
    let own: CalendarComponent = c.try_into_string().map_err(|e| e.to_string())?.parse().map_err(|e: String| e)?;
    let r = from(&own).ok_or_else(|| format!("kind changed: {own:?}"))?;
    check_state(&r, &st, s.kind, true, "written and read on its own")?;
    Ok(Info::new(s.ops.len() >= 5 && set_before > 0)
        .class("event", s.kind == 0)
        .class("todo", s.kind == 1)
        .class("venue", s.kind == 2)
        .class("done", done > 0)
        .class("repeated property", !st.multis.is_empty())
        .class("alarm", !st.alarms.is_empty()))
}

fn c14_session(s: &Session) -> Verdict {
    match s.kind {
        0 => run_session::<Event>(s, |c| c.as_event().cloned()),
        1 => run_session::<Todo>(s, |c| c.as_todo().cloned()),
        _ => run_session::<Venue>(s, |c| if let CalendarComponent::Venue(v) = c { Some(v.clone()) } else { None }),
    }
}

/// Percentages beyond 100 are kept or limited to the documented range, never changed otherwise.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Percent {
    values: Vec<u8>,
    done: bool,
}

fn c14_percent(p: &Percent) -> Verdict {
    let mut t = Todo::new();
    for v in &p.values {
        t.percent_complete(*v);
        let ok = |got: Option<u8>| got == Some(*v) || got == Some((*v).min(100));
        let got = t.get_percent_complete();
        ensure!(ok(got), "percent_complete({v}) is reported as {got:?}");
        if p.done {
            t = t.done();
            ensure!(t.get_percent_complete() == got, "after done(): {:?}", t.get_percent_complete());
        }
        let parsed: CalendarComponent = t.try_into_string().map_err(|e| e.to_string())?.parse()?;
        let again = parsed.as_todo().ok_or("no todo")?.get_percent_complete();
        ensure!(again == got, "written and read: {again:?} instead of {got:?}");
    }
    Ok(Info::new(p.values.iter().any(|v| *v > 100)))
}

/// Numbers that arrive as text: exact within the documented range, never beyond it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Numbers {
    priority: u32,
    sequence: u32,
    percent: u32,
    todo: bool,
}

fn c14_numbers(n: &Numbers) -> Verdict {
    fn check<C: Component>(c: &C, n: &Numbers, what: &str) -> Result<(), String> {
        let p = c.get_priority();
        if n.priority <= 10 {
            ensure_eq!(p, Some(n.priority), "{what}: PRIORITY:{}", n.priority);
        } else {
            ensure!(p.map_or(true, |p| p <= 10), "{what}: PRIORITY:{} is reported as {p:?}", n.priority);
        }
        ensure_eq!(c.get_sequence(), Some(n.sequence), "{what}: SEQUENCE");
        Ok(())
    }
    fn percent(t: &Todo, n: &Numbers, what: &str) -> Result<(), String> {
        let p = t.get_percent_complete();
        match n.percent {
            0..=100 => ensure_eq!(p, Some(n.percent as u8), "{what}: PERCENT-COMPLETE:{}", n.percent),
            _ => ensure!(
                p.map_or(true, |p| p as u32 == n.percent || p == 100),
                "{what}: PERCENT-COMPLETE:{} is reported as {p:?}",
                n.percent
            ),
        }
        Ok(())
    }
    let kind = if n.todo { "VTODO" } else { "VEVENT" };
    let text = format!(
        "BEGIN:{kind}\r\nPRIORITY:{}\r\nSEQUENCE:{}\r\nPERCENT-COMPLETE:{}\r\nEND:{kind}\r\n",
        n.priority, n.sequence, n.percent
    );
    let c: CalendarComponent = text.parse()?;
    if n.todo {
        let t = c.as_todo().ok_or("no todo")?;
        check(t, n, "read")?;
        percent(t, n, "read")?;
        let mut t = Todo::new();
        t.add_property("PRIORITY", n.priority.to_string())
            .add_property("SEQUENCE", n.sequence.to_string())
            .add_property("PERCENT-COMPLETE", n.percent.to_string());
        check(&t, n, "set as property")?;
        percent(&t, n, "set as property")?;
    } else {
        check(c.as_event().ok_or("no event")?, n, "read")?;
        let mut t = Event::new();
        t.add_property("PRIORITY", n.priority.to_string()).add_property("SEQUENCE", n.sequence.to_string());
        check(&t, n, "set as property")?;
    }
    // through the setters
    let mut e = Event::new();
    e.priority(n.priority).sequence(n.sequence);
    ensure_eq!(e.get_priority(), Some(n.priority.min(10)), "priority({})", n.priority);
    ensure_eq!(e.get_sequence(), Some(n.sequence), "sequence({})", n.sequence);
    Ok(Info::new(n.priority > 9 || n.percent > 99 || n.sequence > 9)
        .class("priority beyond the range", n.priority > 10)
        .class("percentage beyond the range", n.percent > 100))
}

fn op(kind: u8) -> BoxedStrategy<Op> {
    let texts: Vec<String> = if kind == 2 {
        ["SUMMARY", "DESCRIPTION", "UID"].iter().chain(&ADDRESS).map(|s| s.to_string()).collect()
    } else {
        TEXTS.iter().filter(|n| **n != "URL").map(|s| s.to_string()).collect()
    };
    let stamps: Vec<String> = ["DTSTAMP", "CREATED", "LAST-MODIFIED"]
        .iter()
        .chain(if kind == 1 { &["COMPLETED"][..] } else { &[] })
        .map(|s| s.to_string())
        .collect();
    let whens: Vec<String> =
        ["DTSTART", "DTEND"].iter().chain(if kind == 1 { &["DUE"][..] } else { &[] }).map(|s| s.to_string()).collect();
    let nums: Vec<String> = ["PRIORITY", "SEQUENCE"]
        .iter()
        .chain(if kind == 1 { &["PERCENT-COMPLETE"][..] } else { &[] })
        .map(|s| s.to_string())
        .collect();
    let num = prop_oneof![4 => 0u32..13, 2 => 0u32..300, 1 => any::<u32>()];
    let pairs = {
        let mut v: Vec<BoxedStrategy<(String, Val)>> = vec![
            (select(texts.clone()), text()).prop_map(|(n, t)| (n, Val::Text(t))).boxed(),
            (select(texts), text()).prop_map(|(n, t)| (n, Val::Text(t))).boxed(),
            raw_value().prop_map(|t| ("URL".to_string(), Val::Text(t))).boxed(),
            (select(nums), num).prop_map(|(n, t)| (n, Val::Num(t))).boxed(),
            (select(whens.clone()), when()).prop_map(|(n, t)| (n, Val::When(t))).boxed(),
            (select(stamps), (ymd(), hms())).prop_map(|(n, t)| (n, Val::Stamp(t))).boxed(),
            (0u8..3).prop_map(|i| ("CLASS".to_string(), Val::Class(i))).boxed(),
        ];
        if kind < 2 {
            v.push((0u8..4).prop_map(|i| ("STATUS".to_string(), Val::Status(i))).boxed());
        }
        proptest::strategy::Union::new(v)
    };
    let junk: Vec<String> = getters(kind)
        .into_iter()
        .filter(|n| {
            matches!(*n, "PRIORITY" | "SEQUENCE" | "CLASS" | "CREATED" | "LAST-MODIFIED" | "DTSTART" | "DTEND" | "STATUS" | "DUE" | "COMPLETED" | "PERCENT-COMPLETE")
        })
        .map(String::from)
        .collect();
    let others: Vec<String> = ["COMMENT", "CONTACT", "CATEGORIES", "X-OTHER", "RRULE", "DURATION", "GEO", "TRANSP", "ORGANIZER", "SUMMARYX", "X-SUMMARY", "DTSTARTX", "RECURRENCE-ID", "PRIORITY-X"]
        .map(String::from)
        .to_vec();
    prop_oneof![
        10 => pairs.clone().prop_map(|(n, v)| Op::Set(n, v)),
        3 => pairs.prop_map(|(n, v)| Op::Generic(n, v)),
        1 => select(junk).prop_map(Op::Junk),
        1 => ymd().prop_map(Op::AllDay),
        1 => (text(), param_value()).prop_map(|(l, v)| Op::Venue(l, v)),
        2 => prop_m(select(others).boxed()).prop_map(Op::Extra),
        2 => prop_m(select(multi_names()).boxed()).prop_map(Op::Multi),
        1 => (any::<usize>(), text()).prop_map(|(i, t)| Op::MultiPlain(i, t)),
        1 => (-100_000i64..100_000).prop_map(Op::Alarm),
        1 => Just(Op::Done),
        1 => Just(Op::Clone),
    ]
    .boxed()
}

pub fn c14() -> Vec<Facet> {
    let session = || {
        prop_oneof![
            (Just(0u8), vec(op(0), 0..14)),
            (Just(1u8), vec(op(1), 0..14)),
            (Just(2u8), vec(op(2), 0..14)),
        ]
        .prop_map(|(kind, ops)| Session { kind, ops })
        .boxed()
    };
    let long = || {
        prop_oneof![
            (Just(0u8), magnitude(150).prop_flat_map(|n| vec(op(0), n..=n))),
            (Just(1u8), magnitude(150).prop_flat_map(|n| vec(op(1), n..=n))),
            (Just(2u8), magnitude(150).prop_flat_map(|n| vec(op(2), n..=n))),
        ]
        .prop_map(|(kind, ops)| Session { kind, ops })
        .boxed()
    };
    let number = || prop_oneof![4 => 0u32..13, 2 => 90u32..110, 2 => 0u32..300, 1 => any::<u32>()];
    let numbers = move || {
        (number(), number(), number(), any::<bool>())
            .prop_map(|(priority, sequence, percent, todo)| Numbers { priority, sequence, percent, todo })
            .boxed()
    };
    vec![
        facet("session", 30_000, 400_000, session, c14_session),
        facet("long session", 3_000, 40_000, long, c14_session),
        facet("numbers", 8_000, 80_000, numbers, c14_numbers),
        facet(
            "percent",
            1_000,
            10_000,
            || (vec(any::<u8>(), 1..6), any::<bool>()).prop_map(|(values, done)| Percent { values, done }).boxed(),
            c14_percent,
        ),
    ]
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    New,
    Default,
    Empty,
    One(CompM),
    Array(CompM, CompM),
    Collect(Vec<CompM>),
    CollectEvents(Vec<String>),
    Read(bool, Vec<CompM>),
    ParsedList(Vec<CompM>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Push(CompM),
    Add(CompM),
    Extend(Vec<CompM>),
    ExtendTodos(Vec<String>),
    /// a calendar of its own
    Append(Prog),
    /// twice the same calendar: the second time it is empty
    AppendTwice(Vec<CompM>),
    Prop(PropM),
    Name(String),
    Description(String),
    Timezone(String),
    Ttl(i64),
    Done,
    Reread,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prog {
    start: Start,
    ops: Vec<COp>,
}

struct CState {
    props: Vec<(String, FlatProp)>,
    comps: Vec<FlatComp>,
}

fn plain_flat(v: &str) -> FlatProp {
    FlatProp { value: v.into(), params: BTreeMap::new() }
}

fn event_with(s: &str) -> Event {
    let mut e = Event::new();
    e.uid(s).timestamp(utc(&((2001, 2, 3), (4, 5, 6)), 0));
    e.done()
}

fn todo_with(s: &str) -> Todo {
    let mut e = Todo::new();
    e.uid(s).timestamp(utc(&((2001, 2, 3), (4, 5, 6)), 0));
    e.done()
}

fn flat_with(kind: &str, uid: &str) -> FlatComp {
    FlatComp {
        kind: kind.into(),
        props: BTreeMap::from([
            ("UID".to_string(), vec![plain_flat(uid)]),
            ("DTSTAMP".to_string(), vec![plain_flat("20010203T040506Z")]),
        ]),
        children: vec![],
    }
}

fn check_calendar(cal: &Calendar, st: &CState, what: &str) -> Result<(), String> {
    let at = |m: String| format!("{what}: {m}");
    same_calendar(cal, &st.props, &st.comps).map_err(at)?;
    ensure_eq!(cal.len(), st.comps.len(), "{what}: len()");
    ensure_eq!(cal.is_empty(), st.comps.is_empty(), "{what}: is_empty()");
    ensure_eq!(cal.iter().count(), st.comps.len(), "{what}: iter()");
    let slice: &[CalendarComponent] = cal.as_ref();
    ensure!(slice == &cal.components[..], "{what}: as_ref()");
    ensure!(cal.iter().zip(&cal.components).all(|(a, b)| a == b), "{what}: iteration order");
    let first = |n: &str| st.props.iter().find(|(k, _)| k == n).map(|(_, p)| p.value.as_str());
    for (k, _) in &st.props {
        ensure_eq!(cal.property_value(k), first(k), "{what}: property_value({k})");
    }
    ensure_eq!(cal.property_value("X-NEVER-SET"), None, "{what}: unset property");
    ensure_eq!(cal.get_name(), first("NAME").or(first("X-WR-CALNAME")), "{what}: get_name");
    ensure_eq!(cal.get_description(), first("DESCRIPTION").or(first("X-WR-CALDESC")), "{what}: get_description");
    ensure_eq!(cal.get_timezone(), first("TIMEZONE-ID").or(first("X-WR-TIMEZONE")), "{what}: get_timezone");
    let ttl = first("REFRESH-INTERVAL").and_then(ref_duration).or(first("X-PUBLISHED-TTL").and_then(ref_duration));
    ensure_eq!(cal.get_ttl().map(|d| d.num_seconds()), ttl, "{what}: get_ttl");
    Ok(())
}

fn start(s: &Start) -> Result<(Calendar, CState), String> {
    let defaults = || CalM { defaults: true, props: vec![], comps: vec![] }.flat_props();
    let flats = |v: &[CompM]| v.iter().map(CompM::flat).collect::<Vec<_>>();
    let (cal, props, comps) = match s {
        Start::New => (Calendar::new(), defaults(), vec![]),
        Start::Default => (Calendar::default(), defaults(), vec![]),
        Start::Empty => (Calendar::empty(), vec![], vec![]),
        Start::One(c) => (Calendar::from(c.build()), defaults(), vec![c.flat()]),
        Start::Array(a, b) => (Calendar::from([a.build(), b.build()]), defaults(), vec![a.flat(), b.flat()]),
        Start::Collect(v) => {
            let built = v.iter().map(CompM::build);
            let cal = if v.len() % 2 == 0 { built.collect() } else { built.filter(|_| true).collect() };
            (cal, defaults(), flats(v))
        }
        Start::CollectEvents(v) => (
            v.iter().map(|s| event_with(s)).collect(),
            defaults(),
            v.iter().map(|s| flat_with("VEVENT", s)).collect(),
        ),
        Start::Read(d, v) => {
            let m = CalM { defaults: *d, props: vec![], comps: v.clone() };
            (read(&m.build().to_string())?, m.flat_props(), flats(v))
        }
        Start::ParsedList(v) => {
            let text: String = v.iter().map(|c| write_component(&c.build())).collect();
            let text = parser::unfold(&text);
            let list = parser::read_components(&text)?;
            // a lone calendar is that calendar, anything else is put into a new one
            (Calendar::from(list), defaults(), flats(v))
        }
    };
    Ok((cal, CState { props, comps }))
}

fn run_prog(p: &Prog, level: u32) -> Result<(Calendar, CState), String> {
    let (mut cal, mut st) = start(&p.start)?;
    check_calendar(&cal, &st, &format!("{:?}", p.start))?;
    if !matches!(p.start, Start::Empty | Start::Read(false, _)) {
        for n in ["VERSION", "PRODID", "CALSCALE"] {
            let k = cal.properties.iter().filter(|p| p.key() == n).count();
            ensure_eq!(k, 1, "{n} in {:?}", p.start);
        }
    }
    for (i, op) in p.ops.iter().enumerate() {
        let what = format!("level {level}, after operation {i} ({op:?})");
        match op {
            COp::Push(c) => {
                match c.build() {
                    CalendarComponent::Event(e) => cal.push(e),
                    CalendarComponent::Todo(e) => cal.push(e),
                    CalendarComponent::Venue(e) => cal.push(e),
                    o => cal.push(o),
                };
                st.comps.push(c.flat());
            }
            #[allow(deprecated)]
            COp::Add(c) => {
                cal.add(c.build());
                st.comps.push(c.flat());
            }
            COp::Extend(v) => {
                match st.comps.len() % 4 {
                    // iterators that know their length, or a limit of it, or nothing
                    0 => cal.extend(v.iter().map(CompM::build)),
                    1 => cal.extend(v.iter().map(CompM::build).filter(|_| true)),
                    2 => {
                        let mut rest = v.iter();
                        cal.extend(std::iter::from_fn(|| rest.next().map(CompM::build)))
                    }
                    _ => cal.extend(v.iter().map(CompM::build).collect::<std::collections::VecDeque<_>>()),
                }
                st.comps.extend(v.iter().map(CompM::flat));
            }
            COp::ExtendTodos(v) => {
                cal.extend(v.iter().map(|s| todo_with(s)).collect::<Vec<_>>());
                st.comps.extend(v.iter().map(|s| flat_with("VTODO", s)));
            }
            COp::Append(q) => {
                let (mut other, o) = run_prog(q, level + 1)?;
                cal.append(&mut other);
                st.comps.extend(o.comps);
                check_calendar(&other, &CState { props: o.props, comps: vec![] }, "the calendar that was appended")?;
            }
            COp::AppendTwice(v) => {
                let mut other: Calendar = v.iter().map(CompM::build).collect();
                cal.append(&mut other);
                cal.append(&mut other);
                st.comps.extend(v.iter().map(CompM::flat));
                ensure!(other.is_empty(), "appended calendar is not empty");
            }
            COp::Prop(p) => {
                cal.append_property(p.build());
                st.props.push((p.name.clone(), p.flat()));
            }
            COp::Name(s) => {
                cal.name(s);
                st.props.push(("NAME".into(), plain_flat(s)));
                st.props.push(("X-WR-CALNAME".into(), plain_flat(s)));
            }
            COp::Description(s) => {
                cal.description(s);
                st.props.push(("DESCRIPTION".into(), plain_flat(s)));
                st.props.push(("X-WR-CALDESC".into(), plain_flat(s)));
            }
            COp::Timezone(s) => {
                cal.timezone(s);
                st.props.push(("TIMEZONE-ID".into(), plain_flat(s)));
                st.props.push(("X-WR-TIMEZONE".into(), plain_flat(s)));
            }
            COp::Ttl(n) => {
                cal.ttl(&Duration::seconds(*n));
                // how the amount is written is C13's business
                let k = cal.properties.len();
                ensure!(k >= 2, "no properties after ttl()");
                for (i, name) in [(k - 2, "REFRESH-INTERVAL"), (k - 1, "X-PUBLISHED-TTL")] {
                    let p = &cal.properties[i];
                    ensure_eq!(p.key(), name, "{what}");
                    ensure_eq!(ref_duration(p.value()), Some(*n), "{what}: {name}");
                    st.props.push((name.into(), flat_prop(p)));
                }
            }
            COp::Done => {
                let d = cal.done();
                check_calendar(&cal, &CState { props: vec![], comps: vec![] }, "what done() left behind")?;
                cal = d;
            }
            COp::Reread => {
                cal = read(&cal.to_string())?;
            }
        }
        check_calendar(&cal, &st, &what)?;
    }
    Ok((cal, st))
}

fn c15_prog(p: &Prog) -> Verdict {
    let (cal, st) = run_prog(p, 0)?;
    let back = read(&cal.to_string())?;
    check_calendar(&back, &st, "written and read")?;
    Ok(Info::new(p.ops.len() >= 4 && st.comps.len() >= 2)
        .class("appended calendar", p.ops.iter().any(|o| matches!(o, COp::Append(_))))
        .class("read in between", p.ops.iter().any(|o| matches!(o, COp::Reread)))
        .class("done", p.ops.iter().any(|o| matches!(o, COp::Done)))
        .class("name set twice", p.ops.iter().filter(|o| matches!(o, COp::Name(_))).count() > 1))
}

fn small_comp() -> BoxedStrategy<CompM> {
    let ids = || (text().prop_map(|s| without_controls(&s)), any::<bool>());
    (kind(), ids(), vec(prop_m(select(vec!["SUMMARY", "LOCATION", "X-A", "DTSTART"]).prop_map(String::from).boxed()), 0..2), vec(prop_m(Just("COMMENT".to_string()).boxed()), 0..2), any::<bool>())
        .prop_map(|(kind, (uid, child), props, multis, _)| {
            let id = |s: &str| PropM { name: "UID".into(), value: s.into(), params: vec![] };
            let stamp = PropM { name: "DTSTAMP".into(), value: "20010203T040506Z".into(), params: vec![] };
            let mut p = unique(props, |p| p.name.clone());
            p.push(id(&uid));
            p.push(stamp.clone());
            // VCALENDAR as a component would be a calendar when read
            let kind = match kind {
                Kind::Other(n) if n == "VCALENDAR" => Kind::Other("VJOURNAL".into()),
                k => k,
            };
            let children = if child {
                vec![CompM { kind: Kind::Alarm, props: vec![id("alarm"), stamp], multis: vec![], children: vec![] }]
            } else {
                vec![]
            };
            CompM { kind, props: p, multis, children }
        })
        .boxed()
}

fn prog(level: u32) -> BoxedStrategy<Prog> {
    let comps = || vec(small_comp(), 0..4);
    let uids = || vec(select(vec!["a", "b", "c,d", "e\\n"]).prop_map(String::from), 0..3);
    let start = prop_oneof![
        2 => Just(Start::New),
        1 => Just(Start::Default),
        2 => Just(Start::Empty),
        1 => small_comp().prop_map(Start::One),
        1 => (small_comp(), small_comp()).prop_map(|(a, b)| Start::Array(a, b)),
        2 => comps().prop_map(Start::Collect),
        1 => uids().prop_map(Start::CollectEvents),
        1 => (any::<bool>(), comps()).prop_map(|(d, c)| Start::Read(d, c)),
        1 => vec(small_comp(), 1..4).prop_map(Start::ParsedList),
    ];
    let name = prop_oneof![
        4 => select(["NAME", "X-WR-CALNAME", "DESCRIPTION", "X-WR-CALDESC", "TIMEZONE-ID", "X-WR-TIMEZONE", "X-A", "METHOD", "VERSION"].map(String::from).to_vec()),
        1 => x_name(),
    ]
    .prop_map(|n| if matches!(n.as_str(), "REFRESH-INTERVAL" | "X-PUBLISHED-TTL" | "X-NEVER-SET") { "X-B".into() } else { n });
    let mut ops: Vec<(u32, BoxedStrategy<COp>)> = vec![
        (4, small_comp().prop_map(COp::Push).boxed()),
        (1, small_comp().prop_map(COp::Add).boxed()),
        (2, comps().prop_map(COp::Extend).boxed()),
        (1, uids().prop_map(COp::ExtendTodos).boxed()),
        (1, comps().prop_map(COp::AppendTwice).boxed()),
        (2, prop_m(name.boxed()).prop_map(COp::Prop).boxed()),
        (1, text().prop_map(COp::Name).boxed()),
        (1, text().prop_map(COp::Description).boxed()),
        (1, text().prop_map(COp::Timezone).boxed()),
        (1, seconds().prop_map(COp::Ttl).boxed()),
        (1, Just(COp::Done).boxed()),
        (1, Just(COp::Reread).boxed()),
    ];
    if level < 2 {
        ops.push((2, prog(level + 1).prop_map(COp::Append).boxed()));
    }
    let n = if level == 0 { 10 } else { 4 };
    (start, vec(proptest::strategy::Union::new_weighted(ops), 0..n)).prop_map(|(start, ops)| Prog { start, ops }).boxed()
}

pub fn c15() -> Vec<Facet> {
    let many = || {
        (prog(0), magnitude(5_000), magnitude(5_000), kind(), any::<crate::gen::Index>(), vec(any::<bool>(), 4))
            .prop_map(|(mut p, n, k, kind, at, yes)| {
                let kind = match kind {
                    Kind::Other(n) if n == "VCALENDAR" => Kind::Event,
                    k => k,
                };
                let comps = |n: usize| {
                    (0..n)
                        .map(|i| CompM {
                            kind: kind.clone(),
                            props: vec![
                                PropM { name: "UID".into(), value: format!("uid-{i}"), params: vec![] },
                                PropM { name: "DTSTAMP".into(), value: "20010203T040506Z".into(), params: vec![] },
                            ],
                            multis: vec![],
                            children: vec![],
                        })
                        .collect::<Vec<_>>()
                };
                let mut more = vec![];
                if yes[0] {
                    more.push(COp::Extend(comps(n)));
                }
                if yes[1] {
                    more.push(COp::AppendTwice(comps(k)));
                }
                if yes[2] {
                    more.push(COp::Append(Prog { start: Start::Collect(comps(n)), ops: vec![COp::Extend(comps(k))] }));
                }
                if yes[3] {
                    more.push(COp::ExtendTodos((0..k).map(|i| format!("todo-{i}")).collect()));
                }
                for op in more {
                    let i = at.index(p.ops.len() + 1);
                    p.ops.insert(i, op);
                }
                p
            })
            .boxed()
    };
    vec![facet("container", 15_000, 200_000, || prog(0), c15_prog), facet("many components", 700, 10_000, many, c15_prog)]
}

// ------------------------------------------------------------------ C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Local {
    tz: String,
    /// seconds since 1970 of the local time, as if it were UTC
    local: i64,
    nanos: u32,
}

fn tz(name: &str) -> Tz {
    *TZ_VARIANTS.iter().find(|t| t.name() == name).expect("zone")
}

fn at(secs: i64, nanos: u32) -> NaiveDateTime {
    DateTime::from_timestamp(secs, nanos).expect("timestamp").naive_utc()
}

fn offset(tz: Tz, utc: i64) -> i64 {
    tz.offset_from_utc_datetime(&at(utc, 0)).fix().local_minus_utc() as i64
}

/// The instants whose local time is `local`, found by trying all offsets in use around it.
fn instants(tz: Tz, local: i64) -> Vec<i64> {
    let mut offsets = std::collections::BTreeSet::new();
    let mut u = local - 27 * 3600;
    while u <= local + 27 * 3600 {
        offsets.insert(offset(tz, u));
        u += 1800;
    }
    offsets.into_iter().map(|o| local - o).filter(|u| offset(tz, *u) == local - *u).collect()
}

/// changes of the offset in a year
fn changes(tz: Tz, year: i32) -> Vec<i64> {
    let start = date((year, 1, 1)).and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp();
    let step = 6 * 3600;
    let mut out = vec![];
    let mut u = start;
    while u < start + 366 * 86_400 {
        if offset(tz, u) != offset(tz, u + step) {
            let (mut a, mut b) = (u, u + step);
            while b - a > 1 {
                let m = (a + b) / 2;
                if offset(tz, m) == offset(tz, a) {
                    a = m;
                } else {
                    b = m;
                }
            }
            out.push(b);
        }
        u += step;
    }
    out
}

fn near_change() -> BoxedStrategy<(String, i64, bool)> {
    let years = prop_oneof![3 => 1970i32..2038, 1 => 1880i32..1970, 1 => 2038i32..2300];
    let deltas = prop_oneof![
        3 => -10_000i64..10_000,
        2 => select(vec![-1i64, 0, 1, 3599, 3600, 3601, -3600, -3599, -3601, 1800, -1800, 7200, -7200, 5400]),
        1 => -100_000i64..100_000,
    ];
    (0usize..TZ_VARIANTS.len(), years, any::<crate::gen::Index>(), deltas, any::<bool>(), any::<u32>())
        .prop_map(|(z, y, which, d, before, r)| {
            let tz = TZ_VARIANTS[z];
            let ch = changes(tz, y);
            if ch.is_empty() {
                let start = date((y, 1, 1)).and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp();
                return (tz.name().to_string(), start + (r % 31_000_000) as i64, false);
            }
            let t = *which.get(&ch);
            let o = offset(tz, if before { t - 1 } else { t });
            (tz.name().to_string(), t + o + d, true)
        })
        .boxed()
}

fn c19_local(c: &Local) -> Verdict {
    let zone = tz(&c.tz);
    let found = instants(zone, c.local);
    let local = at(c.local, c.nanos);
    let want = match found[..] {
        [u] => Some(at(u, c.nanos).and_utc()),
        _ => None,
    };
    let what = format!("{local} {} (instants {found:?})", c.tz);
    let v = CalendarDateTime::WithTimezone { date_time: local, tzid: c.tz.clone() };
    ensure_eq!(v.try_into_utc(), want, "{what}");
    ensure_eq!(CalendarDateTime::from((local, zone)).try_into_utc(), want, "{what}, from a pair");
    ensure_eq!(CalendarDateTime::try_from((local, c.tz.as_str())).map(|c| c.try_into_utc()), Ok(want), "{what}, by name");
    ensure_eq!(CalendarDateTime::Floating(local).try_into_utc(), None, "{what}, floating");
    ensure_eq!(CalendarDateTime::Utc(local.and_utc()).try_into_utc(), Some(local.and_utc()), "{what}, UTC");
    // through a component, to the second
    if c.nanos == 0 {
        let mut e = Event::new();
        e.starts(v.clone());
        let mut cal = Calendar::new();
        cal.push(e.done());
        let back = read(&cal.to_string())?;
        match back.components[0].as_event().and_then(|e| e.get_start()) {
            Some(DatePerhapsTime::DateTime(d)) => ensure_eq!(d.try_into_utc(), want, "{what}, written and read"),
            o => return Err(format!("{what}: start is {o:?}")),
        }
        if local.second() == 0 {
            use chrono::Datelike;
            let y = ymd_hm_tzid(local.year(), local.month(), local.day(), local.hour(), local.minute(), zone);
            ensure_eq!(y.and_then(|d| d.try_into_utc()), want, "{what}, ymd_hm_tzid");
        }
    }
    let span = instants(zone, c.local - 86_400) != instants(zone, c.local).iter().map(|u| u - 86_400).collect::<Vec<_>>()
        || instants(zone, c.local + 86_400) != instants(zone, c.local).iter().map(|u| u + 86_400).collect::<Vec<_>>();
    Ok(Info::new(span)
        .class("does not exist", found.is_empty())
        .class("ambiguous", found.len() > 1)
        .class("exists once", found.len() == 1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Instant {
    tz: String,
    utc: i64,
    nanos: u32,
}

fn c19_instant(c: &Instant) -> Verdict {
    let zone = tz(&c.tz);
    let dt = at(c.utc, c.nanos).and_utc().with_timezone(&zone);
    let v = CalendarDateTime::from_date_time(dt);
    let local = c.utc + offset(zone, c.utc);
    let want = CalendarDateTime::WithTimezone { date_time: at(local, c.nanos), tzid: c.tz.clone() };
    ensure_eq!(v, want, "instant {} in {}", c.utc, c.tz);
    let n = instants(zone, local).len();
    ensure!(n > 0, "harness: no instant for {local} in {}", c.tz);
    let back = if n == 1 { Some(at(c.utc, c.nanos).and_utc()) } else { None };
    ensure_eq!(v.try_into_utc(), back, "instant {} in {} and back", c.utc, c.tz);
    Ok(Info::new(n > 1 || offset(zone, c.utc - 86_400) != offset(zone, c.utc + 86_400)).class("ambiguous", n > 1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unknown {
    name: String,
    local: i64,
}

fn c19_unknown(c: &Unknown) -> Verdict {
    let known = TZ_VARIANTS.iter().any(|t| t.name() == c.name);
    let v = CalendarDateTime::WithTimezone { date_time: at(c.local, 0), tzid: c.name.clone() };
    if known {
        return c19_local(&Local { tz: c.name.clone(), local: c.local, nanos: 0 });
    }
    ensure_eq!(v.try_into_utc(), None, "unknown zone {:?}", c.name);
    ensure!(CalendarDateTime::try_from((at(c.local, 0), c.name.as_str())).is_err(), "unknown zone {:?}", c.name);
    Ok(Info::new(true))
}

pub fn c19() -> Vec<Facet> {
    let nanos = || prop_oneof![3 => Just(0u32), 1 => 0u32..1_000_000_000];
    let unknown_name = || {
        let variants: Vec<String> = TZ_VARIANTS.iter().map(|t| t.name().to_string()).collect();
        prop_oneof![
            2 => tzid(),
            2 => select(variants.clone()).prop_map(|s| s.to_lowercase()),
            1 => select(variants.clone()).prop_map(|s| format!("{s} ")),
            1 => select(variants.clone()).prop_map(|s| format!("/{s}")),
            1 => select(variants.clone()).prop_map(|s| s[..s.len() - 1].to_string()),
            1 => select(variants).prop_map(|s| format!("{s}/X")),
            1 => text(),
        ]
    };
    vec![
        facet(
            "local time",
            20_000,
            300_000,
            move || (near_change(), nanos()).prop_map(|((tz, local, _), nanos)| Local { tz, local, nanos }).boxed(),
            c19_local,
        ),
        facet(
            "instant",
            20_000,
            300_000,
            move || {
                (near_change(), nanos())
                    .prop_map(|((name, local, _), nanos)| Instant { utc: local - offset(tz(&name), local), tz: name, nanos })
                    .boxed()
            },
            c19_instant,
        ),
        facet(
            "unknown zone",
            8_000,
            60_000,
            move || (unknown_name(), -3_000_000_000i64..9_000_000_000).prop_map(|(name, local)| Unknown { name, local }).boxed(),
            c19_unknown,
        ),
    ]
}
