//! C05: nothing that is read makes the library panic, overflow the stack or abort.
use crate::doc::*;
use crate::gen::*;
use crate::runner::{facet, Facet, Info, Verdict};
use icalendar::{
    parser, Calendar, CalendarComponent, CalendarDateTime, Component, DatePerhapsTime, EventLike, Parameter, Property,
    Todo, Trigger, ValueType,
};
use proptest::collection::vec;
use proptest::prelude::*;
use crate::gen::Index;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::hint::black_box as use_;
use std::str::FromStr;

#[derive(Default)]
pub struct Seen {
    read: usize,
    components: usize,
    properties: usize,
}

fn property(p: &Property, seen: &mut Seen) {
    seen.properties += 1;
    use_(p.value_type());
    use_(DatePerhapsTime::from_property(p).map(|d| {
        use_(d.date_naive());
        use_(d.to_property("DTSTART"));
        if let DatePerhapsTime::DateTime(dt) = &d {
            use_(dt.try_into_utc());
        }
        chrono::NaiveDate::from(d)
    }));
    let t = Trigger::try_from(p).ok();
    if let Some(t) = t {
        use_((t.as_duration().copied(), t.as_date_time().cloned(), t.related()));
        use_(Property::from(t));
    }
    use_(CalendarDateTime::from_str(p.value()).ok().and_then(|d| d.try_into_utc()));
    use_(p.get_value_as(|s| s.parse::<u32>().ok()));
    for k in p.params().keys() {
        use_(p.get_param_as(k, |s| Some(s.len())));
    }
    for q in p.params().values() {
        use_(ValueType::try_from(q.clone()).ok());
    }
    let s: Result<String, _> = p.clone().try_into();
    use_(s.unwrap());
    use_(format!("{p:?}"));
}

fn component<C: Component>(c: &C, seen: &mut Seen) {
    seen.components += 1;
    use_((c.component_kind(), c.get_timestamp(), c.get_start(), c.get_end(), c.get_priority(), c.get_summary()));
    use_((c.get_description(), c.get_uid(), c.get_sequence(), c.get_class(), c.get_url(), c.get_last_modified(), c.get_created()));
    for p in c.properties().values() {
        property(p, seen);
    }
    for p in c.multi_properties().values().flatten() {
        property(p, seen);
    }
    for o in c.components() {
        component(o, seen);
    }
    use_(c.try_into_string().unwrap());
}

fn typed(c: &CalendarComponent, seen: &mut Seen) {
    use_((c.as_event().is_some(), c.as_todo().is_some()));
    match c {
        CalendarComponent::Event(e) => {
            use_((e.get_status(), e.get_location()));
            component(e, seen)
        }
        CalendarComponent::Todo(t) => {
            use_((t.get_status(), t.get_percent_complete(), t.get_due(), t.get_completed()));
            component(t, seen)
        }
        CalendarComponent::Venue(v) => {
            use_((v.get_street_address(), v.get_extended_address(), v.get_locality(), v.get_region()));
            use_((v.get_country(), v.get_postal_code()));
            component(v, seen)
        }
        CalendarComponent::Other(o) => component(o, seen),
        _ => {}
    }
}

fn calendar(cal: &Calendar, seen: &mut Seen) {
    seen.read += 1;
    use_((cal.get_name(), cal.get_description(), cal.get_timezone(), cal.get_ttl()));
    cal.properties.iter().for_each(|p| property(p, seen));
    cal.iter().for_each(|c| typed(c, seen));
    use_(format!("{cal:?}"));
    let out = cal.to_string();
    use_(Calendar::from_str(&out).is_ok());
}

fn parsed_component(c: &parser::Component, seen: &mut Seen) {
    seen.components += 1;
    for p in &c.properties {
        use_(c.find_prop(p.name.as_str()));
        use_(DatePerhapsTime::try_from(p).ok());
        use_(p.to_string());
        use_(p.val.clone().unescape_text().into_owned());
        for t in [ValueType::Text, ValueType::Uri] {
            use_(p.val.clone().unescape_by_value_type(t));
        }
        for q in &p.params {
            use_(Parameter::from(q.clone()));
        }
        property(&Property::from(p.clone()), seen);
    }
    c.components.iter().for_each(|c| parsed_component(c, seen));
}

/// Everything that can be done with a text.
pub fn exercise(s: &str, seen: &mut Seen) {
    let u = parser::unfold(s);
    for text in [s, u.as_str()] {
        if let Ok(list) = parser::read_components(text) {
            seen.read += 1;
            list.iter().for_each(|c| parsed_component(c, seen));
            for c in &list {
                typed(&CalendarComponent::from(c.clone()), seen);
            }
            if let Ok(j) = serde_json::to_string(&list) {
                use_(serde_json::from_str::<Vec<parser::Component>>(&j).is_ok());
            }
            calendar(&Calendar::from(list), seen);
        }
        match parser::read_calendar(text) {
            Ok(cal) => {
                seen.read += 1;
                let out = cal.to_string();
                let again = parser::unfold(&out);
                use_(parser::read_calendar(&again).is_ok());
                use_(format!("{cal:?}"));
                calendar(&Calendar::from(cal), seen);
            }
            Err(e) => {
                use_(e.len());
            }
        }
        if let Err(e) = parser::read_calendar_simple(text) {
            use_(format!("{e} {e:?}"));
        }
        if let Ok(c) = parser::Component::try_from(text) {
            parsed_component(&c, seen);
            typed(&CalendarComponent::from(c), seen);
        }
        if let Ok(p) = parser::Property::try_from(text) {
            use_(p.to_string());
            use_(DatePerhapsTime::try_from(&p).ok());
            property(&Property::from(p), seen);
        }
        if let Ok(p) = parser::Parameter::try_from(text) {
            use_(Parameter::from(p));
        }
        let ps = parser::ParseString::from(text);
        use_((ps.to_owned(), ps.clone().into_owned(), ps.clone().unescape_text(), ps.as_str().len(), ps.to_string()));
    }
    if let Ok(cal) = Calendar::from_str(s) {
        calendar(&cal, seen);
    }
    if let Ok(c) = CalendarComponent::from_str(s) {
        typed(&c, seen);
    }
    if let Ok(p) = Property::from_str(s) {
        property(&p, seen);
    }
    use_(ValueType::from_str(s).is_ok());
    use_(CalendarDateTime::from_str(s).is_ok());
}

fn ex(s: &str) -> Seen {
    let mut seen = Seen::default();
    exercise(s, &mut seen);
    seen
}

// ------------------------------------------------------------------ generators

fn token() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec![
            "BEGIN:", "END:", "BEGIN:VCALENDAR", "END:VCALENDAR", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:VTODO", "END:VTODO",
            "BEGIN:VALARM", "END:VALARM", "begin:x", "end:x", "Begin:", "VEVENT", "X", "End", "END", "begin",
        ]).prop_map(String::from),
        8 => select(vec!["\r\n", "\n", "\r", "\r\n ", "\n ", "\n\t", "\r\n\r\n", "\n\n", " ", "\t"]).prop_map(String::from),
        6 => select(vec![":", ";", "=", ",", "\"", "\\", "\\n", "\\\\", "\\,", "'", "@", "/", ".", "-", "_"]).prop_map(String::from),
        4 => select(vec!["SUMMARY", "DESCRIPTION:", "DTSTART", "TRIGGER", ";VALUE=", ";value=", ";Value=TEXT:", "TEXT", "DATE", "DATE-TIME", "DURATION", ";TZID=",
            "Europe/Berlin", "20240229", "T120000", "Z", "-PT", "P1D", "99999999999", "UID:", "ATTENDEE", "RRULE:FREQ=DAILY"]).prop_map(String::from),
        1 => any_name(),
        1 => select(UNICODE.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        1 => any::<char>().prop_map(String::from),
        1 => any::<String>(),
    ]
    .boxed()
}

pub(super) fn soup() -> BoxedStrategy<String> {
    vec(token(), 0..30).prop_map(|v| v.concat()).boxed()
}

pub(super) fn c05_string(s: &String) -> Verdict {
    let seen = ex(s);
    Ok(Info::new(seen.read > 0)
        .class("read", seen.read > 0)
        .class("has components", seen.components > 0)
        .class("has properties", seen.properties > 0)
        .class("rejected", seen.read == 0))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edited {
    roots: Vec<DComp>,
    layout: Layout,
    edits: Vec<(Index, u8, String)>,
}

fn edited() -> BoxedStrategy<Edited> {
    (d_document(DocOpts { lenient: true, repeat: true }), layout(), vec((any::<Index>(), any::<u8>(), token()), 0..5))
        .prop_map(|(roots, layout, edits)| Edited { roots, layout, edits })
        .boxed()
}

fn c05_edited(m: &Edited) -> Verdict {
    let mut c: Vec<char> = render(&lines(&m.roots), &m.layout).chars().collect();
    for (at, how, bit) in &m.edits {
        let i = at.index(c.len() + 1);
        let e = (i + (*how as usize / 6)).min(c.len());
        match how % 6 {
            0 => c.truncate(i),
            1 => {
                c.drain(i..e);
            }
            2 => {
                let part: Vec<char> = c[i..e].to_vec();
                c.splice(i..i, part);
            }
            3 => {
                let part: Vec<char> = c.drain(i..e).collect();
                let j = i / 2;
                c.splice(j..j, part);
            }
            _ => {
                c.splice(i..i, bit.chars());
            }
        }
    }
    c05_string(&c.into_iter().collect())
}

/// Properties the accessors interpret, with values they do not expect.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Values {
    kind: String,
    lines: Vec<(String, String, String)>,
    calendar: Vec<(String, String)>,
}

pub fn odd_value() -> BoxedStrategy<String> {
    let digits = vec(select("0123456789".chars().collect::<Vec<_>>()), 0..14).prop_map(|v| v.into_iter().collect::<String>());
    let date = vec(select("0123456789TZ-+:. ".chars().collect::<Vec<_>>()), 0..20).prop_map(|v| v.into_iter().collect::<String>());
    let dur = vec(
        prop_oneof![
            select(vec!["P", "T", "W", "D", "H", "M", "S", "Y", "-", "+", ".", ",", "0", "1", "PT", "é"]).prop_map(String::from),
            any::<u64>().prop_map(|n| (n >> (n % 64)).to_string()),
            select(vec!["4294967295", "4294967296", "18446744073709551615", "9223372036854775807", "999999999999999999999"]).prop_map(String::from),
        ],
        0..9,
    )
    .prop_map(|v| v.concat());
    prop_oneof![
        2 => digits,
        3 => date,
        4 => dur.clone(),
        2 => dur.prop_map(|s| format!("P{s}")),
        2 => select(vec![
            "00000000", "99999999", "00000000T000000", "99991231T235959Z", "00010101", "20240230", "20230229T000000", "20241231T235960Z",
            "20240101T246060", "-0010101T000000Z", "+10000101T000000Z", "20240331T023000", "2024010１", "P1Y", "PT0.5S", "P", "PT", "-P", "--P1D",
            "PT1H1W", "11", "4294967296", "-1", "0x10", "1e3", " 5", "5 ", "NaN", "TRUE", "PUBLIC", "COMPLETED", "-PT9223372036854775807S",
            "P4294967295Y", "P4294967295W", "P4294967295DT4294967295H4294967295M4294967295S", "P4294967295Y4294967295M4294967295D", "PT4294967295.999999999S",
        ]).prop_map(String::from),
        1 => raw_value(),
        1 => text().prop_map(|s| s.replace(['\r', '\n'], "")),
    ]
    .boxed()
}

fn values() -> BoxedStrategy<Values> {
    let name = select(vec![
        "DTSTART", "DTEND", "DUE", "COMPLETED", "CREATED", "LAST-MODIFIED", "LAST_MODIFIED", "DTSTAMP", "TRIGGER", "DURATION", "REPEAT", "PRIORITY", "SEQUENCE",
        "PERCENT-COMPLETE", "CLASS", "STATUS", "UID", "URL", "SUMMARY", "DESCRIPTION", "LOCATION", "ACTION",
        "RECURRENCE-ID", "EXDATE", "RDATE", "ATTENDEE",
    ])
    .prop_map(String::from);
    let params = prop_oneof![
        3 => Just(String::new()),
        4 => select(vec![
            ";VALUE=DATE", ";VALUE=DATE-TIME", ";VALUE=DURATION", ";VALUE=TEXT", ";VALUE=PERIOD", ";VALUE=", ";VALUE", ";TZID=Europe/Berlin",
            ";TZID=", ";TZID", ";TZID=\"\"", ";TZID=Nowhere", ";RELATED=START", ";RELATED=END", ";RELATED=", ";VALUE=DATE;TZID=Europe/Berlin",
            ";TZID=America/New_York;VALUE=DATE-TIME", ";VALUE=\"DATE\"", ";VALUE=DATE;VALUE=TEXT", ";TZID=UTC", ";TZID=é",
        ]).prop_map(String::from),
    ];
    let cal = select(vec!["REFRESH-INTERVAL;VALUE=DURATION", "X-PUBLISHED-TTL", "REFRESH-INTERVAL", "NAME", "X-WR-CALNAME", "DESCRIPTION", "X-WR-TIMEZONE", "TIMEZONE-ID"]).prop_map(String::from);
    (
        select(vec!["VEVENT", "VTODO", "VVENUE", "VALARM", "VJOURNAL"]).prop_map(String::from),
        vec((name, params, odd_value()), 1..6),
        vec((cal, odd_value()), 0..3),
    )
        .prop_map(|(kind, lines, calendar)| Values { kind, lines, calendar })
        .boxed()
}

fn c05_values(v: &Values) -> Verdict {
    let mut s = String::from("BEGIN:VCALENDAR\r\n");
    for (n, x) in &v.calendar {
        s.push_str(&format!("{n}:{x}\r\n"));
    }
    s.push_str(&format!("BEGIN:{}\r\n", v.kind));
    for (n, p, x) in &v.lines {
        s.push_str(&format!("{n}{p}:{x}\r\n"));
    }
    s.push_str(&format!("END:{}\r\nEND:VCALENDAR\r\n", v.kind));
    let seen = ex(&s);
    // the same through the builder: values and parameters are any strings there
    let mut t = Todo::new();
    for (n, p, x) in &v.lines {
        let mut prop = Property::new(n, x);
        if let Some((k, v)) = p.trim_start_matches(';').split_once('=') {
            prop.add_parameter(k, v);
        }
        t.append_property(prop.done());
    }
    use_(t.get_location());
    let mut seen2 = Seen::default();
    typed(&t.done().into(), &mut seen2);
    let mut cal = Calendar::new();
    for (n, x) in &v.calendar {
        cal.append_property(Property::new(n.split(';').next().unwrap(), x));
    }
    calendar(&cal, &mut seen2);
    for (_, p, x) in &v.lines {
        use_(CalendarDateTime::from_str(x).ok());
        let q = format!("TRIGGER{p}:{x}");
        if let Ok(q) = parser::Property::try_from(q.as_str()) {
            use_(DatePerhapsTime::try_from(&q).ok());
        }
    }
    Ok(Info::new(seen.properties > 0))
}

/// The same piece over and over: depth and length.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Repeated {
    head: String,
    piece: String,
    n: u32,
    tail: String,
    m: u32,
}

fn repeated() -> BoxedStrategy<Repeated> {
    let piece = || {
        prop_oneof![
            6 => select(vec![
                "BEGIN:A\n", "BEGIN:A\r\nX:1\r\n", "BEGIN:VEVENT\r\n", "END:A\n", "BEGIN:", "BEGIN:A\nEND:A\n", "\n", "\r\n", "\r\n ", " ", "\"",
                ";A=b", ";A=\"b\"", "A:b\n", "A\n", ":", "\\", "\\\\", "\\n", ",", "a", "老", ";", "=", "\r", "END:", "SUMMARY:\\n\r\n", ";A", "\t",
                "BEGIN:A\nB:c\nEND:A\n", "X-LONG;P=\"q:r\":v\r\n w\r\n",
            ]).prop_map(String::from),
            1 => token(),
        ]
    };
    let n = prop_oneof![4 => 0u32..70, 3 => 60u32..300, 2 => 300u32..4000, 1 => 4000u32..12000];
    (
        prop_oneof![2 => Just(String::new()), 2 => Just("BEGIN:VCALENDAR\r\n".to_string()), 1 => Just("BEGIN:VCALENDAR\r\nSUMMARY:".to_string()), 1 => Just("BEGIN:A\nX;Y=".to_string())],
        piece(),
        n.clone(),
        piece(),
        n,
    )
        .prop_map(|(head, piece, n, tail, m)| Repeated { head, piece, n, tail, m })
        .boxed()
}

fn c05_repeated(r: &Repeated) -> Verdict {
    let s = format!("{}{}{}", r.head, r.piece.repeat(r.n as usize), r.tail.repeat(r.m as usize));
    let s: String = if s.len() > 200_000 { s.chars().take(60_000).collect() } else { s };
    let seen = ex(&s);
    Ok(Info::new(r.n > 100).class("read", seen.read > 0).class("longer than 10000", s.len() > 10_000))
}

/// deep nesting: must be read or rejected, not overflow the stack
fn c05_deep(c: &(u32, bool, String, bool)) -> Verdict {
    let (n, closed, name, crlf) = c;
    let eol = if *crlf { "\r\n" } else { "\n" };
    let mut s = String::new();
    for _ in 0..*n {
        s.push_str(&format!("BEGIN:{name}{eol}"));
    }
    if *closed {
        for _ in 0..*n {
            s.push_str(&format!("END:{name}{eol}"));
        }
    }
    let mut seen = Seen::default();
    exercise(&s, &mut seen);
    Ok(Info::new(*n > 20).class("read", seen.read > 0).class("deeper than 1000", *n > 1000))
}

pub fn c05() -> Vec<Facet> {
    vec![
        facet("token soup", 60_000, 900_000, soup, c05_string),
        facet("edited document", 16_000, 250_000, edited, c05_edited),
        facet("odd values", 30_000, 400_000, values, c05_values),
        facet("repetition", 1_500, 15_000, repeated, c05_repeated),
        facet(
            "nesting",
            600,
            6_000,
            || {
                (
                    prop_oneof![3 => 0u32..130, 1 => 100u32..3000, 1 => 3000u32..40000],
                    any::<bool>(),
                    select(vec!["A", "VEVENT", "VCALENDAR", "VTODO", "X-A"]).prop_map(String::from),
                    any::<bool>(),
                )
                    .boxed()
            },
            c05_deep,
        ),
        facet("any string", 20_000, 200_000, || any::<String>().boxed(), c05_string),
        facet("real document", 5_000, 100_000, super::real::real_text, c05_string),
    ]
}
