//! C26: the effort is in proportion to the size of the input.
use super::docs::garbage_line;
use crate::doc::*;
use crate::gen::*;
use crate::runner::{facet, Facet, Info, Verdict};
use crate::{ensure, sys};
use icalendar::{parser, Calendar, CalendarComponent, Component, Event, EventLike, Property, Todo};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::hint::black_box as use_;
use std::str::FromStr;

const SMALL: usize = 8_000;
/// How much larger the larger ones are, and how many times more than in proportion they may take.
const STAGES: [(usize, u64); 2] = [(8, 5), (32, 8)];

/// What an operation costs.
#[derive(Clone, Copy, Debug)]
struct Cost {
    bytes: u64,
    nanos: u64,
}

fn cost(f: &mut dyn FnMut()) -> Cost {
    // the budget is meant for every one of the operations
    sys::forget_allocated();
    let (b, t) = (sys::allocated(), sys::thread_time());
    f();
    Cost { nanos: sys::thread_time() - t, bytes: sys::allocated() - b }
}

/// If the effort were to grow with the square, the larger input would cost 8 and 32 times more than in proportion.
const BYTES_FACTOR: u64 = 4;
const BYTES_MORE: u64 = 1 << 20;
const TIME_MORE: u64 = 20_000_000;

/// `op` on the small one (0), and on the larger ones
fn compare(what: &str, op: &dyn Fn(usize), sizes: &[usize], about: &str) -> Result<(), String> {
    let mut a = cost(&mut || op(0));
    for (i, (ratio, slack)) in STAGES.into_iter().enumerate() {
        let ratio = ratio as u64;
        let mut b = cost(&mut || op(i + 1));
        ensure!(
            b.bytes <= a.bytes * ratio * BYTES_FACTOR + BYTES_MORE,
            "{what}: {} bytes of memory for an input of {} bytes, but {} for one of {} bytes: {about}",
            a.bytes, sizes[0], b.bytes, sizes[i + 1]
        );
        // other things may have held it up
        let mut again = 0;
        while b.nanos > a.nanos * ratio * slack + TIME_MORE {
            ensure!(
                again < if b.nanos < 300_000_000 { 8 } else { 2 },
                "{what}: {} ms for an input of {} bytes, but {} ms for one of {} bytes: {about}",
                a.nanos / 1_000_000, sizes[0], b.nanos / 1_000_000, sizes[i + 1]
            );
            again += 1;
            a.nanos = a.nanos.max(cost(&mut || op(0)).nanos);
            b.nanos = b.nanos.min(cost(&mut || op(i + 1)).nanos);
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    head: String,
    piece: String,
    tail: String,
}

impl Shape {
    fn text(&self, size: usize) -> String {
        format!("{}{}{}", self.head, self.piece.repeat(size / self.piece.len().max(1)), self.tail)
    }
}

fn reading(s: &Shape) -> Verdict {
    let texts: Vec<String> = [1].into_iter().chain(STAGES.map(|s| s.0)).map(|n| s.text(SMALL * n)).collect();
    let sizes: Vec<usize> = texts.iter().map(String::len).collect();
    let about = format!("{:?}, {:?} over and over, {:?}", s.head, s.piece, s.tail);
    macro_rules! each {
        ($what:expr, $all:ident, |$t:ident| $e:expr) => {
            compare($what, &|i| { let $t = &$all[i]; use_($e); }, &sizes, &about)?
        };
    }
    each!("unfold", texts, |t| parser::unfold(t));
    let unfolded: Vec<String> = texts.iter().map(|t| parser::unfold(t)).collect();
    each!("read_components", unfolded, |t| parser::read_components(t).is_ok());
    each!("read_calendar_simple", unfolded, |t| parser::read_calendar_simple(t).is_ok());
    each!("Component::try_from", unfolded, |t| parser::Component::try_from(t.as_str()).is_ok());
    each!("Property::try_from", unfolded, |t| parser::Property::try_from(t.as_str()).is_ok());
    each!("Calendar::from_str", texts, |t| Calendar::from_str(t).is_ok());
    let mut read = false;
    if let Ok(parsed) = unfolded.iter().map(|t| parser::read_calendar(t)).collect::<Result<Vec<_>, _>>() {
        read = true;
        each!("writing the parsed calendar", parsed, |c| c.to_string());
        each!("conversion", parsed, |c| Calendar::from(c.clone()));
        let calendars: Vec<Calendar> = parsed.into_iter().map(Calendar::from).collect();
        each!("writing the calendar", calendars, |c| c.to_string());
        each!("looking at the calendar", calendars, |c| (
            c.get_name().map(str::len),
            c.get_description().map(str::len),
            c.get_timezone().map(str::len),
            c.get_ttl(),
            c.iter().map(|c| match c {
                CalendarComponent::Event(e) => look(e),
                CalendarComponent::Todo(e) => look(e),
                CalendarComponent::Venue(e) => look(e),
                CalendarComponent::Other(e) => look(e),
                _ => 0,
            }).sum::<usize>(),
        ));
    } else if let Ok(p) = unfolded.iter().map(|t| parser::Property::try_from(t.as_str())).collect::<Result<Vec<_>, _>>() {
        read = true;
        each!("writing the property", p, |p| p.to_string());
    }
    let folded = unfolded[1].len() < texts[1].len();
    Ok(Info::new(s.piece.len() < SMALL).class("read", read).class("rejected", !read).class("folded", folded))
}

fn look<C: Component>(c: &C) -> usize {
    usize::from(c.get_start().is_some())
        + usize::from(c.get_end().is_some())
        + c.get_summary().map_or(0, str::len)
        + c.get_description().map_or(0, str::len)
        + usize::from(c.get_priority().is_some())
        + c.properties().values().filter(|p| p.value_type().is_some()).count()
        + c.components().iter().map(look).sum::<usize>()
}

fn piece() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec![
            "BEGIN:A\n", "BEGIN:A\r\nX:1\r\n", "BEGIN:VEVENT\r\n", "END:A\n", "BEGIN:A\nEND:A\n", "\n", "\r\n", "\r\n ", "\n\t", " ", "\"", "=\"",
            ";A=b", ";A=\"b\"", ";A=\"b:c;d\"", "A:b\n", "A\n", ":", "\\", "\\\\", "\\n", "\\,", ",", "a", "老", "é", "🎉", ";", "=", "\r", "SUMMARY:\\n\r\n", ";A",
            "\t", "BEGIN:A\nB:c\nEND:A\n", "X-LONG;P=\"q:r\":v\r\n w\r\n", "BEGIN:VEVENT\r\nSUMMARY:a\\, b\r\nBEGIN:VALARM\r\nEND:VALARM\r\nEND:VEVENT\r\n",
            "a b ", "  a", "a\r\n b", "\u{3000}", "ATTENDEE;CN=\"x\":mailto:a@b\r\n", "BEGIN:X\n\nEND:X\n\n", "a\r\n \r\n ", "A;B=c\r\n", "BEGIN:X\nA;B:c\n",
        ]).prop_map(String::from),
        2 => (any_d_prop(DocOpts { lenient: true, repeat: true }), any::<bool>()).prop_map(|(p, crlf)| format!("{}{}", p.line(), if crlf { "\r\n" } else { "\n" })),
        2 => select(super::real::LINES).prop_map(|l| format!("{l}\r\n")),
        1 => garbage_line().prop_map(|g| g + "\r\n"),
        1 => raw_value().prop_map(|v| if v.is_empty() { "v".into() } else { v }),
        1 => d_comp(comp_name(), DocOpts { lenient: true, repeat: true }, 1).prop_map(|c| c.lines().join("\r\n") + "\r\n"),
    ]
    .boxed()
}

fn shape() -> BoxedStrategy<Shape> {
    let frame = select(vec![
        ("", ""),
        ("BEGIN:VCALENDAR\r\n", "END:VCALENDAR\r\n"),
        ("BEGIN:VCALENDAR\r\n", "\r\nEND:VCALENDAR\r\n"),
        ("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\n", "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"),
        ("BEGIN:VCALENDAR\r\n", ""),
        ("BEGIN:VCALENDAR\r\nSUMMARY:", "\r\nEND:VCALENDAR\r\n"),
        ("BEGIN:VCALENDAR\r\nX-A:", "\r\nEND:VCALENDAR\r\n"),
        ("BEGIN:VCALENDAR\nBEGIN:VTODO\nDESCRIPTION:", "\nEND:VTODO\nEND:VCALENDAR"),
        ("BEGIN:VCALENDAR\r\nX-A;B=", ":\r\nEND:VCALENDAR\r\n"),
        ("BEGIN:VCALENDAR\r\nX-A;B=\"", "\":\r\nEND:VCALENDAR\r\n"),
        ("BEGIN:VCALENDAR\r\nX-A", ":b\r\nEND:VCALENDAR\r\n"),
        ("BEGIN:VCALENDAR\r\nX-A;", "=c:b\r\nEND:VCALENDAR\r\n"),
        ("SUMMARY:", ""),
        ("X-A;B=", ""),
        ("BEGIN:VEVENT\r\n", "END:VTODO\r\n"),
        ("BEGIN:VEVENT\r\n", "@\r\nEND:VEVENT\r\n"),
        ("BEGIN:", "\r\nEND:X"),
    ]);
    (frame, piece())
        .prop_map(|((h, t), piece)| Shape { head: h.into(), piece, tail: t.into() })
        .boxed()
}

/// Calls of the builder, as many as one likes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    how: u8,
    name: String,
    value: String,
}

fn building(b: &Built) -> Verdict {
    let size = b.value.len() + b.name.len() + 10;
    let count = |n: usize| (n / size).max(1);
    let long = |n: usize| b.value.repeat(count(n).max(2));
    let about = format!("{:?} {:?}", b.name, b.value);
    let event = || {
        let mut e = Event::new();
        e.uid("1").add_property(b.name.as_str(), b.value.as_str());
        e.done()
    };
    let (what, op): (&str, Box<dyn Fn(usize) + '_>) = match b.how % 9 {
        0 => ("a long value", Box::new(|n| {
            let s: String = Property::new(b.name.as_str(), long(n)).try_into().unwrap();
            use_(s);
        })),
        1 => ("a long parameter value", Box::new(|n| {
            let s: String = Property::new(b.name.as_str(), "v").add_parameter("X-P", &long(n).replace(['"', '\n', '\r'], "x")).done().try_into().unwrap();
            use_(s);
        })),
        2 => ("many parameters", Box::new(|n| {
            let mut p = Property::new(b.name.as_str(), "v");
            for i in 0..count(n) {
                p.add_parameter(&format!("X-{i}"), &b.value);
            }
            let s: String = p.done().try_into().unwrap();
            use_(s);
        })),
        3 => ("many properties", Box::new(|n| {
            let mut e = Todo::new();
            for i in 0..count(n) {
                e.add_property(format!("{}-{i}", b.name), b.value.as_str());
            }
            use_(Component::to_string(&e.done()));
        })),
        4 => ("a property many times", Box::new(|n| {
            let mut e = Event::new();
            for _ in 0..count(n) {
                e.add_multi_property(&b.name, &b.value);
            }
            use_(Component::to_string(&e.done()));
        })),
        5 => ("many components", Box::new(|n| {
            let mut c = Calendar::new();
            for _ in 0..count(n) {
                c.push(event());
            }
            use_(c.done().to_string());
        })),
        6 => ("many components at once", Box::new(|n| {
            let mut c = Calendar::new();
            c.extend((0..count(n)).map(|_| event()));
            let mut d: Calendar = (0..count(n)).map(|_| event()).collect();
            c.append(&mut d);
            use_(c.done().to_string());
        })),
        7 => ("many calendar properties", Box::new(|n| {
            let mut c = Calendar::new();
            for _ in 0..count(n) {
                c.append_property(Property::new(b.name.as_str(), b.value.as_str()));
            }
            c.name("n").description("d");
            use_((c.get_name().map(str::len), c.get_description().map(str::len)));
            use_(c.done().to_string());
        })),
        _ => ("many alarms", Box::new(|n| {
            let mut e = Event::new();
            for _ in 0..count(n) {
                e.alarm(icalendar::Alarm::display(&b.value, icalendar::Trigger::before_start(chrono::Duration::minutes(1))));
            }
            use_(Component::to_string(&e.done()));
        })),
    };
    let sizes: Vec<usize> = [1].into_iter().chain(STAGES.map(|s| s.0)).map(|n| SMALL * n).collect();
    compare(what, &|i| op(sizes[i]), &sizes, &about)?;
    Ok(Info::new(true))
}

pub fn c26_facets() -> Vec<Facet> {
    vec![
        facet("reading", 600, 8_000, shape, reading),
        facet(
            "building",
            1_000,
            10_000,
            || {
                (any::<u8>(), any_name(), prop_oneof![2 => text(), 1 => raw_value()])
                    .prop_map(|(how, name, value)| Built { how, name, value: value.chars().take(200).collect() })
                    .boxed()
            },
            building,
        ),
    ]
}
