//! C25: what the errors say about where the mistake is.
use super::docs::{garbage_line, STRICT};
use crate::doc::*;
use crate::gen::*;
use crate::runner::{facet, Facet, Info, Verdict};
use crate::{ensure, ensure_eq};
use icalendar::{parser, Calendar, CalendarComponent};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

/// A content line, as far as the structure of a document goes.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Line {
    Begin(String),
    End(String),
    Prop(DProp),
    /// no content line at all
    Garbage(String),
}

impl Line {
    fn text(&self) -> String {
        match self {
            Line::Begin(n) => format!("BEGIN:{n}"),
            Line::End(n) => format!("END:{n}"),
            Line::Prop(p) => p.line(),
            Line::Garbage(g) => g.clone(),
        }
    }
}

fn of_comp(c: &DComp, out: &mut Vec<Line>) {
    out.push(Line::Begin(c.name.clone()));
    for i in &c.items {
        match i {
            DItem::P(p) => out.push(Line::Prop(p.clone())),
            DItem::C(c) => of_comp(c, out),
        }
    }
    out.push(Line::End(c.name.clone()));
}

const MAX_DEPTH: usize = 64;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mistake {
    /// at this line
    At(usize),
    /// something is not closed
    Unfinished,
}

/// What the lines are read as.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum As {
    Components,
    /// nothing may follow a calendar
    Calendar,
    Single,
}

/// Reads the lines from the front; the first one that cannot be there is the mistake.
fn first_mistake(lines: &[Line], what: As) -> Option<Mistake> {
    let mut open: Vec<&str> = vec![];
    let mut second = None;
    for (i, l) in lines.iter().enumerate() {
        if open.is_empty() && i > 0 {
            if what == As::Single {
                return Some(Mistake::At(i));
            }
            second = second.or(Some(i));
        }
        let ok = match l {
            Line::Begin(n) => {
                open.push(n);
                open.len() <= MAX_DEPTH
            }
            Line::End(n) => open.pop() == Some(n),
            Line::Prop(_) => !open.is_empty(),
            Line::Garbage(_) => false,
        };
        if !ok {
            return Some(Mistake::At(i));
        }
    }
    if !open.is_empty() || (what == As::Single && lines.is_empty()) {
        return Some(Mistake::Unfinished);
    }
    // only noticed when everything else is in order
    match (&lines.first(), second) {
        (Some(Line::Begin(n)), Some(i)) if what == As::Calendar && n == "VCALENDAR" => Some(Mistake::At(i)),
        _ => None,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Remove,
    Twice,
    Garbage(String),
    Rename(String),
    /// BEGIN and END exchanged
    Turn,
    SwapWithNext,
    MoveTo(Index),
    Cut,
    RepeatAll,
    Insert(Line),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    roots: Vec<DComp>,
    edits: Vec<(Index, Edit)>,
    layout: Layout,
}

impl Damaged {
    fn lines(&self) -> Vec<Line> {
        let mut l = vec![];
        self.roots.iter().for_each(|r| of_comp(r, &mut l));
        for (at, e) in &self.edits {
            if l.is_empty() {
                break;
            }
            let at = at.index(l.len());
            match e {
                Edit::Remove => drop(l.remove(at)),
                Edit::Twice => l.insert(at, l[at].clone()),
                Edit::Garbage(g) => l.insert(at, Line::Garbage(g.clone())),
                Edit::Rename(n) => match &mut l[at] {
                    Line::Begin(x) | Line::End(x) => x.clone_from(n),
                    _ => {}
                },
                Edit::Turn => match l[at].clone() {
                    Line::Begin(n) => l[at] = Line::End(n),
                    Line::End(n) => l[at] = Line::Begin(n),
                    _ => {}
                },
                Edit::SwapWithNext => {
                    let n = (at + 1) % l.len();
                    l.swap(at, n)
                }
                Edit::MoveTo(to) => {
                    let x = l.remove(at);
                    l.insert(to.index(l.len() + 1), x);
                }
                Edit::RepeatAll => l.extend(l.clone()),
                Edit::Cut => l.truncate(at + 1),
                Edit::Insert(x) => l.insert(at, x.clone()),
            }
        }
        l
    }
}

/// longer lines are not quoted in errors, the place is given in bytes
const MAX_QUOTED: usize = 60_000;

fn check(what: &str, error: &str, u: &str, spans: &[(usize, &str)], m: Mistake) -> Result<(), String> {
    let short: String = error.chars().take(600).collect();
    let long = u.lines().any(|l| l.len() > MAX_QUOTED);
    let number = |word: &str| -> Option<usize> {
        let (_, rest) = error.split_once(word)?;
        let digits: String = rest.chars().take_while(char::is_ascii_digit).collect();
        digits.parse().ok()
    };
    if u.is_empty() {
        return Ok(());
    }
    if long {
        let Some(byte) = number(" at byte ") else {
            return Err(format!("{what}: no position in the error {short:?}"));
        };
        return position(what, byte, u, spans, m);
    }
    let Some(got) = number(" at line ") else {
        return Err(format!("{what}: no line number in the error {short:?}"));
    };
    match m {
        Mistake::At(i) => {
            let (start, text) = spans[i];
            let want = 1 + u[..start].matches('\n').count();
            ensure_eq!(got, want, "{what}: the line in the error {short:?}; the mistake is in {text:?} in {u:?}");
            ensure!(
                error.contains(text.trim_end()),
                "{what}: the error {short:?} does not quote the line {text:?} of {u:?}"
            );
        }
        Mistake::Unfinished => {
            let want = spans.last().map_or(1, |(start, _)| 1 + u[..*start].matches('\n').count());
            let last = 1 + u.matches('\n').count();
            ensure!(
                (want..=last).contains(&got),
                "{what}: the line in the error {short:?} is not at the end (lines {want} to {last}) of {u:?}"
            );
        }
    }
    Ok(())
}

fn position(what: &str, byte: usize, u: &str, spans: &[(usize, &str)], m: Mistake) -> Result<(), String> {
    let place: String = u.get(..byte).unwrap_or(u).chars().rev().take(80).collect::<Vec<_>>().into_iter().rev().collect();
    match m {
        Mistake::At(i) => {
            let (start, text) = spans[i];
            let head: String = text.chars().take(300).collect();
            ensure!(
                (start..=start + text.len()).contains(&byte),
                "{what}: the error is at byte {byte}, behind {place:?}; the mistake is in the line {head:?} at {start}"
            );
        }
        Mistake::Unfinished => {
            let end = spans.last().map_or(0, |(start, text)| start + text.len());
            ensure!(byte >= end, "{what}: the error is at byte {byte}, behind {place:?}, not at the end ({end})");
        }
    }
    Ok(())
}

fn c25(d: &Damaged) -> Verdict {
    let lines = d.lines();
    let texts: Vec<String> = lines.iter().map(Line::text).collect();
    let text = render(&texts, &d.layout);
    let u = parser::unfold(&text);
    // where every content line is
    let mut spans = vec![];
    let mut at = 0;
    for l in u.split('\n') {
        let t = l.strip_suffix('\r').unwrap_or(l);
        if !t.is_empty() {
            spans.push((at, t));
        }
        at += l.len() + 1;
    }
    ensure!(
        spans.len() == texts.len() && spans.iter().zip(&texts).all(|(s, t)| s.1.eq_ignore_ascii_case(t)),
        "unfolding gives other lines: {text:?} -> {u:?}"
    );
    let m = first_mistake(&lines, As::Components);
    if let Some(m) = m {
        match parser::read_components(&u) {
            Ok(_) => return Err(format!("read_components accepts {u:?}")),
            Err(e) => check("read_components", &e, &u, &spans, m)?,
        }
        match parser::read_calendar_simple(&u) {
            Ok(_) => return Err(format!("read_calendar_simple accepts {u:?}")),
            Err(e) => {
                ensure!(u.ends_with(e.input), "read_calendar_simple: the error is not about {u:?}: {:?}", e.input);
                position("read_calendar_simple", u.len() - e.input.len(), &u, &spans, m)?;
            }
        }
    }
    let calendar = first_mistake(&lines, As::Calendar);
    if let Some(m) = calendar {
        match parser::read_calendar(&u) {
            Ok(_) => return Err(format!("read_calendar accepts {u:?}")),
            Err(e) => check("read_calendar", &e, &u, &spans, m)?,
        }
        match Calendar::from_str(&text) {
            Ok(_) => return Err(format!("Calendar::from_str accepts {text:?}")),
            Err(e) => check("Calendar::from_str", &e, &u, &spans, m)?,
        }
    }
    let single = first_mistake(&lines, As::Single);
    if let Some(m) = single {
        match parser::Component::try_from(u.as_str()) {
            Ok(_) => return Err(format!("Component::try_from accepts {u:?}")),
            Err(e) => check("Component::try_from", &e, &u, &spans, m)?,
        }
        match CalendarComponent::from_str(&text) {
            Ok(_) => return Err(format!("CalendarComponent::from_str accepts {text:?}")),
            Err(e) => check("CalendarComponent::from_str", &e, &u, &spans, m)?,
        }
    }
    Ok(Info::new(m.is_some() && lines.len() > 4)
        .class("a second calendar", m != calendar)
        .class("not finished", m == Some(Mistake::Unfinished))
        .class("in the first line", m == Some(Mistake::At(0)))
        .class("in the last line", m == Some(Mistake::At(lines.len().wrapping_sub(1))))
        .class("a line that is no content line", matches!(m, Some(Mistake::At(i)) if matches!(lines[i], Line::Garbage(_))))
        .class("a wrong end", matches!(m, Some(Mistake::At(i)) if matches!(lines[i], Line::End(_))))
        .class("too deep", matches!(m, Some(Mistake::At(i)) if matches!(lines[i], Line::Begin(_))))
        .class("blank lines", text.contains("\n\n") || text.contains("\n\r\n"))
        .class("several mistakes", d.edits.len() > 1)
        .class("long lines", u.lines().any(|l| l.len() > MAX_QUOTED)))
}

fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        2 => Just(Edit::Remove),
        1 => Just(Edit::Twice),
        4 => garbage_line().prop_map(Edit::Garbage),
        2 => comp_name().prop_map(Edit::Rename),
        2 => Just(Edit::Turn),
        1 => Just(Edit::SwapWithNext),
        1 => any::<Index>().prop_map(Edit::MoveTo),
        1 => Just(Edit::Cut),
        1 => Just(Edit::RepeatAll),
        1 => comp_name().prop_map(|n| Edit::Insert(Line::Begin(n))),
        1 => comp_name().prop_map(|n| Edit::Insert(Line::End(n))),
        1 => any_d_prop(STRICT).prop_map(|p| Edit::Insert(Line::Prop(p))),
    ]
    .boxed()
}

fn edits() -> BoxedStrategy<Vec<(Index, Edit)>> {
    prop_oneof![
        3 => vec((any::<Index>(), edit()), 1),
        2 => vec((any::<Index>(), edit()), 2..5),
    ]
    .boxed()
}

/// nesting around the greatest depth that is read
fn deep() -> BoxedStrategy<Vec<DComp>> {
    (60usize..70, comp_name(), any_d_prop(STRICT), any::<bool>())
        .prop_map(|(n, name, p, behind)| {
            let mut c = DComp { name: name.clone(), items: vec![DItem::P(p.clone())] };
            for _ in 1..n {
                let mut items = vec![DItem::C(c)];
                items.insert(usize::from(behind), DItem::P(p.clone()));
                c = DComp { name: name.clone(), items };
            }
            vec![c]
        })
        .boxed()
}

pub fn c25_facets() -> Vec<Facet> {
    let damaged = |(roots, edits, layout)| Damaged { roots, edits, layout };
    vec![
        facet("damaged", 20_000, 200_000, move || (d_document(STRICT), edits(), any_layout()).prop_map(damaged).boxed(), c25),
        facet("damaged, large", 3_000, 40_000, move || (d_large(STRICT), edits(), large_layout()).prop_map(damaged).boxed(), c25),
        facet(
            "too deep",
            1_000,
            10_000,
            move || {
                (deep(), prop_oneof![3 => Just(vec![]), 1 => edits()], any_layout()).prop_map(damaged).boxed()
            },
            c25,
        ),
    ]
}
