//! Generators shared by the properties: texts, names, parameters.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::{BoxedStrategy, Just, Strategy};

/// Independent copy of the value types of RFC 5545 3.7/3.8 (the default of each property),
/// plus calendar names and venue addresses, which only have a textual form.
pub const RFC_TYPES: &[(&str, &str)] = &[
    ("CALSCALE", "TEXT"),
    ("METHOD", "TEXT"),
    ("PRODID", "TEXT"),
    ("VERSION", "TEXT"),
    ("ATTACH", "URI"),
    ("CATEGORIES", "TEXT"),
    ("CLASS", "TEXT"),
    ("COMMENT", "TEXT"),
    ("DESCRIPTION", "TEXT"),
    ("GEO", "FLOAT"),
    ("LOCATION", "TEXT"),
    ("PERCENT-COMPLETE", "INTEGER"),
    ("PRIORITY", "INTEGER"),
    ("RESOURCES", "TEXT"),
    ("STATUS", "TEXT"),
    ("SUMMARY", "TEXT"),
    ("COMPLETED", "DATE-TIME"),
    ("DTEND", "DATE-TIME"),
    ("DUE", "DATE-TIME"),
    ("DTSTART", "DATE-TIME"),
    ("DURATION", "DURATION"),
    ("FREEBUSY", "PERIOD"),
    ("TRANSP", "TEXT"),
    ("TZID", "TEXT"),
    ("TZNAME", "TEXT"),
    ("TZOFFSETFROM", "UTC-OFFSET"),
    ("TZOFFSETTO", "UTC-OFFSET"),
    ("TZURL", "URI"),
    ("ATTENDEE", "CAL-ADDRESS"),
    ("CONTACT", "TEXT"),
    ("ORGANIZER", "CAL-ADDRESS"),
    ("RECURRENCE-ID", "DATE-TIME"),
    ("RELATED-TO", "TEXT"),
    ("URL", "URI"),
    ("UID", "TEXT"),
    ("EXDATE", "DATE-TIME"),
    ("RDATE", "DATE-TIME"),
    ("RRULE", "RECUR"),
    ("ACTION", "TEXT"),
    ("REPEAT", "INTEGER"),
    ("TRIGGER", "DURATION"),
    ("CREATED", "DATE-TIME"),
    ("DTSTAMP", "DATE-TIME"),
    ("LAST-MODIFIED", "DATE-TIME"),
    ("SEQUENCE", "INTEGER"),
    ("REQUEST-STATUS", "TEXT"),
    ("NAME", "TEXT"),
    ("X-WR-CALNAME", "TEXT"),
    ("X-WR-CALDESC", "TEXT"),
    ("TIMEZONE-ID", "TEXT"),
    ("X-WR-TIMEZONE", "TEXT"),
    ("STREET-ADDRESS", "TEXT"),
    ("EXTENDED-ADDRESS", "TEXT"),
    ("LOCALITY", "TEXT"),
    ("REGION", "TEXT"),
    ("COUNTRY", "TEXT"),
    ("POSTAL-CODE", "TEXT"),
];

pub const VALUE_TYPES: &[&str] = &[
    "BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER",
    "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET",
];

pub fn rfc_type(name: &str) -> Option<&'static str> {
    RFC_TYPES.iter().find(|(n, _)| *n == name).map(|(_, t)| *t)
}

/// The type a property has given its name and (perhaps) a VALUE parameter.
pub fn effective_type(name: &str, value_param: Option<&str>) -> Option<&'static str> {
    value_param
        .and_then(|v| VALUE_TYPES.iter().find(|t| **t == v).copied())
        .or_else(|| rfc_type(name))
}

pub fn text_names() -> Vec<String> {
    RFC_TYPES.iter().filter(|(_, t)| *t == "TEXT").map(|(n, _)| n.to_string()).collect()
}

pub fn other_names() -> Vec<String> {
    RFC_TYPES.iter().filter(|(_, t)| *t != "TEXT").map(|(n, _)| n.to_string()).collect()
}

fn strings(l: &[&str]) -> BoxedStrategy<String> {
    select(l.iter().map(|s| s.to_string()).collect::<Vec<_>>()).boxed()
}

fn word_chars() -> BoxedStrategy<char> {
    select("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 nN".chars().collect::<Vec<_>>())
        .boxed()
}

pub const UNICODE: &[&str] = &[
    "ä", "ß", "é", "€", "老", "老虎", "🎉", "👩\u{200d}👧", "e\u{301}", "\u{3000}", "\u{2028}",
    "\u{2029}", "\u{a0}", "\u{feff}", "\u{200b}", "İ", "ı", "ſ", "\u{10ffff}", "\u{fffd}", "ﬀ",
    "\u{2003}", "\u{1680}", "\u{202e}", "：", "；", "，", "＼", "＂",
];

fn run(chars: &'static [char]) -> BoxedStrategy<String> {
    (
        select(chars.to_vec()),
        prop_oneof![56usize..82, 130usize..166, 205usize..230, 2usize..56],
    )
        .prop_map(|(c, n)| {
            // n counts octets, so that runs end near the limits of lines
            std::iter::repeat(c).take((n / c.len_utf8()).max(1)).collect()
        })
        .boxed()
}

fn is_plain(c: &char) -> bool {
    !c.is_control()
}

pub fn any_plain_char() -> BoxedStrategy<char> {
    any::<char>().prop_map(|c| if is_plain(&c) { c } else { 'x' }).boxed()
}

/// Texts as users write them and worse: any Unicode character, line breaks, everything
/// that looks like syntax, lengths around the limits of lines.
pub fn text() -> BoxedStrategy<String> {
    let fragment = prop_oneof![
        6 => vec(word_chars(), 0..9).prop_map(|v| v.into_iter().collect::<String>()),
        7 => strings(&[
            "\\", ",", ";", ":", "\"", "\n", "\\n", "\\N", "\\\\", "\\,", "\\;", "\\:", "\\\"",
            "\\\\n", "\\\\\\n", "\\\n", "=", " ", "  ", "\t", "\n ", "\n\t", "\n\n", "^n", "^^", "^'",
            "'", "{}", "%s", "\\x", "\\u0041", "n", "N", "-", "/", "<b>&amp;",
        ]),
        2 => strings(&[
            "BEGIN:VEVENT", "\nEND:VEVENT\n", "\nEND:VCALENDAR\n", "\nBEGIN:VALARM\n", "END:VCALENDAR",
            "SUMMARY:x", "\nSUMMARY:x", "\n\nX-A;B=\"c\":d\n", "mailto:a@example.com",
            "https://example.com/?a=1;b=2,3#x",
        ]),
        4 => strings(UNICODE),
        2 => run(&['a', ' ', 'é', '老', '🎉', ',', '\\', ';', '\n', '\u{3000}', '"']),
        1 => vec(any::<char>(), 1..4).prop_map(|v| v.into_iter().collect::<String>()),
        1 => strings(&["\r", "\r\n", "\u{0}", "\u{7f}", "\u{1b}", "\u{85}", "\u{b}", "\u{c}"]),
    ];
    prop_oneof![
        1 => Just(String::new()),
        30 => vec(fragment, 1..9).prop_map(|v| v.concat()),
    ]
    .boxed()
}

/// Replaces characters that RFC 5545 forbids in texts.
pub fn without_controls(s: &str) -> String {
    s.chars().map(|c| if c.is_control() && c != '\n' && c != '\t' { '?' } else { c }).collect()
}

/// A value of a type other than TEXT: any single line.
pub fn raw_value() -> BoxedStrategy<String> {
    let fragment = prop_oneof![
        4 => strings(&[
            "20240229", "20240229T235960Z", "19970714T133000", "-PT15M", "P1W", "TRUE", "0.5;-17", "7",
            "FREQ=WEEKLY;BYDAY=MO,TU;COUNT=10", "mailto:jane@example.com", "https://a.example/?b=c&d=e,f;g",
            "+0200", "-0930", "19970101T180000Z/PT5H30M", "VGhlIHF1aWNr+/==", "urn:uuid:1-2-3", "00:00",
        ]),
        3 => vec(word_chars(), 0..9).prop_map(|v| v.into_iter().collect::<String>()),
        4 => strings(&[
            "\\", ",", ";", ":", "\"", "\\n", "\\N", "\\\\", "\\,", "\\;", "=", " ", "\t", "BEGIN:VEVENT",
            "END:VEVENT", "\\:",
        ]),
        2 => strings(UNICODE),
        1 => run(&['a', ' ', 'é', '老', '🎉', ',', '\\', ';', '\u{3000}', '"']),
        1 => vec(any_plain_char(), 1..4).prop_map(|v| v.into_iter().collect::<String>()),
    ];
    prop_oneof![
        1 => Just(String::new()),
        20 => vec(fragment, 1..6).prop_map(|v| v.concat()),
    ]
    .boxed()
}

/// Everything a parameter value may contain: no control characters, no double quote.
pub fn param_value() -> BoxedStrategy<String> {
    let fragment = prop_oneof![
        6 => vec(word_chars(), 0..9).prop_map(|v| v.into_iter().collect::<String>()),
        6 => strings(&[
            ":", ";", ",", "=", "\\", " ", "  ", "\\n", "\\,", "\\;", "\\\\", "'", "^n", "^'", "/", "-",
            "mailto:a@b.example", "Europe/Berlin", "BEGIN:VEVENT", "END:VEVENT", ";X=", ":;", "@", "+", ".",
        ]),
        3 => strings(UNICODE),
        1 => run(&['a', ' ', 'é', '老', '🎉', ',', '\\', ';', ':', '\u{3000}']),
        1 => vec(any_plain_char(), 1..4).prop_map(|v| v.into_iter().collect::<String>()),
    ];
    prop_oneof![
        1 => Just(String::new()),
        12 => vec(fragment, 1..5).prop_map(|v| v.concat().replace('"', "'")),
    ]
    .boxed()
}

fn token_chars() -> BoxedStrategy<char> {
    select("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-".chars().collect::<Vec<_>>()).boxed()
}

/// Unregistered property names, some of which begin like keywords. Never equal to BEGIN,
/// END or a name with a type.
pub fn x_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => vec(token_chars(), 1..12).prop_map(|v| format!("X-{}", v.into_iter().collect::<String>())),
        2 => vec(token_chars(), 1..8).prop_map(|v| format!("IANA{}", v.into_iter().collect::<String>())),
        2 => strings(&[
            "ENDPOINT", "END-DATE", "ENDX", "END0", "BEGINNING", "BEGIN-X", "BEGIN1", "X-END", "X-BEGIN",
            "EN", "BEGI", "E", "0", "A-", "VALUE", "VEVENT", "VCALENDAR", "X-PROP", "IANA-PROP",
            "RELATED", "RSTATUS", "CONFERENCE", "IMAGE", "COLOR", "SOURCE", "REFRESH-INTERVAL",
            "X-PUBLISHED-TTL", "ACKNOWLEDGED",
        ]),
        1 => strings(&["x-lower", "x-Mixed-Case", "endpoint", "beginning", "Endless", "iana-token"]),
        // not in the standard's alphabet, but such names are in use and accepted
        1 => strings(&["X_UNDERSCORE", "A_B_C", "X-A.B", "group.X-A", "X-A/B", "_X", "END_", "BEGIN.X", "END/"]),
        // names that contain standard ones
        2 => (select(RFC_TYPES.iter().map(|(n, _)| n.to_string()).collect::<Vec<_>>()), 0usize..8)
            .prop_map(|(n, i)| match i {
                0 => format!("{n}-ID"),
                1 => format!("{n}S"),
                2 => format!("{n}-"),
                3 => format!("X-{n}"),
                4 => format!("X{n}"),
                5 => n[..n.len() - 1].to_string(),
                6 => n.replace('-', "_") + "_",
                _ => n.split('-').next_back().unwrap_or_default().to_string() + "2",
            }),
        1 => (60usize..90).prop_map(|n| format!("X-{}", "LONG-".repeat(20).chars().take(n).collect::<String>())),
    ]
    .prop_map(|n| if rfc_type(&n).is_some() { format!("{n}X") } else { n })
    .boxed()
}

pub fn any_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(text_names()),
        2 => select(other_names()),
        2 => x_name(),
    ]
    .boxed()
}

pub fn param_key() -> BoxedStrategy<String> {
    prop_oneof![
        4 => strings(&[
            "CN", "ROLE", "TZID", "ALTREP", "LANGUAGE", "MEMBER", "RELTYPE", "RELATED", "FMTTYPE", "X-A", "X-B",
            "PARTSTAT", "CUTYPE", "ENCODING", "DIR", "SENT-BY", "RSVP", "RANGE", "VVENUE", "END", "BEGIN", "x-c",
            "X_D", "X.E", "X/F", "X-TZID", "X-VALUE", "TZIDX", "VALUES", "TZ", "X-RELATED", "ID",
        ]),
        1 => vec(token_chars(), 1..8).prop_map(|v| format!("X-{}", v.into_iter().collect::<String>())),
    ]
    .boxed()
}

/// Values for a VALUE parameter.
pub fn value_decl() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just("TEXT".to_string()),
        6 => select(VALUE_TYPES.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        2 => strings(&["X-FOO", "text", "URL", "DATETIME", "TEXT2", "", "TEX"]),
    ]
    .boxed()
}

pub fn unique<T, K: Ord>(v: Vec<T>, key: impl Fn(&T) -> K) -> Vec<T> {
    let mut seen = std::collections::BTreeSet::new();
    v.into_iter().filter(|t| seen.insert(key(t))).collect()
}

/// Parameters with different keys, without VALUE.
pub fn params(max: usize) -> BoxedStrategy<Vec<(String, String)>> {
    prop_oneof![
        2 => Just(vec![]),
        3 => vec((param_key(), param_value()), 0..=max)
            .prop_map(|v| unique(v, |(k, _)| k.clone())),
    ]
    .boxed()
}

/// A position in a list of yet unknown length; serialisable, shrinks towards the front.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Index(pub u32);

impl Index {
    pub fn index(&self, size: usize) -> usize {
        assert!(size > 0, "index into an empty list");
        ((self.0 as u64 * size as u64) >> 32) as usize
    }
    pub fn get<'a, T>(&self, items: &'a [T]) -> &'a T {
        &items[self.index(items.len())]
    }
}

impl Arbitrary for Index {
    type Parameters = ();
    type Strategy = BoxedStrategy<Index>;
    fn arbitrary_with(_: ()) -> Self::Strategy {
        any::<u32>().prop_map(Index).boxed()
    }
}

/// A number up to `max`, small and large ones alike; shrinks towards 1.
pub fn magnitude(max: u32) -> BoxedStrategy<usize> {
    let top = 1 + 32 - max.leading_zeros();
    (1..top)
        .prop_flat_map(move |b| (1u32 << (b - 1))..=((1u64 << b) - 1).min(max as u64) as u32)
        .prop_map(|n| n as usize)
        .boxed()
}
