//! Documents as calendar programs write them: content lines and objects taken from the
//! examples of RFC 5545, RFC 7986 and RFC 9074 and from what common programs export.
use super::docs::garbage_line;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use proptest::strategy::BoxedStrategy;

/// Content lines of components.
pub(super) const LINES: &[&str] = &[
    "UID:19970610T172345Z-AF23B2@example.com",
    "UID:040000008200E00074C5B7101A82E00800000000D0C1F0D7A5C1D901000000000000000010000000",
    "DTSTAMP:19970610T172345Z",
    "DTSTART:19970714T170000Z",
    "DTEND:19970715T035959Z",
    "DTSTART;VALUE=DATE:19971102",
    "X-NOTE;value=TEXT:one\\, two\\nthree\\\\four",
    "X-NOTE;Value=text:one\\, two\\nthree",
    "SUMMARY;Value=URI:https://example.com/a\\,b\\;c",
    "X-NOTE;value=\"TEXT\":one\\; two",
    "DTSTART;tzid=Europe/Berlin:20240331T030000",
    "DTSTART;TZID=America/New_York:19980312T083000",
    "DTEND;TZID=\"W. Europe Standard Time\":20230703T110000",
    "DTSTART;TZID=\"(UTC+01:00) Amsterdam, Berlin, Bern\":20230703T100000",
    "DTSTART;TZID=/freeassociation.sourceforge.net/Europe/Paris:20220320T093000",
    "DURATION:PT1H0M0S",
    "DUE;VALUE=DATE:20070501",
    "COMPLETED:20070707T100000Z",
    "RECURRENCE-ID;RANGE=THISANDFUTURE:19960120T120000Z",
    "RRULE:FREQ=YEARLY;INTERVAL=2;BYMONTH=1;BYDAY=SU;BYHOUR=8,9;BYMINUTE=30",
    "RRULE:FREQ=MONTHLY;BYDAY=MO,TU,WE,TH,FR;BYSETPOS=-1",
    "RRULE:FREQ=WEEKLY;WKST=SU;UNTIL=20230801T065959Z;BYDAY=TU,TH",
    "EXDATE:19960402T010000Z,19960403T010000Z,19960404T010000Z",
    "EXDATE;TZID=Europe/Berlin:20230710T100000,20230717T100000",
    "RDATE;VALUE=PERIOD:19960403T020000Z/19960403T040000Z,19960404T010000Z/PT3H",
    "RDATE;VALUE=DATE:19970101,19970120,19970217,19970421,19970526,19970704",
    "SUMMARY:Bastille Day Party",
    "SUMMARY;LANGUAGE=en-US:Company Holiday Party",
    "SUMMARY:",
    "DESCRIPTION:Networld+Interop Conference and Exhibit\\nAtlanta World Congress Center\\n Atlanta\\, Georgia",
    "DESCRIPTION;ALTREP=\"CID:part3.msg.970415T083000@example.com\":Project XYZ Review Meeting will include the following agenda items: (a) Market Overview\\, (b) Finances\\; (c) Project Management",
    "DESCRIPTION:\\n________________________________________________________________________________\\nMicrosoft Teams-Besprechung\\nBesprechungs-ID: 300 000 000 001\\nKennung: abcDEF\\nTeilnehmen: https://teams.microsoft.com/l/meetup-join/19%3ameeting_AbC@thread.v2/0?context=%7b%22Tid%22%3a%22x%22%7d",
    "DESCRIPTION:<p>Line &amp; <a href=\"https://example.com/?a=1&b=2\">link</a></p>",
    "X-ALT-DESC;FMTTYPE=text/html:<!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 3.2//EN\">\\n<HTML>\\n<BODY>x\\, y</BODY></HTML>",
    "LOCATION;ALTREP=\"http://xyzcorp.com/conf-rooms/f123.vcf\":Conference Room - F123\\, Bldg. 002",
    "LOCATION;LANGUAGE=de:Germany",
    "COMMENT:The meeting really needs to include both ourselves and the customer. We can't hold this meeting without them.",
    "CATEGORIES:APPOINTMENT,EDUCATION",
    "CATEGORIES:Réunion\\, importante,Büro",
    "RESOURCES:EASEL,PROJECTOR,VCR",
    "CLASS:PRIVATE",
    "STATUS:NEEDS-ACTION",
    "STATUS:CONFIRMED",
    "TRANSP:OPAQUE",
    "PRIORITY:5",
    "SEQUENCE:0",
    "PERCENT-COMPLETE:39",
    "GEO:37.386013;-122.082932",
    "URL:http://example.com/pub/calendars/jsmith/mytime.ics?x=1;y=2,3",
    "URL;VALUE=URI:https://www.example.com/?q=\"a\"&b=c:d",
    "ORGANIZER;CN=\"John Smith\":mailto:jsmith@example.com",
    "ORGANIZER;CN=Max Mustermann;SENT-BY=\"mailto:sekretariat@example.com\":mailto:max@example.com",
    "ATTENDEE;CN=Jane Doe;ROLE=REQ-PARTICIPANT;PARTSTAT=NEEDS-ACTION;RSVP=TRUE:mailto:jdoe@example.com",
    "ATTENDEE;CUTYPE=INDIVIDUAL;ROLE=REQ-PARTICIPANT;PARTSTAT=ACCEPTED;CN=a@example.com;X-NUM-GUESTS=0:mailto:a@example.com",
    "ATTENDEE;RSVP=FALSE;CN=\"Doe, Jane (EXT; Dept: X)\";DIR=\"ldap://host.com:6666/o=eDABC,c=US??(cn=Bill%20Dool)\":invalid:nomail",
    "ATTENDEE;CN=\"Müller;Jürgen\";CUTYPE=ROOM:MAILTO:raum-1@example.com",
    "ATTENDEE;EMAIL=\"a@b.c\";CN==?utf-8?Q?a?=:mailto:a@b.c",
    "CONTACT;ALTREP=\"ldap://example.com:6666/o=ABC%20Industries\\,c=US???(cn=Jim%20Dolittle)\":Jim Dolittle\\, ABC Industries\\, +1-919-555-1234",
    "RELATED-TO;RELTYPE=SIBLING:19960401-080045-4000F192713@example.com",
    "ATTACH;FMTTYPE=text/plain;ENCODING=BASE64;VALUE=BINARY:VGhlIHF1aWNrIGJyb3duIGZveCBqdW1wcyBvdmVyIHRoZSBsYXp5IGRvZy4=",
    "ATTACH:CID:jsmith.part3.960817T083000.xyzMail@example.com",
    "ATTACH;FILENAME=a b.pdf;FMTTYPE=application/pdf:https://drive.google.com/open?id=1:2",
    "IMAGE;VALUE=URI;DISPLAY=BADGE;FMTTYPE=image/png:http://example.com/images/party.png",
    "CONFERENCE;VALUE=URI;FEATURE=PHONE,MODERATOR;LABEL=Moderator dial-in:tel:+1-412-555-0123,,,654321",
    "REQUEST-STATUS:2.8; Success\\, repeating event ignored. Scheduled as a single event.;RRULE:FREQ=WEEKLY\\;INTERVAL=2",
    "FREEBUSY;FBTYPE=BUSY-UNAVAILABLE:19970308T160000Z/PT8H30M",
    "FREEBUSY:19970308T160000Z/PT3H,19970308T200000Z/PT1H,19970308T230000Z/19970309T000000Z",
    "TZID:America/New_York",
    "TZOFFSETFROM:-0500",
    "TZOFFSETTO:+053020",
    "TZNAME:EDT",
    "TZURL:http://zones.example.com/tz/America-New_York.ics",
    "LAST-MODIFIED:19960817T133000Z",
    "CREATED:20230101T000000Z",
    "ACTION:DISPLAY",
    "ACTION:AUDIO",
    "TRIGGER;RELATED=END:PT5M",
    "TRIGGER:-PT15M",
    "TRIGGER;VALUE=DATE-TIME:19970317T133000Z",
    "REPEAT:4",
    "ACKNOWLEDGED:20210302T151516Z",
    "PROXIMITY:DEPART",
    "COLOR:turquoise",
    "X-APPLE-STRUCTURED-LOCATION;VALUE=URI;X-ADDRESS=\"1 Infinite Loop\\\\nCupertino CA\";X-APPLE-RADIUS=70.6;X-TITLE=\"Apple, Inc.\":geo:37.331741,-122.030333",
    "X-MOZ-LASTACK:20230101T000000Z",
    "X-MICROSOFT-CDO-BUSYSTATUS:BUSY",
    "X-MS-OLK-SENDER;CN=\"x y\":mailto:x@y.z",
    "X-GOOGLE-CONFERENCE:https://meet.google.com/abc-defg-hij",
    "X-LIC-ERROR;X-LIC-ERRORTYPE=VALUE-PARSE-ERROR:No value for GEO property. Removing entire property:",
    "X-WR-CALNAME:Feiertage\\, NRW",
    "NON-SMOKING;VALUE=BOOLEAN:TRUE",
];

/// Content lines of calendars.
const CALENDAR_LINES: &[&str] = &[
    "VERSION:2.0",
    "PRODID:-//hacksw/handcal//NONSGML v1.0//EN",
    "PRODID;X-RICAL-TZSOURCE=TZINFO:-//com.denhaven2/NONSGML ri_cal gem//EN",
    "PRODID:-//Google Inc//Google Calendar 70.9054//EN",
    "CALSCALE:GREGORIAN",
    "METHOD:REQUEST",
    "NAME:Company Vacation Days",
    "DESCRIPTION;LANGUAGE=fr:les jours de fête\\, etc.",
    "REFRESH-INTERVAL;VALUE=DURATION:P1W",
    "SOURCE;VALUE=URI:https://example.com/holidays.ics",
    "X-WR-CALNAME:Our (work) calendar\\; all",
    "X-WR-CALDESC:",
    "X-WR-TIMEZONE:Europe/Berlin",
    "X-PUBLISHED-TTL:PT12H",
    "X-WR-RELCALID:3E26604A-50F4-4449-8B3E-E4F4932D05B5",
    "X-MS-OLK-FORCEINSPECTOROPEN:TRUE",
    "COLOR:crimson",
];

const NEW_YORK: &str = "BEGIN:VTIMEZONE\nTZID:America/New_York\nLAST-MODIFIED:20050809T050000Z\nBEGIN:DAYLIGHT\nDTSTART:19870405T020000\nRRULE:FREQ=YEARLY;BYMONTH=4;BYDAY=1SU;UNTIL=20060402T070000Z\nTZOFFSETFROM:-0500\nTZOFFSETTO:-0400\nTZNAME:EDT\nEND:DAYLIGHT\nBEGIN:STANDARD\nDTSTART:20071104T020000\nRRULE:FREQ=YEARLY;BYMONTH=11;BYDAY=1SU\nTZOFFSETFROM:-0400\nTZOFFSETTO:-0500\nTZNAME:EST\nEND:STANDARD\nEND:VTIMEZONE";

const COMPONENTS: &[(&str, &[&str])] = &[
    ("VEVENT", &["VALARM", "PARTICIPANT", "VLOCATION", "X-EXTRA"]),
    ("VTODO", &["VALARM", "VRESOURCE"]),
    ("VJOURNAL", &["X-EXTRA"]),
    ("VFREEBUSY", &["X-EXTRA"]),
    ("VTIMEZONE", &["STANDARD", "DAYLIGHT"]),
    ("VVENUE", &["X-EXTRA"]),
    ("VAVAILABILITY", &["AVAILABLE"]),
    ("VPOLL", &["VVOTER"]),
];

fn lines(of: &'static [&'static str], n: std::ops::Range<usize>) -> BoxedStrategy<Vec<String>> {
    vec(select(of).prop_map(String::from), n).boxed()
}

fn framed(name: &str, inner: Vec<String>) -> Vec<String> {
    let mut l = vec![format!("BEGIN:{name}")];
    l.extend(inner);
    l.push(format!("END:{name}"));
    l
}

fn component() -> BoxedStrategy<Vec<String>> {
    (any::<Index>(), lines(LINES, 0..9), vec((any::<Index>(), lines(LINES, 0..4), any::<Index>()), 0..3))
        .prop_map(|(which, mut inner, children)| {
            let (name, sub) = *which.get(COMPONENTS);
            for (which, props, at) in children {
                let at = at.index(inner.len() + 1);
                // not within another one
                let at = if inner[..at].iter().filter(|l| l.starts_with("BEGIN:")).count() == inner[..at].iter().filter(|l| l.starts_with("END:")).count() {
                    at
                } else {
                    inner.len()
                };
                inner.splice(at..at, framed(which.get(sub), props));
            }
            framed(name, inner)
        })
        .boxed()
}

fn document() -> BoxedStrategy<Vec<String>> {
    let part = prop_oneof![
        1 => Just(NEW_YORK.lines().map(String::from).collect::<Vec<_>>()),
        5 => component(),
    ];
    (lines(CALENDAR_LINES, 0..6), vec(part, 0..4), lines(CALENDAR_LINES, 0..2), any::<u8>())
        .prop_map(|(before, parts, after, how)| {
            let mut inner = before;
            inner.extend(parts.into_iter().flatten());
            // some programs write properties behind the components
            if how % 4 == 0 {
                inner.extend(after);
            }
            if how == 255 { inner } else { framed("VCALENDAR", inner) }
        })
        .boxed()
}

/// Folded every so many octets, whatever that cuts apart, but not a character.
fn fold(line: &str, width: usize, nl: &str, blank: char) -> String {
    let mut out = String::new();
    let mut used = 0;
    for c in line.chars() {
        if used > 0 && used + c.len_utf8() > width {
            out += nl;
            out.push(blank);
            used = 1;
        }
        out.push(c);
        used += c.len_utf8();
    }
    out
}

/// A document of this kind, with or without some damage.
pub fn real_text() -> BoxedStrategy<String> {
    let layout = (select(vec!["\r\n", "\r\n", "\r\n", "\n"]), select(vec![75usize, 75, 74, 60, 76, 1000, 5]), select(vec![' ', ' ', ' ', '\t']), any::<u8>());
    let edit = (any::<Index>(), 0u8..8, any::<Index>(), prop_oneof![select(LINES).prop_map(String::from), garbage_line()]);
    (document(), layout, prop_oneof![3 => Just(vec![]), 2 => vec(edit, 1..3)])
        .prop_map(|(mut l, (nl, width, blank, end), edits)| {
            for (at, how, to, with) in edits {
                if l.is_empty() {
                    break;
                }
                let i = at.index(l.len());
                match how {
                    0 => drop(l.remove(i)),
                    1 => l.insert(i, l[i].clone()),
                    2 => {
                        let j = to.index(l.len());
                        l.swap(i, j);
                    }
                    3 => l.insert(i, with),
                    4 => {
                        let cut = to.index(l[i].chars().count() + 1);
                        l[i] = l[i].chars().take(cut).collect();
                    }
                    5 => l[i] = l[i].replacen(['"', ':', ';', '='], "", 1),
                    6 => {
                        let cut = to.index(l[i].chars().count() + 1);
                        let tail: String = l[i].chars().skip(cut).collect();
                        let head: String = l[i].chars().take(cut).collect();
                        l[i] = head;
                        l.insert(i + 1, tail);
                    }
                    _ => l[i] = l[i].to_lowercase(),
                }
            }
            let mut t = l.iter().map(|l| fold(l, width, nl, blank)).collect::<Vec<_>>().join(nl);
            match end % 8 {
                0 => {}
                1 => t += &nl.repeat(2),
                _ => t += nl,
            }
            t
        })
        .boxed()
}
