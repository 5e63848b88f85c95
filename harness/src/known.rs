//! Inputs that are known to break a property (../KNOWN_FINDINGS.txt). They are tried on
//! every run; the generators stay away from them.
use icalendar::Calendar;
use std::str::FromStr;

pub struct Probe {
    pub property: &'static str,
    /// the first word of the entry in the file
    pub key: &'static str,
    pub what: &'static str,
    pub holds: fn() -> Result<(), String>,
}

fn member_list() -> Result<(), String> {
    let doc = "BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nATTENDEE;MEMBER=\"mailto:a@example.com\",\"mailto:b@example.com\":mailto:c@example.com\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n";
    let cal = Calendar::from_str(doc).map_err(|e| format!("a list of quoted parameter values is rejected: {}", e.lines().next().unwrap_or("")))?;
    match cal.components.len() {
        1 => Ok(()),
        n => Err(format!("{n} components are read")),
    }
}

pub const PROBES: &[Probe] = &[Probe {
    property: "C06",
    key: "K1",
    what: "ATTENDEE;MEMBER=\"mailto:a@example.com\",\"mailto:b@example.com\":... is rejected",
    holds: member_list,
}];
