//! An independent, strict reader of iCalendar streams (RFC 5545 3.1). It shares nothing
//! with the code under test and refuses whatever the grammar does not allow.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SProp {
    pub name: String,
    /// name and values
    pub params: Vec<(String, Vec<String>)>,
    /// as written
    pub raw: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SComp {
    pub name: String,
    pub props: Vec<SProp>,
    pub children: Vec<SComp>,
}

/// Removes line breaks that are followed by a space or tab (reference for C09).
pub fn ref_unfold(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let ws = |i: usize| matches!(b.get(i), Some(' ' | '\t'));
    while i < b.len() {
        if b[i] == '\r' && b.get(i + 1) == Some(&'\n') && ws(i + 2) {
            i += 3;
        } else if b[i] == '\n' && ws(i + 1) {
            i += 2;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// Splits into physical lines; all of them must end with CRLF and have at most 75 octets.
pub fn physical_lines(s: &str) -> Result<Vec<&str>, String> {
    if s.is_empty() {
        return Ok(vec![]);
    }
    let body = s.strip_suffix("\r\n").ok_or("the last line does not end with CRLF")?;
    let lines: Vec<&str> = body.split("\r\n").collect();
    for l in &lines {
        if l.len() > 75 {
            return Err(format!("a line has {} octets: {l:?}", l.len()));
        }
        if l.is_empty() {
            return Err("an empty line".into());
        }
    }
    Ok(lines)
}

/// Physical lines to content lines.
pub fn content_lines(s: &str) -> Result<Vec<String>, String> {
    let mut out: Vec<String> = vec![];
    for l in physical_lines(s)? {
        match l.strip_prefix(' ') {
            Some(rest) => match out.last_mut() {
                Some(last) => last.push_str(rest),
                None => return Err("begins with a continuation line".into()),
            },
            None => out.push(l.to_string()),
        }
    }
    Ok(out)
}

/// The standard's alphabet, and what names in use have in addition: the generators put them in.
fn is_name_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '.' | '/')
}

pub fn content_line(l: &str) -> Result<SProp, String> {
    let err = |what: &str| Err(format!("{what} in line {l:?}"));
    if let Some(c) = l.chars().find(|c| c.is_control() && *c != '\t' && !('\u{80}'..='\u{9f}').contains(c)) {
        return Err(format!("control character {c:?} in line {l:?}"));
    }
    let c: Vec<char> = l.chars().collect();
    let mut i = 0;
    let mut name = String::new();
    while i < c.len() && is_name_char(c[i]) {
        name.push(c[i]);
        i += 1;
    }
    if name.is_empty() {
        return err("no name");
    }
    let mut params = vec![];
    while c.get(i) == Some(&';') {
        i += 1;
        let mut key = String::new();
        while i < c.len() && is_name_char(c[i]) {
            key.push(c[i]);
            i += 1;
        }
        if key.is_empty() || c.get(i) != Some(&'=') {
            return err("malformed parameter");
        }
        let mut values = vec![];
        loop {
            i += 1; // '=' or ','
            let mut v = String::new();
            if c.get(i) == Some(&'"') {
                i += 1;
                while i < c.len() && c[i] != '"' {
                    v.push(c[i]);
                    i += 1;
                }
                if i >= c.len() {
                    return err("unterminated quote");
                }
                i += 1;
            } else {
                while i < c.len() && !matches!(c[i], ';' | ':' | ',' | '"') {
                    v.push(c[i]);
                    i += 1;
                }
            }
            values.push(v);
            if c.get(i) != Some(&',') {
                break;
            }
        }
        params.push((key, values));
    }
    if c.get(i) != Some(&':') {
        return err("no colon");
    }
    Ok(SProp { name, params, raw: c[i + 1..].iter().collect() })
}

/// Reads a stream of components.
pub fn read(s: &str) -> Result<Vec<SComp>, String> {
    components(content_lines(s)?)
}

/// The same for texts in any layout: LF or CRLF, blank lines, lines of any length.
pub fn read_any_layout(s: &str) -> Result<Vec<SComp>, String> {
    let u = ref_unfold(s);
    let lines = u.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).filter(|l| !l.is_empty());
    components(lines.map(str::to_string).collect())
}

fn components(lines: Vec<String>) -> Result<Vec<SComp>, String> {
    let mut stack: Vec<SComp> = vec![];
    let mut roots = vec![];
    for l in lines {
        let p = content_line(&l)?;
        if p.name.eq_ignore_ascii_case("BEGIN") {
            if !p.params.is_empty() || p.raw.is_empty() || !p.raw.chars().all(is_name_char) {
                return Err(format!("malformed {l:?}"));
            }
            stack.push(SComp { name: p.raw, props: vec![], children: vec![] });
        } else if p.name.eq_ignore_ascii_case("END") {
            let top = stack.pop().ok_or_else(|| format!("unexpected {l:?}"))?;
            if top.name != p.raw || !p.params.is_empty() {
                return Err(format!("{l:?} ends {}", top.name));
            }
            match stack.last_mut() {
                Some(parent) => parent.children.push(top),
                None => roots.push(top),
            }
        } else {
            match stack.last_mut() {
                Some(c) => c.props.push(p),
                None => return Err(format!("{l:?} is outside of any component")),
            }
        }
    }
    if !stack.is_empty() {
        return Err("components are not closed".into());
    }
    Ok(roots)
}

/// Decodes a TEXT value; only what RFC 5545 3.3.11 allows.
pub fn unescape(raw: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = raw.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some('\\') => out.push('\\'),
                Some(',') => out.push(','),
                Some(';') => out.push(';'),
                Some('n' | 'N') => out.push('\n'),
                o => return Err(format!("bad escape {o:?} in {raw:?}")),
            },
            ',' | ';' => return Err(format!("{c:?} is not escaped in {raw:?}")),
            c => out.push(c),
        }
    }
    Ok(out)
}
