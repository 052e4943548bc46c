//! RFC 3986/3987 reference resolution, written from the RFC text.

#[derive(Debug, Clone, PartialEq)]
pub struct Parts {
    pub scheme: Option<String>,
    pub authority: Option<String>,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
}

pub fn split(s: &str) -> Parts {
    let (s, fragment) = match s.find('#') {
        Some(i) => (&s[..i], Some(s[i + 1..].to_string())),
        None => (s, None),
    };
    let (s, query) = match s.find('?') {
        Some(i) => (&s[..i], Some(s[i + 1..].to_string())),
        None => (s, None),
    };
    let (scheme, s) = match s.find(':') {
        Some(i) if is_scheme(&s[..i]) => (Some(s[..i].to_string()), &s[i + 1..]),
        _ => (None, s),
    };
    let (authority, path) = if let Some(r) = s.strip_prefix("//") {
        match r.find('/') {
            Some(i) => (Some(r[..i].to_string()), r[i..].to_string()),
            None => (Some(r.to_string()), String::new()),
        }
    } else {
        (None, s.to_string())
    };
    Parts { scheme, authority, path, query, fragment }
}

pub fn join(p: &Parts) -> String {
    let mut o = String::new();
    if let Some(s) = &p.scheme {
        o.push_str(s);
        o.push(':');
    }
    if let Some(a) = &p.authority {
        o.push_str("//");
        o.push_str(a);
    }
    o.push_str(&p.path);
    if let Some(q) = &p.query {
        o.push('?');
        o.push_str(q);
    }
    if let Some(f) = &p.fragment {
        o.push('#');
        o.push_str(f);
    }
    o
}

pub fn is_scheme(s: &str) -> bool {
    let mut c = s.chars();
    match c.next() {
        Some(x) if x.is_ascii_alphabetic() => {}
        _ => return false,
    }
    c.all(|x| x.is_ascii_alphanumeric() || matches!(x, '+' | '-' | '.'))
}

fn chars_ok(s: &str) -> bool {
    !s.chars().any(|c| {
        c <= ' ' || c == '\u{7f}' || matches!(c, '<' | '>' | '"' | '{' | '}' | '|' | '\\' | '^' | '`')
    })
}

fn pct_ok(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            if i + 2 >= b.len() || !b[i + 1].is_ascii_hexdigit() || !b[i + 2].is_ascii_hexdigit() {
                return false;
            }
            i += 2;
        }
        i += 1;
    }
    true
}

/// Has the form of an IRI reference.
pub fn is_iri_ref(s: &str) -> bool {
    if !chars_ok(s) || !pct_ok(s) {
        return false;
    }
    let p = split(s);
    if p.path.contains('[') || p.path.contains(']') {
        return false;
    }
    for x in [&p.query, &p.fragment].into_iter().flatten() {
        if x.contains('[') || x.contains(']') || x.contains('#') {
            return false;
        }
    }
    // no scheme: first segment must not contain ':'
    if p.scheme.is_none() && p.authority.is_none() {
        let first = p.path.split('/').next().unwrap_or("");
        if first.contains(':') {
            return false;
        }
    }
    true
}

pub fn is_iri(s: &str) -> bool {
    is_iri_ref(s) && split(s).scheme.is_some()
}

pub fn is_blank(s: &str) -> bool {
    match s.strip_prefix("_:") {
        Some(r) => {
            !r.is_empty()
                && r.chars().enumerate().all(|(i, c)| {
                    c.is_ascii_alphanumeric()
                        || c == '_'
                        || c == ':'
                        || (c as u32) > 0xbf
                        || (i > 0 && (c == '-' || c == '.'))
                })
                && !r.ends_with('.')
        }
        None => false,
    }
}

/// RFC 3986 5.2.4
pub fn remove_dot_segments(path: &str) -> String {
    let mut input = path.to_string();
    let mut out = String::new();
    while !input.is_empty() {
        if input.starts_with("../") {
            input = input[3..].to_string();
        } else if input.starts_with("./") {
            input = input[2..].to_string();
        } else if input.starts_with("/./") {
            input = input[2..].to_string();
        } else if input == "/." {
            input = "/".to_string();
        } else if input.starts_with("/../") {
            input = input[3..].to_string();
            match out.rfind('/') {
                Some(i) => out.truncate(i),
                None => out.clear(),
            }
        } else if input == "/.." {
            input = "/".to_string();
            match out.rfind('/') {
                Some(i) => out.truncate(i),
                None => out.clear(),
            }
        } else if input == "." || input == ".." {
            input.clear();
        } else {
            let start = if input.starts_with('/') { 1 } else { 0 };
            let end = input[start..].find('/').map(|i| i + start).unwrap_or(input.len());
            out.push_str(&input[..end]);
            input = input[end..].to_string();
        }
    }
    out
}

/// RFC 3986 5.2.2 (strict). `base` must be absolute.
pub fn resolve(base: &str, r: &str) -> String {
    let b = split(base);
    let r = split(r);
    let mut t = Parts { scheme: None, authority: None, path: String::new(), query: None, fragment: None };
    if r.scheme.is_some() {
        t.scheme = r.scheme;
        t.authority = r.authority;
        t.path = remove_dot_segments(&r.path);
        t.query = r.query;
    } else {
        if r.authority.is_some() {
            t.authority = r.authority;
            t.path = remove_dot_segments(&r.path);
            t.query = r.query;
        } else {
            if r.path.is_empty() {
                t.path = b.path.clone();
                t.query = if r.query.is_some() { r.query } else { b.query };
            } else {
                if r.path.starts_with('/') {
                    t.path = remove_dot_segments(&r.path);
                } else {
                    let merged = if b.authority.is_some() && b.path.is_empty() {
                        format!("/{}", r.path)
                    } else {
                        match b.path.rfind('/') {
                            Some(i) => format!("{}{}", &b.path[..=i], r.path),
                            None => r.path.clone(),
                        }
                    };
                    t.path = remove_dot_segments(&merged);
                }
                t.query = r.query;
            }
            t.authority = b.authority;
        }
        t.scheme = b.scheme;
    }
    t.fragment = r.fragment;
    join(&t)
}
