//! Plain JSON tree used by the reference model and the generators.
use std::fmt;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum J {
    Null,
    Bool(bool),
    /// Lexical form of the number.
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl fmt::Debug for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.print())
    }
}

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    pub fn s(s: &str) -> J {
        J::Str(s.to_string())
    }
    pub fn obj() -> J {
        J::Obj(Vec::new())
    }
    pub fn o(entries: &[(&str, J)]) -> J {
        J::Obj(entries.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
    }
    pub fn print(&self) -> String {
        let mut s = String::new();
        self.print_to(&mut s);
        s
    }
    fn print_to(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => out.push_str(n),
            J::Str(s) => esc(s, out),
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.print_to(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.print_to(out);
                }
                out.push('}');
            }
        }
    }
    /// Parses a JSON text (own parser: the reference side shares no code with the implementation).
    pub fn parse(s: &str) -> Result<J, String> {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = parse_value(&b, &mut i)?;
        ws(&b, &mut i);
        if i != b.len() {
            return Err(format!("trailing characters at {i} in {s}"));
        }
        Ok(v)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn is_obj(&self) -> bool {
        matches!(self, J::Obj(_))
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, J::Bool(_) | J::Num(_) | J::Str(_))
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_arr(&self) -> Option<&Vec<J>> {
        match self {
            J::Arr(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_obj(&self) -> Option<&Vec<(String, J)>> {
        match self {
            J::Obj(s) => Some(s),
            _ => None,
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut J> {
        match self {
            J::Obj(o) => o.iter_mut().find(|e| e.0 == k).map(|e| &mut e.1),
            _ => None,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            match o.iter_mut().find(|e| e.0 == k) {
                Some(e) => e.1 = v,
                None => o.push((k.to_string(), v)),
            }
        } else {
            panic!("set on non object")
        }
    }
    pub fn remove(&mut self, k: &str) -> Option<J> {
        if let J::Obj(o) = self {
            let i = o.iter().position(|e| e.0 == k)?;
            Some(o.remove(i).1)
        } else {
            None
        }
    }
    /// Always as an array.
    pub fn arrayify(&self) -> Vec<J> {
        match self {
            J::Arr(a) => a.clone(),
            o => vec![o.clone()],
        }
    }
    /// Spec `add value`.
    pub fn add_value(&mut self, key: &str, value: J, as_array: bool) {
        if as_array {
            match self.get(key) {
                None => self.set(key, J::Arr(vec![])),
                Some(J::Arr(_)) => {}
                Some(v) => {
                    let v = v.clone();
                    self.set(key, J::Arr(vec![v]))
                }
            }
        }
        match value {
            J::Arr(vs) => {
                for v in vs {
                    self.add_value(key, v, as_array)
                }
            }
            value => match self.get_mut(key) {
                None => self.set(key, value),
                Some(J::Arr(a)) => a.push(value),
                Some(v) => {
                    let old = v.clone();
                    *v = J::Arr(vec![old, value])
                }
            },
        }
    }
    /// Sorts all object keys recursively (arrays untouched).
    pub fn sort_keys(&self) -> J {
        match self {
            J::Arr(a) => J::Arr(a.iter().map(|x| x.sort_keys()).collect()),
            J::Obj(o) => {
                let mut o: Vec<(String, J)> =
                    o.iter().map(|(k, v)| (k.clone(), v.sort_keys())).collect();
                o.sort();
                J::Obj(o)
            }
            x => x.clone(),
        }
    }
    #[allow(dead_code)]
    pub fn size(&self) -> usize {
        match self {
            J::Arr(a) => 1 + a.iter().map(|x| x.size()).sum::<usize>(),
            J::Obj(o) => 1 + o.iter().map(|x| 1 + x.1.size()).sum::<usize>(),
            _ => 1,
        }
    }
}

fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], ' ' | '\n' | '\r' | '\t') {
        *i += 1
    }
}

fn parse_value(b: &[char], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        None => Err("eof".into()),
        Some('{') => {
            *i += 1;
            let mut o = vec![];
            ws(b, i);
            if b.get(*i) == Some(&'}') {
                *i += 1;
                return Ok(J::Obj(o));
            }
            loop {
                ws(b, i);
                let k = match parse_value(b, i)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, i);
                if b.get(*i) != Some(&':') {
                    return Err(format!("expected : at {i}"));
                }
                *i += 1;
                let v = parse_value(b, i)?;
                o.push((k, v));
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some('}') => {
                        *i += 1;
                        return Ok(J::Obj(o));
                    }
                    _ => return Err(format!("expected , or }} at {i}")),
                }
            }
        }
        Some('[') => {
            *i += 1;
            let mut a = vec![];
            ws(b, i);
            if b.get(*i) == Some(&']') {
                *i += 1;
                return Ok(J::Arr(a));
            }
            loop {
                a.push(parse_value(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some(']') => {
                        *i += 1;
                        return Ok(J::Arr(a));
                    }
                    _ => return Err(format!("expected , or ] at {i}")),
                }
            }
        }
        Some('"') => {
            *i += 1;
            let mut s = String::new();
            loop {
                match b.get(*i) {
                    None => return Err("eof in string".into()),
                    Some('"') => {
                        *i += 1;
                        return Ok(J::Str(s));
                    }
                    Some('\\') => {
                        *i += 1;
                        match b.get(*i) {
                            Some('n') => s.push('\n'),
                            Some('t') => s.push('\t'),
                            Some('r') => s.push('\r'),
                            Some('b') => s.push('\u{8}'),
                            Some('f') => s.push('\u{c}'),
                            Some('u') => {
                                let h: String = b[*i + 1..*i + 5].iter().collect();
                                let c = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                *i += 4;
                                if (0xd800..0xdc00).contains(&c) {
                                    let h: String = b[*i + 3..*i + 7].iter().collect();
                                    let d =
                                        u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                    *i += 6;
                                    let c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
                                    s.push(char::from_u32(c).ok_or("surrogate")?);
                                } else {
                                    s.push(char::from_u32(c).ok_or("surrogate")?);
                                }
                            }
                            Some(c) => s.push(*c),
                            None => return Err("eof".into()),
                        }
                        *i += 1;
                    }
                    Some(c) => {
                        s.push(*c);
                        *i += 1
                    }
                }
            }
        }
        Some(c) if c.is_ascii_digit() || *c == '-' => {
            let st = *i;
            while *i < b.len()
                && (b[*i].is_ascii_digit() || matches!(b[*i], '-' | '+' | '.' | 'e' | 'E'))
            {
                *i += 1
            }
            Ok(J::Num(b[st..*i].iter().collect()))
        }
        Some(_) => {
            for (t, v) in [("null", J::Null), ("true", J::Bool(true)), ("false", J::Bool(false))] {
                let e = (*i + t.len()).min(b.len());
                if b[*i..e].iter().collect::<String>() == t {
                    *i = e;
                    return Ok(v);
                }
            }
            Err(format!("bad value at {i}"))
        }
    }
}

// ---- conversion to/from the implementation's JSON type

pub fn to_impl(j: &J) -> json_syntax::Value {
    use json_syntax::Value as V;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Boolean(*b),
        J::Num(n) => V::Number(json_syntax::NumberBuf::new(n.as_bytes().iter().copied().collect()).unwrap()),
        J::Str(s) => V::String(s.as_str().into()),
        J::Arr(a) => V::Array(a.iter().map(to_impl).collect()),
        J::Obj(o) => {
            let mut out = json_syntax::Object::new();
            for (k, v) in o {
                out.push(k.as_str().into(), to_impl(v));
            }
            V::Object(out)
        }
    }
}

pub fn from_impl(v: &json_syntax::Value) -> J {
    use json_syntax::Value as V;
    match v {
        V::Null => J::Null,
        V::Boolean(b) => J::Bool(*b),
        V::Number(n) => J::Num(n.as_str().to_string()),
        V::String(s) => J::Str(s.to_string()),
        V::Array(a) => J::Arr(a.iter().map(from_impl).collect()),
        V::Object(o) => {
            J::Obj(o.entries().iter().map(|e| (e.key.to_string(), from_impl(&e.value))).collect())
        }
    }
}

/// Text macro: JSON with single quotes allowed for readability.
pub fn j(s: &str) -> J {
    J::parse(&s.replace('\'', "\"")).unwrap_or_else(|e| panic!("{e}: {s}"))
}
