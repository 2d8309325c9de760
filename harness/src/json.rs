//! A minimal JSON reader and writer, to keep the harness free of dependencies.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn ints(v: &[i64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

pub fn strs<S: AsRef<str>>(v: &[S]) -> String {
    let s: Vec<String> = v.iter().map(|x| esc(x.as_ref())).collect();
    format!("[{}]", s.join(","))
}

impl J {
    pub fn parse(s: &str) -> J {
        let b: Vec<char> = s.chars().collect();
        let mut p = 0;
        value(&b, &mut p)
    }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self { J::Obj(m) => m.get(k).unwrap_or(&NULL), _ => &NULL }
    }
    pub fn str(&self) -> &str { match self { J::Str(s) => s, _ => "" } }
    pub fn int(&self) -> i64 { match self { J::Num(n) => *n as i64, _ => 0 } }
    pub fn arr(&self) -> &[J] { match self { J::Arr(v) => v, _ => &[] } }
    pub fn bool(&self) -> bool { match self { J::Bool(v) => *v, _ => false } }
}

fn ws(b: &[char], p: &mut usize) { while *p < b.len() && b[*p].is_whitespace() { *p += 1; } }

fn value(b: &[char], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        '{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                match b[*p] {
                    '}' => { *p += 1; return J::Obj(m); }
                    ',' => { *p += 1; }
                    _ => {
                        let k = match value(b, p) { J::Str(s) => s, _ => panic!("json key") };
                        ws(b, p);
                        assert_eq!(b[*p], ':');
                        *p += 1;
                        let v = value(b, p);
                        m.insert(k, v);
                    }
                }
            }
        }
        '[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                match b[*p] {
                    ']' => { *p += 1; return J::Arr(v); }
                    ',' => { *p += 1; }
                    _ => v.push(value(b, p)),
                }
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                let c = b[*p];
                *p += 1;
                match c {
                    '"' => return J::Str(s),
                    '\\' => {
                        let c = b[*p];
                        *p += 1;
                        match c {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let mut n = hex4(b, p);
                                if (0xd800..0xdc00).contains(&n) {
                                    *p += 2;
                                    let lo = hex4(b, p);
                                    n = 0x10000 + ((n - 0xd800) << 10) + (lo - 0xdc00);
                                }
                                s.push(std::char::from_u32(n).unwrap());
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => { *p += 4; J::Bool(true) }
        'f' => { *p += 5; J::Bool(false) }
        'n' => { *p += 4; J::Null }
        _ => {
            let st = *p;
            while *p < b.len() && "+-.eE0123456789".contains(b[*p]) { *p += 1; }
            J::Num(b[st..*p].iter().collect::<String>().parse().unwrap())
        }
    }
}

fn hex4(b: &[char], p: &mut usize) -> u32 {
    let s: String = b[*p..*p + 4].iter().collect();
    *p += 4;
    u32::from_str_radix(&s, 16).unwrap()
}
