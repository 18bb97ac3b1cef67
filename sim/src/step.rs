//! Steps: the unit of a recorded execution, of replay and of minimisation.

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    H(u32, u32), // handle: result k of step id
    N(i64),
    S(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub id: u32,
    pub within: Option<(u32, u32)>, // inside the callback of step .0, visit .1
    pub actor: u32,
    pub op: String,
    pub args: Vec<Arg>,
    pub note: String, // comment, not part of the execution
}

impl Step {
    pub fn new(op: &str, actor: u32, args: Vec<Arg>) -> Step {
        Step { id: 0, within: None, actor, op: op.to_string(), args, note: String::new() }
    }
    pub fn h(&self, i: usize) -> (u32, u32) {
        match self.args.get(i) {
            Some(Arg::H(a, b)) => (*a, *b),
            _ => (u32::MAX, 0),
        }
    }
    pub fn n(&self, i: usize) -> i64 {
        match self.args.get(i) {
            Some(Arg::N(n)) => *n,
            _ => 0,
        }
    }
    pub fn s(&self, i: usize) -> &str {
        match self.args.get(i) {
            Some(Arg::S(s)) => s.as_str(),
            _ => "",
        }
    }
    pub fn to_line(&self) -> String {
        let mut o = format!("{}", self.id);
        if let Some((a, b)) = self.within {
            o += &format!("@{}.{}", a, b);
        }
        o += &format!(" {} {}", self.actor, self.op);
        for a in &self.args {
            match a {
                Arg::H(x, y) => o += &format!(" h{}.{}", x, y),
                Arg::N(n) => o += &format!(" {}", n),
                Arg::S(s) => o += &format!(" {}", quote(s)),
            }
        }
        if !self.note.is_empty() {
            o += &format!("   ;; {}", self.note.replace('\n', "\\n"));
        }
        o
    }
    pub fn parse(line: &str) -> Option<Step> {
        let cs: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut toks: Vec<(String, bool)> = Vec::new();
        while i < cs.len() {
            if cs[i] == ' ' {
                i += 1;
            } else if cs[i] == ';' && i + 1 < cs.len() && cs[i + 1] == ';' {
                break;
            } else if cs[i] == '"' {
                let (s, j) = unquote(&cs, i)?;
                toks.push((s, true));
                i = j;
            } else {
                let mut s = String::new();
                while i < cs.len() && cs[i] != ' ' {
                    s.push(cs[i]);
                    i += 1;
                }
                toks.push((s, false));
            }
        }
        if toks.len() < 3 {
            return None;
        }
        let (idp, within) = match toks[0].0.split_once('@') {
            Some((a, w)) => {
                let (x, y) = w.split_once('.')?;
                (a.to_string(), Some((x.parse().ok()?, y.parse().ok()?)))
            }
            None => (toks[0].0.clone(), None),
        };
        let mut args = Vec::new();
        for (t, q) in &toks[3..] {
            if *q {
                args.push(Arg::S(t.clone()));
            } else if let Some(r) = t.strip_prefix('h') {
                let (x, y) = r.split_once('.')?;
                args.push(Arg::H(x.parse().ok()?, y.parse().ok()?));
            } else {
                args.push(Arg::N(t.parse().ok()?));
            }
        }
        Some(Step {
            id: idp.parse().ok()?,
            within,
            actor: toks[1].0.parse().ok()?,
            op: toks[2].0.clone(),
            args,
            note: String::new(),
        })
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || ((c as u32) >= 0x80 && !c.is_alphanumeric()) => {
                o += &format!("\\u{{{:x}}}", c as u32)
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn unquote(cs: &[char], mut i: usize) -> Option<(String, usize)> {
    let mut s = String::new();
    i += 1;
    while i < cs.len() {
        match cs[i] {
            '"' => return Some((s, i + 1)),
            '\\' => {
                i += 1;
                match cs.get(i)? {
                    'n' => s.push('\n'),
                    'r' => s.push('\r'),
                    't' => s.push('\t'),
                    'u' => {
                        let mut v = String::new();
                        i += 2;
                        while *cs.get(i)? != '}' {
                            v.push(cs[i]);
                            i += 1;
                        }
                        s.push(char::from_u32(u32::from_str_radix(&v, 16).ok()?)?);
                    }
                    c => s.push(*c),
                }
                i += 1;
            }
            c => {
                s.push(c);
                i += 1;
            }
        }
    }
    None
}

/// Bytes as a quoted-safe string: each byte is one char U+0000..U+00FF.
pub fn bytes_to_str(b: &[u8]) -> String {
    b.iter().map(|x| *x as char).collect()
}
pub fn str_to_bytes(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
