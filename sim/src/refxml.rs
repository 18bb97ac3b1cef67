//! Reference reader of XML text, and the generator and writer of well-formed documents.
use crate::model::{Model, K};
use crate::rng::Rng;

pub enum Ref {
    /// well-formed (document type declarations aside): the tree it describes
    Well(Model, usize),
    /// must be rejected, with the reason
    Reject(&'static str),
    /// malformed in a way that may be tolerated: rejected, or read as this tree
    Lenient(Model, usize),
    /// malformed in a way the properties leave open, or ambiguous
    Other,
}

fn name_start(c: char) -> Option<bool> {
    if c.is_ascii() {
        return Some(c.is_ascii_alphabetic() || c == '_' || c == ':');
    }
    match (sure_letter(c), c as u32) {
        (Some(b), _) => Some(b),
        (_, 0xB7 | 0x300..=0x345) => Some(false),
        _ => None,
    }
}
fn name_char(c: char) -> Option<bool> {
    if c.is_ascii() {
        return Some(c.is_ascii_alphanumeric() || c == '_' || c == ':' || c == '.' || c == '-');
    }
    match (sure_letter(c), c as u32) {
        (Some(b), _) => Some(b),
        (_, 0xB7 | 0x300..=0x345 | 0x660..=0x669 | 0x3005) => Some(true),
        _ => None,
    }
}
/// Characters on which the fourth and the fifth edition of XML agree; None for the others.
const LETTERS: [(u32, u32); 36] = [
    (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0xFF), (0x100, 0x131), (0x134, 0x13E), (0x141, 0x148), (0x14A, 0x17E), (0x180, 0x1C3), (0x250, 0x2A8), (0x388, 0x38A),
    (0x3A3, 0x3CE), (0x401, 0x40C), (0x40E, 0x44F), (0x451, 0x45C), (0x531, 0x556), (0x5D0, 0x5EA), (0x621, 0x63A), (0x641, 0x64A), (0x905, 0x939), (0xE01, 0xE2E),
    (0x10A0, 0x10C5), (0x10D0, 0x10F6), (0x1E00, 0x1E9B), (0x1EA0, 0x1EF9), (0x1F00, 0x1F15), (0x1F80, 0x1FB4), (0x2126, 0x2126), (0x212A, 0x212B), (0x3007, 0x3007),
    (0x3021, 0x3029), (0x3041, 0x3094), (0x30A1, 0x30FA), (0x3105, 0x312C), (0x4E00, 0x9FA5), (0xAC00, 0xD7A3), (0x2180, 0x2182),
];
fn sure_letter(c: char) -> Option<bool> {
    let u = c as u32;
    if LETTERS.iter().any(|(a, b)| (*a..=*b).contains(&u)) {
        return Some(true);
    }
    match u {
        0x80..=0xB6 | 0xB8..=0xBF | 0xD7 | 0xF7 | 0x2000..=0x200B | 0x200E..=0x203E | 0xE000..=0xF8FF => Some(false),
        _ => None,
    }
}
/// A name of any characters a name can hold.
pub fn any_name(r: &mut Rng) -> String {
    let letter = |r: &mut Rng| loop {
        let (a, b) = *r.pick(&LETTERS[..]);
        let u = match r.below(3) {
            0 => a,
            1 => b,
            _ => a + r.below((b - a + 1) as usize) as u32,
        };
        if let Some(c) = char::from_u32(u) {
            return c;
        }
    };
    let mut s = String::new();
    s.push(if r.chance(1, 3) { *r.pick(&['_', 'a', 'Z', 'z', 'A']) } else { letter(r) });
    for _ in 0..r.below(4) {
        let c = match r.below(3) {
            0 => letter(r),
            1 => *r.pick(&['.', '-', '_', '0', '9', 'A', 'z']),
            _ => *r.pick(&['\u{b7}', '\u{300}', '\u{345}', '\u{660}', '\u{669}', '\u{3005}']),
        };
        s.push(c);
    }
    s
}
pub fn xml_char(c: char) -> bool {
    let u = c as u32;
    u == 9 || u == 10 || u == 13 || (0x20..=0xD7FF).contains(&u) || (0xE000..=0xFFFD).contains(&u) || u >= 0x10000
}
fn is_s(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r'
}

struct P {
    c: Vec<char>,
    i: usize,
    soft: bool,
    vague: bool,
}

enum Stop {
    Reject(&'static str),
    Other,
}

impl P {
    fn at(&self, s: &str) -> bool {
        let mut j = self.i;
        for x in s.chars() {
            if self.c.get(j) != Some(&x) {
                return false;
            }
            j += 1;
        }
        true
    }
    fn find(&self, s: &str) -> Option<usize> {
        let v: Vec<char> = s.chars().collect();
        let mut j = self.i;
        while j + v.len() <= self.c.len() {
            if self.c[j..j + v.len()] == v[..] {
                return Some(j);
            }
            j += 1;
        }
        None
    }
    /// The tag is malformed here: to be rejected, unless it is because of a character that
    /// editions of XML do not agree on.
    fn malformed(&self) -> Stop {
        match self.c.get(self.i) {
            Some(c) if name_char(*c).is_none() => Stop::Other,
            Some(_) => Stop::Reject("has a malformed tag"),
            None => Stop::Reject("ends inside a tag"),
        }
    }
    fn name(&mut self) -> Result<String, Stop> {
        let mut s = String::new();
        match self.c.get(self.i).map(|c| (*c, name_start(*c))) {
            None => return Err(Stop::Reject("ends inside a tag")),
            Some((c, Some(true))) => s.push(c),
            Some((_, Some(false))) => return Err(Stop::Reject("has a malformed tag")),
            Some((_, None)) => return Err(Stop::Other),
        }
        self.i += 1;
        while let Some(c) = self.c.get(self.i) {
            match name_char(*c) {
                Some(true) => s.push(*c),
                Some(false) => break,
                None => return Err(Stop::Other),
            }
            self.i += 1;
        }
        Ok(s)
    }
    fn skip(&mut self) -> bool {
        let a = self.i;
        while self.i < self.c.len() && is_s(self.c[self.i]) {
            self.i += 1;
        }
        self.i > a
    }
    fn text(&mut self, s: &[char]) -> String {
        let mut o = String::new();
        let mut i = 0;
        while i < s.len() {
            let c = s[i];
            if !xml_char(c) {
                self.soft = true;
            }
            if c == '&' {
                if let Some(e) = s[i..].iter().position(|x| *x == ';') {
                    let body: String = s[i + 1..i + e].iter().collect();
                    let d = match body.as_str() {
                        "lt" => Some('<'),
                        "gt" => Some('>'),
                        "amp" => Some('&'),
                        "quot" => Some('"'),
                        "apos" => Some('\''),
                        b => {
                            let n = if let Some(h) = b.strip_prefix("#x") {
                                if !h.is_empty() && h.chars().all(|c| c.is_ascii_hexdigit()) { u32::from_str_radix(h, 16).ok() } else { None }
                            } else if let Some(h) = b.strip_prefix('#') {
                                if !h.is_empty() && h.chars().all(|c| c.is_ascii_digit()) { h.parse::<u32>().ok() } else { None }
                            } else {
                                None
                            };
                            n.and_then(char::from_u32).filter(|c| xml_char(*c))
                        }
                    };
                    if let Some(d) = d {
                        o.push(d);
                        i += e + 1;
                        continue;
                    }
                }
                self.soft = true;
                if s.get(i + 1) == Some(&'#') {
                    self.vague = true;
                }
            }
            o.push(c);
            i += 1;
        }
        o
    }
    fn raw(&mut self, a: usize, b: usize) -> String {
        for c in &self.c[a..b] {
            if !xml_char(*c) {
                self.soft = true;
            }
        }
        self.c[a..b].iter().collect()
    }
    fn doc(&mut self) -> Result<(Model, usize), Stop> {
        let mut m = Model::new();
        let root = m.make(K::Root, "", "");
        let mut cur = root;
        let mut roots = 0;
        loop {
            if self.i >= self.c.len() {
                if cur != root {
                    return Err(Stop::Reject("ends with unclosed elements"));
                }
                if roots != 1 {
                    self.soft = true;
                }
                return Ok((m, root));
            }
            if self.c[self.i] != '<' {
                let a = self.i;
                while self.i < self.c.len() && self.c[self.i] != '<' {
                    self.i += 1;
                }
                let s: Vec<char> = self.c[a..self.i].to_vec();
                if s.windows(3).any(|w| w == [']', ']', '>']) {
                    self.soft = true;
                }
                if cur == root && s.iter().any(|c| !is_s(*c)) {
                    self.soft = true;
                }
                let t = self.text(&s);
                let n = m.make(K::Text, "", &t);
                m.push_kid(cur, n);
                continue;
            }
            if self.at("</") {
                self.i += 2;
                let nm = self.name()?;
                self.skip();
                match self.c.get(self.i) {
                    None => return Err(Stop::Reject("ends inside an end tag")),
                    Some('>') => self.i += 1,
                    _ => return Err(self.malformed()),
                }
                if cur == root {
                    return Err(Stop::Reject("end tag without a start tag"));
                }
                if m.n[cur].name != nm {
                    return Err(Stop::Reject("elements are not closed in order"));
                }
                cur = m.n[cur].parent.unwrap();
            } else if self.at("<?") {
                self.i += 2;
                if self.find("?>").is_none() {
                    return Err(Stop::Reject("ends inside a processing instruction"));
                }
                let pos = self.i - 2;
                let nm = match self.name() {
                    Ok(n) => n,
                    Err(Stop::Reject(_)) => return Err(Stop::Reject("has a processing instruction without a name")),
                    Err(e) => return Err(e),
                };
                if !self.skip() && !self.at("?>") {
                    return Err(Stop::Other);
                }
                let e = match self.find("?>") {
                    Some(e) => e,
                    None => return Err(Stop::Reject("ends inside a processing instruction")),
                };
                let v = self.raw(self.i, e);
                self.i = e + 2;
                let k = if nm == "xml" { K::Decl } else { K::Pi };
                if nm.eq_ignore_ascii_case("xml") && (pos != 0 || nm != "xml" || !v.starts_with("version=")) {
                    self.soft = true;
                }
                let n = m.make(k, &nm, &v);
                m.push_kid(cur, n);
            } else if self.at("<!--") {
                self.i += 4;
                match self.find("-->") {
                    None => return Err(Stop::Reject("ends inside a comment")),
                    Some(e) => {
                        let v = self.raw(self.i, e);
                        if v.contains("--") || v.ends_with('-') {
                            self.soft = true;
                        }
                        self.i = e + 3;
                        let n = m.make(K::Comment, "", &v);
                        m.push_kid(cur, n);
                    }
                }
            } else if self.at("<![CDATA[") {
                self.i += 9;
                match self.find("]]>") {
                    None => return Err(Stop::Reject("ends inside a CDATA section")),
                    Some(e) => {
                        let v = self.raw(self.i, e);
                        self.i = e + 3;
                        if cur == root {
                            self.soft = true;
                        }
                        let n = m.make(K::Text, "", &v);
                        m.push_kid(cur, n);
                    }
                }
            } else if self.at("<!") {
                let rest = &self.c[self.i..];
                let pre: String = rest.iter().take(9).collect();
                if rest.len() < 9 && ("<![CDATA[".starts_with(&pre) || "<!--".starts_with(&pre)) {
                    return Err(Stop::Reject("ends inside a comment or CDATA section"));
                }
                if self.at("<![") || self.at("<!-") {
                    return Err(Stop::Other);
                }
                let doctype = self.at("<!DOCTYPE");
                let mut level = 0;
                let mut j = self.i;
                let mut done = false;
                while j < self.c.len() {
                    match self.c[j] {
                        '<' => {
                            level += 1;
                            let nx: String = self.c[j..].iter().take(4).collect();
                            if j > self.i && (nx == "<!--" || nx.starts_with("<?") || nx.starts_with("<![") || !nx.starts_with("<!")) {
                                return Err(Stop::Other);
                            }
                        }
                        '>' => {
                            level -= 1;
                            if level == 0 {
                                done = true;
                                break;
                            }
                        }
                        '"' | '\'' => return Err(Stop::Other),
                        _ => {}
                    }
                    j += 1;
                }
                if !done {
                    return Err(Stop::Reject("ends inside a declaration"));
                }
                if !doctype || cur != root || roots > 0 {
                    self.soft = true;
                }
                let body: String = self.c[self.i..j].iter().collect();
                if body.contains("ENTITY") || body.contains("ATTLIST") {
                    return Err(Stop::Other);
                }
                self.i = j + 1;
            } else {
                self.i += 1;
                let nm = self.name()?;
                let el = m.make(K::Elem, &nm, "");
                if cur == root {
                    roots += 1;
                }
                m.push_kid(cur, el);
                let mut empty = false;
                loop {
                    let sp = self.skip();
                    match self.c.get(self.i) {
                        None => return Err(Stop::Reject("ends inside a start tag")),
                        Some('>') => {
                            self.i += 1;
                            break;
                        }
                        Some('/') => match self.c.get(self.i + 1) {
                            None => return Err(Stop::Reject("ends inside a start tag")),
                            Some('>') => {
                                self.i += 2;
                                empty = true;
                                break;
                            }
                            _ => return Err(self.malformed()),
                        },
                        _ => {}
                    }
                    if !sp {
                        // no space between attributes: how the tag goes on is anybody's guess
                        return Err(self.malformed());
                    }
                    let an = self.name()?;
                    self.skip();
                    match self.c.get(self.i) {
                        None => return Err(Stop::Reject("ends inside a start tag")),
                        Some('=') => self.i += 1,
                        _ => return Err(self.malformed()),
                    }
                    self.skip();
                    let q = match self.c.get(self.i) {
                        None => return Err(Stop::Reject("ends inside a start tag")),
                        Some(q) if *q == '"' || *q == '\'' => *q,
                        _ => return Err(self.malformed()),
                    };
                    self.i += 1;
                    let a = self.i;
                    while self.i < self.c.len() && self.c[self.i] != q {
                        self.i += 1;
                    }
                    if self.i >= self.c.len() {
                        return Err(Stop::Reject("ends inside a quoted value"));
                    }
                    let s: Vec<char> = self.c[a..self.i].to_vec();
                    self.i += 1;
                    if s.contains(&'<') {
                        self.soft = true;
                    }
                    if s.iter().any(|c| *c == '\n' || *c == '\t') {
                        self.vague = true;
                    }
                    let v = self.text(&s);
                    if m.attr_index(el, &an).is_some() {
                        self.soft = true;
                    }
                    let at = m.make(K::Attr, &an, &v);
                    m.push_attr(el, at);
                }
                if !empty {
                    cur = el;
                }
            }
        }
    }
}

pub fn read(t: &str) -> Ref {
    if t.contains('\0') {
        return Ref::Reject("contains U+0000");
    }
    let n = t.replace("\r\n", "\n").replace('\r', "\n");
    let mut p = P { c: n.chars().collect(), i: 0, soft: false, vague: false };
    match p.doc() {
        Err(Stop::Reject(r)) => Ref::Reject(r),
        Err(Stop::Other) => Ref::Other,
        Ok((m, r)) => {
            if p.vague {
                Ref::Other
            } else if p.soft {
                Ref::Lenient(m, r)
            } else {
                Ref::Well(m, r)
            }
        }
    }
}

// ---------------------------------------------------------------- generator
pub const ENAMES: [&str; 9] = ["a", "b", "c", "d", "e", "item", "n:a", "n:b", "m:x"];
pub const ANAMES: [&str; 8] = ["id", "x", "y", "v", "n:id", "xml:lang", "k-1", "m:y"];
pub const UNAMES: [&str; 4] = ["段落", "été", "_u.1", "ns:値"];

pub struct DocOpt {
    pub nodes: usize,
    pub depth: usize,
    pub rich: bool,   // comments, PIs, odd characters, CDATA
    pub adjacent: bool, // adjacent and empty text nodes
    pub plain_names: bool,
    pub scale: usize, // one document in this many has one outsized part; 0: none
}

const PIECES: [&str; 34] = [
    "x", "word", "a & b", "<tag>", "]]", "é", "漢字", "😀", " ", "\n", "\t", "12", "&amp;", "&#13;", "'", "\"", "]]>",
    "\u{a0}", "\u{e000}", "\u{fffd}", "\u{10ffff}", "\u{85}", "\u{2028}", "\u{7f}", "ﬀ", "İ", "-", "--", "?>", "&", ";", "&lt;", "=", "/>",
];

pub fn text_value(r: &mut Rng, rich: bool) -> String {
    if !rich {
        return r.pick(&["x", "yy", "t1", "word", "z z", "7"]).to_string();
    }
    let n = 1 + r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 14) {
            s.push('\r');
        } else if r.chance(1, 20) {
            s.push_str("\r\n");
        } else if r.chance(1, 12) {
            // any XML character
            loop {
                let u = match r.below(4) {
                    0 => r.below(0x80) as u32,
                    1 => r.below(0x800) as u32,
                    2 => r.below(0x10000) as u32,
                    _ => r.below(0x110000) as u32,
                };
                if let Some(c) = char::from_u32(u) {
                    if xml_char(c) {
                        s.push(c);
                        break;
                    }
                }
            }
        } else {
            s.push_str(r.pick(&PIECES[..]));
        }
    }
    s
}

pub fn gen_attr_value(r: &mut Rng, rich: bool) -> String {
    if r.chance(1, 10) {
        return String::new();
    }
    if rich && r.chance(1, 2) {
        text_value(r, true)
    } else {
        r.pick(&["v", "w", "u1", "1", "true", "en", "http://n", "http://q"]).to_string()
    }
}

pub fn ename(r: &mut Rng, o: &DocOpt) -> String {
    if !o.plain_names && r.chance(1, 30) {
        any_name(r)
    } else if !o.plain_names && r.chance(1, 12) {
        r.pick(&UNAMES[..]).to_string()
    } else {
        let w = [6, 6, 5, 3, 2, 1, 2, 1, 1];
        ENAMES[r.weighted(&w)].to_string()
    }
}

/// A random document tree that `write` can write.
pub fn gen(r: &mut Rng, o: &DocOpt) -> (Model, usize) {
    let mut m = Model::new();
    let root = m.make(K::Root, "", "");
    if r.chance(1, 4) {
        let d = m.make(K::Decl, "xml", *r.pick(&["version=\"1.0\"", "version='1.0' encoding='UTF-8'", "version=\"1.0\" "]));
        m.push_kid(root, d);
    }
    if o.rich && r.chance(1, 4) {
        misc(r, &mut m, root);
    }
    let mut left = o.nodes.max(1) as i64;
    let e = elem(r, &mut m, o, &mut left, 1);
    m.push_kid(root, e);
    // fill until the wanted size is reached
    let mut guard = 0;
    while left > 0 && guard < 10 * o.nodes + 10 {
        guard += 1;
        let cands: Vec<usize> = (0..m.n.len()).filter(|i| m.n[*i].k == K::Elem && m.path(*i).len() < o.depth).collect();
        if cands.is_empty() {
            break;
        }
        let p = *r.pick(&cands);
        let dp = m.path(p).len() + 1;
        let c = elem(r, &mut m, o, &mut left, dp);
        m.push_kid(p, c);
    }
    if o.rich && r.chance(1, 4) {
        misc(r, &mut m, root);
    }
    if o.scale > 0 && r.chance(1, o.scale) {
        enlarge(r, &mut m, root, o.rich);
    }
    (m, root)
}

const SIZES: [usize; 16] = [33, 64, 100, 128, 255, 256, 500, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536];
/// A size, often just around a power of two.
pub fn big_size(r: &mut Rng) -> usize {
    let a = *r.pick(&SIZES[..]);
    match r.below(3) {
        0 => a + r.below(4) - 2,
        1 => a,
        _ => a + r.below(a),
    }
}
/// `n` characters, some of them longer than a byte.
pub fn big_value(r: &mut Rng, n: usize) -> String {
    let unit = *r.pick(&["x", "xy z ", "é", "漢", "x漢", "😀a", "abcdefg\n"]);
    let mut s: String = unit.chars().cycle().take(n).collect();
    if r.chance(1, 2) {
        s.push_str(r.pick(&["&", "<", "end", " ", "é"]));
    }
    if r.chance(1, 3) {
        s.insert(0, *r.pick(&['é', ' ', 'q']));
    }
    // something special far from both ends
    for _ in 0..[0, 1, 1, 3][r.below(4)] {
        let k = r.below(s.len());
        if let Some(k) = (k..s.len()).find(|k| s.is_char_boundary(*k)) {
            s.insert_str(k, r.pick(&["&", "<", ">", "\"", "'", "&amp;", "\n\n", "\u{1F600}"]));
        }
    }
    s
}
/// Makes one part of the document far larger than the rest.
fn enlarge(r: &mut Rng, m: &mut Model, root: usize, rich: bool) {
    let mut ids = vec![];
    m.doc_order(root, &mut ids);
    let of = |m: &Model, k: K| -> Vec<usize> { ids.iter().copied().filter(|i| m.n[*i].k == k).collect() };
    let elems = of(m, K::Elem);
    let e = *r.pick(&elems);
    let n = big_size(r);
    match r.below(10) {
        9 => {
            // many levels
            let mut p = e;
            let levels = if rich { n.min(400) } else { n.min(150) };
            for i in 0..levels {
                let c = m.make(K::Elem, if i % 50 == 7 { "n:a" } else { *r.pick(&["a", "b", "c"]) }, "");
                m.push_kid(p, c);
                p = c;
            }
        }
        0..=2 => {
            let t = of(m, K::Text).into_iter().filter(|t| m.n[*t].parent != Some(root)).collect::<Vec<_>>();
            let v = big_value(r, n);
            match t.is_empty() {
                false => {
                    let t = *r.pick(&t);
                    m.n[t].value = v;
                }
                true => {
                    let t = m.make(K::Text, "", &v);
                    m.push_kid(e, t);
                }
            }
        }
        3 | 4 => {
            let a = of(m, K::Attr).into_iter().filter(|a| !m.n[*a].name.starts_with("xmlns")).collect::<Vec<_>>();
            if !a.is_empty() {
                let a = *r.pick(&a);
                m.n[a].value = big_value(r, n);
            }
        }
        5 => {
            let c = of(m, K::Comment).into_iter().chain(of(m, K::Pi)).collect::<Vec<_>>();
            if !c.is_empty() {
                let c = *r.pick(&c);
                m.n[c].value = big_value(r, n).replace(|x| x == '<' || x == '&' || x == '\n', "c").trim().to_string();
            }
        }
        6 => {
            // many attributes
            for i in 0..n.min(300) {
                if m.attr_index(e, &format!("z{}", i)).is_some() {
                    continue;
                }
                let a = m.make(K::Attr, &format!("z{}", i), *r.pick(&["v", "w", "é"]));
                m.push_attr(e, a);
            }
        }
        7 => {
            // a long name
            if !m.n[e].name.contains(':') {
                m.n[e].name = format!("n{}", "abc".chars().cycle().take(n.min(5000)).collect::<String>());
            }
        }
        _ => {
            // many small children
            for i in 0..n.min(if rich { 400 } else { 100 }) {
                let c = match i % 3 {
                    0 => m.make(K::Elem, "b", ""),
                    1 => m.make(K::Text, "", "x"),
                    _ => m.make(K::Comment, "", "c"),
                };
                if !(m.n[c].k == K::Text && m.n[e].kids.last().map_or(false, |l| m.n[*l].k == K::Text)) {
                    m.push_kid(e, c);
                }
            }
        }
    }
}

fn misc(r: &mut Rng, m: &mut Model, p: usize) {
    let n = match r.below(4) {
        0 => m.make(K::Comment, "", comment(r).as_str()),
        1 => m.make(K::Pi, *r.pick(&PITS[..]), *r.pick(&["", "x", "a=\"1\" ", "x?", "<b>", "?", "??", "> <?x", "&amp;"])),
        _ => {
            if let Some(l) = m.n[p].kids.last() {
                if m.n[*l].k == K::Text {
                    return;
                }
            }
            m.make(K::Text, "", *r.pick(&["\n", " ", "\n  \n"]))
        }
    };
    m.push_kid(p, n);
}
pub const PITS: [&str; 10] = ["pi", "php", "pi", "php", "t-1", "xml-stylesheet", "xmlx", "P.2", "p:i", "é"];
fn comment(r: &mut Rng) -> String {
    r.pick(&["", "c", " note ", "<a>", "&amp;", "a-b", "]]>", "?", "é\n", "<!-", ">", "->", "- -", "a->b", "- >", "?>", "-x-"]).to_string().trim_end_matches('-').to_string()
}

fn elem(r: &mut Rng, m: &mut Model, o: &DocOpt, left: &mut i64, depth: usize) -> usize {
    *left -= 1;
    let nm = ename(r, o);
    let e = m.make(K::Elem, &nm, "");
    let na = [0, 0, 1, 1, 2, 3][r.below(6)];
    for _ in 0..na {
        let an = if !o.plain_names && r.chance(1, 25) {
            any_name(r)
        } else if r.chance(1, 9) { r.pick(&["xmlns", "xmlns:n", "xmlns:m", "xmlns", "xmlns:n", "xmlns:m", "xsi:nil"]).to_string() } else { r.pick(&ANAMES[..]).to_string() };
        if m.attr_index(e, &an).is_some() {
            continue;
        }
        let v = if an == "xsi:nil" { r.pick(&["true", "false", "1", "true"]).to_string() } else { gen_attr_value(r, o.rich) };
        let a = m.make(K::Attr, &an, &v);
        m.push_attr(e, a);
        *left -= 1;
    }
    let nk = if depth >= o.depth { 0 } else { [0, 1, 2, 2, 3, 4][r.below(6)] };
    for _ in 0..nk {
        if *left <= 0 {
            break;
        }
        match r.below(10) {
            0..=4 => {
                let c = elem(r, m, o, left, depth + 1);
                m.push_kid(e, c);
            }
            5..=7 => {
                text(r, m, o, e);
                *left -= 1;
            }
            8 => {
                let c = m.make(K::Comment, "", &comment(r));
                m.push_kid(e, c);
                *left -= 1;
            }
            _ => {
                let c = m.make(K::Pi, *r.pick(&PITS[..]), *r.pick(&["", "x", "y z"]));
                m.push_kid(e, c);
                *left -= 1;
            }
        }
    }
    e
}

fn text(r: &mut Rng, m: &mut Model, o: &DocOpt, e: usize) {
    let prev = m.n[e].kids.last().map_or(false, |l| m.n[*l].k == K::Text);
    if prev && !o.adjacent {
        return;
    }
    let mut v = if o.adjacent && r.chance(1, 12) { String::new() } else { text_value(r, o.rich) };
    if (prev || v.is_empty()) && !cdata_ok(&v) {
        v = "q".to_string();
    }
    let t = m.make(K::Text, "", &v);
    m.push_kid(e, t);
}

fn cdata_ok(v: &str) -> bool {
    !v.contains("]]>") && !v.contains('\r')
}

// ---------------------------------------------------------------- writer
/// Writes a tree in a random but equivalent notation. None if adjacent texts cannot be kept apart.
pub fn write(m: &Model, top: usize, r: &mut Rng, plain: bool) -> Option<String> {
    let mut o = String::new();
    if m.n[top].k == K::Root {
        write_kids(m, top, r, plain, &mut o)?;
    } else {
        write_node(m, top, r, plain, &mut o, false)?;
    }
    Some(o)
}

fn write_kids(m: &Model, p: usize, r: &mut Rng, plain: bool, o: &mut String) -> Option<()> {
    let mut prev_normal = false;
    let kids = &m.n[p].kids;
    for (i, k) in kids.iter().enumerate() {
        if m.n[*k].k == K::Text {
            let v = &m.n[*k].value;
            // a text that cannot be CDATA must not follow plain text: look one ahead
            let next_needs = kids.get(i + 1).map_or(false, |x| m.n[*x].k == K::Text && !cdata_ok(&m.n[*x].value));
            let must = prev_normal || v.is_empty() || next_needs;
            if must && !cdata_ok(v) {
                return None;
            }
            if must || (!plain && cdata_ok(v) && m.n[p].k != K::Root && r.chance(1, 4)) {
                *o += "<![CDATA[";
                for c in v.chars() {
                    if c == '\n' && !plain && r.chance(1, 4) {
                        *o += "\r\n";
                    } else {
                        o.push(c);
                    }
                }
                *o += "]]>";
                prev_normal = false;
            } else {
                write_text(v, r, plain || m.n[p].k == K::Root, None, o);
                prev_normal = true;
            }
        } else {
            prev_normal = false;
            if m.n[*k].k == K::Elem && m.n[p].k == K::Root && !plain && r.chance(1, 8) {
                *o += r.pick(&["<!DOCTYPE a>", "<!DOCTYPE a [ <!ELEMENT a (b|c)*> ]>", "<!DOCTYPE é [<!ELEMENT b EMPTY><!ELEMENT c ANY>]>"]);
            }
            write_node(m, *k, r, plain, o, false)?;
        }
    }
    Some(())
}

fn write_node(m: &Model, i: usize, r: &mut Rng, plain: bool, o: &mut String, _x: bool) -> Option<()> {
    let n = &m.n[i];
    match n.k {
        K::Root => write_kids(m, i, r, plain, o)?,
        K::Elem => {
            o.push('<');
            *o += &n.name;
            for a in &n.attrs {
                *o += if plain || r.chance(4, 5) { " " } else { *r.pick(&["  ", "\n", "\t", "\r\n "]) };
                *o += &m.n[*a].name;
                *o += if plain || r.chance(5, 6) { "=" } else { *r.pick(&[" =", "= ", " = ", "\n=\n"]) };
                let q = if plain || r.chance(2, 3) { '"' } else { '\'' };
                o.push(q);
                write_text(&m.n[*a].value, r, plain, Some(q), o);
                o.push(q);
            }
            if !plain && r.chance(1, 8) {
                o.push(' ');
            }
            if n.kids.is_empty() && (plain || r.chance(2, 3)) {
                *o += "/>";
            } else {
                o.push('>');
                write_kids(m, i, r, plain, o)?;
                *o += "</";
                *o += &n.name;
                if !plain && r.chance(1, 8) {
                    o.push(' ');
                }
                o.push('>');
            }
        }
        K::Text => {
            if n.value.is_empty() {
                *o += "<![CDATA[]]>";
            } else {
                write_text(&n.value, r, plain, None, o);
            }
        }
        K::Comment => *o += &format!("<!--{}-->", n.value),
        K::Decl | K::Pi => {
            *o += "<?";
            *o += &n.name;
            if !n.value.is_empty() || (!plain && r.chance(1, 3)) {
                o.push(' ');
            }
            *o += &n.value;
            *o += "?>";
        }
        K::Attr => return None,
    }
    Some(())
}

fn write_text(v: &str, r: &mut Rng, plain: bool, quote: Option<char>, o: &mut String) {
    let mut two = [' ', ' '];
    for c in v.chars() {
        let raw_ok = match c {
            '&' | '<' | '\r' => false,
            '>' => quote.is_some() || two != [']', ']'],
            '\n' | '\t' => quote.is_none(),
            c => Some(c) != quote,
        };
        two = [two[1], c];
        if raw_ok && (plain || r.chance(15, 16)) {
            if c == '\n' && !plain && r.chance(1, 4) {
                *o += if r.chance(1, 2) { "\r\n" } else { "\r" };
            } else {
                o.push(c);
            }
            continue;
        }
        let ent = match c {
            '&' => "&amp;",
            '<' => "&lt;",
            '>' => "&gt;",
            '"' => "&quot;",
            '\'' => "&apos;",
            _ => "",
        };
        if !ent.is_empty() && (plain || r.chance(2, 3)) {
            *o += ent;
        } else {
            match r.below(3) {
                0 => *o += &format!("&#{};", c as u32),
                1 => *o += &format!("&#x{:x};", c as u32),
                _ => {
                    let w = if r.chance(1, 12) { r.range(5, 12) } else { 4 };
                    if w > 4 && r.chance(1, 2) {
                        *o += &format!("&#{:0w$};", c as u32, w = w);
                    } else {
                        *o += &format!("&#x{:0w$X};", c as u32, w = w);
                    }
                }
            }
        }
    }
}

/// A well-formed document and its tree.
pub fn gen_doc(r: &mut Rng, o: &DocOpt) -> (String, Model, usize) {
    loop {
        let (m, root) = gen(r, o);
        if let Some(t) = write(&m, root, r, false) {
            match read(&t) {
                Ref::Well(m2, r2) => {
                    // "\r" raw followed by "\n" from two different characters folds; such a text is simply another document
                    return (t, m2, r2);
                }
                // the parts do not fit together (two parts of one name, say): another document
                Ref::Reject(_) | Ref::Other | Ref::Lenient(..) => continue,
            }
        }
    }
}
