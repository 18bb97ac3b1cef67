//! Random expressions over the whole supported language, for checks that compare two executions.
use crate::query;
use crate::rng::Rng;

pub struct X {
    r: Rng,
    nv: u32,
    scope: Vec<String>,
}

const F0: [&str; 11] = ["position", "last", "name", "local-name", "namespace-uri", "string", "string-length", "normalize-space", "number", "root", "data"];
const F1: [&str; 37] = [
    "avg", "sum", "not",
    "nilled", "string", "data", "abs", "ceiling", "floor", "round", "number", "codepoints-to-string", "string-to-codepoints", "string-join",
    "string-length", "normalize-space", "upper-case", "lower-case", "boolean", "not", "name", "local-name", "namespace-uri", "lang", "root",
    "empty", "exists", "head", "tail", "reverse", "zero-or-one", "one-or-more", "exactly-one", "count", "max", "min", "array:flatten",
];
const F2: [&str; 17] = [
    "compare", "codepoint-equal", "concat", "string-join", "substring", "contains", "starts-with", "ends-with", "substring-before",
    "substring-after", "remove", "subsequence", "index-of", "sum", "lang", "max", "for-each",
];
const F3: [&str; 4] = ["translate", "insert-before", "substring", "subsequence"];
const TYPES: [&str; 40] = [
    "xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean", "node()*", "element()*", "item()+", "empty-sequence()", "map(*)", "array(*)",
    "element(a)", "xs:string*", "xs:integer+", "xs:double?", "xs:anyAtomicType*", "xs:numeric", "attribute()*", "attribute(id)", "text()*", "comment()?",
    "processing-instruction()", "processing-instruction(pi)", "document-node()", "document-node(element(a))", "element(*)+", "element(a, xs:untyped)",
    "element(*, xs:anyType)*", "attribute(*, xs:untypedAtomic)", "attribute(id, xs:anySimpleType)", "function(*)", "function(item()*) as xs:boolean",
    "function(xs:string?) as xs:string", "function(xs:integer) as item()*", "map(xs:string, xs:integer)", "map(xs:integer, item()*)", "array(xs:integer)",
    "array(item()*)", "(xs:integer)", "item()*",
];
const CASTS: [&str; 9] = ["xs:string", "xs:integer", "xs:decimal", "xs:double", "xs:boolean", "xs:integer?", "string", "double?", "integer"];
const REFS: [&str; 20] = [
    "abs#1", "name#1", "name#0", "count#1", "string#1", "concat#2", "concat#3", "contains#2", "max#1", "map:size#1", "array:size#1", "exists#1", "not#1",
    "upper-case#1", "string-length#1", "local-name#1", "fn:round#1", "sum#1", "reverse#1", "no-such#1",
];
const LITS: [&str; 22] = [
    "0", "1", "2", "3", "-1", "1.5", "0.0", "2e0", "1e-3", "\"\"", "\"a\"", "\"b c\"", "'x'", "\"12\"", "true()", "false()", "()", "\"é漢\"", "\"en\"", "10",
    "\"NaN\"", "'v'",
];

impl X {
    fn e(&mut self, d: usize) -> String {
        if d == 0 {
            return self.leaf();
        }
        let n = d - 1;
        match self.r.below(38) {
            0..=3 => self.path(d),
            4 => self.leaf(),
            5 => format!("{}()", self.r.pick(&F0[..])),
            6..=9 => format!("{}({})", self.r.pick(&F1[..]).to_string(), self.e(n)),
            10 | 11 => {
                let f = *self.r.pick(&F2[..]);
                if f == "for-each" {
                    let v = self.var();
                    let a = self.e(n);
                    self.scope.push(v.clone());
                    let b = self.e(n);
                    self.scope.pop();
                    return format!("{}({}, function(${}) {{ {} }})", self.r.pick(&["for-each", "filter"]), a, v, b);
                }
                format!("{}({}, {})", f, self.e(n), self.e(n))
            }
            12 => format!("{}({}, {}, {})", self.r.pick(&F3[..]), self.e(n), self.e(n), self.e(n)),
            13 | 14 => {
                let op = *self.r.pick(&["+", "-", "*", "div", "idiv", "mod"]);
                format!("({} {} {})", self.e(n), op, self.e(n))
            }
            15 | 16 => {
                let op = *self.r.pick(&["=", "!=", "<", "<=", ">", ">=", "eq", "ne", "lt", "le", "gt", "ge", "is", "<<", ">>"]);
                format!("({} {} {})", self.e(n), op, self.e(n))
            }
            17 => format!("({} {} {})", self.e(n), *self.r.pick(&["and", "or"]), self.e(n)),
            18 => format!("({} {} {})", self.path(n), *self.r.pick(&["|", "union", "intersect", "except"]), self.path(n)),
            19 => format!("({}, {})", self.e(n), self.e(n)),
            20 => format!("({} to {})", self.r.range(0, 3), self.r.range(0, 6)),
            21 => {
                let v = self.var();
                let a = self.e(n);
                self.scope.push(v.clone());
                let b = self.e(n);
                self.scope.pop();
                match self.r.below(4) {
                    0 => format!("(for ${} in {} return {})", v, a, b),
                    1 => format!("(let ${} := {} return {})", v, a, b),
                    2 => format!("(some ${} in {} satisfies {})", v, a, b),
                    _ => format!("(every ${} in {} satisfies {})", v, a, b),
                }
            }
            22 => format!("(if ({}) then {} else {})", self.e(n), self.e(n), self.e(n)),
            23 => format!("({} {} {})", self.e(n), *self.r.pick(&["instance of"]), self.r.pick(&TYPES[..])),
            24 => format!("({} {} {})", self.e(n), *self.r.pick(&["cast as", "castable as"]), self.r.pick(&CASTS[..])),
            25 => {
                let many = self.r.chance(1, 4);
                let k = if many { self.r.range(5, 20) } else { self.r.below(4) };
                let mut s = String::from("map{");
                for i in 0..k {
                    if i > 0 {
                        s += ", ";
                    }
                    if many {
                        let key = match self.r.below(4) {
                            0 => format!("{}", i),
                            1 => format!("{}.5", i),
                            2 => format!("\"é{}\"", i),
                            _ => format!("\"k{}\"", i),
                        };
                        s += &format!("{}: {}", key, self.leaf());
                        continue;
                    }
                    s += &format!("{}: {}", self.r.pick(&["\"k\"", "1", "\"z\"", "2", "\"é\""]), self.e(n.min(1)));
                }
                s += "}";
                match self.r.below(6) {
                    0 => s,
                    1 => format!("map:keys({})", s),
                    2 => format!("map:size({})", s),
                    3 => format!("map:get({}, \"k\")", s),
                    4 => format!("map:contains({}, {})", s, self.leaf()),
                    _ if many && self.r.chance(1, 2) => format!("(map:keys({}) ! string(.))", s),
                    _ => format!("{}?*", s),
                }
            }
            26 => {
                let s = if self.r.chance(1, 5) {
                    let k = self.r.range(3, 20);
                    let v: Vec<String> = (0..k).map(|_| self.leaf()).collect();
                    format!("[{}]", v.join(", "))
                } else if self.r.chance(1, 2) { format!("[{}, {}]", self.e(n.min(1)), self.e(n.min(1))) } else { format!("array{{ {} }}", self.e(n)) };
                match self.r.below(5) {
                    0 => s,
                    1 => format!("array:size({})", s),
                    2 => format!("array:get({}, {})", s, self.r.range(0, 3)),
                    3 => format!("array:flatten({})", s),
                    _ => format!("{}?1", s),
                }
            }
            27 => {
                let v = self.var();
                self.scope.push(v.clone());
                let b = self.e(n);
                self.scope.pop();
                format!("(function(${}) {{ {} }})({})", v, b, self.e(n))
            }
            28 => format!("({})[{}]", self.e(n), self.e(n.min(1))),
            29 => format!("({} || {})", self.e(n), self.e(n)),
            30 => format!("({}{})", *self.r.pick(&["-", "+", "--"]), self.e(n)),
            31 => match self.r.below(4) {
                0 => format!("{}({})", self.r.pick(&REFS[..]).to_string(), self.e(n)),
                1 => format!("{}({}, {})", self.r.pick(&REFS[..]).to_string(), self.e(n), self.e(n)),
                2 => format!("for-each({}, {})", self.e(n), self.r.pick(&REFS[..])),
                _ => format!("(let $f := {} return $f({}))", self.r.pick(&REFS[..]).to_string(), self.e(n)),
            },
            32 => {
                let f = *self.r.pick(&F2[..16]);
                let a = self.e(n);
                let b = self.e(n);
                match self.r.below(3) {
                    0 => format!("{}(?, {})({})", f, a, b),
                    1 => format!("{}({}, ?)({})", f, a, b),
                    _ => format!("for-each({}, {}({}, ?))", b, f, a),
                }
            }
            33 => {
                let f = *self.r.pick(&["compare", "contains", "starts-with", "ends-with", "substring-before", "substring-after", "index-of", "concat"]);
                let c = self.r.pick(&["\"http://www.w3.org/2005/xpath-functions/collation/codepoint\"", "\"none\"", "'c'"]).to_string();
                format!("{}({}, {}, {})", f, self.e(n), self.e(n), c)
            }
            34 => {
                let (v, t) = (self.var(), self.r.pick(&TYPES[..]).to_string());
                self.scope.push(v.clone());
                let b = self.e(n);
                self.scope.pop();
                let w = self.var();
                match self.r.below(4) {
                    0 => format!("(function(${} as {}) {{ {} }})({})", v, t, b, self.e(n)),
                    1 => format!("(function(${}) as {} {{ {} }})({})", v, t, b, self.e(n)),
                    2 => format!("(function(${}, ${}) {{ {} }})({}, {})", v, w, b, self.e(n), self.e(n)),
                    _ => format!("(function(${} as {}) {{ {} }} instance of {})", v, t, b, self.r.pick(&TYPES[..])),
                }
            }
            35 => match self.r.below(5) {
                0 => format!("({} treat as {})", self.e(n), self.r.pick(&TYPES[..])),
                1 => format!("({} ! ?{})", self.mapx(n), self.r.pick(&["k", "1", "*", "(1)", "(\"z\", 2)"])),
                2 => format!("{}({})", self.mapx(n), self.leaf()),
                3 => format!("{}?{}", self.mapx(n), self.r.pick(&["k", "z", "1", "(\"k\")", "*"])),
                _ => format!("[{}]({})", self.e(n), self.r.range(0, 2)),
            },
            37 => {
                // types inside types
                let t = self.nested_type(2);
                match self.r.below(7) {
                    0 => format!("({} instance of {})", self.r.pick(&REFS[..]), t),
                    1 => format!("({} instance of {})", self.mapx(n), t),
                    2 => format!("([{}, {}] instance of {})", self.e(n.min(1)), self.leaf(), t),
                    3 => format!("({} treat as {})", self.r.pick(&REFS[..]), t),
                    4 => {
                        let v = self.var();
                        let a = self.r.pick(&TYPES[..]).to_string();
                        format!("(function(${} as {}) as {} {{ {} }} instance of {})", v, a, self.r.pick(&TYPES[..]).to_string(), self.leaf(), t)
                    }
                    5 => {
                        let v = self.var();
                        format!("(function(${} as {}) {{ ${} instance of {} }})({})", v, t, v, self.nested_type(1), self.r.pick(&REFS[..]))
                    }
                    _ => format!("({} instance of {})", self.e(n), t),
                }
            }
            _ => format!("({} ! {})", self.path(n), self.e(n)),
        }
    }
    fn nested_type(&mut self, d: usize) -> String {
        if d == 0 || self.r.chance(1, 4) {
            return self.r.pick(&TYPES[..]).to_string();
        }
        let k = self.r.below(3);
        let t = match self.r.below(6) {
            0 => format!("map({}, {})", self.r.pick(&["xs:string", "xs:integer", "xs:anyAtomicType"]), self.nested_type(d - 1)),
            1 => format!("array({})", self.nested_type(d - 1)),
            _ => {
                let a: Vec<String> = (0..k).map(|_| self.nested_type(d - 1)).collect();
                format!("function({}) as {}", a.join(", "), self.nested_type(d - 1))
            }
        };
        match self.r.below(5) {
            0 => format!("({})", t),
            1 => format!("({})*", t),
            _ => t,
        }
    }
    fn mapx(&mut self, n: usize) -> String {
        let a = self.e(n.min(1));
        let b = self.e(n.min(1));
        format!("map{{\"k\": {}, 1: {}, \"z\": map{{\"k\": 2, 2: (3, 4)}}}}", a, b)
    }
    fn leaf(&mut self) -> String {
        if !self.scope.is_empty() && self.r.chance(1, 2) {
            return format!("${}", self.scope[self.r.below(self.scope.len())]);
        }
        if self.r.chance(1, 60) {
            return match self.r.below(4) {
                0 => format!("(1 to {})", self.r.range(7, 70)),
                1 => format!("(for $y in 1 to {} return ($y mod 3))", self.r.range(7, 70)),
                2 => format!("string-join(for $y in 1 to {} return \"aé\")", self.r.range(7, 70)),
                _ => format!("(for $y in 1 to {} return //*)", self.r.range(2, 9)),
            };
        }
        match self.r.below(4) {
            0 => ".".to_string(),
            1 => self.path(0),
            _ => self.r.pick(&LITS[..]).to_string(),
        }
    }
    fn path(&mut self, d: usize) -> String {
        let s = self.r.next() >> 24;
        let q = if self.r.chance(1, 3) { query::simple(s as i64) } else { query::make(s as i64, d.min(3) as i64, 0) };
        // variables of the sub-generator are its own: rename to keep scopes apart
        self.nv += 10;
        let t = q.show().replace("$v", &format!("$w{}_", self.nv));
        format!("({})", t)
    }
    fn var(&mut self) -> String {
        self.nv += 1;
        format!("x{}", self.nv)
    }
}

pub fn expr(r: &mut Rng) -> String {
    let mut x = X { r: Rng::new(r.next()), nv: 0, scope: vec![] };
    let d = 1 + x.r.below(3);
    x.e(d)
}

/// An expression hardly different from one seen before, or the same.
pub fn variant(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return " ".into();
    }
    // positions inside string literals
    let mut q = None;
    let mut inside = vec![];
    for (i, x) in c.iter().enumerate() {
        match q {
            None if *x == '"' || *x == '\'' => q = Some(*x),
            Some(y) if y == *x => q = None,
            Some(_) => inside.push(i),
            _ => {}
        }
    }
    let digits: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_digit()).collect();
    let spaces: Vec<usize> = (0..c.len()).filter(|i| c[*i] == ' ').collect();
    match r.below(9) {
        0 => return t.to_string(),
        1 if !digits.is_empty() => {
            let i = *r.pick(&digits);
            c[i] = (b'0' + r.below(10) as u8) as char;
        }
        2 if !spaces.is_empty() => {
            let i = *r.pick(&spaces);
            c.insert(i, *r.pick(&[' ', '\n', '\t']));
        }
        3 if !inside.is_empty() => {
            let i = *r.pick(&inside);
            c[i] = *r.pick(&[' ', 'x', 'é']);
        }
        4 if !inside.is_empty() => {
            let i = *r.pick(&inside);
            c[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
        }
        5 => return format!("{}{}", *r.pick(&[" ", "\n", "  "]), t),
        6 => return format!("({}, {})", *r.pick(&["\"a b\"", "\"a  b\"", "\" a b\"", "\"A b\"", "'a b'", "\"a\tb\""]), t),
        7 => {
            let i = r.below(c.len());
            if c[i].is_ascii_lowercase() {
                c[i] = (b'a' + r.below(26) as u8) as char;
            }
        }
        _ => return format!("{}{}", t, *r.pick(&[" ", "\n", "[1]", "[last()]"])),
    }
    c.into_iter().collect()
}

/// Expressions in error: unknown functions, wrong arity, types, syntax.
pub fn bad(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r
            .pick(&[
                "//a[", "foo(", "no-such-function(1)", "count()", "//a[@id =]", "1 +", "for $x in", "(1, 2) + (3, 4)", "'a' + 1", "\"abc", "/a//", "a b", "1 div 0",
                "exactly-one(())", "map{\"a\":1}(\"b\")", "[1,2](5)", "//*[1 div 0]", "//*[no-such()]", "one-or-more(())", "some $x in //* satisfies ('a' - 1)",
                "for $x in //* return (1 div 0)", "let $x := //* return $x + 1", "(function($a) { 1 div 0 })(1)", "child::", "@", "", "   ", "]", "}", "if (1) then 2",
                "//a[position() = 1][1 idiv 0]", "unknown::a", "$", "1 to 'a'", "'a' cast as xs:integer", "-'a'",
            ])
            .to_string(),
        _ => {
            // damage a good expression
            let mut c: Vec<char> = expr(r).chars().collect();
            for _ in 0..1 + r.below(2) {
                if c.is_empty() {
                    break;
                }
                let i = r.below(c.len());
                match r.below(4) {
                    0 => {
                        c.remove(i);
                    }
                    1 => c.insert(i, *r.pick(&['(', ')', '[', ']', '$', '\'', '"', '/', '@', ',', '{', '}', ':', '?', '!', '#'])),
                    2 => {
                        let k = i;
                        c.truncate(k);
                    }
                    _ => {
                        let j = r.below(c.len());
                        c.swap(i, j);
                    }
                }
            }
            c.into_iter().collect()
        }
    }
}

/// Expressions whose result holds no nodes.
pub fn atomic(r: &mut Rng) -> String {
    r.pick(&[
        "for $x in //* return name($x)", "count(//*)", "//@*/string()", "(1, 2.5, 3e0, \"x\", true())", "data(//*)", "map{\"a\": 1, \"b\": (2, 3)}", "[1, \"x\", [2, 3]]",
        "map:keys(map{\"p\": 1, \"q\": 2, 3: 4})", "string(/)", "reverse(1 to 5)", "string-to-codepoints(\"aé漢\")", "for $x in //* return position()", "//*/name()",
        "for-each(//*, function($a) { local-name($a) })", "array{ //*/name() }", "namespace-uri(/*)", "//* ! count(*)", "sum(for $x in //* return count($x/@*))",
        "every $x in //* satisfies exists($x)", "\"a\" || \"b\"", "concat(name(/*), '-', count(//text()))", "(//*)[1]/@*/string()", "upper-case(name(/*))",
    ])
    .to_string()
}
