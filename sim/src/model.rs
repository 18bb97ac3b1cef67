//! The reference model: a plain ordered tree, and the text forms the library documents.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Root,
    Elem,
    Text,
    Comment,
    Decl,
    Pi,
    Attr,
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub k: K,
    pub name: String,
    pub value: String,
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
    pub attrs: Vec<usize>,
    pub alive: bool,
}

#[derive(Clone, Default)]
pub struct Model {
    pub n: Vec<MNode>,
}

impl Model {
    pub fn new() -> Model {
        Model { n: Vec::new() }
    }
    pub fn make(&mut self, k: K, name: &str, value: &str) -> usize {
        self.n.push(MNode { k, name: name.to_string(), value: value.to_string(), parent: None, kids: vec![], attrs: vec![], alive: true });
        self.n.len() - 1
    }
    pub fn push_kid(&mut self, p: usize, c: usize) {
        self.n[p].kids.push(c);
        self.n[c].parent = Some(p);
    }
    pub fn push_attr(&mut self, p: usize, c: usize) {
        self.n[p].attrs.push(c);
        self.n[c].parent = Some(p);
    }
    pub fn parent(&self, i: usize) -> Option<usize> {
        match self.n[i].parent {
            Some(p) if self.n[p].alive => Some(p),
            _ => None,
        }
    }
    pub fn top(&self, mut i: usize) -> usize {
        while let Some(p) = self.parent(i) {
            i = p;
        }
        i
    }
    pub fn root_element(&self, i: usize) -> usize {
        let t = self.top(i);
        if self.n[t].k == K::Elem {
            return t;
        }
        for c in &self.n[t].kids {
            if self.n[*c].k == K::Elem {
                return *c;
            }
        }
        t
    }
    /// Marks as dead every node that no pinned node reaches downwards.
    pub fn gc(&mut self, pins: &[usize]) {
        let mut mark = vec![false; self.n.len()];
        let mut st: Vec<usize> = pins.to_vec();
        while let Some(i) = st.pop() {
            if mark[i] {
                continue;
            }
            mark[i] = true;
            st.extend_from_slice(&self.n[i].kids);
            st.extend_from_slice(&self.n[i].attrs);
        }
        for i in 0..self.n.len() {
            if !mark[i] && self.n[i].alive {
                self.n[i].alive = false;
            }
        }
    }
    pub fn size(&self, i: usize) -> usize {
        let mut c = 1 + self.n[i].attrs.len();
        for k in &self.n[i].kids {
            c += self.size(*k);
        }
        c
    }
    pub fn depth(&self, i: usize) -> usize {
        let mut d = 0;
        let mut st = vec![(i, 1usize)];
        while let Some((x, dd)) = st.pop() {
            d = d.max(dd);
            for k in &self.n[x].kids {
                st.push((*k, dd + 1));
            }
        }
        d
    }
    /// Deep copy with fresh ids, no parent.
    pub fn copy(&mut self, src: usize) -> usize {
        let s = self.n[src].clone();
        let d = self.make(s.k, &s.name, &s.value);
        for a in s.attrs {
            let c = self.copy(a);
            self.push_attr(d, c);
        }
        for k in s.kids {
            let c = self.copy(k);
            self.push_kid(d, c);
        }
        d
    }
    /// Copies the tree under `src` of another model into this one.
    pub fn import(&mut self, o: &Model, src: usize) -> usize {
        let s = &o.n[src];
        let d = self.make(s.k, &s.name, &s.value);
        for a in &s.attrs {
            let c = self.import(o, *a);
            self.push_attr(d, c);
        }
        for k in &s.kids {
            let c = self.import(o, *k);
            self.push_kid(d, c);
        }
        d
    }
    pub fn kid_index(&self, p: usize, c: usize) -> Option<usize> {
        self.n[p].kids.iter().position(|x| *x == c)
    }
    pub fn append(&mut self, t: usize, src: usize) {
        let c = self.copy(src);
        self.push_kid(t, c);
    }
    fn insert_at(&mut self, t: usize, src: usize, off: usize) {
        if let Some(p) = self.parent(t) {
            if let Some(i) = self.kid_index(p, t) {
                let c = self.copy(src);
                self.n[c].parent = Some(p);
                self.n[p].kids.insert(i + off, c);
            }
        }
    }
    pub fn insert_prev(&mut self, t: usize, src: usize) {
        self.insert_at(t, src, 0)
    }
    pub fn insert_next(&mut self, t: usize, src: usize) {
        self.insert_at(t, src, 1)
    }
    pub fn delete_child(&mut self, p: usize, c: usize) {
        if let Some(i) = self.kid_index(p, c) {
            self.n[p].kids.remove(i);
            self.n[c].parent = None;
        }
    }
    pub fn replace(&mut self, t: usize, src: usize) {
        if let Some(p) = self.parent(t) {
            if self.kid_index(p, t).is_some() {
                self.insert_prev(t, src);
                self.delete_child(p, t);
            }
        }
    }
    pub fn attr_index(&self, i: usize, name: &str) -> Option<usize> {
        self.n[i].attrs.iter().position(|a| self.n[*a].name == name)
    }
    pub fn set_attr(&mut self, i: usize, name: &str, value: &str) {
        let a = self.make(K::Attr, name, value);
        self.n[a].parent = Some(i);
        match self.attr_index(i, name) {
            Some(x) => {
                let old = self.n[i].attrs[x];
                self.n[old].parent = None;
                self.n[i].attrs[x] = a;
            }
            None => self.n[i].attrs.push(a),
        }
    }
    pub fn del_attr(&mut self, i: usize, name: &str) {
        if let Some(x) = self.attr_index(i, name) {
            let old = self.n[i].attrs.remove(x);
            self.n[old].parent = None;
        }
    }
    pub fn local_name(&self, i: usize) -> &str {
        match self.n[i].name.split_once(':') {
            Some((_, b)) => b,
            None => &self.n[i].name,
        }
    }
    pub fn space_name(&self, i: usize) -> &str {
        match self.n[i].name.split_once(':') {
            Some((a, _)) => a,
            None => "",
        }
    }
    pub fn namespace_uri(&self, i: usize) -> String {
        let sp = self.space_name(i);
        let an = if sp.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", sp) };
        let mut c = Some(i);
        while let Some(x) = c {
            if self.n[x].k == K::Root {
                break;
            }
            if let Some(k) = self.attr_index(x, &an) {
                return self.n[self.n[x].attrs[k]].value.clone();
            }
            c = self.parent(x);
        }
        String::new()
    }
    pub fn debug(&self, i: usize) -> String {
        let n = &self.n[i];
        match n.k {
            K::Root => "(DocumentRoot)".to_string(),
            K::Elem => {
                let mut s = format!("<{}", n.name);
                for a in &n.attrs {
                    s += &format!(" {}=\"{}\"", self.n[*a].name, self.n[*a].value);
                }
                s + ">"
            }
            K::Text => n.value.clone(),
            K::Attr => format!("{}=\"{}\"", n.name, n.value),
            _ => String::new(),
        }
    }
    pub fn ser(&self, i: usize) -> String {
        let mut o = String::new();
        self.ser_to(i, 0, 0, &mut o);
        o
    }
    pub fn pretty(&self, i: usize) -> String {
        let mut o = String::new();
        self.ser_to(i, 0, 4, &mut o);
        o
    }
    pub fn inner(&self, i: usize) -> String {
        let mut o = String::new();
        for k in &self.n[i].kids {
            self.ser_to(*k, 0, 0, &mut o);
        }
        o
    }
    fn ser_to(&self, i: usize, indent: usize, step: usize, o: &mut String) {
        let n = &self.n[i];
        let nl = if step > 0 { "\n" } else { "" };
        let sp = " ".repeat(indent);
        match n.k {
            K::Root => {
                for k in &n.kids {
                    self.ser_to(*k, indent, step, o);
                }
            }
            K::Elem => {
                *o += &format!("{}<{}", sp, n.name);
                for a in &n.attrs {
                    *o += &format!(" {}=\"{}\"", self.n[*a].name, encode(&self.n[*a].value));
                }
                if n.kids.is_empty() {
                    *o += "/>";
                } else {
                    *o += ">";
                    *o += nl;
                    for k in &n.kids {
                        self.ser_to(*k, indent + step, step, o);
                    }
                    *o += &format!("{}</{}>", sp, n.name);
                }
                *o += nl;
            }
            K::Text => *o += &format!("{}{}{}", sp, encode(&n.value), nl),
            K::Comment => *o += &format!("{}<!--{}-->{}", sp, n.value, nl),
            K::Decl => *o += &format!("{}<?xml {}?>{}", sp, n.value, nl),
            K::Pi => *o += &format!("{}<?{} {}?>{}", sp, n.name, n.value, nl),
            K::Attr => {}
        }
    }
    /// Preorder with attributes after their element: document order.
    pub fn doc_order(&self, top: usize, out: &mut Vec<usize>) {
        out.push(top);
        out.extend_from_slice(&self.n[top].attrs);
        for k in &self.n[top].kids {
            self.doc_order(*k, out);
        }
    }
    /// Steps from the top to a node: (is attribute, index).
    pub fn path(&self, mut i: usize) -> Vec<(bool, usize)> {
        let mut v = Vec::new();
        while let Some(p) = self.parent(i) {
            if let Some(x) = self.n[p].attrs.iter().position(|a| *a == i) {
                v.push((true, x));
            } else if let Some(x) = self.kid_index(p, i) {
                v.push((false, x));
            }
            i = p;
        }
        v.reverse();
        v
    }
    /// Structural equality of two trees.
    pub fn same(&self, a: usize, o: &Model, b: usize) -> bool {
        let (x, y) = (&self.n[a], &o.n[b]);
        x.k == y.k && x.name == y.name && x.value == y.value && x.kids.len() == y.kids.len() && x.attrs.len() == y.attrs.len()
            && x.attrs.iter().zip(&y.attrs).all(|(p, q)| self.same(*p, o, *q))
            && x.kids.iter().zip(&y.kids).all(|(p, q)| self.same(*p, o, *q))
    }
    /// Merges adjacent texts and drops empty ones, as saving and reloading does.
    pub fn normalised(&self, top: usize) -> (Model, usize) {
        let mut m = Model::new();
        let t = m.norm_from(self, top);
        (m, t)
    }
    fn norm_from(&mut self, o: &Model, src: usize) -> usize {
        let s = &o.n[src];
        let d = self.make(s.k, &s.name, &s.value);
        for a in &s.attrs {
            let c = self.norm_from(o, *a);
            self.push_attr(d, c);
        }
        for k in &s.kids {
            let kn = &o.n[*k];
            if kn.k == K::Text {
                if kn.value.is_empty() {
                    continue;
                }
                if let Some(l) = self.n[d].kids.last().copied() {
                    if self.n[l].k == K::Text {
                        let v = kn.value.clone();
                        self.n[l].value.push_str(&v);
                        continue;
                    }
                }
            }
            let c = self.norm_from(o, *k);
            self.push_kid(d, c);
        }
        d
    }
    /// One line per node, for messages.
    pub fn dump(&self, i: usize) -> String {
        let n = &self.n[i];
        let mut s = match n.k {
            K::Root => "#doc".to_string(),
            K::Elem => n.name.clone(),
            K::Text => format!("{:?}", n.value),
            K::Comment => format!("<!--{}-->", n.value),
            K::Decl => format!("<?xml {:?}?>", n.value),
            K::Pi => format!("<?{} {:?}?>", n.name, n.value),
            K::Attr => format!("@{}={:?}", n.name, n.value),
        };
        if n.kids.len() + n.attrs.len() > 0 {
            s += "(";
            let v: Vec<String> = n.attrs.iter().chain(n.kids.iter()).map(|x| self.dump(*x)).collect();
            s += &v.join(" ");
            s += ")";
        }
        s
    }
}

pub fn encode(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o += "&amp;",
            '>' => o += "&gt;",
            '<' => o += "&lt;",
            '"' => o += "&quot;",
            '\'' => o += "&apos;",
            '\r' => o += "&#13;",
            c => o.push(c),
        }
    }
    o
}
