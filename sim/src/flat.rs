//! Debug renderings of results, parsed back into (field, value) lists.

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Atom(String),
    Tuple(String, Vec<Node>),
    Struct(String, Vec<(String, Node)>),
    List(Vec<Node>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.i < self.s.len() && self.s[self.i] == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn node(&mut self) -> Option<Node> {
        self.ws();
        let c = *self.s.get(self.i)?;
        if c == b'[' {
            self.i += 1;
            return Some(Node::List(self.items(b']')?));
        }
        if c == b'"' {
            let st = self.i;
            self.i += 1;
            while *self.s.get(self.i)? != b'"' {
                if self.s[self.i] == b'\\' {
                    self.i += 1;
                }
                self.i += 1;
            }
            self.i += 1;
            return Some(Node::Atom(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()));
        }
        let st = self.i;
        while self.i < self.s.len() && !b" ,(){}[]".contains(&self.s[self.i]) {
            self.i += 1;
        }
        let name = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
        if self.eat(b'(') {
            return Some(Node::Tuple(name, self.items(b')')?));
        }
        let save = self.i;
        self.ws();
        if self.i < self.s.len() && self.s[self.i] == b'{' {
            self.i += 1;
            let mut v = vec![];
            loop {
                self.ws();
                if self.eat(b'}') {
                    break;
                }
                let st = self.i;
                while *self.s.get(self.i)? != b':' {
                    self.i += 1;
                }
                let k = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
                self.i += 1;
                v.push((k, self.node()?));
                self.eat(b',');
            }
            return Some(Node::Struct(name, v));
        }
        self.i = save;
        Some(Node::Atom(name))
    }
    fn items(&mut self, end: u8) -> Option<Vec<Node>> {
        let mut v = vec![];
        loop {
            if self.eat(end) {
                return Some(v);
            }
            v.push(self.node()?);
            self.eat(b',');
            if self.i >= self.s.len() {
                return None;
            }
        }
    }
}

pub fn parse(s: &str) -> Option<Node> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    p.node()
}

pub fn show(n: &Node) -> String {
    match n {
        Node::Atom(a) => a.clone(),
        Node::Tuple(a, v) => format!("{}({})", a, v.iter().map(show).collect::<Vec<_>>().join(", ")),
        Node::Struct(a, v) => format!("{} {{ {} }}", a,
            v.iter().map(|(k, n)| format!("{}: {}", k, show(n))).collect::<Vec<_>>().join(", ")),
        Node::List(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
    }
}

/// Variant name and fields of `Ok(Variant(Struct { .. }))`; for a list, one entry per element.
pub struct Flat {
    pub kind: String,
    pub items: Vec<Vec<(String, Node)>>,
    pub list: bool,
}

pub fn flatten(dbg: &str) -> Option<Flat> {
    let n = parse(dbg)?;
    let inner = match n {
        Node::Tuple(o, mut v) if o == "Ok" && v.len() == 1 => v.remove(0),
        _ => return None,
    };
    match inner {
        Node::Atom(a) => Some(Flat { kind: a, items: vec![], list: false }),
        Node::Tuple(kind, mut v) if v.len() == 1 => match v.remove(0) {
            Node::Struct(_, f) => Some(Flat { kind, items: vec![f], list: false }),
            Node::List(l) => {
                let mut items = vec![];
                for e in l {
                    match e {
                        Node::Struct(_, f) => items.push(f),
                        _ => return None,
                    }
                }
                Some(Flat { kind, items, list: true })
            }
            _ => None,
        },
        _ => None,
    }
}

/// The number in `12.5` or `Some(12.5)`.
pub fn number(n: &Node) -> Option<f64> {
    match n {
        Node::Atom(a) => a.parse().ok(),
        Node::Tuple(o, v) if o == "Some" && v.len() == 1 => number(&v[0]),
        _ => None,
    }
}
