//! A small independent XML reader, enough for the shipped metadata: elements,
//! attributes, text, comments, declaration and document type. It is the
//! oracle's own way of reading the file the library reads with quick-xml.

#[derive(Debug, Clone)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Elem>,
    pub text: String,
}

impl Elem {
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == name).map(|(_, v)| v.as_str())
    }
    pub fn kid(&self, name: &str) -> Option<&Elem> {
        self.kids.iter().find(|k| k.name == name)
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Elem> {
        self.kids.iter().filter(move |k| k.name == name)
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a [u8] {
        &self.s[self.i..]
    }
    fn find(&self, what: &str) -> usize {
        self.i
            + self
                .rest()
                .windows(what.len())
                .position(|w| w == what.as_bytes())
                .unwrap_or_else(|| panic!("xml: no {what:?} after {}", self.i))
    }
    fn skip_misc(&mut self) -> bool {
        if self.rest().starts_with(b"<!--") {
            self.i = self.find("-->") + 3;
        } else if self.rest().starts_with(b"<?") {
            self.i = self.find("?>") + 2;
        } else if self.rest().starts_with(b"<!") {
            // Document type, possibly with an internal subset.
            let mut depth = 0;
            loop {
                if self.rest().starts_with(b"<!--") {
                    self.i = self.find("-->") + 3;
                    continue;
                }
                match self.s[self.i] {
                    b'<' => depth += 1,
                    b'>' => depth -= 1,
                    _ => (),
                }
                self.i += 1;
                if depth == 0 {
                    break;
                }
            }
        } else {
            return false;
        }
        true
    }
    fn name(&mut self) -> String {
        let start = self.i;
        while !matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r' | b'/' | b'>' | b'=') {
            self.i += 1;
        }
        String::from_utf8(self.s[start..self.i].to_vec()).unwrap()
    }
    fn ws(&mut self) {
        while self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn elem(&mut self) -> Elem {
        self.i += 1;
        let mut e = Elem { name: self.name(), attrs: vec![], kids: vec![], text: String::new() };
        loop {
            self.ws();
            match self.s[self.i] {
                b'/' => {
                    self.i += 2;
                    return e;
                }
                b'>' => {
                    self.i += 1;
                    break;
                }
                _ => {
                    let k = self.name();
                    self.ws();
                    assert_eq!(self.s[self.i], b'=');
                    self.i += 1;
                    self.ws();
                    let q = self.s[self.i] as char;
                    self.i += 1;
                    let end = self.find(&q.to_string());
                    let v = String::from_utf8(self.s[self.i..end].to_vec()).unwrap();
                    self.i = end + 1;
                    assert!(!v.contains('&'), "entity references are not read");
                    e.attrs.push((k, v));
                }
            }
        }
        loop {
            if self.skip_misc() {
                continue;
            }
            if self.rest().starts_with(b"</") {
                self.i += 2;
                let n = self.name();
                assert_eq!(n, e.name);
                self.ws();
                self.i += 1;
                return e;
            }
            if self.s[self.i] == b'<' {
                let k = self.elem();
                e.kids.push(k);
            } else {
                let end = self.find("<");
                e.text.push_str(std::str::from_utf8(&self.s[self.i..end]).unwrap());
                self.i = end;
            }
        }
    }
}

pub fn read(text: &str) -> Elem {
    let mut p = P { s: text.as_bytes(), i: 0 };
    loop {
        p.ws();
        if !p.skip_misc() {
            return p.elem();
        }
    }
}
