//! A strict JSON reader (RFC 8259) that keeps number texts, key order and repeated keys.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn parse(text: &str) -> Result<J, String> {
    let mut p = P { b: text.as_bytes(), i: 0, text };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return p.err("text after the document");
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    text: &'a str,
    i: usize,
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("malformed JSON at byte {}: {}", self.i, m))
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut out: Vec<(String, J)> = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(out));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return self.err("expected a colon");
                    }
                    self.i += 1;
                    self.ws();
                    let v = self.value()?;
                    if out.iter().any(|(o, _)| *o == k) {
                        return self.err(&format!("the key {:?} is repeated", k));
                    }
                    out.push((k, v));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(out));
                        }
                        _ => return self.err("expected a comma or a brace"),
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut out = Vec::new();
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(out));
                }
                loop {
                    self.ws();
                    out.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(out));
                        }
                        _ => return self.err("expected a comma or a bracket"),
                    }
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            b't' if self.text[self.i..].starts_with("true") => {
                self.i += 4;
                Ok(J::Bool(true))
            }
            b'f' if self.text[self.i..].starts_with("false") => {
                self.i += 5;
                Ok(J::Bool(false))
            }
            b'n' if self.text[self.i..].starts_with("null") => {
                self.i += 4;
                Ok(J::Null)
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => self.err("expected a value"),
        }
    }
    fn digits(&mut self) -> usize {
        let s = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        self.i - s
    }
    fn number(&mut self) -> Result<J, String> {
        let s = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        if self.peek() == b'0' {
            self.i += 1;
        } else if self.digits() == 0 {
            return self.err("a number without digits");
        }
        if self.peek() == b'.' {
            self.i += 1;
            if self.digits() == 0 {
                return self.err("a number without digits");
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            if self.digits() == 0 {
                return self.err("a number without digits");
            }
        }
        Ok(J::Num(self.text[s..self.i].to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let r = self.text.get(self.i..self.i + 4).and_then(|t| u32::from_str_radix(t, 16).ok());
        match r {
            Some(x) => {
                self.i += 4;
                Ok(x)
            }
            None => self.err("a bad escape"),
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return self.err("expected a string");
        }
        self.i += 1;
        let mut out = String::new();
        loop {
            let s = self.i;
            while self.i < self.b.len() && !matches!(self.b[self.i], b'"' | b'\\') && self.b[self.i] >= 32 {
                self.i += 1;
            }
            out.push_str(&self.text[s..self.i]);
            match self.peek() {
                b'"' => {
                    self.i += 1;
                    return Ok(out);
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    match c {
                        b'"' => out.push('"'),
                        b'\\' => out.push('\\'),
                        b'/' => out.push('/'),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let x = self.hex4()?;
                            let x = if (0xD800..0xDC00).contains(&x) && self.text[self.i..].starts_with("\\u") {
                                self.i += 2;
                                let y = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&y) {
                                    return self.err("a lone surrogate");
                                }
                                0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00)
                            } else {
                                x
                            };
                            match char::from_u32(x) {
                                Some(c) => out.push(c),
                                // acorn gives these for strings with such escapes
                                None => out.push('\u{FFFD}'),
                            }
                        }
                        _ => return self.err("a bad escape"),
                    }
                }
                _ => return self.err("an unterminated string or a control character"),
            }
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        crate::tree::short(format!("{:?}", self))
    }
}
