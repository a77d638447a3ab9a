//! Minimal JSON: the only exchange format between TLC and this harness.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Bytes(Vec<u8>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn i<T: Into<i64>>(x: T) -> J {
    J::Int(x.into())
}
pub fn n(x: usize) -> J {
    J::Int(x as i64)
}
pub fn b(x: &[u8]) -> J {
    J::Bytes(x.to_vec())
}
pub fn opt(x: Option<J>) -> J {
    J::Arr(x.into_iter().collect())
}
pub fn obj(x: Vec<(&str, J)>) -> J {
    J::Obj(x.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn arr<I: IntoIterator<Item = J>>(x: I) -> J {
    J::Arr(x.into_iter().collect())
}
/// 32 bit integers travel as two 16 bit halves, TLC integers are 32 bit signed
pub fn u32h(x: u32) -> J {
    arr([i(x >> 16), i(x & 0xffff)])
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Bool(x) => o.push_str(if *x { "true" } else { "false" }),
            J::Int(x) => write!(o, "{}", x).unwrap(),
            J::Str(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' | '\\' => {
                            o.push('\\');
                            o.push(c)
                        }
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            write!(o, "?").unwrap();
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Bytes(x) => {
                o.push('[');
                for (n, v) in x.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    write!(o, "{}", v).unwrap();
                }
                o.push(']');
            }
            J::Arr(x) => {
                o.push('[');
                for (n, v) in x.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    v.write(o);
                }
                o.push(']');
            }
            J::Obj(x) => {
                o.push('{');
                for (n, (k, v)) in x.iter().enumerate() {
                    if n > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", k).unwrap();
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    pub fn get(&self, k: &str) -> Result<&J, String> {
        match self {
            J::Obj(x) => x
                .iter()
                .find(|(n, _)| n == k)
                .map(|(_, v)| v)
                .ok_or_else(|| format!("no field {}", k)),
            _ => Err(format!("not an object (field {})", k)),
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_ok()
    }
    pub fn int(&self) -> Result<i64, String> {
        match self {
            J::Int(x) => Ok(*x),
            _ => Err(format!("not an int: {:?}", self)),
        }
    }
    pub fn boolean(&self) -> Result<bool, String> {
        match self {
            J::Bool(x) => Ok(*x),
            _ => Err("not a bool".into()),
        }
    }
    pub fn str(&self) -> Result<&str, String> {
        match self {
            J::Str(x) => Ok(x),
            _ => Err(format!("not a string: {:?}", self)),
        }
    }
    pub fn list(&self) -> Result<&[J], String> {
        match self {
            J::Arr(x) => Ok(x),
            _ => Err("not a list".into()),
        }
    }
    pub fn bytes(&self) -> Result<Vec<u8>, String> {
        match self {
            J::Bytes(x) => Ok(x.clone()),
            J::Arr(x) => x
                .iter()
                .map(|v| v.int().and_then(|n| u8::try_from(n).map_err(|e| e.to_string())))
                .collect(),
            _ => Err("not bytes".into()),
        }
    }
    pub fn string(&self) -> Result<String, String> {
        String::from_utf8(self.bytes()?).map_err(|e| e.to_string())
    }
}

pub fn parse(t: &str) -> Result<J, String> {
    let mut p = P { b: t.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && (self.b[self.i] as char).is_whitespace() {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek() != c {
            return Err(format!("expected {} at {}", c as char, self.i));
        }
        self.i += 1;
        Ok(())
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1
                    } else {
                        break;
                    }
                }
                self.eat(b'}')?;
                Ok(J::Obj(v))
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1
                    } else {
                        break;
                    }
                }
                self.eat(b']')?;
                Ok(J::Arr(v))
            }
            b'"' => Ok(J::Str(self.string()?)),
            b't' => {
                self.i += 4;
                Ok(J::Bool(true))
            }
            b'f' => {
                self.i += 5;
                Ok(J::Bool(false))
            }
            _ => {
                let st = self.i;
                if self.peek() == b'-' {
                    self.i += 1
                }
                while self.peek().is_ascii_digit() {
                    self.i += 1
                }
                std::str::from_utf8(&self.b[st..self.i])
                    .unwrap()
                    .parse()
                    .map(J::Int)
                    .map_err(|e| format!("{} at {}", e, st))
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut o = vec![];
        while self.peek() != b'"' {
            if self.i >= self.b.len() {
                return Err("unterminated string".into());
            }
            if self.peek() == b'\\' {
                self.i += 1;
            }
            o.push(self.peek());
            self.i += 1;
        }
        self.i += 1;
        String::from_utf8(o).map_err(|e| e.to_string())
    }
}
