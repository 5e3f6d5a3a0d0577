//! A minimal JSON object writer.
use std::fmt::Write;

pub struct Obj(String);

impl Obj {
    pub fn new() -> Obj {
        Obj(String::from("{"))
    }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        write!(self.0, "\"{}\":", k).unwrap();
    }
    pub fn raw(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn s(mut self, k: &str, v: &str) -> Self {
        self.key(k);
        write!(self.0, "\"{}\"", v).unwrap();
        self
    }
    pub fn n(mut self, k: &str, v: i64) -> Self {
        self.key(k);
        write!(self.0, "{}", v).unwrap();
        self
    }
    pub fn bytes(self, k: &str, v: &[u8]) -> Self {
        let j = ints(v.iter().map(|&b| i64::from(b)));
        self.raw(k, &j)
    }
    pub fn ints<I: IntoIterator<Item = i64>>(self, k: &str, v: I) -> Self {
        let j = ints(v);
        self.raw(k, &j)
    }
    pub fn list(self, k: &str, v: &[String]) -> Self {
        let j = list(v);
        self.raw(k, &j)
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

pub fn ints<I: IntoIterator<Item = i64>>(v: I) -> String {
    let mut s = String::from("[");
    for x in v {
        if s.len() > 1 {
            s.push(',');
        }
        write!(s, "{}", x).unwrap();
    }
    s.push(']');
    s
}

pub fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
