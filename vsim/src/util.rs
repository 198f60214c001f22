//! Small helpers: random numbers, JSON, hashing.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed) }
    pub fn derive(seed: u64, salt: u64) -> Rng { let mut r = Rng(seed ^ salt.wrapping_mul(0x9E3779B97F4A7C15)); r.u64(); Rng(r.u64()) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize].clone() }
}

pub fn fnv(data: &[u8]) -> u64 { fnv_from(0xcbf29ce484222325, data) }
pub fn fnv_from(mut h: u64, data: &[u8]) -> u64 {
    for &b in data { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}

#[derive(Clone, Debug, PartialEq)]
pub enum Json { Null, Bool(bool), Num(f64), Int(i128), Str(String), Arr(Vec<Json>), Obj(BTreeMap<String, Json>) }
impl Json {
    pub fn obj(v: Vec<(&str, Json)>) -> Json { Json::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
    pub fn s(x: impl ToString) -> Json { Json::Str(x.to_string()) }
    pub fn i(x: impl Into<i128>) -> Json { Json::Int(x.into()) }
    pub fn u(x: usize) -> Json { Json::Int(x as i128) }
    pub fn get(&self, k: &str) -> Option<&Json> { if let Json::Obj(m) = self { m.get(k) } else { None } }
    pub fn str(&self) -> &str { if let Json::Str(s) = self { s } else { "" } }
    pub fn int(&self) -> i128 { match self { Json::Int(i) => *i, Json::Num(f) => *f as i128, _ => 0 } }
    pub fn arr(&self) -> &[Json] { if let Json::Arr(a) = self { a } else { &[] } }
    pub fn dump(&self) -> String { let mut s = String::new(); self.write(&mut s, 0, false); s }
    pub fn pretty(&self) -> String { let mut s = String::new(); self.write(&mut s, 0, true); s.push('\n'); s }
    fn write(&self, o: &mut String, ind: usize, pretty: bool) {
        match self {
            Json::Null => o.push_str("null"),
            Json::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Json::Num(f) => if f.is_finite() { o.push_str(&format!("{}", f)) } else { o.push_str("null") },
            Json::Int(i) => o.push_str(&i.to_string()),
            Json::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c),
                    }
                }
                o.push('"');
            }
            Json::Arr(a) => {
                let flat = !pretty || a.iter().all(|x| !matches!(x, Json::Obj(_) | Json::Arr(_)) || (matches!(x, Json::Arr(_)) && x.dump().len() < 40));
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { o.push(','); if flat && pretty { o.push(' '); } }
                    if !flat { o.push('\n'); for _ in 0..ind + 1 { o.push(' '); } }
                    x.write(o, ind + 1, pretty && !flat);
                }
                if !flat && !a.is_empty() { o.push('\n'); for _ in 0..ind { o.push(' '); } }
                o.push(']');
            }
            Json::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    if pretty { o.push('\n'); for _ in 0..ind + 1 { o.push(' '); } }
                    Json::Str(k.clone()).write(o, 0, false);
                    o.push(':');
                    if pretty { o.push(' '); }
                    x.write(o, ind + 1, pretty);
                }
                if pretty && !m.is_empty() { o.push('\n'); for _ in 0..ind { o.push(' '); } }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<Json, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = Self::val(b, &mut p)?;
        Self::ws(b, &mut p);
        if p != b.len() { return Err(format!("trailing data at {}", p)); }
        Ok(v)
    }
    fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && (b[*p] as char).is_ascii_whitespace() { *p += 1; } }
    fn val(b: &[u8], p: &mut usize) -> Result<Json, String> {
        Self::ws(b, p);
        if *p >= b.len() { return Err("unexpected end".into()); }
        match b[*p] {
            b'{' => {
                *p += 1;
                let mut m = BTreeMap::new();
                loop {
                    Self::ws(b, p);
                    if b.get(*p) == Some(&b'}') { *p += 1; return Ok(Json::Obj(m)); }
                    let k = match Self::val(b, p)? { Json::Str(s) => s, _ => return Err("key".into()) };
                    Self::ws(b, p);
                    if b.get(*p) != Some(&b':') { return Err(format!("expected : at {}", p)); }
                    *p += 1;
                    let v = Self::val(b, p)?;
                    m.insert(k, v);
                    Self::ws(b, p);
                    if b.get(*p) == Some(&b',') { *p += 1; }
                }
            }
            b'[' => {
                *p += 1;
                let mut a = vec![];
                loop {
                    Self::ws(b, p);
                    if b.get(*p) == Some(&b']') { *p += 1; return Ok(Json::Arr(a)); }
                    a.push(Self::val(b, p)?);
                    Self::ws(b, p);
                    if b.get(*p) == Some(&b',') { *p += 1; }
                }
            }
            b'"' => {
                *p += 1;
                let mut s: Vec<u8> = vec![];
                while *p < b.len() && b[*p] != b'"' {
                    if b[*p] == b'\\' {
                        *p += 1;
                        match b.get(*p) {
                            Some(b'n') => s.push(b'\n'), Some(b't') => s.push(b'\t'), Some(b'r') => s.push(b'\r'),
                            Some(b'u') => {
                                let h = std::str::from_utf8(b.get(*p + 1..*p + 5).ok_or("escape")?).map_err(|e| e.to_string())?;
                                let c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                s.extend(char::from_u32(c).unwrap_or('?').to_string().bytes());
                                *p += 4;
                            }
                            Some(c) => s.push(*c), None => return Err("escape".into()),
                        }
                    } else { s.push(b[*p]); }
                    *p += 1;
                }
                *p += 1;
                Ok(Json::Str(String::from_utf8_lossy(&s).into_owned()))
            }
            b't' => { *p += 4; Ok(Json::Bool(true)) }
            b'f' => { *p += 5; Ok(Json::Bool(false)) }
            b'n' => { *p += 4; Ok(Json::Null) }
            _ => {
                let st = *p;
                while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { *p += 1; }
                let t = std::str::from_utf8(&b[st..*p]).unwrap();
                if let Ok(i) = t.parse::<i128>() { Ok(Json::Int(i)) } else { t.parse::<f64>().map(Json::Num).map_err(|e| format!("{} {:?}", e, t)) }
            }
        }
    }
}

/// Things that can be written to and read from a replay file.
pub trait J: Sized { fn to(&self) -> Json; fn jfrom(j: &Json) -> Self; }
macro_rules! jint { ($($t:ty),*) => { $(impl J for $t { fn to(&self) -> Json { Json::Int(*self as i128) } fn jfrom(j: &Json) -> Self { j.int() as $t } })* } }
jint!(u8, u16, u32, u64, i64, i32, usize);
impl J for bool { fn to(&self) -> Json { Json::Bool(*self) } fn jfrom(j: &Json) -> Self { matches!(j, Json::Bool(true)) } }
impl J for String { fn to(&self) -> Json { Json::Str(self.clone()) } fn jfrom(j: &Json) -> Self { j.str().to_string() } }
impl J for f32 { fn to(&self) -> Json { Json::Int(self.to_bits() as i128) } fn jfrom(j: &Json) -> Self { f32::from_bits(j.int() as u32) } }
impl<T: J> J for Vec<T> { fn to(&self) -> Json { Json::Arr(self.iter().map(|x| x.to()).collect()) } fn jfrom(j: &Json) -> Self { j.arr().iter().map(T::jfrom).collect() } }
impl<A: J, B: J, C: J> J for (A, B, C) {
    fn to(&self) -> Json { Json::Arr(vec![self.0.to(), self.1.to(), self.2.to()]) }
    fn jfrom(j: &Json) -> Self { let a = j.arr(); let n = Json::Null; (A::jfrom(a.get(0).unwrap_or(&n)), B::jfrom(a.get(1).unwrap_or(&n)), C::jfrom(a.get(2).unwrap_or(&n))) }
}
#[macro_export]
macro_rules! jstruct {
    ($(#[$m:meta])* pub struct $n:ident { $($(#[$fm:meta])* pub $f:ident : $t:ty),* $(,)? }) => {
        $(#[$m])* #[derive(Clone, Debug, Default, PartialEq)] pub struct $n { $($(#[$fm])* pub $f: $t),* }
        impl $crate::util::J for $n {
            fn to(&self) -> $crate::util::Json { $crate::util::Json::obj(vec![$((stringify!($f), $crate::util::J::to(&self.$f))),*]) }
            fn jfrom(j: &$crate::util::Json) -> Self { Self { $($f: j.get(stringify!($f)).map(<$t as $crate::util::J>::jfrom).unwrap_or_default()),* } }
        }
    };
}
