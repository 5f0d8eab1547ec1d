//! Inputs made by walking a schema: well-formed ones with deviations at chosen places.  What they mean is for
//! the specification to say.
use crate::ops::E;
use crate::util::*;

#[derive(Clone, Debug)]
pub enum J { S(String), N(i64), B(bool), A(Vec<J>), O(Vec<(String, J)>) }
impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let j = Self::at(b, &mut i);
        assert!(i == b.len(), "schema: {} of {}", i, b.len());
        j
    }
    fn at(b: &[u8], i: &mut usize) -> J {
        let skip = |i: &mut usize| while *i < b.len() && (b[*i] == b' ' || b[*i] == b',' || b[*i] == b':') { *i += 1 };
        skip(i);
        match b[*i] {
            b'{' => {
                *i += 1;
                let mut v = vec![];
                loop {
                    skip(i);
                    if b[*i] == b'}' { *i += 1; return J::O(v) }
                    let k = match Self::at(b, i) { J::S(s) => s, x => panic!("{:?}", x) };
                    v.push((k, Self::at(b, i)));
                }
            }
            b'[' => {
                *i += 1;
                let mut v = vec![];
                loop {
                    skip(i);
                    if b[*i] == b']' { *i += 1; return J::A(v) }
                    v.push(Self::at(b, i));
                }
            }
            b'"' => {
                let s = *i + 1;
                *i = s;
                while b[*i] != b'"' { *i += 1 }
                *i += 1;
                J::S(String::from_utf8(b[s..*i - 1].to_vec()).unwrap())
            }
            b't' => { *i += 4; J::B(true) }
            b'f' => { *i += 5; J::B(false) }
            _ => {
                let s = *i;
                while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) { *i += 1 }
                J::N(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
            }
        }
    }
    pub fn get(&self, k: &str) -> &J { self.opt(k).unwrap_or_else(|| panic!("no {} in {:?}", k, self)) }
    pub fn opt(&self, k: &str) -> Option<&J> { if let J::O(v) = self { v.iter().find(|x| x.0 == k).map(|x| &x.1) } else { None } }
    pub fn s(&self) -> &str { if let J::S(s) = self { s } else { panic!() } }
    pub fn n(&self) -> i64 { if let J::N(n) = self { *n } else { panic!() } }
    pub fn t(&self) -> bool { matches!(self, J::B(true)) }
    pub fn a(&self) -> &[J] { if let J::A(v) = self { v } else { panic!() } }
    pub fn bytes(&self) -> Vec<u8> { self.a().iter().map(|x| x.n() as u8).collect() }
}

pub struct Maker<'r> {
    pub r: &'r mut Rng,
    pub e: E,
    pub out: Vec<u8>,
    /// deviations still to be made
    pub faults: u32,
    /// their odds are one in that many
    pub odds: u64,
    pub depth: u32,
    pub max: usize,
    /// what the next number is to be
    pub force: Option<u64>,
}
fn lenw(l: &str) -> usize { match l { "u7" | "u8" => 1, "u16" => 2, "u32" => 4, "u64" => 8, _ => 0 } }
fn varint(v: u64, n: usize) -> Vec<u8> {
    let b = v.to_le_bytes();
    if n == 9 { let mut o = vec![0xff]; o.extend_from_slice(&b); return o }
    let p = (256u32 - (1 << (9 - n))) as u8;
    let mut o = vec![p | b[n - 1]];
    o.extend_from_slice(&b[..n - 1]);
    o
}
fn varlen(v: u64) -> usize { for n in 1..9 { if v < 1u64 << (7 * n) { return n } } 9 }

impl<'r> Maker<'r> {
    fn fault(&mut self) -> bool {
        if self.faults > 0 && self.r.chance(1, self.odds) { self.faults -= 1; true } else { false }
    }
    fn int(&mut self, v: u128, w: usize) {
        let mut b = v.to_le_bytes()[..w].to_vec();
        if self.e == E::Be { b.reverse() }
        self.out.extend_from_slice(&b);
    }
    fn varint(&mut self, v: u64) {
        let mut n = varlen(v);
        if n < 9 && self.fault() { n = n + 1 + self.r.below(9 - n) }
        self.out.extend(varint(v, n));
    }
    fn eval(x: &J, env: &[u64]) -> u64 {
        let f = |k| Self::eval(x.get(k), env);
        match x.get("x").s() {
            "f" => env[x.get("i").n() as usize - 1],
            "n" => x.get("n").n() as u64,
            "add" => f("a").saturating_add(f("b")),
            "mul" => f("a").saturating_mul(f("b")),
            "div" => f("a") / f("b").max(1),
            _ => f("a") % f("b").max(1),
        }
    }
    /// a count and its encoding
    fn count(&mut self, lt: &J, env: &[u64], w: usize) -> usize {
        let l = lt.get("l").s();
        if l == "x" { return Self::eval(lt.get("x"), env).min(300) as usize }
        let flat = w > 0 && w * 300 < self.max;
        let n = if self.depth > 2 { self.r.below(3) } else { self.r.len(if self.depth == 0 { 9 } else { 4 }) };
        let mut n = if flat && self.depth == 0 && self.r.chance(1, 16) { *self.r.pick(&[15usize, 16, 17, 31, 33, 63, 64, 65, 100, 126, 127, 128, 129, 255, 256, 257]) } else { n };
        if l == "eof" { return n }
        if l == "u7" { n = n.min(127) }
        if l == "u8" { n = n.min(255) }
        let mut said = n as u64;
        if self.fault() {
            said = match self.r.below(8) {
                0 => said + 1,
                1 => said.wrapping_sub(1),
                2 => said | 0x80,
                3 => said | 0x100,
                4 => said | 1 << (8 * self.r.below(8)),
                5 => 0,
                6 => u64::MAX >> self.r.below(64),
                _ => said + 1 + self.r.below(40) as u64,
            };
        }
        if l == "varint" { self.varint(said) } else { self.int(said as u128, lenw(l)) }
        n
    }
    fn text(&mut self, n: usize) {
        let s = crate::model::gen_string_n(self.r, n);
        let mut b = s.into_bytes();
        if self.fault() && n > 0 {
            let bad: &[&[u8]] = &[&[0x80], &[0xC0, 0x80], &[0xC1, 0xBF], &[0xE0, 0x9F, 0xBF], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xF0, 0x8F, 0xBF, 0xBF], &[0xF4, 0x90, 0x80, 0x80],
                &[0xF5, 0x80, 0x80, 0x80], &[0xFF], &[0xC3], &[0xE2, 0x82], &[0xF0, 0x9F, 0x98], &[0xC3, 0x28], &[0xFE, 0xFE],
                // these are fine
                &[0xED, 0x9F, 0xBF], &[0xEE, 0x80, 0x80], &[0xF4, 0x8F, 0xBF, 0xBF], &[0xF0, 0x90, 0x80, 0x80], &[0xE0, 0xA0, 0x80], &[0xC2, 0x80], &[0xDF, 0xBF]];
            let x = *self.r.pick(bad);
            let at = if self.r.chance(1, 3) { n.saturating_sub(x.len()) } else { self.r.below(n) };
            for (i, c) in x.iter().enumerate() { if at + i < n { b[at + i] = *c } }
        }
        self.out.extend(b);
    }
    fn fields(&mut self, fs: &[J]) {
        // which ones do later lengths depend on?
        let mut small = vec![false; fs.len()];
        fn uses(x: &J, m: &mut [bool]) {
            match x {
                J::O(v) => {
                    if let (Some(J::S(k)), Some(J::N(i))) = (x.opt("x"), x.opt("i")) { if k == "f" && (*i as usize) <= m.len() { m[*i as usize - 1] = true } }
                    for (_, y) in v { uses(y, m) }
                }
                J::A(v) => for y in v { uses(y, m) },
                _ => {}
            }
        }
        for f in fs { if let Some(lt) = f.get("t").opt("lt") { uses(lt, &mut small) } else if let Some(t) = f.get("t").opt("t") { if let Some(lt) = t.opt("lt") { uses(lt, &mut small) } } }
        let mut env: Vec<u64> = vec![];
        for (i, f) in fs.iter().enumerate() {
            if f.get("skip").t() { env.push(0); continue }
            let mut p = f.get("pre").bytes();
            if !p.is_empty() && self.fault() {
                let k = if self.r.chance(1, 2) { p.len() - 1 } else { self.r.below(p.len()) };
                if self.r.chance(1, 4) { p.truncate(k) } else { p[k] = *self.r.pick(&[p[k] ^ 1, p[k] ^ 0x80, p[k] ^ 0x20, 0, self.r.clone().next() as u8]) }
            }
            self.out.extend(p);
            if f.get("doe").t() && self.r.chance(1, 5) { self.max = 0; }
            let t = f.get("t");
            if small[i] && t.get("k").s() == "int" {
                let v = if self.fault() { self.r.int() } else { self.r.below(24) as u128 };
                let w = t.get("w").n() as usize;
                self.int(v, w);
                env.push(if w < 16 { (v & ((1u128 << (8 * w)) - 1)) as u64 } else { v as u64 });
            } else {
                self.make(t, &env);
                env.push(0);
            }
        }
    }
    pub fn make(&mut self, t: &J, env: &[u64]) {
        if self.out.len() > self.max { return }
        self.depth += 1;
        self.make2(t, env);
        self.depth -= 1;
    }
    fn make2(&mut self, t: &J, env: &[u64]) {
        let w = || t.get("w").n() as usize;
        match t.get("k").s() {
            "int" => { let v = self.force.take().map(|x| x as u128).unwrap_or_else(|| self.r.int()); self.int(v, w()) }
            "nz" => { let v = if self.fault() { 0 } else { self.r.int() | 1 << self.r.below(8) }; self.int(v, w()) }
            "bool" => { let b = if self.fault() { self.r.next() as u8 } else { self.r.below(2) as u8 }; self.out.push(b) }
            "mask" => { let b = self.r.next() as u8; self.out.push(b) }
            "el" => { let b = if self.fault() { 0xE0 + self.r.below(32) as u8 } else { self.r.below(8) as u8 }; self.out.push(b) }
            "mark" => { let b = if self.fault() { 0xD0 + self.r.below(48) as u8 } else { self.r.below(208) as u8 }; self.out.push(b) }
            "inv" => {
                let e = self.e;
                self.e = if e == E::Le { E::Be } else { E::Le };
                self.make(t.get("t"), env);
                self.e = e
            }
            "char" => {
                let v = if self.fault() {
                    match self.r.below(6) {
                        0 => 0xD800 + self.r.below(0x800) as u32,
                        1 => *self.r.pick(&[0xD800, 0xDFFF, 0xDBFF, 0xDC00, 0x110000, 0xFFFFFFFF, 0xD7FF, 0xE000, 0x10FFFF, 0x80000041, 0x01000041]),
                        2 => 0x110000 + self.r.next() as u32 % 0x1000,
                        _ => self.r.next() as u32,
                    }
                } else { <char as crate::model::Model>::gen(self.r) as u32 };
                self.int(v as u128, 4)
            }
            "raw" => for _ in 0..t.get("n").n() { let b = self.r.next() as u8; self.out.push(b) },
            "unit" | "any" | "elz" => {}
            "varint" => { let v = self.force.take().unwrap_or_else(|| self.r.int() as u64 >> (8 * self.r.below(8))); self.varint(v) }
            k @ ("dur" | "systime" | "date") => {
                let bad = self.fault();
                let s = match self.r.below(if bad { 8 } else { 3 }) {
                    0 => self.r.next() % 100,
                    1 => self.r.next() % 4_000_000_000,
                    2 => if k == "dur" { self.r.next() } else { self.r.next() % 8_000_000_000_000 },
                    3 => u64::MAX - self.r.next() % 6,
                    4 => i64::MAX as u64 - self.r.next() % 6 + self.r.next() % 6,
                    5 => (8_210_266_876_799i64 - 3 + self.r.below(6) as i64) as u64,
                    6 => (-8_334_601_228_800i64 - 3 + self.r.below(6) as i64) as u64,
                    _ => (-((self.r.next() % 100_000) as i64)) as u64,
                };
                let n = match self.r.below(if bad { 7 } else { 3 }) {
                    0 => 0,
                    1 => 999_999_999,
                    2 => self.r.next() % 1_000_000_000,
                    3 => 1_000_000_000,
                    4 => *self.r.pick(&[1_999_999_999, 2_000_000_000, 4_294_967_295, 3_999_999_999, 4_000_000_000, 1_000_000_001]),
                    5 => self.r.next() % (1 << 32),
                    _ => 1_000_000_000 + self.r.next() % 1_000_000_000,
                };
                let s = if k == "date" && bad && self.r.chance(1, 3) { (s as i64).div_euclid(60).wrapping_mul(60).wrapping_add(59) as u64 } else { s };
                self.int(s as u128, 8);
                self.int(n as u128, 4)
            }
            "tup" => for x in t.get("ts").a() { self.make(x, &[]) },
            "arr" | "rarr" => for _ in 0..t.get("n").n() { self.make(t.get("t"), &[]) },
            "opt" => {
                let some = self.r.chance(2, 3);
                let b = if some && self.fault() { *self.r.pick(&[2u8, 255, 128, 3, 0x7f]) } else { some as u8 };
                self.out.push(b);
                if some { self.make(t.get("t"), env) }
            }
            "res" => {
                let some = self.r.chance(1, 2);
                let b = if some && self.fault() { *self.r.pick(&[2u8, 255, 128, 3]) } else { some as u8 };
                self.out.push(b);
                self.make(t.get(if some { "t" } else { "e" }), &[])
            }
            "str" | "rstr" => { let n = self.count(t.get("lt"), env, 1); self.text(n) }
            "regex" => {
                let l = t.get(if self.fault() { "bad" } else { "good" }).a();
                let s = l[self.r.below(l.len())].bytes();
                self.int(s.len() as u128, 4);
                self.out.extend(s);
            }
            "seq" | "rseq" => {
                let x = t.get("t");
                let iw = if x.get("k").s() == "int" { x.get("w").n() as usize } else { 0 };
                let n = self.count(t.get("lt"), env, iw);
                for _ in 0..n { self.make(x, &[]) }
            }
            "set" | "map" => {
                let n = self.count(t.get("lt"), env, 0);
                let mut keys: Vec<Vec<u8>> = vec![];
                for _ in 0..n {
                    let at = self.out.len();
                    self.make(t.get(if t.opt("a").is_some() { "a" } else { "t" }), &[]);
                    let key = self.out.split_off(at.min(self.out.len()));
                    // now and then a key that was there before
                    let key = if !keys.is_empty() && self.r.chance(1, 4) { keys[self.r.below(keys.len())].clone() } else { key };
                    self.out.extend(&key);
                    keys.push(key);
                    if let Some(b) = t.opt("b") { self.make(b, &[]) }
                }
            }
            "struct" => self.fields(t.get("fs").a()),
            "enum" => {
                let vs = t.get("vs").a();
                if vs.is_empty() { return }
                let v = &vs[self.r.below(vs.len())];
                let tag = u64::from_le_bytes(v.get("tag").bytes().try_into().unwrap());
                if !t.get("peek").t() {
                    let mut said = tag;
                    if self.fault() {
                        said = match self.r.below(8) {
                            0 => tag.wrapping_add(1),
                            1 => tag.wrapping_sub(1),
                            2 => tag | 0x80,
                            3 => tag.wrapping_add(0x100),
                            4 => tag.wrapping_add(1 << (8 * self.r.below(8))),
                            5 => tag ^ 1 << self.r.below(64),
                            6 => tag.wrapping_neg(),
                            _ => self.r.next() >> self.r.below(60),
                        };
                    }
                    match t.get("tt").s() { "varint" => self.varint(said), tt => self.int(said as u128, lenw(tt)) }
                    self.fields(v.get("fs").a())
                } else {
                    // the first number is the tag
                    if !self.fault() { self.force = Some(tag) }
                    self.fields(v.get("fs").a());
                    self.force = None;
                }
            }
            k => panic!("kind {}", k),
        }
    }
}
/// An input for the schema.
pub fn make(t: &J, e: E, r: &mut Rng, max: usize) -> Vec<u8> {
    let faults = [0, 1, 1, 1, 2, 3][r.below(6)];
    let odds = [1, 2, 3, 8, 20][r.below(5)];
    let cut = r.below(8);
    let more = r.below(5);
    let mut m = Maker { r, e, out: vec![], faults, odds, depth: 0, max, force: None };
    m.make(t, &[]);
    let mut b = m.out;
    b.truncate(max.max(64) + 400);
    if cut == 0 { let n = b.len(); b.truncate(n - r.below(n.min(9) + 1)) }
    else if cut == 1 { let n = b.len(); b.truncate(r.below(n + 1)) }
    else if more == 0 { for _ in 0..1 + r.below(4) { b.push(r.next() as u8) } }
    b
}
