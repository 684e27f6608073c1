//! A JSON recogniser written from RFC 8259.
pub struct J<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// Whether the digits after a point or an exponent mark may be missing.
    pub lax: bool,
    /// Whether the bytes of strings need not be UTF-8.
    pub raw: bool,
}

impl<'a> J<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        J { b, p: 0, lax: false, raw: false }
    }
    pub fn lax(b: &'a [u8]) -> Self {
        J { b, p: 0, lax: true, raw: false }
    }
    pub fn peek(&self) -> u8 {
        if self.p < self.b.len() {
            self.b[self.p]
        } else {
            0
        }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            return true;
        }
        false
    }
    pub fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\t' | b'\n' | b'\r') {
            self.p += 1;
        }
    }
    pub fn word(&mut self, w: &[u8]) -> bool {
        for c in w {
            if !self.eat(*c) {
                return false;
            }
        }
        true
    }
    fn digits(&mut self) -> bool {
        let s = self.p;
        while self.peek().is_ascii_digit() {
            self.p += 1;
        }
        self.p > s
    }
    pub fn number(&mut self) -> bool {
        self.eat(b'-');
        if !self.eat(b'0') && !self.digits() {
            return false;
        }
        if self.eat(b'.') && !self.digits() && !self.lax {
            return false;
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.p += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.p += 1;
            }
            return self.digits() || self.lax;
        }
        true
    }
    fn hex(&mut self) -> Option<u32> {
        let mut v = 0u32;
        for _ in 0..4 {
            let c = self.peek();
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            v = v << 4 | d as u32;
            self.p += 1;
        }
        Some(v)
    }
    /// A string literal; what it denotes is appended to `out`.
    pub fn string(&mut self, out: &mut Vec<u8>) -> bool {
        if !self.eat(b'"') {
            return false;
        }
        loop {
            if self.p >= self.b.len() {
                return false;
            }
            let c = self.b[self.p];
            match c {
                b'"' => {
                    self.p += 1;
                    return true;
                }
                b'\\' => {
                    self.p += 1;
                    let e = self.peek();
                    if self.p >= self.b.len() {
                        return false;
                    }
                    self.p += 1;
                    let x = match e {
                        b'"' | b'\\' | b'/' => e,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'u' => {
                            let Some(mut u) = self.hex() else { return false };
                            if u >= 0xd800 && u < 0xdc00 {
                                if !self.word(b"\\u") {
                                    return false;
                                }
                                let Some(l) = self.hex() else { return false };
                                if l < 0xdc00 || l > 0xdfff {
                                    return false;
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                            } else if u >= 0xdc00 && u <= 0xdfff {
                                return false;
                            }
                            utf8(u, out);
                            continue;
                        }
                        _ => return false,
                    };
                    out.push(x);
                }
                0..=31 => return false,
                0..=127 => {
                    out.push(c);
                    self.p += 1;
                }
                _ if self.raw => self.p += 1,
                _ => {
                    // one encoded character
                    let w = if c < 0xc2 {
                        return false;
                    } else if c < 0xe0 {
                        2
                    } else if c < 0xf0 {
                        3
                    } else if c < 0xf5 {
                        4
                    } else {
                        return false;
                    };
                    if self.p + w > self.b.len() || std::str::from_utf8(&self.b[self.p..self.p + w]).is_err() {
                        return false;
                    }
                    for i in 0..w {
                        out.push(self.b[self.p + i]);
                    }
                    self.p += w;
                }
            }
        }
    }
    /// A value, with leading white space.
    pub fn value(&mut self, depth: usize) -> bool {
        if depth == 0 {
            return false;
        }
        self.ws();
        match self.peek() {
            b'{' => {
                self.p += 1;
                self.ws();
                if self.eat(b'}') {
                    return true;
                }
                loop {
                    self.ws();
                    if !self.string(&mut Vec::new()) {
                        return false;
                    }
                    self.ws();
                    if !self.eat(b':') || !self.value(depth - 1) {
                        return false;
                    }
                    self.ws();
                    if self.eat(b'}') {
                        return true;
                    }
                    if !self.eat(b',') {
                        return false;
                    }
                }
            }
            b'[' => {
                self.p += 1;
                self.ws();
                if self.eat(b']') {
                    return true;
                }
                loop {
                    if !self.value(depth - 1) {
                        return false;
                    }
                    self.ws();
                    if self.eat(b']') {
                        return true;
                    }
                    if !self.eat(b',') {
                        return false;
                    }
                }
            }
            b'"' => self.string(&mut Vec::new()),
            b't' => self.word(b"true"),
            b'f' => self.word(b"false"),
            b'n' => self.word(b"null"),
            _ => self.number(),
        }
    }
}

fn utf8(u: u32, out: &mut Vec<u8>) {
    if u < 0x80 {
        out.push(u as u8);
    } else if u < 0x800 {
        out.push(0xc0 | (u >> 6) as u8);
        out.push(0x80 | (u & 63) as u8);
    } else if u < 0x10000 {
        out.push(0xe0 | (u >> 12) as u8);
        out.push(0x80 | (u >> 6 & 63) as u8);
        out.push(0x80 | (u & 63) as u8);
    } else {
        out.push(0xf0 | (u >> 18) as u8);
        out.push(0x80 | (u >> 12 & 63) as u8);
        out.push(0x80 | (u >> 6 & 63) as u8);
        out.push(0x80 | (u & 63) as u8);
    }
}

/// A whole document.
pub fn valid(b: &[u8]) -> bool {
    let mut j = J::new(b);
    j.value(12) && {
        j.ws();
        j.p == b.len()
    }
}

/// What a number denotes.
pub struct Number {
    pub minus: bool,
    /// Digits in front of and after the point.
    pub int: Vec<u8>,
    pub frac: Vec<u8>,
    pub exp: i64,
    /// Whether the exponent was cut off because it is very large.
    pub huge: bool,
}
impl Number {
    /// The absolute value if it is an integer below 2^128.
    pub fn integer(&self) -> Option<u128> {
        let mut d = self.int.clone();
        d.extend_from_slice(&self.frac);
        let mut z = self.exp - self.frac.len() as i64;
        while z < 0 {
            match d.pop() {
                Some(b'0') => z += 1,
                Some(..) => return None,
                // nothing is left but zeros
                None => return Some(0),
            }
        }
        let mut v = if d.len() < 19 {
            let mut v = 0u64;
            for c in &d {
                v = v * 10 + (*c - b'0') as u64;
            }
            v as u128
        } else {
            let mut v = 0u128;
            for c in &d {
                v = v.checked_mul(10)?.checked_add((*c - b'0') as u128)?;
            }
            v
        };
        if z == 0 {
            return Some(v);
        }
        if v == 0 {
            return Some(0);
        }
        while z > 0 {
            v = v.checked_mul(10)?;
            z -= 1;
        }
        Some(v)
    }
    /// The digits in front of the point as an integer.
    pub fn whole(&self) -> Option<u128> {
        if self.int.len() < 19 {
            let mut v = 0u64;
            for c in &self.int {
                v = v * 10 + (*c - b'0') as u64;
            }
            return Some(v as u128);
        }
        let mut v = 0u128;
        for c in &self.int {
            v = v.checked_mul(10)?.checked_add((*c - b'0') as u128)?;
        }
        Some(v)
    }
}
impl J<'_> {
    pub fn number_parts(&mut self) -> Option<Number> {
        let s = self.p;
        if !self.number() {
            return None;
        }
        let t = &self.b[s..self.p];
        let mut n = Number { minus: false, int: Vec::with_capacity(64), frac: Vec::with_capacity(64), exp: 0, huge: false };
        let mut i = 0;
        if t[i] == b'-' {
            n.minus = true;
            i += 1;
        }
        while i < t.len() && t[i].is_ascii_digit() {
            n.int.push(t[i]);
            i += 1;
        }
        if i < t.len() && t[i] == b'.' {
            i += 1;
            while i < t.len() && t[i].is_ascii_digit() {
                n.frac.push(t[i]);
                i += 1;
            }
        }
        if i < t.len() {
            i += 1;
            let mut neg = false;
            if i < t.len() && !t[i].is_ascii_digit() {
                neg = t[i] == b'-';
                i += 1;
            }
            let mut e = 0i64;
            while i < t.len() {
                e = e * 10 + (t[i] - b'0') as i64;
                if e > 2000 {
                    n.huge = true;
                    e = 2000;
                }
                i += 1;
            }
            n.exp = if neg { -e } else { e };
        }
        Some(n)
    }
}
