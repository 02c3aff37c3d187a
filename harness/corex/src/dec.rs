//! A decimal number of its own: digits times 10^-scale, with its own arithmetic, parser and order.
use common::Rng;
use deps::bigdecimal::num_bigint::{BigInt, Sign};
use deps::bigdecimal::BigDecimal;
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct Dec {
    pub digits: BigInt,
    pub scale: i64,
}

pub fn pow10(n: i64) -> BigInt {
    let mut b = BigInt::from(1u32);
    let mut base = BigInt::from(10u32);
    let mut n = n as u64;
    while n > 0 {
        if n & 1 == 1 {
            b = b * &base;
        }
        base = &base * &base;
        n >>= 1;
    }
    b
}

impl Dec {
    pub fn zero() -> Dec {
        Dec { digits: BigInt::from(0), scale: 0 }
    }
    pub fn of(b: &BigDecimal) -> Dec {
        let (digits, scale) = b.as_bigint_and_exponent();
        Dec { digits, scale }
    }
    pub fn big(&self) -> BigDecimal {
        BigDecimal::new(self.digits.clone(), self.scale)
    }
    fn align(&self, o: &Dec) -> (BigInt, BigInt, i64) {
        let s = self.scale.max(o.scale);
        (&self.digits * pow10(s - self.scale), &o.digits * pow10(s - o.scale), s)
    }
    pub fn add(&self, o: &Dec) -> Dec {
        let (a, b, s) = self.align(o);
        Dec { digits: a + b, scale: s }
    }
    pub fn sub(&self, o: &Dec) -> Dec {
        let (a, b, s) = self.align(o);
        Dec { digits: a - b, scale: s }
    }
    pub fn times(&self, n: u64) -> Dec {
        Dec { digits: &self.digits * BigInt::from(n), scale: self.scale }
    }
    /// divided by 10^n
    pub fn shift(&self, n: i64) -> Dec {
        Dec { digits: self.digits.clone(), scale: self.scale + n }
    }
    pub fn cmp(&self, o: &Dec) -> Ordering {
        let (a, b, _) = self.align(o);
        a.cmp(&b)
    }
    pub fn same(&self, o: &Dec) -> bool {
        self.cmp(o) == Ordering::Equal
    }
    pub fn sign(&self) -> i32 {
        match self.digits.sign() {
            Sign::Minus => -1,
            Sign::NoSign => 0,
            Sign::Plus => 1,
        }
    }
    pub fn neg(&self) -> Dec {
        Dec { digits: -&self.digits, scale: self.scale }
    }
    /// the integral part of a non-negative number
    pub fn integral(&self) -> Dec {
        if self.scale <= 0 {
            return Dec { digits: &self.digits * pow10(-self.scale), scale: 0 };
        }
        Dec { digits: &self.digits / pow10(self.scale), scale: 0 }
    }
    /// plain or exponent notation, as a user would write or read it
    pub fn parse(s: &str) -> Option<Dec> {
        let (neg, s) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let (mant, exp) = match s.find(['e', 'E']) {
            Some(i) => (&s[..i], s[i + 1..].strip_prefix('+').unwrap_or(&s[i + 1..]).parse::<i64>().ok()?),
            None => (s, 0),
        };
        let (int, frac) = match mant.find('.') {
            Some(i) => (&mant[..i], &mant[i + 1..]),
            None => (mant, ""),
        };
        let all = format!("{int}{frac}");
        if all.is_empty() || !all.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let mut digits: BigInt = BigInt::parse_bytes(all.as_bytes(), 10)?;
        if neg {
            digits = -digits;
        }
        Some(Dec { digits, scale: frac.len() as i64 - exp })
    }
    /// plain notation with at least one digit before the point
    pub fn plain(&self) -> String {
        let neg = self.sign() < 0;
        let mut d = if neg { (-&self.digits).to_string() } else { self.digits.to_string() };
        if self.scale < 0 {
            if d != "0" {
                d.push_str(&"0".repeat(-self.scale as usize));
            }
        } else if self.scale > 0 {
            let s = self.scale as usize;
            if d.len() <= s {
                d = "0".repeat(s + 1 - d.len()) + &d;
            }
            d.insert(d.len() - s, '.');
        }
        if neg { format!("-{d}") } else { d }
    }
}

pub fn digits(r: &mut Rng, max_len: usize) -> BigInt {
    let s: String = match r.below(10) {
        0 => "0".into(),
        1 => "9".repeat(r.range(1, max_len)),
        2 => format!("1{}", "0".repeat(r.below(max_len))),
        3 => return BigInt::from(*r.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 63, u32::MAX as u64, 1 << 32])),
        _ => {
            let n = r.range(1, max_len);
            (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
        }
    };
    BigInt::parse_bytes(s.as_bytes(), 10).unwrap()
}

/// a non-negative decimal with at most `max_scale` decimals
pub fn gen(r: &mut Rng, max_scale: i64) -> Dec {
    let len = *r.pick(&[2usize, 6, 19, 20, 21, 30, 45, 75]);
    let mut d = digits(r, len);
    let scale = match r.below(6) {
        0 => -(r.below(25) as i64),
        1 => 0,
        2 => max_scale,
        _ => r.below(max_scale as usize + 1) as i64,
    };
    if r.chance(1, 5) {
        // trailing zeros
        d = d * pow10(r.below(4) as i64);
    }
    Dec { digits: d, scale }
}
