//! Independent model of the TLE format: field values, an encoder, a checksum and a decoder of columns.

use crate::calendar;
use crate::engine::Src;
use serde::{Deserialize, Serialize};

/// decimal mantissa and exponent field: ±0.mmmmm × 10^±x
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Exp {
    pub neg: bool,
    pub mant: u32,
    pub exp_neg: bool,
    pub exp: u8,
    /// write '+' rather than a blank in the sign column
    pub plus: bool,
}

impl Exp {
    pub fn value(&self) -> f64 {
        let e = if self.exp_neg { -(self.exp as i32) } else { self.exp as i32 };
        let s = format!("{}0.{:05}e{}", if self.neg { "-" } else { "" }, self.mant, e);
        s.parse().unwrap()
    }
    fn write(&self) -> String {
        format!(
            "{}{:05}{}{}",
            if self.neg { '-' } else if self.plus { '+' } else { ' ' },
            self.mant,
            if self.exp_neg { '-' } else { '+' },
            self.exp
        )
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tle {
    pub norad: u32,
    pub class: char,
    /// two-digit launch year, text of the remaining six columns
    pub desig: Option<(u8, String)>,
    pub yy: u8,
    pub doy: u16,
    /// 1e-8 days
    pub frac: u32,
    /// 1e-8, signed
    pub ndot: i32,
    pub nddot: Exp,
    pub bstar: Exp,
    pub etype: u8,
    pub elset: u16,
    /// 1e-4 degrees
    pub incl: u32,
    pub raan: u32,
    /// 1e-7
    pub ecc: u32,
    pub argp: u32,
    pub ma: u32,
    /// 1e-8 revolutions per day
    pub mm: u64,
    pub rev: u32,
    /// layout choices, one bit each: zero padding of norad on line 1, day, elset, mean motion, rev,
    /// inclination, right ascension, perigee, anomaly, norad on line 2
    pub layout: u16,
    pub ndot_style: u8,
}

pub fn century(yy: u8) -> i64 {
    if yy < 57 { 2000 + yy as i64 } else { 1900 + yy as i64 }
}

pub fn checksum(line: &[u8]) -> u8 {
    let mut n = 0u32;
    for b in &line[..68.min(line.len())] {
        if b.is_ascii_digit() {
            n += (b - b'0') as u32;
        } else if *b == b'-' {
            n += 1;
        }
    }
    b'0' + (n % 10) as u8
}

pub fn fix_checksum(line: &mut [u8]) {
    if line.len() >= 69 {
        line[68] = checksum(line);
    }
}

fn fixed4(units: u32, zero: bool) -> String {
    let (a, b) = (units / 10_000, units % 10_000);
    if zero { format!("{a:03}.{b:04}") } else { format!("{a:3}.{b:04}") }
}

impl Tle {
    pub fn lines(&self) -> (Vec<u8>, Vec<u8>) {
        let z = |bit: u16| self.layout >> bit & 1 == 1;
        let norad = |zero: bool| if zero { format!("{:05}", self.norad) } else { format!("{:5}", self.norad) };
        let desig = match &self.desig {
            None => " ".repeat(8),
            Some((y, t)) => format!("{y:02}{t:<6}"),
        };
        let day = if z(1) { format!("{:03}", self.doy) } else { format!("{:3}", self.doy) };
        let digits = format!("{:08}", self.ndot.unsigned_abs());
        let ndot = match (self.ndot < 0, self.ndot_style % 3) {
            (true, _) => format!("-.{digits}"),
            (false, 0) => format!(" .{digits}"),
            (false, 1) => format!("+.{digits}"),
            (false, _) => format!("0.{digits}"),
        };
        let elset = if z(2) { format!("{:04}", self.elset) } else { format!("{:4}", self.elset) };
        let l1 = format!(
            "1 {}{} {desig} {:02}{day}.{:08} {ndot} {} {} {} {elset}0",
            norad(z(0)), self.class, self.yy, self.frac, self.nddot.write(), self.bstar.write(), self.etype
        );
        let mm_int = self.mm / 100_000_000;
        let mm_frac = self.mm % 100_000_000;
        let mm = if z(3) { format!("{mm_int:02}.{mm_frac:08}") } else { format!("{mm_int:2}.{mm_frac:08}") };
        let rev = if z(4) { format!("{:05}", self.rev) } else { format!("{:5}", self.rev) };
        let l2 = format!(
            "2 {} {} {} {:07} {} {} {mm}{rev}0",
            norad(z(9)), fixed4(self.incl, z(5)), fixed4(self.raan, z(6)), self.ecc, fixed4(self.argp, z(7)), fixed4(self.ma, z(8))
        );
        let (mut l1, mut l2) = (l1.into_bytes(), l2.into_bytes());
        debug_assert_eq!((l1.len(), l2.len()), (69, 69), "{}", String::from_utf8_lossy(&l1));
        fix_checksum(&mut l1);
        fix_checksum(&mut l2);
        (l1, l2)
    }

    pub fn designator(&self) -> Option<String> {
        self.desig.as_ref().map(|(y, t)| format!("{}-{}", century(*y), t.trim()))
    }
    /// nanoseconds since 2000-01-01 00:00
    pub fn epoch_ns(&self) -> i128 {
        calendar::ns_since_2000(century(self.yy), 1, 1, 0, 0)
            + (self.doy as i128 - 1) * calendar::DAY_NS
            + self.frac as i128 * 864_000
    }
    pub fn dec(units: i64, digits: usize) -> f64 {
        let p = 10i64.pow(digits as u32);
        format!("{}{}.{:0w$}", if units < 0 { "-" } else { "" }, units.abs() / p, units.abs() % p, w = digits)
            .parse()
            .unwrap()
    }
    pub fn incl_deg(&self) -> f64 {
        Self::dec(self.incl as i64, 4)
    }
    pub fn raan_deg(&self) -> f64 {
        Self::dec(self.raan as i64, 4)
    }
    pub fn argp_deg(&self) -> f64 {
        Self::dec(self.argp as i64, 4)
    }
    pub fn ma_deg(&self) -> f64 {
        Self::dec(self.ma as i64, 4)
    }
    pub fn ecc_value(&self) -> f64 {
        Self::dec(self.ecc as i64, 7)
    }
    pub fn mm_value(&self) -> f64 {
        Self::dec(self.mm as i64, 8)
    }
    pub fn ndot_value(&self) -> f64 {
        Self::dec(self.ndot as i64, 8)
    }

    /// compares every field of parsed elements with the values written
    pub fn diff(&self, e: &sgp4::Elements, name: &Option<String>) -> Result<(), String> {
        let close = |what: &str, got: f64, want: f64| -> Result<(), String> {
            if (got - want).abs() <= 4.0 * f64::EPSILON * want.abs() {
                Ok(())
            } else {
                Err(format!("{what}: {got:?}, written {want:?}"))
            }
        };
        let same = |what: &str, got: String, want: String| -> Result<(), String> {
            if got == want { Ok(()) } else { Err(format!("{what}: {got}, written {want}")) }
        };
        same("object name", format!("{:?}", e.object_name), format!("{name:?}"))?;
        same("designator", format!("{:?}", e.international_designator), format!("{:?}", self.designator()))?;
        same("catalogue number", e.norad_id.to_string(), self.norad.to_string())?;
        let class = match e.classification {
            sgp4::Classification::Unclassified => 'U',
            sgp4::Classification::Classified => 'C',
            sgp4::Classification::Secret => 'S',
        };
        same("classification", class.to_string(), self.class.to_string())?;
        let d = calendar::ns_of(&e.datetime) - self.epoch_ns();
        if d.abs() > 10 {
            return Err(format!("epoch {:?} is {d} ns off", e.datetime));
        }
        close("mean motion derivative", e.mean_motion_dot, self.ndot_value())?;
        close("second derivative", e.mean_motion_ddot, self.nddot.value())?;
        close("drag term", e.drag_term, self.bstar.value())?;
        same("ephemeris type", e.ephemeris_type.to_string(), self.etype.to_string())?;
        same("element set number", e.element_set_number.to_string(), self.elset.to_string())?;
        close("inclination", e.inclination, self.incl_deg())?;
        close("right ascension", e.right_ascension, self.raan_deg())?;
        close("eccentricity", e.eccentricity, self.ecc_value())?;
        close("argument of perigee", e.argument_of_perigee, self.argp_deg())?;
        close("mean anomaly", e.mean_anomaly, self.ma_deg())?;
        close("mean motion", e.mean_motion, self.mm_value())?;
        same("revolution number", e.revolution_number.to_string(), self.rev.to_string())
    }
}

fn exp_field(s: &mut Src) -> Exp {
    match s.weighted(&[1, 3, 3]) {
        0 => Exp { neg: false, mant: 0, exp_neg: s.chance(1, 2), exp: 0, plus: s.chance(1, 3) },
        1 => Exp {
            neg: s.chance(1, 2),
            mant: s.draw(100_000) as u32,
            exp_neg: true,
            exp: s.draw(10) as u8,
            plus: s.chance(1, 3),
        },
        _ => Exp {
            neg: s.chance(1, 2),
            mant: s.draw(100_000) as u32,
            exp_neg: s.chance(1, 2),
            exp: s.draw(10) as u8,
            plus: s.chance(1, 3),
        },
    }
}

fn up_to(s: &mut Src, n: u64) -> u64 {
    match s.weighted(&[4, 1, 1, 2]) {
        0 => s.draw(n),
        1 => n - 1,
        2 => 0,
        _ => {
            // fewer digits
            let d = 10u64.pow(1 + s.draw(5) as u32).min(n);
            s.draw(d)
        }
    }
}

/// any well-formed TLE, with no regard to physics
pub fn any_tle(s: &mut Src) -> Tle {
    let desig = if s.chance(1, 5) {
        None
    } else {
        let y = s.draw(100) as u8;
        let launch = up_to(s, 1000);
        let mut piece = String::new();
        for _ in 0..s.below(4) {
            piece.push((b'A' + s.draw(26) as u8) as char);
        }
        // some catalogues pad or separate with blanks, or write small letters
        let text = match s.weighted(&[17, 1, 1, 1]) {
            0 => format!("{launch:03}{piece}"),
            1 => format!("{launch:3}{piece}"),
            2 => format!("{launch:03} {}", &piece[..piece.len().min(2)]),
            _ => format!("{launch:03}{}", piece.to_lowercase()),
        };
        Some((y, text))
    };
    let yy = match s.weighted(&[4, 1]) {
        0 => s.draw(100) as u8,
        _ => s.pick(&[0u8, 56, 57, 99, 20, 72, 0]),
    };
    let last = if calendar::is_leap(century(yy)) { 366 } else { 365 };
    let doy = match s.weighted(&[4, 1, 1, 1]) {
        0 => 1 + s.draw(last) as u16,
        1 => last as u16,
        2 => 1,
        _ => s.pick(&[59u16, 60, 61, 9, 10, 99, 100]),
    };
    let frac = match s.weighted(&[4, 1, 1]) {
        0 => s.draw(100_000_000) as u32,
        1 => s.pick(&[0u32, 99_999_999, 50_000_000, 31_250]),
        // whole seconds: the nanosecond part is prone to round up to a full second
        _ => (s.draw(86_400) * 100_000_000 / 86_400) as u32,
    };
    Tle {
        norad: up_to(s, 100_000) as u32,
        class: s.pick(&['U', 'U', 'C', 'S']),
        desig,
        yy,
        doy,
        frac,
        ndot: (s.sign() as i32) * up_to(s, 100_000_000) as i32,
        nddot: exp_field(s),
        bstar: exp_field(s),
        etype: s.draw(10) as u8,
        elset: up_to(s, 10_000) as u16,
        incl: up_to(s, 1_800_001) as u32,
        raan: up_to(s, 3_600_000) as u32,
        ecc: up_to(s, 10_000_000) as u32,
        argp: up_to(s, 3_600_000) as u32,
        ma: up_to(s, 3_600_000) as u32,
        mm: up_to(s, 10_000_000_000),
        rev: up_to(s, 100_000) as u32,
        layout: s.draw(1024) as u16,
        ndot_style: s.draw(3) as u8,
    }
}

/// a TLE of a plausible satellite, regime by regime
pub fn plausible_tle(s: &mut Src) -> Tle {
    let mut t = any_tle(s);
    t.ndot = s.int(-5000, 5000) as i32;
    t.nddot = Exp { neg: false, mant: 0, exp_neg: true, exp: 0, plus: false };
    t.bstar = Exp {
        neg: s.chance(1, 5),
        mant: s.draw(100_000) as u32,
        exp_neg: true,
        exp: 3 + s.draw(3) as u8,
        plus: false,
    };
    let (mm, ecc) = match s.weighted(&[4, 2, 2, 3, 3]) {
        0 => (s.range(11.0, 16.3), s.pick(&[0.0, 0.0001, 0.0003, 0.001, 0.02])),
        1 => (s.range(6.5, 11.0), s.range(0.0, 0.2)),
        2 => (s.range(2.2, 6.4), s.range(0.0, 0.6)),
        3 => (s.range(0.95, 1.05), s.range(0.0, 0.1)),
        _ => (s.range(1.98, 2.02), s.range(0.5, 0.75)),
    };
    t.mm = (mm * 1e8) as u64;
    t.ecc = (ecc * 1e7) as u32 + s.draw(1000) as u32;
    t.incl = match s.weighted(&[15, 10, 1, 5]) {
        0 => s.draw(1_800_000) as u32,
        1 => s.draw(120_000) as u32,
        2 => s.int(1_800_000, 9_999_999) as u32,
        _ => s.pick(&[0u32, 516_400, 980_000, 634_349, 30_000, 114_592]),
    };
    t
}
