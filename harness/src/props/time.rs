//! C14–C16: epochs, datetimes and sidereal time.

use crate::calendar;
use crate::engine::*;
use crate::fail;
use crate::reference::{self as r, TWOPI};
use serde::{Deserialize, Serialize};
use sgp4::chrono::{NaiveDate, NaiveDateTime};

/// year, month, day, second of day, nanosecond
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Date(pub i32, pub u32, pub u32, pub u32, pub u32);

impl Date {
    pub fn ns(&self) -> i128 {
        calendar::ns_since_2000(self.0 as i64, self.1, self.2, self.3, self.4)
    }
    pub fn chrono(&self) -> NaiveDateTime {
        NaiveDate::from_ymd_opt(self.0, self.1, self.2)
            .and_then(|d| d.and_hms_nano_opt(self.3 / 3600, self.3 / 60 % 60, self.3 % 60, self.4))
            .expect("date exists")
    }
    /// exact Julian years since J2000
    pub fn years(&self) -> f64 {
        let ns = self.ns() - calendar::DAY_NS / 2;
        // 365.25 days in ns = 31557600e9; quotient and remainder keep all bits
        let y = 31_557_600_000_000_000i128;
        let (q, m) = (ns.div_euclid(y), ns.rem_euclid(y));
        q as f64 + m as f64 / y as f64
    }
}

pub fn date_in(s: &mut Src, y0: i32, y1: i32) -> Date {
    let y = match s.weighted(&[6, 2]) {
        0 => s.int(y0 as i64, y1 as i64) as i32,
        _ => s.pick(&[2000, 1999, 2020, 1972, 1957, 2056, 1996, 2024]).clamp(y0, y1),
    };
    let (m, d) = match s.weighted(&[6, 2, 1, 1]) {
        0 => {
            let m = 1 + s.draw(12) as u32;
            (m, 1 + s.draw(calendar::days_in_month(y as i64, m) as u64) as u32)
        }
        1 => (2, calendar::days_in_month(y as i64, 2)),
        2 => (12, 31),
        _ => s.pick(&[(1, 1), (3, 1), (2, 28), (6, 30)]),
    };
    let sec = match s.weighted(&[6, 1]) {
        0 => s.draw(86_400) as u32,
        _ => s.pick(&[0, 86_399, 43_200, 43_199, 59, 3_600]),
    };
    let ns = match s.weighted(&[4, 2, 2]) {
        0 => s.draw(1_000_000_000) as u32,
        1 => 0,
        _ => s.pick(&[1, 999_999_999, 500_000_000, 1_000, 104_192_000]),
    };
    Date(y, m, d, sec, ns)
}

pub fn elements_at(d: NaiveDateTime) -> sgp4::Elements {
    sgp4::Elements {
        object_name: None,
        international_designator: None,
        norad_id: 5,
        classification: sgp4::Classification::Unclassified,
        datetime: d,
        mean_motion_dot: 0.0,
        mean_motion_ddot: 0.0,
        drag_term: 0.0,
        element_set_number: 1,
        inclination: 34.0,
        right_ascension: 348.0,
        eccentricity: 0.18,
        argument_of_perigee: 331.0,
        mean_anomaly: 19.0,
        mean_motion: 10.8,
        revolution_number: 1,
        ephemeris_type: 0,
    }
}

pub struct C14;
impl Prop for C14 {
    type Case = Date;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "dates from 1900-03-01 to 2100-02-28 with leap days, year ends and any nanosecond, against integer calendar arithmetic; non-trivial: every case"
    }
    fn quick(&self) -> u64 {
        12_000_000
    }
    fn gen(&self, s: &mut Src) -> Date {
        let mut d = date_in(s, 1900, 2100);
        if d.0 == 1900 && d.1 < 3 {
            d.1 += 2;
        }
        if d.0 == 2100 && d.1 > 2 {
            d.1 = 1 + d.1 % 2;
        }
        d.2 = d.2.min(calendar::days_in_month(d.0 as i64, d.1));
        // inside a leap second
        if s.chance(1, 24) {
            d.3 = d.3 / 60 * 60 + 59;
            d.4 = 1_000_000_000 + s.draw(1_000_000_000) as u32;
        }
        d
    }
    fn check(&self, d: &Date) -> Verdict {
        let want = d.years();
        let dt = d.chrono();
        let a = sgp4::julian_years_since_j2000(&dt);
        if !((a - want).abs() <= 1.0e-13) {
            fail!("epoch {a:?}, exact {want:?}, difference {:e} years", a - want);
        }
        let b = sgp4::julian_years_since_j2000_afspc_compatibility_mode(&dt);
        if !((b - want).abs() <= 5.0e-12) {
            fail!("AFSPC epoch {b:?}, exact {want:?}, difference {:e} years", b - want);
        }
        let e = elements_at(dt);
        if e.epoch().to_bits() != a.to_bits() || e.epoch_afspc_compatibility_mode().to_bits() != b.to_bits() {
            fail!("element epochs {:?} {:?} differ from {a:?} {b:?}", e.epoch(), e.epoch_afspc_compatibility_mode());
        }
        match (d.1, d.2, d.0 >= 2000) {
            _ if d.4 >= 1_000_000_000 => pass("leap second"),
            (2, 29, _) => pass("leap day"),
            (12, 31, _) => pass("last day of a year"),
            (_, _, true) => pass("from 2000"),
            _ => pass("before 2000"),
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case15 {
    /// epoch and another datetime
    Pair(Date, Date),
    /// epoch and minutes
    Minutes(Date, F),
}

pub struct C15;

/// chrono's range of dates, ns since 2000
fn extremes() -> (i128, i128) {
    (calendar::ns_of(&NaiveDateTime::MIN), calendar::ns_of(&NaiveDateTime::MAX))
}

pub fn any_date(s: &mut Src) -> Date {
    match s.weighted(&[8, 2, 1]) {
        0 => date_in(s, 1957, 2056),
        1 => date_in(s, 1700, 2300),
        _ => {
            let y = s.pick(&[-262_000, 262_000, -9999, 9999, 0, -1, 1, 1677, 2262, 2292, 1707]);
            date_in(s, y, y)
        }
    }
}

impl C15 {
    fn back(&self, e: &sgp4::Elements, m: f64) -> Verdict {
        let got = e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(m));
        let epoch = calendar::ns_of(&e.datetime);
        let (min, max) = extremes();
        let offset = m * 60.0e9;
        // offsets beyond an i64 of nanoseconds need not be representable, but then an error is due
        match got {
            Err(_) if m.is_nan() || m.is_infinite() => pass("not a finite number of minutes"),
            Ok(d) if m.is_nan() || m.is_infinite() => fail!("{m:?} minutes accepted as {d:?}"),
            Err(x) => {
                let _ = (x.to_string(), format!("{x:?}"));
                let limit = i64::MAX as f64;
                let target = epoch as f64 + offset;
                let fits = offset.abs() < limit * (1.0 - 1e-15);
                if fits && target > min as f64 * (1.0 - 1e-12) && target < max as f64 * (1.0 - 1e-12) {
                    fail!("{m:?} minutes after {:?} refused: {x}", e.datetime);
                }
                pass("out of range")
            }
            Ok(d) => {
                let diff = calendar::ns_of(&d) - epoch;
                // resolution of the minutes value, and half a nanosecond (or one, when truncating)
                let tol = 1.0 + 4.0 * f64::EPSILON * offset.abs();
                let err = if offset.abs() < 1e30 { (diff - offset as i128) as f64 } else { f64::INFINITY };
                if !(err.abs() <= tol) {
                    fail!("{m:?} minutes after {:?} is {d:?}, off by {err} ns", e.datetime);
                }
                pass("minutes to datetime")
            }
        }
    }
}

impl Prop for C15 {
    type Case = Case15;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "pairs of datetimes over chrono's whole range, and finite, huge, tiny and non-finite minutes, against exact integer nanoseconds; non-trivial: every case"
    }
    fn quick(&self) -> u64 {
        10_000_000
    }
    fn gen(&self, s: &mut Src) -> Case15 {
        let e = any_date(s);
        if s.chance(1, 2) {
            let mut d = any_date(s);
            if s.chance(1, 3) {
                // close pairs
                d = Date(e.0, e.1, e.2, s.draw(86_400) as u32, s.draw(1_000_000_000) as u32);
            }
            if s.chance(1, 8) {
                d = Date(e.0, e.1, e.2, e.3, s.draw(1_000_000_000) as u32);
            }
            Case15::Pair(e, d)
        } else {
            let sg = s.sign();
            let m = match s.weighted(&[4, 3, 2, 2, 2]) {
                0 => s.log10(-12.0, 9.0),
                1 => s.int(0, 1_000_000) as f64 / 60.0,
                2 => s.log10(7.0, 22.0),
                3 => s.pick(&[
                    0.0, f64::NAN, f64::INFINITY, f64::MAX, f64::MIN_POSITIVE, 153_722_867.280_912_94,
                    153_722_867.280_913, 153_722_867.280_912_9, 1.5e8, 1.54e8, 1e300, 5e-324,
                ]),
                _ => {
                    // around the limit of i64 nanoseconds
                    let x = i64::MAX as f64 / 60.0e9;
                    f64::from_bits((x.to_bits() as i64 + s.int(-6, 6)) as u64)
                }
            };
            Case15::Minutes(e, F(sg * m))
        }
    }
    fn check(&self, c: &Case15) -> Verdict {
        match c {
            Case15::Minutes(d, m) => self.back(&elements_at(d.chrono()), m.0),
            Case15::Pair(a, b) => {
                let e = elements_at(a.chrono());
                let dt = b.chrono();
                let exact = b.ns() - a.ns();
                match e.datetime_to_minutes_since_epoch(&dt) {
                    Err(x) => {
                        let _ = (x.to_string(), format!("{x:?}"));
                        if exact.unsigned_abs() <= i64::MAX as u128 {
                            fail!("difference of {exact} ns refused: {x}");
                        }
                        pass("difference too large")
                    }
                    Ok(sgp4::MinutesSinceEpoch(m)) => {
                        let want = exact as f64 / 60.0e9;
                        if !((m - want).abs() <= 2.0 * f64::EPSILON * want.abs()) {
                            fail!("{dt:?} is {m:?} minutes after {:?}, exactly {want:?}", e.datetime);
                        }
                        // and back
                        match e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(m)) {
                            Err(x) => {
                                if exact.unsigned_abs() < (i64::MAX - 4096) as u128 {
                                    fail!("{m:?} minutes refused: {x}");
                                }
                            }
                            Ok(back) => {
                                let err = calendar::ns_of(&back) - b.ns();
                                let tol = 1.0 + 4.0 * f64::EPSILON * (exact as f64).abs();
                                if (err as f64).abs() > tol {
                                    fail!("{dt:?} comes back as {back:?}, off by {err} ns");
                                }
                            }
                        }
                        if exact < 0 { pass("before the epoch") } else { pass("after the epoch") }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub struct C16;
impl Prop for C16 {
    type Case = F;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "epochs within two centuries of J2000, whole and half days, and points where the angle wraps, against the formulas with the reduction done separately; non-trivial: every case"
    }
    fn quick(&self) -> u64 {
        12_000_000
    }
    fn gen(&self, s: &mut Src) -> F {
        F(match s.weighted(&[4, 4, 2, 2, 1]) {
            0 => s.range(-43.0, 57.0),
            1 => s.range(-200.0, 200.0),
            2 => (s.int(-70_000, 70_000) as f64 / 2.0) / 365.25,
            3 => {
                // where the angle returns to zero: 1.0027379 turns a day, starting from 280.46°
                let k = s.int(-70_000, 70_000) as f64;
                (k - 0.779_057_273_264) / 1.002_737_811_911_354_5 / 365.25 + s.sign() * s.log10(-16.0, -9.0)
            }
            _ => s.pick(&[0.0, -50.0, -30.0, 0.5, 200.0, -200.0, 1e-300]),
        })
    }
    fn check(&self, y: &F) -> Verdict {
        let y = y.0;
        let days = y * 365.25;
        let tol = 16.0 * f64::EPSILON * (TWOPI * (days.abs() + 22_000.0));
        let apart = |a: f64, b: f64| -> f64 {
            let d = (a - b).rem_euclid(TWOPI);
            d.min(TWOPI - d)
        };
        let a = sgp4::iau_epoch_to_sidereal_time(y);
        let b = sgp4::afspc_epoch_to_sidereal_time(y);
        for (name, got, want) in [("IAU", a, r::gst_iau(y)), ("AFSPC", b, r::gst_afspc(y))] {
            if !(0.0..=TWOPI).contains(&got) {
                fail!("{name} sidereal time {got:?} is outside one turn");
            }
            if !(apart(got, want) <= tol) {
                fail!("{name} sidereal time {got:?}, formula {want:?}, apart {:e} (allowed {tol:e})", apart(got, want));
            }
        }
        if (-43.0..57.0).contains(&y) && !(apart(a, b) <= 1.0e-5) {
            fail!("IAU {a:?} and AFSPC {b:?} are {:e} apart", apart(a, b));
        }
        if y < 0.0 { pass("before J2000") } else { pass("from J2000") }
    }
}
