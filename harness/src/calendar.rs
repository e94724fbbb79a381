//! Proleptic Gregorian calendar in integers, independent of the crate and of chrono.

pub fn is_leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn days_in_month(y: i64, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ if is_leap(y) => 29,
        _ => 28,
    }
}

/// days since 2000-01-01
pub fn day_number(y: i64, m: u32, d: u32) -> i64 {
    // count whole years through the number of leap days before them
    let leaps = |y: i64| -> i64 {
        let p = y - 1;
        p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400)
    };
    let mut n = (y - 2000) * 365 + leaps(y) - leaps(2000);
    for k in 1..m {
        n += days_in_month(y, k) as i64;
    }
    n + d as i64 - 1
}

pub const DAY_NS: i128 = 86_400_000_000_000;

/// nanoseconds since 2000-01-01 00:00
pub fn ns_since_2000(y: i64, m: u32, d: u32, sec_of_day: u32, ns: u32) -> i128 {
    day_number(y, m, d) as i128 * DAY_NS + sec_of_day as i128 * 1_000_000_000 + ns as i128
}

/// the same, of a chrono value
pub fn ns_of(dt: &sgp4::chrono::NaiveDateTime) -> i128 {
    use sgp4::chrono::{Datelike, Timelike};
    ns_since_2000(dt.year() as i64, dt.month(), dt.day(), dt.num_seconds_from_midnight(), dt.nanosecond())
}
