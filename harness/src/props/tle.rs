//! C09–C11: the TLE format.

use crate::engine::*;
use crate::fail;
use crate::tleref::{self, Tle};
use serde::{Deserialize, Serialize};

pub fn text(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case09 {
    pub tle: Tle,
    pub name: Option<String>,
}

pub fn title(s: &mut Src) -> String {
    const CHARS: [char; 25] = [
        'A', 'Z', 'a', '0', '9', ' ', ' ', '-', '(', ')', '/', '.', '1', '2', '\t', 'é', '衛', '\u{2028}', '\u{b}',
        '\u{85}', '#', '"', '\\', '\0', '\r',
    ];
    match s.weighted(&[16, 4, 8, 1, 4]) {
        0 => {
            let n = s.below(30);
            (0..n).map(|_| s.pick(&CHARS)).collect()
        }
        1 => String::new(),
        2 => s.pick(&["ISS (ZARYA)", "0 VANGUARD 1", "  padded  ", "NAME\r", "\r\r", "1 00005U", "2", "\u{feff}BOM", " "]).to_string(),
        // a title that looks like another line
        3 => {
            let (a, b) = tleref::plausible_tle(s).lines();
            let line = if s.chance(1, 2) { a } else { b };
            String::from_utf8(line).unwrap_or_default()
        }
        _ => {
            let n = 60 + s.below(30);
            (0..n).map(|_| s.pick(&CHARS)).collect()
        }
    }
}

pub struct C09;
impl Prop for C09 {
    type Case = Case09;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "well-formed TLEs written by an independent encoder from random field values (every sign, padding and edge value, blank, padded and separated designators, day 366) plus a random name; non-trivial: every case, all seventeen fields are compared"
    }
    fn quick(&self) -> u64 {
        6_000_000
    }
    fn gen(&self, s: &mut Src) -> Case09 {
        let tle = tleref::any_tle(s);
        let name = if s.chance(2, 3) { Some(title(s)) } else { None };
        Case09 { tle, name }
    }
    fn check(&self, c: &Case09) -> Verdict {
        let (l1, l2) = c.tle.lines();
        match sgp4::Elements::from_tle(c.name.clone(), &l1, &l2) {
            Err(e) => fail!("well-formed TLE refused: {e}\n{}\n{}", text(&l1), text(&l2)),
            Ok(e) => {
                if let Err(m) = c.tle.diff(&e, &c.name) {
                    fail!("{m}\n{}\n{}", text(&l1), text(&l2));
                }
            }
        }
        match (&c.tle.desig, c.tle.ndot < 0 || c.tle.nddot.neg || c.tle.bstar.neg) {
            (None, _) => pass("no designator"),
            (_, true) => pass("negative value"),
            _ => pass("no negative value"),
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// error kinds as printed by Debug
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// drop this many characters from the end
    Shorten(usize, usize),
    Lengthen(usize, String),
    /// zero columns
    Empty(usize),
    First(usize, u8),
    Separator(usize, usize, u8),
    /// catalogue number of the second line
    Mismatch(u32),
    /// this byte in place of the checksum
    Checksum(usize, u8),
    /// a digit changed to another without correcting the checksum: line, position among candidates, increment
    Digit(usize, usize, u8),
    /// a minus sign turned to a plus sign or blank, or the other way round, without correcting the checksum
    Minus(usize, usize),
    Class(u8),
    /// field, column inside it, byte
    Char(usize, usize, u8),
    Blank(usize),
    /// a field of numbers replaced with text that is no number of its kind
    Text(usize, usize),
    /// the same for a field with an assumed decimal point
    Mantissa(usize, usize),
    /// day of the year
    Day(u16),
    /// byte that is no UTF-8 in the designator
    Encoding(usize),
}

/// line, start, end, accepted kinds
const FIELDS: [(usize, usize, usize, &[&str]); 18] = [
    (1, 9, 11, &["ExpectedInteger"]),
    (1, 18, 20, &["ExpectedInteger", "ExpectedFloat"]),
    (1, 20, 32, &["ExpectedFloat"]),
    (1, 33, 43, &["ExpectedFloat"]),
    (1, 44, 50, &["ExpectedFloatWithAssumedDecimalPoint"]),
    (1, 50, 52, &["ExpectedInteger", "ExpectedFloat"]),
    (1, 53, 59, &["ExpectedFloatWithAssumedDecimalPoint"]),
    (1, 59, 61, &["ExpectedInteger", "ExpectedFloat"]),
    (1, 62, 63, &["ExpectedInteger"]),
    (1, 64, 68, &["ExpectedInteger"]),
    (2, 8, 16, &["ExpectedFloat"]),
    (2, 17, 25, &["ExpectedFloat"]),
    (2, 26, 33, &["ExpectedFloatWithAssumedDecimalPoint"]),
    (2, 34, 42, &["ExpectedFloat"]),
    (2, 43, 51, &["ExpectedFloat"]),
    (2, 52, 63, &["ExpectedFloat"]),
    (2, 63, 68, &["ExpectedInteger"]),
    // the catalogue number, corrupted alike on both lines
    (1, 2, 7, &["ExpectedInteger"]),
];

const SEP1: [usize; 8] = [1, 8, 17, 32, 43, 52, 61, 63];
const SEP2: [usize; 7] = [1, 7, 16, 25, 33, 42, 51];
/// texts that are no finite decimal number
const TEXTS: [&str; 8] = ["nan", "NaN", "inf", "-inf", "1.2.3", "--1", "1e", "1 2"];

const MANTISSAS: [&str; 12] =
    ["1e301", "1E9", "-1e9", "+2e-5", "1e", "nan", "-inf", "0x1", "1_0", "1.5", ".15", "- 1"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case10 {
    Valid(Tle),
    Fault(Tle, Fault),
    /// no expectation on the outcome other than the acceptance rules
    Bytes(Vec<u8>, Vec<u8>),
}

pub struct Expected {
    kinds: Vec<&'static str>,
    /// 0: both
    line: usize,
    start: usize,
    end: usize,
}

fn expect(kinds: &[&'static str], line: usize, start: usize, end: usize) -> Expected {
    Expected { kinds: kinds.to_vec(), line, start, end }
}

/// the lines with the fault, and the error it must cause (None when the fault does not apply)
pub fn corrupt(tle: &Tle, f: &Fault) -> Option<(Vec<u8>, Vec<u8>, Expected)> {
    let mut tle = tle.clone();
    match f {
        Fault::Day(d) => {
            let last = if crate::calendar::is_leap(tleref::century(tle.yy)) { 366 } else { 365 };
            if *d >= 1 && *d <= last {
                return None;
            }
            tle.doy = *d;
            let (a, b) = tle.lines();
            return Some((a, b, expect(&["FromYoOptFailed"], 1, 18, 20)));
        }
        Fault::Char(0, ..) | Fault::Blank(0) | Fault::Encoding(_) if tle.desig.is_none() => {
            tle.desig = Some((70, "001A".into()))
        }
        _ => {}
    }
    let (a, b) = tle.lines();
    let mut l = [a, b];
    let e = match f {
        Fault::Day(_) => unreachable!(),
        Fault::Shorten(k, n) => {
            let n = 69usize.checked_sub(*n)?;
            l[*k].truncate(n);
            expect(&["BadLength"], k + 1, 0, n)
        }
        Fault::Lengthen(k, t) => {
            if t.is_empty() {
                return None;
            }
            l[*k].extend_from_slice(t.as_bytes());
            let n = l[*k].len();
            expect(&["BadLength"], k + 1, 0, n)
        }
        Fault::Empty(k) => {
            l[*k].clear();
            expect(&["BadLength"], k + 1, 0, 0)
        }
        Fault::First(k, c) => {
            if *c == b'1' + *k as u8 {
                return None;
            }
            l[*k][0] = *c;
            expect(&["BadFirstCharacter"], k + 1, 0, 1)
        }
        Fault::Separator(k, i, c) => {
            if *c == b' ' {
                return None;
            }
            let col = if *k == 0 { SEP1[i % 8] } else { SEP2[i % 7] };
            l[*k][col] = *c;
            expect(&["ExpectedSpace"], k + 1, col, col + 1)
        }
        Fault::Mismatch(n) => {
            if *n == tle.norad {
                return None;
            }
            l[1][2..7].copy_from_slice(format!("{n:05}").as_bytes());
            expect(&["NoradIdMismatch"], 0, 2, 7)
        }
        Fault::Checksum(k, c) => {
            if *c == l[*k][68] {
                return None;
            }
            l[*k][68] = *c;
            return Some((l[0].clone(), l[1].clone(), expect(&["BadChecksum"], k + 1, 68, 69)));
        }
        Fault::Digit(k, i, inc) => {
            let cols: Vec<usize> = (7..68).filter(|c| l[*k][*c].is_ascii_digit()).collect();
            let col = cols[i % cols.len()];
            let inc = 1 + inc % 9;
            l[*k][col] = b'0' + (l[*k][col] - b'0' + inc) % 10;
            return Some((l[0].clone(), l[1].clone(), expect(&["BadChecksum"], k + 1, 68, 69)));
        }
        Fault::Minus(k, i) => {
            let cols: Vec<usize> = (7..68).filter(|c| matches!(l[*k][*c], b'-' | b'+')).collect();
            if cols.is_empty() {
                return None;
            }
            let col = cols[i % cols.len()];
            l[*k][col] = if l[*k][col] == b'-' { b'+' } else { b'-' };
            return Some((l[0].clone(), l[1].clone(), expect(&["BadChecksum"], k + 1, 68, 69)));
        }
        Fault::Class(c) => {
            if b"UCS".contains(c) || c.is_ascii_digit() && false {
                return None;
            }
            l[0][7] = *c;
            expect(&["UnknownClassification"], 1, 7, 8)
        }
        Fault::Char(i, at, c) => {
            let (k, s, e, kinds) = FIELDS[i % 18];
            let col = s + at % (e - s);
            l[k - 1][col] = *c;
            if *i % 18 == 17 {
                l[1][col] = *c;
            }
            expect(kinds, k, s, e)
        }
        Fault::Blank(i) => {
            let (k, s, e, kinds) = FIELDS[i % 18];
            l[k - 1][s..e].fill(b' ');
            if *i % 18 == 17 {
                l[1][s..e].fill(b' ');
            }
            expect(kinds, k, s, e)
        }
        Fault::Text(i, j) => {
            let floats: Vec<_> = FIELDS.iter().filter(|f| f.3 == ["ExpectedFloat"]).collect();
            let (k, s, e, kinds) = *floats[i % floats.len()];
            let t = format!("{:>w$}", TEXTS[j % TEXTS.len()], w = e - s);
            l[k - 1][s..e].copy_from_slice(t.as_bytes());
            expect(kinds, k, s, e)
        }
        Fault::Mantissa(i, j) => {
            let (k, s, e, kinds) = FIELDS[[4, 6, 12][i % 3]];
            let t = format!("{:>w$}", MANTISSAS[j % MANTISSAS.len()], w = e - s);
            l[k - 1][s..e].copy_from_slice(t.as_bytes());
            expect(kinds, k, s, e)
        }
        Fault::Encoding(at) => {
            l[0][11 + at % 6] = 0xff;
            expect(&["ExpectedString"], 1, 11, 17)
        }
    };
    let [mut a, mut b] = l;
    if a.len() == 69 {
        tleref::fix_checksum(&mut a);
    }
    if b.len() == 69 {
        tleref::fix_checksum(&mut b);
    }
    Some((a, b, e))
}

fn odd_byte(s: &mut Src) -> u8 {
    match s.weighted(&[4, 2, 1]) {
        0 => s.pick(b"X#!@Z~q"),
        1 => s.pick(&[0u8, 0x7f, 0x80, 0xc3, 0xff, 0x1b, b'/', b':', b';']),
        _ => s.pick(&[0x01u8, 0xe2, b'*', b'%', b'?']),
    }
}

pub fn fault(s: &mut Src) -> Fault {
    match s.weighted(&[1, 1, 1, 1, 3, 2, 2, 3, 2, 1, 8, 3, 2, 2, 1, 2]) {
        0 => Fault::Shorten(s.below(2), 1 + if s.chance(1, 2) { s.below(69) } else { 0 }),
        1 => {
            let t = match s.below(4) {
                0 => " ".to_string(),
                1 => "0".to_string(),
                2 => "\r".to_string(),
                _ => " ".repeat(1 + s.below(300)),
            };
            Fault::Lengthen(s.below(2), t)
        }
        2 => Fault::Empty(s.below(2)),
        3 => Fault::First(s.below(2), s.draw(256) as u8),
        4 => Fault::Separator(s.below(2), s.below(8), s.pick(b"0159-+.XU\t\x00\xff_")),
        5 => Fault::Mismatch(s.draw(100_000) as u32),
        6 => Fault::Checksum(s.below(2), if s.chance(1, 2) { b'0' + s.draw(10) as u8 } else { s.draw(256) as u8 }),
        7 => Fault::Digit(s.below(2), s.below(61), s.draw(9) as u8),
        8 => Fault::Minus(0, s.below(8)),
        9 => Fault::Class(if s.chance(1, 2) { s.pick(b"ucsTVXN A") } else { 58 + s.draw(198) as u8 }),
        10 => Fault::Char(s.below(18), s.below(12), odd_byte(s)),
        11 => Fault::Blank({
            // a blank designator year together with a blank rest would be valid; handled in corrupt()
            s.below(18)
        }),
        12 => Fault::Text(s.below(10), s.below(TEXTS.len())),
        13 => Fault::Day(s.pick(&[0u16, 366, 367, 400, 999, 366, 366])),
        14 => Fault::Encoding(s.below(6)),
        _ => Fault::Mantissa(s.below(3), s.below(MANTISSAS.len())),
    }
}

pub fn mutated(s: &mut Src) -> (Vec<u8>, Vec<u8>) {
    let tle = if s.chance(1, 2) { tleref::any_tle(s) } else { tleref::plausible_tle(s) };
    let (a, b) = tle.lines();
    let mut l = [a, b];
    for _ in 0..1 + s.below(4) {
        let k = s.below(2);
        if l[k].is_empty() {
            continue;
        }
        let at = s.below(l[k].len());
        match s.weighted(&[6, 2, 1, 1, 1]) {
            0 => l[k][at] = s.pick(b"0123456789 -+.eE_naifxNIUCS/:"),
            1 => l[k][at] = s.draw(256) as u8,
            2 => {
                l[k].remove(at);
            }
            3 => l[k].insert(at, s.pick(b"0 -+.")),
            _ => {
                // move a block, as when a column slips
                let n = s.below(12).min(l[k].len() - at);
                let to = s.below(l[k].len() - n + 1);
                let block: Vec<u8> = l[k].drain(at..at + n).collect();
                for (i, c) in block.into_iter().enumerate() {
                    l[k].insert((to + i).min(l[k].len()), c);
                }
            }
        }
    }
    let [mut a, mut b] = l;
    if s.chance(3, 4) {
        tleref::fix_checksum(&mut a);
        tleref::fix_checksum(&mut b);
    }
    (a, b)
}

pub fn arbitrary(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[4, 1, 1]) {
        0 => 69,
        1 => s.below(90),
        _ => s.pick(&[0usize, 1, 8, 68, 70, 138, 500]),
    };
    let alphabet = s.below(3);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match alphabet {
            0 => s.draw(256) as u8,
            1 => s.pick(b"0123456789 -+."),
            _ => s.pick(b" 0\x00\xff\xc3\xa9-1"),
        })
        .collect();
    if n >= 69 && s.chance(3, 4) {
        v[0] = b'1' + s.draw(2) as u8;
        if s.chance(3, 4) {
            for c in if v[0] == b'1' { SEP1.to_vec() } else { SEP2.to_vec() } {
                v[c] = b' ';
            }
            v[2..7].copy_from_slice(b"00001");
        }
        if s.chance(1, 2) {
            tleref::fix_checksum(&mut v);
        }
    }
    v
}

/// the acceptance rules, and the value of every field, read from the columns
fn accepted_is_legal(l1: &[u8], l2: &[u8], e: &sgp4::Elements) -> Result<(), String> {
    if l1.len() != 69 || l2.len() != 69 {
        return Err("accepted with a wrong length".into());
    }
    if l1[0] != b'1' || l2[0] != b'2' {
        return Err("accepted with a wrong first character".into());
    }
    for c in SEP1 {
        if l1[c] != b' ' {
            return Err(format!("accepted without a blank in column {c} of line 1"));
        }
    }
    for c in SEP2 {
        if l2[c] != b' ' {
            return Err(format!("accepted without a blank in column {c} of line 2"));
        }
    }
    for (n, l) in [(1, l1), (2, l2)] {
        if tleref::checksum(l) != l[68] {
            return Err(format!("accepted with a wrong checksum on line {n}"));
        }
    }
    if !b"UCS".contains(&l1[7]) {
        return Err("accepted with an unknown classification".into());
    }
    let field = |l: &[u8], a: usize, b: usize| -> Result<String, String> {
        std::str::from_utf8(&l[a..b])
            .map(|s| s.trim_start().to_string())
            .map_err(|_| format!("accepted although columns {a}..{b} are no text"))
    };
    let int = |l: &[u8], a: usize, b: usize, got: u64| -> Result<(), String> {
        let t = field(l, a, b)?;
        match t.parse::<u64>() {
            Ok(v) if v == got => Ok(()),
            v => Err(format!("integer columns {a}..{b} hold {t:?} ({v:?}), accepted as {got}")),
        }
    };
    int(l1, 2, 7, e.norad_id)?;
    int(l2, 2, 7, e.norad_id)?;
    int(l1, 62, 63, e.ephemeris_type as u64)?;
    int(l1, 64, 68, e.element_set_number)?;
    int(l2, 63, 68, e.revolution_number)?;
    let float = |l: &[u8], a: usize, b: usize, got: f64| -> Result<(), String> {
        let t = field(l, a, b)?;
        match t.parse::<f64>() {
            Ok(v) if v.is_finite() && (v - got).abs() <= 4.0 * f64::EPSILON * v.abs() => Ok(()),
            v => Err(format!("number columns {a}..{b} hold {t:?} ({v:?}), accepted as {got:?}")),
        }
    };
    float(l1, 33, 43, e.mean_motion_dot)?;
    float(l2, 8, 16, e.inclination)?;
    float(l2, 17, 25, e.right_ascension)?;
    float(l2, 34, 42, e.argument_of_perigee)?;
    float(l2, 43, 51, e.mean_anomaly)?;
    float(l2, 52, 63, e.mean_motion)?;
    // fields with an assumed point: digits only after the sign
    let assumed = |l: &[u8], a: usize, b: usize, exp: Option<(usize, usize)>, got: f64| -> Result<(), String> {
        let t = field(l, a, b)?;
        let (neg, digits) = match t.as_bytes().first() {
            Some(b'-') => (true, &t[1..]),
            Some(b'+') => (false, &t[1..]),
            _ => (false, &t[..]),
        };
        let x = match exp {
            None => 0,
            Some((c, d)) => {
                let t = field(l, c, d)?;
                t.parse::<i32>().map_err(|_| format!("exponent columns {c}..{d} hold {t:?}, accepted"))?
            }
        };
        if digits.contains(['e', 'E']) {
            return Err(format!("columns {a}..{b} hold {t:?}, a mantissa with an exponent, accepted as {got:?}"));
        }
        match format!(".{digits}e{x}").parse::<f64>() {
            Ok(v) if v.is_finite() => {
                let v = if neg { -v } else { v };
                if (v - got).abs() <= 8.0 * f64::EPSILON * v.abs() {
                    Ok(())
                } else {
                    Err(format!("columns {a}..{b} hold {t:?}, accepted as {got:?}"))
                }
            }
            v => Err(format!("columns {a}..{b} hold {t:?} ({v:?}), accepted as {got:?}")),
        }
    };
    assumed(l1, 44, 50, Some((50, 52)), e.mean_motion_ddot)?;
    assumed(l1, 53, 59, Some((59, 61)), e.drag_term)?;
    assumed(l2, 26, 33, None, e.eccentricity)?;
    let all = [
        e.mean_motion_dot, e.mean_motion_ddot, e.drag_term, e.inclination, e.right_ascension, e.eccentricity,
        e.argument_of_perigee, e.mean_anomaly, e.mean_motion,
    ];
    if all.iter().any(|x| !x.is_finite()) {
        return Err(format!("accepted a number that is not finite: {all:?}"));
    }
    let t = field(l1, 20, 32)?;
    match t.parse::<f64>() {
        Ok(v) if v.is_finite() && v >= 1.0 && v < 367.0 => Ok(()),
        v => Err(format!("day columns hold {t:?} ({v:?}), accepted")),
    }
}

/// what the message of each kind must mention
const PHRASES: [(&str, &str); 12] = [
    ("BadChecksum", "checksum"),
    ("BadLength", "length"),
    ("BadFirstCharacter", "first character"),
    ("ExpectedFloat", "parsing a float field failed on"),
    ("ExpectedFloatWithAssumedDecimalPoint", "assumed decimal point"),
    ("FloatWithAssumedDecimalPointTooLong", "16"),
    ("ExpectedInteger", "integer"),
    ("ExpectedSpace", "space"),
    ("ExpectedString", "string"),
    ("NoradIdMismatch", "norad"),
    ("UnknownClassification", "classification"),
    ("FromYoOptFailed", "year"),
];

pub fn names_error(e: &sgp4::TleError, x: &Expected) -> Result<(), String> {
    let debug = format!("{e:?}");
    let shown = e.to_string();
    // Debug prints the variant name as a word
    let words: Vec<&str> = debug.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    if !x.kinds.iter().any(|k| words.contains(k)) {
        return Err(format!("error {debug}, expected {:?}", x.kinds));
    }
    let named = PHRASES.iter().find(|(k, _)| words.contains(k));
    if let Some((k, phrase)) = named {
        if !shown.to_lowercase().contains(phrase) {
            return Err(format!("{k} reads {shown:?}"));
        }
    }
    let place = match x.line {
        0 => "(TLE lines mismatch)",
        1 => "on TLE line 1",
        _ => "on TLE line 2",
    };
    let span = format!("between characters {} and {}", x.start, x.end);
    if !shown.contains(place) || !shown.ends_with(&span) {
        return Err(format!("error {shown:?}, expected {place:?} {span:?}"));
    }
    Ok(())
}

pub struct C10;
impl Prop for C10 {
    type Case = Case10;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "valid TLEs with exactly one injected fault out of sixteen kinds (expected error kind, line and columns known), multiply mutated TLEs and arbitrary bytes (accepted only if all acceptance rules hold, never a panic); non-trivial: a fault was injected, or the bytes were accepted, or they were rejected after 69-character lines"
    }
    fn quick(&self) -> u64 {
        8_000_000
    }
    fn gen(&self, s: &mut Src) -> Case10 {
        match s.weighted(&[6, 5, 1, 1]) {
            0 => {
                let t = tleref::any_tle(s);
                Case10::Fault(t, fault(s))
            }
            1 => {
                let (a, b) = mutated(s);
                Case10::Bytes(a, b)
            }
            2 => Case10::Bytes(arbitrary(s), arbitrary(s)),
            _ => Case10::Valid(tleref::any_tle(s)),
        }
    }
    fn check(&self, c: &Case10) -> Verdict {
        match c {
            Case10::Valid(t) => {
                let (a, b) = t.lines();
                match sgp4::Elements::from_tle(None, &a, &b) {
                    Ok(e) => match accepted_is_legal(&a, &b, &e) {
                        Ok(()) => trivial("valid"),
                        Err(m) => fail!("{m}\n{}\n{}", text(&a), text(&b)),
                    },
                    Err(e) => fail!("valid TLE refused: {e}\n{}\n{}", text(&a), text(&b)),
                }
            }
            Case10::Fault(t, f) => {
                let Some((a, b, x)) = corrupt(t, f) else { return trivial("fault does not apply") };
                match sgp4::Elements::from_tle(None, &a, &b) {
                    Ok(_) => fail!("accepted in spite of {f:?}\n{}\n{}", text(&a), text(&b)),
                    Err(e) => {
                        if let Err(m) = names_error(&e, &x) {
                            fail!("{m} for {f:?}\n{}\n{}", text(&a), text(&b));
                        }
                    }
                }
                match f {
                    Fault::Shorten(..) | Fault::Lengthen(..) | Fault::Empty(_) => pass("length"),
                    Fault::First(..) => pass("first character"),
                    Fault::Separator(..) => pass("separator"),
                    Fault::Mismatch(_) => pass("catalogue number mismatch"),
                    Fault::Checksum(..) => pass("checksum character"),
                    Fault::Digit(..) => pass("changed digit"),
                    Fault::Minus(..) => pass("changed sign"),
                    Fault::Class(_) => pass("classification"),
                    Fault::Char(..) => pass("odd character in a field"),
                    Fault::Blank(_) => pass("blank field"),
                    Fault::Text(..) => pass("no number"),
                    Fault::Day(_) => pass("day"),
                    Fault::Encoding(_) => pass("encoding"),
                    Fault::Mantissa(..) => pass("mantissa"),
                }
            }
            Case10::Bytes(a, b) => match sgp4::Elements::from_tle(None, a, b) {
                Ok(e) => match accepted_is_legal(a, b, &e) {
                    Ok(()) => pass("mutated, accepted"),
                    Err(m) => fail!("{m}\n{}\n{}", text(a), text(b)),
                },
                Err(e) => {
                    // the error must be printable
                    let _ = (e.to_string(), format!("{e:?}"));
                    if a.len() == 69 && b.len() == 69 { pass("bytes, rejected") } else { trivial("bytes of other length") }
                }
            },
        }
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Group {
    pub title: String,
    pub tle: Tle,
    pub fault: Option<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case11 {
    pub titled: bool,
    pub groups: Vec<Group>,
    /// one bit per line: CRLF
    pub crlf: u64,
    pub final_eol: bool,
    /// lines of an incomplete group at the end
    pub trailing: usize,
    /// these lines are empty
    #[serde(default)]
    pub blank: bool,
    /// the groups come this many times over
    #[serde(default = "once")]
    pub copies: usize,
}

fn once() -> usize {
    1
}

impl Case11 {
    fn groups(&self) -> impl Iterator<Item = &Group> {
        self.groups.iter().cycle().take(self.groups.len() * self.copies)
    }
    /// the text, and what parsing each group alone gives
    #[allow(clippy::type_complexity)]
    pub fn compose(&self) -> (String, Vec<Result<sgp4::Elements, sgp4::TleError>>, usize) {
        let c = self;
        let mut lines: Vec<Vec<u8>> = vec![];
        let mut want: Vec<Result<sgp4::Elements, sgp4::TleError>> = vec![];
        for g in c.groups() {
            let (a, b) = match g.fault.as_ref().and_then(|f| corrupt(&g.tle, f)) {
                Some((a, b, _)) => (a, b),
                None => g.tle.lines(),
            };
            // line ends or non-UTF-8 bytes inside a line would make it a different text
            let (a, b) = match (std::str::from_utf8(&a), std::str::from_utf8(&b)) {
                (Ok(x), Ok(y)) if !x.contains(['\n', '\r']) && !y.contains(['\n', '\r']) => (a, b),
                _ => g.tle.lines(),
            };
            if c.titled {
                lines.push(g.title.clone().into_bytes());
                want.push(sgp4::Elements::from_tle(Some(g.title.clone()), &a, &b));
            } else {
                want.push(sgp4::Elements::from_tle(None, &a, &b));
            }
            lines.push(a);
            lines.push(b);
        }
        let partial = c.trailing.min(if c.titled { 2 } else { 1 });
        if partial > 0 {
            let (a, b) = tleref::plausible_tle(&mut Src::random(c.crlf)).lines();
            let (a, b) = if c.blank { (vec![], vec![]) } else { (a, b) };
            let rest = if c.titled && c.blank { vec![vec![], a, b] } else if c.titled { vec![b"LAST".to_vec(), a, b] } else { vec![a, b] };
            lines.extend(rest.into_iter().take(partial));
        }
        let mut text: Vec<u8> = vec![];
        let n = lines.len();
        for (i, l) in lines.iter().enumerate() {
            text.extend_from_slice(l);
            // an empty last line exists only if it is terminated; a carriage return at the end of a
            // title is part of it only before another one
            if i + 1 < n || c.final_eol || l.is_empty() {
                text.extend_from_slice(if c.crlf >> (i % 64) & 1 == 1 || l.ends_with(b"\r") { b"\r\n" } else { b"\n" });
            }
        }
        let text = String::from_utf8(text).expect("text");
        (text, want, partial)
    }
}

pub struct C11;
impl Prop for C11 {
    type Case = Case11;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "texts of 0 to 12 groups, sometimes repeated up to 200 times, with odd titles, LF/CRLF mixed, optional final line end, optional invalid groups and optional incomplete last group; non-trivial: at least two groups or an invalid group"
    }
    fn quick(&self) -> u64 {
        1_500_000
    }
    fn gen(&self, s: &mut Src) -> Case11 {
        let n = s.weighted(&[1, 3, 4, 4, 3, 2, 2, 1, 1, 1, 1, 1, 1]);
        let faulty = s.chance(1, 3);
        let groups = (0..n)
            .map(|_| Group {
                title: title(s),
                tle: tleref::any_tle(s),
                fault: if faulty && s.chance(1, 3) { Some(fault(s)) } else { None },
            })
            .collect();
        Case11 {
            titled: s.chance(1, 2),
            groups,
            crlf: match s.below(3) {
                0 => 0,
                1 => u64::MAX,
                _ => s.draw(u64::MAX),
            },
            final_eol: s.chance(1, 2),
            trailing: s.weighted(&[6, 1, 1]),
            blank: s.chance(1, 2),
            copies: match s.weighted(&[460, 40, 1]) {
                0 => 1,
                1 => 2 + s.below(2),
                _ => s.below(200),
            },
        }
    }
    fn check(&self, c: &Case11) -> Verdict {
        let (text, want, partial) = c.compose();
        let got = if c.titled { sgp4::parse_3les(&text) } else { sgp4::parse_2les(&text) };
        let first_err = want.iter().find_map(|r| r.as_ref().err());
        match (&got, first_err) {
            (Err(e), Some(x)) => {
                if format!("{e:?} {e}") != format!("{x:?} {x}") {
                    fail!("error {e:?}, the first invalid group gives {x:?}");
                }
                return pass("invalid group");
            }
            (Err(e), None) if partial > 0 => fail!("valid text with {partial} further lines refused: {e}"),
            (Err(e), None) => fail!("valid text refused: {e}"),
            (Ok(v), Some(x)) => fail!("{} element sets returned, an invalid group gives {x:?}", v.len()),
            (Ok(v), None) => {
                if v.len() != want.len() {
                    fail!("{} element sets, {} groups", v.len(), want.len());
                }
                for (i, ((a, b), g)) in v.iter().zip(&want).zip(c.groups()).enumerate() {
                    let b = b.as_ref().unwrap();
                    if format!("{a:?}") != format!("{b:?}") {
                        fail!("group {i}: {a:?}, alone {b:?}");
                    }
                    let name = if c.titled { Some(g.title.clone()) } else { None };
                    if a.object_name != name {
                        fail!("group {i}: name {:?}, title {name:?}", a.object_name);
                    }
                }
            }
        }
        match (c.titled, want.len() >= 2) {
            (true, true) => pass("three-line"),
            (false, true) => pass("two-line"),
            _ => trivial("fewer than two groups"),
        }
    }
}
