//! Model of chrono for the protocol flows: an instant is a number of seconds since the epoch, the clock is set by the
//! harness, and (de)serialisation uses that number (RFC 3339 text is parsed as well).
use std::cell::Cell;
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Sub};

thread_local! {
    static NOW: Cell<i64> = const { Cell::new(1_700_000_000) };
}
/// sets the clock
pub fn model_set_now(t: i64) {
    NOW.with(|n| n.set(t));
}
pub fn model_now() -> i64 {
    NOW.with(Cell::get)
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Utc;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FixedOffset;
pub trait TimeZone {}
impl TimeZone for Utc {}
impl TimeZone for FixedOffset {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct DateTime<Tz>(i64, PhantomData<Tz>);
impl<Tz> Default for DateTime<Tz> {
    fn default() -> Self {
        Self(0, PhantomData)
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TimeDelta(i64);
pub type Duration = TimeDelta;

const SPAN: i64 = 8_210_266_876_799;
impl TimeDelta {
    pub const fn zero() -> Self {
        Self(0)
    }
    pub const fn try_seconds(n: i64) -> Option<Self> {
        Some(Self(n))
    }
    pub const fn try_minutes(n: i64) -> Option<Self> {
        Some(Self(n * 60))
    }
    pub const fn try_hours(n: i64) -> Option<Self> {
        Some(Self(n * 3600))
    }
    pub const fn try_days(n: i64) -> Option<Self> {
        Some(Self(n * 86400))
    }
    pub const fn seconds(n: i64) -> Self {
        Self(n)
    }
    pub const fn minutes(n: i64) -> Self {
        Self(n * 60)
    }
    pub const fn hours(n: i64) -> Self {
        Self(n * 3600)
    }
    pub const fn days(n: i64) -> Self {
        Self(n * 86400)
    }
    pub const fn weeks(n: i64) -> Self {
        Self(n * 604_800)
    }
    pub const fn try_weeks(n: i64) -> Option<Self> {
        Some(Self(n * 604_800))
    }
    pub const fn is_zero(&self) -> bool {
        self.0 == 0
    }
    pub const fn abs(&self) -> Self {
        Self(if self.0 < 0 { -self.0 } else { self.0 })
    }
    pub const fn num_hours(&self) -> i64 {
        self.0 / 3600
    }
    pub const fn num_days(&self) -> i64 {
        self.0 / 86400
    }
    pub fn checked_add(&self, o: &Self) -> Option<Self> {
        self.0.checked_add(o.0).map(Self)
    }
    pub const fn num_seconds(&self) -> i64 {
        self.0
    }
    pub const fn num_minutes(&self) -> i64 {
        self.0 / 60
    }
    pub const fn num_milliseconds(&self) -> i64 {
        self.0 * 1000
    }
}
impl Utc {
    pub fn now() -> DateTime<Utc> {
        DateTime(NOW.with(Cell::get), PhantomData)
    }
}
#[derive(Clone, Copy, Debug)]
pub enum SecondsFormat {
    Secs,
    Millis,
    Micros,
    Nanos,
    AutoSi,
}
impl<Tz> DateTime<Tz> {
    pub fn timestamp(&self) -> i64 {
        self.0
    }
    pub fn timestamp_millis(&self) -> i64 {
        self.0 * 1000
    }
    pub fn checked_add_signed(self, d: TimeDelta) -> Option<Self> {
        let t = self.0.checked_add(d.0)?;
        if t > SPAN {
            return None;
        }
        Some(Self(t, PhantomData))
    }
    pub fn checked_sub_signed(self, d: TimeDelta) -> Option<Self> {
        Some(Self(self.0.checked_sub(d.0)?, PhantomData))
    }
    pub fn signed_duration_since<O: std::borrow::Borrow<DateTime<Tz2>>, Tz2>(self, o: O) -> TimeDelta {
        TimeDelta(self.0 - o.borrow().0)
    }
    pub fn to_rfc3339_opts(&self, _f: SecondsFormat, _z: bool) -> String {
        model_text(self.0)
    }
    pub fn to_rfc3339(&self) -> String {
        model_text(self.0)
    }
    pub fn with_timezone<T>(&self, _t: &T) -> DateTime<T> {
        DateTime(self.0, PhantomData)
    }
}
impl DateTime<Utc> {
    pub const MAX_UTC: Self = Self(SPAN, PhantomData);
    pub const MIN_UTC: Self = Self(-SPAN, PhantomData);
    pub const UNIX_EPOCH: Self = Self(0, PhantomData);
    pub fn from_timestamp(s: i64, _n: u32) -> Option<Self> {
        Some(Self(s, PhantomData))
    }
}
fn model_text(mut t: i64) -> String {
    // proleptic Gregorian calendar, as chrono prints it
    let s = t.rem_euclid(86400);
    t = t.div_euclid(86400) + 719_468;
    let era = t.div_euclid(146_097);
    let doe = t.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + i64::from(m <= 2);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}Z", s / 3600, s / 60 % 60, s % 60)
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ParseError;
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("input contains invalid characters")
    }
}
impl std::error::Error for ParseError {}
pub type ParseResult<T> = Result<T, ParseError>;
fn num(b: &[u8]) -> Option<i64> {
    let mut n = 0;
    for c in b {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + i64::from(c - b'0');
    }
    Some(n)
}
fn date(b: &[u8]) -> Option<i64> {
    if b.len() != 10 || b[4] != b'-' || b[7] != b'-' {
        return None;
    }
    let (y, m, d) = (num(&b[..4])?, num(&b[5..7])?, num(&b[8..])?);
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let max = match m {
        2 => 28 + i64::from(leap),
        4 | 6 | 9 | 11 => 30,
        1..=12 => 31,
        _ => return None,
    };
    if d < 1 || d > max {
        return None;
    }
    Some(days(y, m, d))
}
fn instant(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() < 20 || !matches!(b[10], b'T' | b't' | b' ') || b[13] != b':' || b[16] != b':' {
        return None;
    }
    let d = date(&b[..10])?;
    let (h, m, s) = (num(&b[11..13])?, num(&b[14..16])?, num(&b[17..19])?);
    if h > 23 || m > 59 || s > 60 {
        return None;
    }
    let mut r = &b[19..];
    if r[0] == b'.' {
        let n = r[1..].iter().take_while(|c| c.is_ascii_digit()).count();
        if n == 0 {
            return None;
        }
        r = &r[1 + n..];
    }
    let off = match r {
        [b'Z' | b'z'] => 0,
        [sg @ (b'+' | b'-'), h1, h2, b':', m1, m2] => {
            let o = num(&[*h1, *h2])? * 3600 + num(&[*m1, *m2])? * 60;
            if *sg == b'+' {
                o
            } else {
                -o
            }
        }
        _ => return None,
    };
    Some(d * 86400 + h * 3600 + m * 60 + s - off)
}
impl DateTime<FixedOffset> {
    pub fn parse_from_rfc3339(s: &str) -> ParseResult<Self> {
        instant(s).map(|t| Self(t, PhantomData)).ok_or(ParseError)
    }
}
impl std::str::FromStr for DateTime<Utc> {
    type Err = ParseError;
    fn from_str(s: &str) -> ParseResult<Self> {
        instant(s).map(|t| Self(t, PhantomData)).ok_or(ParseError)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NaiveDate(i64);
impl NaiveDate {
    pub fn parse_from_str(s: &str, fmt: &str) -> ParseResult<Self> {
        assert!(fmt == "%Y-%m-%d" || fmt == "%F", "model: unknown date format");
        date(s.as_bytes()).map(Self).ok_or(ParseError)
    }
}
impl std::str::FromStr for NaiveDate {
    type Err = ParseError;
    fn from_str(s: &str) -> ParseResult<Self> {
        date(s.as_bytes()).map(Self).ok_or(ParseError)
    }
}
impl<Tz> Add<TimeDelta> for DateTime<Tz> {
    type Output = Self;
    fn add(self, d: TimeDelta) -> Self {
        Self(self.0 + d.0, PhantomData)
    }
}
impl<Tz> AddAssign<TimeDelta> for DateTime<Tz> {
    fn add_assign(&mut self, d: TimeDelta) {
        self.0 += d.0;
    }
}
impl<Tz> Sub<TimeDelta> for DateTime<Tz> {
    type Output = Self;
    fn sub(self, d: TimeDelta) -> Self {
        Self(self.0 - d.0, PhantomData)
    }
}
impl<Tz> Sub<DateTime<Tz>> for DateTime<Tz> {
    type Output = TimeDelta;
    fn sub(self, d: Self) -> TimeDelta {
        TimeDelta(self.0 - d.0)
    }
}
impl Sub for TimeDelta {
    type Output = Self;
    fn sub(self, d: Self) -> Self {
        Self(self.0 - d.0)
    }
}
impl std::ops::Mul<i32> for TimeDelta {
    type Output = Self;
    fn mul(self, d: i32) -> Self {
        Self(self.0 * i64::from(d))
    }
}
impl std::ops::Neg for TimeDelta {
    type Output = Self;
    fn neg(self) -> Self {
        Self(-self.0)
    }
}
impl Add<std::time::Duration> for DateTime<Utc> {
    type Output = Self;
    fn add(self, d: std::time::Duration) -> Self {
        Self(self.0 + d.as_secs() as i64, PhantomData)
    }
}
impl<Tz> std::ops::SubAssign<TimeDelta> for DateTime<Tz> {
    fn sub_assign(&mut self, d: TimeDelta) {
        self.0 -= d.0;
    }
}
impl Add for TimeDelta {
    type Output = Self;
    fn add(self, d: Self) -> Self {
        Self(self.0 + d.0)
    }
}
impl<Tz> std::fmt::Display for DateTime<Tz> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&model_text(self.0))
    }
}
#[cfg(feature = "serde")]
mod ser {
    use super::*;
    use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
    impl<Tz> Serialize for DateTime<Tz> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_i64(self.0)
        }
    }
    struct V;
    impl<'de> de::Visitor<'de> for V {
        type Value = i64;
        fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("an RFC 3339 formatted date and time string")
        }
        fn visit_i64<E: de::Error>(self, v: i64) -> Result<i64, E> {
            Ok(v)
        }
        fn visit_u64<E: de::Error>(self, v: u64) -> Result<i64, E> {
            Ok(v as i64)
        }
        fn visit_str<E: de::Error>(self, v: &str) -> Result<i64, E> {
            instant(v).ok_or_else(|| de::Error::custom("input contains invalid characters"))
        }
    }
    impl<'de, Tz> Deserialize<'de> for DateTime<Tz> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            d.deserialize_any(V).map(|t| DateTime(t, PhantomData))
        }
    }
}

