//! Calendar arithmetic by EN 300 468 annex C, from year/month/day.

/// (year, month, day) of a day counted from 1970-01-01.
pub fn civil(mut day: u64) -> (u64, u64, u64) {
    let leap = |y: u64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if day < n {
            break;
        }
        day -= n;
        y += 1;
    }
    let lens = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while day >= lens[m] {
        day -= lens[m];
        m += 1;
    }
    (y, m as u64 + 1, day + 1)
}

/// Modified Julian Date by the formula of annex C.
pub fn mjd(day: u64) -> u64 {
    let (y, m, d) = civil(day);
    let y = y - 1900;
    let l = if m == 1 || m == 2 { 1 } else { 0 };
    14956 + d + ((y - l) as f64 * 365.25) as u64 + ((m + 1 + l * 12) as f64 * 30.6001) as u64
}

/// Two decimal digits, one per nibble.
pub fn bcd2(v: u64) -> u8 {
    assert!(v < 100, "model: bcd2");
    ((v / 10) * 16 + v % 10) as u8
}

/// The 40-bit UTC time field.
pub fn utc(t: u64) -> [u8; 5] {
    let m = mjd(t / 86400);
    assert!(m < 65536, "model: date");
    let s = t % 86400;
    [(m >> 8) as u8, m as u8, bcd2(s / 3600), bcd2(s / 60 % 60), bcd2(s % 60)]
}

/// The 24-bit duration field, up to 99:59:59.
pub fn dur(d: u64) -> [u8; 3] {
    [bcd2(d / 3600), bcd2(d / 60 % 60), bcd2(d % 60)]
}

/// Hours and minutes.
pub fn hm(m: u64) -> [u8; 2] {
    [bcd2(m / 60), bcd2(m % 60)]
}

/// Last representable second: MJD 65535 is 2038-04-22.
pub const LAST_DAY: u64 = 65535 - 40587;
