//! C26: decimal and date conversions over their whole domains.
use mc::engine::run;
use mc::spec::time;
use mpegts::psi::{BCDTime, MJDFrom, MJDTo, BCD};
use std::hint::black_box;

fn nibbles(mut v: u64, n: u32) -> u64 {
    let mut r = 0;
    for i in 0..n {
        r |= (v % 10) << (4 * i);
        v /= 10;
    }
    r
}

fn main() {
    run("C26", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("decimal: 2 and 4 digits", |c| {
            for v in 0..100u8 {
                let w = nibbles(v.into(), 2) as u8;
                if black_box(v).to_bcd() != w || black_box(w).from_bcd() != v {
                    return Err(format!("u8 {}: codes to {:x}, {:x} decodes to {}", v, v.to_bcd(), w, w.from_bcd()));
                }
            }
            for v in 0..10_000u16 {
                let w = nibbles(v.into(), 4) as u16;
                if black_box(v).to_bcd() != w || black_box(w).from_bcd() != v {
                    return Err(format!("u16 {}: codes to {:x}, {:x} decodes to {}", v, v.to_bcd(), w, w.from_bcd()));
                }
            }
            c.bulk(10_100);
            c.call(2 * 10_100);
            c.sample(|| format!("9999 -> {:x} -> {}", 9999u16.to_bcd(), 0x9999u16.from_bcd()));
            Ok(())
        });
        r.explore("decimal: 8 digits", |c| {
            let hi = c.pick(1000) as u32;
            for lo in 0..100_000u32 {
                let v = hi * 100_000 + lo;
                let w = nibbles(v.into(), 8) as u32;
                if black_box(v).to_bcd() != w || black_box(w).from_bcd() != v {
                    return Err(format!("u32 {}: codes to {:x}, {:x} decodes to {}", v, v.to_bcd(), w, w.from_bcd()));
                }
            }
            c.bulk(100_000);
            c.call(200_000);
            Ok(())
        });
        r.explore("time of day: every second, every minute", |c| {
            for s in 0..86_400u32 {
                let w = time::dur(s.into());
                let w = u32::from(w[0]) << 16 | u32::from(w[1]) << 8 | u32::from(w[2]);
                if black_box(s).to_bcd_time() != w || black_box(w).from_bcd_time() != s {
                    return Err(format!("second {}: codes to {:x}, {:x} decodes to {}", s, s.to_bcd_time(), w, w.from_bcd_time()));
                }
            }
            for s in 0..1440u16 {
                let w = time::hm(s.into());
                let w = u16::from(w[0]) << 8 | u16::from(w[1]);
                if black_box(s).to_bcd_time() != w || black_box(w).from_bcd_time() != s {
                    return Err(format!("minute {}: codes to {:x}, {:x} decodes to {}", s, s.to_bcd_time(), w, w.from_bcd_time()));
                }
            }
            c.bulk(86_400 + 1440);
            c.call(2 * (86_400 + 1440));
            c.sample(|| "86400 seconds, 1440 minutes".into());
            Ok(())
        });
        r.explore("day numbers", |c| {
            let block = c.pick(100) as u64;
            for day in block * 250..(block + 1) * 250 {
                if day > time::LAST_DAY {
                    break;
                }
                let m = 40587 + day as u16;
                if u64::from(m) != time::mjd(day) {
                    return Err(format!("harness: annex C gives {} for day {}", time::mjd(day), day));
                }
                if black_box(m).from_mjd() != day * 86400 {
                    return Err(format!("day number {} is {}, expected {}", m, m.from_mjd(), day * 86400));
                }
                let step = if thorough { 1 } else { 3599 };
                let mut s = 0;
                loop {
                    let t = day * 86400 + s;
                    if black_box(t).to_mjd() != m {
                        return Err(format!("time {} is day {}, expected {}", t, t.to_mjd(), m));
                    }
                    c.call(1);
                    c.bulk(1);
                    if s == 86399 {
                        break;
                    }
                    s = (s + step).min(86399);
                }
            }
            Ok(())
        });
        r.explore("arbitrary coded input", |c| {
            let hi = c.pick(256) as u32;
            for lo in 0..65536u32 {
                let x = hi << 16 | lo;
                black_box(black_box(x).from_bcd_time());
                black_box(black_box(x).from_bcd());
                black_box(black_box(lo << 16 | hi << 8 | hi).from_bcd());
                black_box(black_box(lo << 16 | (lo ^ hi)).from_bcd_time());
            }
            for lo in 0..=255u16 {
                let x = (hi as u16) << 8 | lo;
                black_box(black_box(x).from_bcd());
                black_box(black_box(x).from_bcd_time());
                black_box(black_box(x).from_mjd());
                black_box(black_box(lo as u8).from_bcd());
            }
            c.bulk(65536 + 256);
            c.call(4 * 65536 + 4 * 256);
            Ok(())
        });
        if thorough {
            r.explore("arbitrary coded input: every 32 bits", |c| {
                let hi = c.pick(65536) as u32;
                for lo in 0..65536u32 {
                    let x = hi << 16 | lo;
                    black_box(black_box(x).from_bcd_time());
                    black_box(black_box(x).from_bcd());
                }
                c.bulk(65536);
                c.call(2 * 65536);
                Ok(())
            });
        }
    })
}
