//! C24: clock references.
use mc::engine::{run, Ctx};
use mpegts::ts;
use std::hint::black_box;

const P: u64 = 300 << 33;

/// 33-bit base, 6 reserved ones, 9-bit extension.
fn code(v: u64) -> [u8; 6] {
    let (base, ext) = (v / 300, v % 300);
    let mut x: u64 = base;
    x = x << 6 | 0b111111;
    x = x << 9 | ext;
    let b = x.to_be_bytes();
    [b[2], b[3], b[4], b[5], b[6], b[7]]
}

fn points(near: u64) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut add = |c: u64| {
        for d in 0..=near {
            v.push((c + d) % P);
            v.push((c + P - d) % P);
        }
    };
    add(0);
    for k in [27u64, 300, 27_000, 13_500_000, 27_000_000, 27_000_001, 54_000_000, P / 2, P - 27_000_000, P - 27_000_001] {
        add(k);
    }
    for k in [1u64 << 33, 1 << 32, 1 << 31, 1 << 40, 255 * 300, 256 * 300, 512 * 300] {
        add(k);
    }
    v.sort();
    v.dedup();
    v
}

fn delta(c: &mut Ctx, a: u64, b: u64) -> Result<(), String> {
    let want = (b + P - a) % P;
    let got = ts::pcr_delta(black_box(a), black_box(b));
    c.call(1);
    if got == want {
        return Ok(());
    }
    // Listed: one tick short whenever the second clock has wrapped. Pinned by an
    // existing test of the repository.
    if b < a && got + 1 == want {
        c.known("pcr-delta-wrap", "pcr_delta(last, current) with current < last is one tick short of the difference modulo 2^33*300, e.g. pcr_delta(2^33*300-1, 0) = 0 instead of 1");
        return Ok(());
    }
    Err(format!("difference from {} to {} is {}, expected {}", a, b, got, want))
}

fn main() {
    run("C24", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("writing and reading: near every power of two", |c| {
            let k = c.pick(43);
            let base = if k == 42 { P - 1 } else { 1u64 << k };
            for d in -700i64..=700 {
                let v = (base as i64 + d).rem_euclid(P as i64) as u64;
                for fill in [0x00u8, 0xFF, 0x36] {
                    let mut p = [fill; 188];
                    ts::set_pcr(black_box(&mut p), v);
                    let mut w = [fill; 188];
                    w[6..12].copy_from_slice(&code(v));
                    if p != w {
                        return Err(format!("clock {} written as {:02x?} in {:02x}, expected {:02x?}", v, &p[..14], fill, &w[..14]));
                    }
                    if ts::get_pcr(black_box(&p)) != v {
                        return Err(format!("clock {} read back as {}", v, ts::get_pcr(&p)));
                    }
                }
            }
            c.bulk(1401 * 3);
            c.call(1401 * 6);
            Ok(())
        });
        r.explore("writing and reading: every extension, every base byte", |c| {
            let i = c.pick(5);
            let x = c.pick(256) as u64;
            // one base byte takes all values, the others are zero, one or mixed
            for bg in [0u64, 0x1_FFFF_FFFF, 0xA5A5_A5A5, 0x15A5A5A5A] {
                let sh = 8 * i;
                let base = ((bg & !(0xFF << sh)) | x << sh) & 0x1_FFFF_FFFF;
                for ext in 0..300 {
                    let v = base * 300 + ext;
                    let mut p = [0x5Au8; 188];
                    ts::set_pcr(black_box(&mut p), v);
                    if p[6..12] != code(v) || ts::get_pcr(black_box(&p)) != v {
                        return Err(format!("clock {}: {:02x?} read back as {}", v, &p[6..12], ts::get_pcr(&p)));
                    }
                }
            }
            c.bulk(1200);
            c.call(2400);
            Ok(())
        });
        r.explore("reading: any pair of bytes", |c| {
            let i = c.pick(6);
            let j = c.pick(6);
            if i == j {
                return Ok(());
            }
            let bg = c.of(&[0x00u8, 0xFF, 0xA5]);
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    let mut b = [bg; 6];
                    b[i] = x;
                    b[j] = y;
                    let mut n = 0u64;
                    for v in b {
                        n = n * 256 + u64::from(v);
                    }
                    let w = (n >> 15) * 300 + n % 512;
                    let mut p = [0x77u8; 188];
                    p[6..12].copy_from_slice(&b);
                    if ts::get_pcr(black_box(&p)) != w {
                        return Err(format!("bytes {:02x?} read as {}, expected {}", b, ts::get_pcr(&p), w));
                    }
                }
            }
            c.bulk(65536);
            c.call(65536);
            Ok(())
        });
        r.explore("writing and reading: any header", |c| {
            let i = c.pick(6);
            let x = c.pick(256) as u8;
            for y in 0..=255u8 {
                for k in 0..6 {
                    for v in [0u64, 299, 300, P - 1, 0x1234_5678_9AB] {
                        let mut p = [0xFFu8; 188];
                        p[i] = x;
                        p[k] = y;
                        let mut w = p;
                        w[6..12].copy_from_slice(&code(v));
                        ts::set_pcr(black_box(&mut p), v);
                        if p != w || ts::get_pcr(black_box(&p)) != v {
                            return Err(format!("clock {} in {:02x?}: read back {}", v, &p[..12], ts::get_pcr(&p)));
                        }
                    }
                }
            }
            c.bulk(256 * 30);
            c.call(256 * 60);
            Ok(())
        });
        r.explore("presence", |c| {
            let b3 = c.pick(256) as u8;
            for len in 0..=255u8 {
                for fl in 0..=255u8 {
                    let mut p = [0xFFu8; 188];
                    p[3] = b3;
                    p[4] = len;
                    p[5] = fl;
                    let w = b3 & 0x20 != 0 && len >= 7 && fl & 0x10 != 0;
                    if ts::is_pcr(black_box(&p)) != w {
                        return Err(format!("control {:02x} length {} flags {:02x}: presence {}", b3, len, fl, !w));
                    }
                }
            }
            c.bulk(65536);
            c.call(65536);
            Ok(())
        });
        let pts = points(if thorough { 40 } else { 6 });
        let pts = &pts;
        r.explore("difference: pairs of boundary clocks", |c| {
            let a = pts[c.pick(pts.len())];
            for &b in pts {
                delta(c, a, b)?;
            }
            c.bulk(pts.len() as u64);
            Ok(())
        });
        r.explore("difference: forward steps from boundary clocks", |c| {
            let a = pts[c.pick(pts.len())];
            for &d in pts {
                delta(c, a, (a + d) % P)?;
                delta(c, (a + P - d) % P, a)?;
            }
            c.bulk(2 * pts.len() as u64);
            Ok(())
        });
        r.explore("jitter", |c| {
            let pcr = pts[c.pick(pts.len())];
            let mut at = |stc: u64| -> Result<(), String> {
                let ahead = (pcr + P - stc) % P;
                let w: i128 = if ahead <= 27_000_000 { i128::from(ahead) } else { i128::from(ahead) - i128::from(P) };
                let w = w * 1000 / 27; // toward zero
                let got = ts::pcr_jitter_ns(black_box(pcr), black_box(stc));
                if i128::from(got) != w {
                    return Err(format!("jitter of {} against {} is {}, expected {}", pcr, stc, got, w));
                }
                c.call(1);
                c.bulk(1);
                Ok(())
            };
            for &s in pts {
                at(s)?;
                at((pcr + s) % P)?;
                at((pcr + P - s) % P)?;
            }
            for d in 0..2000u64 {
                for k in [0u64, 27_000_000] {
                    at((pcr + P - k + d) % P)?;
                    at((pcr + 2 * P - k - d) % P)?;
                }
            }
            Ok(())
        });
        // extrapolation: last + delta * bytes / last_bytes modulo the period,
        // products within 64 bits
        r.explore("extrapolation", |c| {
            let last = pts[c.pick(pts.len())];
            let deltas = [0u64, 1, 26, 27, 300, 27_000, 540_000, 1_080_000, 2_699_999, 2_700_000, 27_000_000, 270_000_001, 1 << 32, 1 << 40, P - 1];
            let d = c.of(&deltas);
            for bytes in [0u64, 1, 187, 188, 189, 376, 1316, 18_800, 100_000, 188_000, 999_999, 10_000_000, 1 << 32] {
                for lb in [1u64, 2, 3, 187, 188, 189, 376, 1316, 18_800, 100_003, 188_000, 1 << 20] {
                    if u128::from(d) * u128::from(bytes) / u128::from(lb) + u128::from(P) > 1 << 64 || u128::from(d) * u128::from(bytes) >= 1 << 64 {
                        continue;
                    }
                    let w = ((u128::from(last) + u128::from(d) * u128::from(bytes) / u128::from(lb)) % u128::from(P)) as u64;
                    let got = ts::pcr_to_stc(black_box(last), black_box(bytes), black_box(d), black_box(lb));
                    if got != w {
                        return Err(format!("clock {} + {}*{}/{} is {}, expected {}", last, d, bytes, lb, got, w));
                    }
                    c.call(1);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("conversions", |c| {
            let v0 = pts[c.pick(pts.len())];
            let mut n = 0;
            for d in (0..60_000u64).step_by(if thorough { 1 } else { 13 }).chain(26_990..27_010) {
                let v = v0 + d;
                if ts::pcr_to_us(black_box(v)) != v / 27 || ts::pcr_to_ms(black_box(v)) != v / 27_000 {
                    return Err(format!("{} is {} us, {} ms", v, ts::pcr_to_us(v), ts::pcr_to_ms(v)));
                }
                n += 2;
            }
            for ms in [1u64, 2, 3, 7, 20, 39, 40, 41, 100, 999, 1000, 1001, 60_000] {
                for extra in [0u64, 1, 13_500, 26_999] {
                    for bytes in [0u64, 1, 187, 188, 376, 18_800, 100_000, 1_234_567, 1 << 32] {
                        let got = ts::pcr_delta_bitrate(black_box(ms * 27_000 + extra), black_box(bytes));
                        if got != bytes * 8 / ms {
                            return Err(format!("{} bytes in {} ticks is {} kbit/s, expected {}", bytes, ms * 27_000 + extra, got, bytes * 8 / ms));
                        }
                        n += 1;
                    }
                }
            }
            c.call(n);
            c.bulk(n / 2);
            Ok(())
        });
        if thorough {
            r.explore("writing and reading: every base", |c| {
                let hi = c.pick(1 << 15) as u64;
                let mut p = [0x5Au8; 188];
                for lo in 0..1u64 << 18 {
                    let base = hi << 18 | lo;
                    let v = base * 300 + (hi * 7 + lo) % 300;
                    ts::set_pcr(black_box(&mut p), v);
                    if p[6..12] != code(v) || ts::get_pcr(black_box(&p)) != v {
                        return Err(format!("clock {}: {:02x?} read back as {}", v, &p[6..12], ts::get_pcr(&p)));
                    }
                }
                c.bulk(1 << 18);
                c.call(2 << 18);
                Ok(())
            });
            r.explore("jitter: every distance of up to two seconds", |c| {
                let pcr = c.of(&[0u64, 1, 26_999_999, 27_000_000, 54_000_000, P / 2, P - 27_000_000, P - 1]);
                let k = c.pick(1080) as u64;
                for d in k * 50_000..(k + 1) * 50_000 {
                    for stc in [(pcr + d) % P, (pcr + P - d) % P] {
                        let ahead = (pcr + P - stc) % P;
                        let w = if ahead <= 27_000_000 { ahead as i64 } else { ahead as i64 - P as i64 };
                        let w = (i128::from(w) * 1000 / 27) as i64;
                        let got = ts::pcr_jitter_ns(black_box(pcr), black_box(stc));
                        if got != w {
                            return Err(format!("jitter of {} against {} is {}, expected {}", pcr, stc, got, w));
                        }
                    }
                }
                c.bulk(100_000);
                c.call(100_000);
                Ok(())
            });
        }
        r.assume("clocks are below 2^33*300; products delta*bytes fit 64 bits; bitrate intervals are at least 1 ms");
    })
}
