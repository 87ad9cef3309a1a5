//! C25: PES headers and timestamps.
use mc::engine::run;
use mpegts::es::pes;
use std::hint::black_box;

const P33: u64 = 1 << 33;

/// Five timestamp bytes: 4-bit prefix, 3+15+15 bits with markers.
fn stamp(prefix: u8, v: u64, markers: [u8; 3]) -> [u8; 5] {
    let a = v / (1 << 30);
    let b = v / (1 << 15) % (1 << 15);
    let d = v % (1 << 15);
    [
        prefix * 16 + a as u8 * 2 + markers[0],
        (b >> 7) as u8,
        (b % 128) as u8 * 2 + markers[1],
        (d >> 7) as u8,
        (d % 128) as u8 * 2 + markers[2],
    ]
}

fn no_header(id: u8) -> bool {
    [0xBC, 0xBE, 0xBF, 0xF0, 0xF1, 0xFF, 0xF2, 0xF8].contains(&id)
}

fn main() {
    run("C25", |r| {
        r.deepen();
        let thorough = r.thorough();
        let fills = [0x00u8, 0xFF, 0x5A];
        r.explore("prefix", |c| {
            let a = c.pick(256) as u8;
            let vals: Vec<u8> = if thorough { (0..=255).collect() } else { vec![0, 1, 2, 3, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0x47, 0x10, 0x20, 0x40] };
            for b in 0..=255u8 {
                for &d in &vals {
                    let p = black_box([a, b, d, 0xE0, 0, 0, 0x80, 0, 0, 0]);
                    if pes::is_prefix(&p) != (a == 0 && b == 0 && d == 1) {
                        return Err(format!("prefix test of {:02x} {:02x} {:02x} is {}", a, b, d, pes::is_prefix(&p)));
                    }
                }
            }
            // the third byte over all values too
            for d in 0..=255u8 {
                for b in [0u8, 1, 0x80] {
                    let p = black_box([a, b, d, 0xE0, 0, 0, 0x80, 0, 0, 0]);
                    if pes::is_prefix(&p) != (a == 0 && b == 0 && d == 1) {
                        return Err(format!("prefix test of {:02x} {:02x} {:02x} is {}", a, b, d, pes::is_prefix(&p)));
                    }
                }
            }
            let n = 256 * vals.len() as u64 + 768;
            c.bulk(n);
            c.call(n);
            Ok(())
        });
        r.explore("stream id x flags x header length", |c| {
            let id = c.pick(256) as u8;
            let fill = c.of(&fills);
            for fl in 0..=255u8 {
                for len in 0..=255u8 {
                    let mut p = [fill; 24];
                    p[..3].copy_from_slice(&[0, 0, 1]);
                    p[3] = id;
                    p[7] = fl;
                    p[8] = len;
                    let p = black_box(p);
                    let off = if no_header(id) { 6 } else { 9 + u16::from(len) };
                    if pes::is_syntax_spec(&p) == no_header(id)
                        || pes::get_payload_offset(&p) != off
                        || pes::is_pts(&p) != (fl >= 0x80)
                        || pes::is_dts(&p) != (fl & 0x40 != 0)
                    {
                        return Err(format!(
                            "id {:02x} flags {:02x} length {}: syntax {} offset {} pts {} dts {}",
                            id, fl, len, pes::is_syntax_spec(&p), pes::get_payload_offset(&p), pes::is_pts(&p), pes::is_dts(&p)
                        ));
                    }
                }
            }
            c.bulk(65536);
            c.call(4 * 65536);
            Ok(())
        });
        // no other byte of the header decides anything of that
        r.explore("stream id x any two other bytes", |c| {
            let id = c.pick(256) as u8;
            let pairs = [(4usize, 5usize), (6, 7), (6, 8), (7, 9), (9, 10), (5, 6), (4, 6), (8, 9)];
            let (i, j) = pairs[c.pick(pairs.len())];
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    let mut p = [0u8; 24];
                    p[..9].copy_from_slice(&[0, 0, 1, id, 0, 0, 0x80, 0x80, 5]);
                    p[i] = x;
                    p[j] = y;
                    let p = black_box(p);
                    let off = if no_header(id) { 6 } else { 9 + u16::from(p[8]) };
                    if pes::is_syntax_spec(&p) == no_header(id)
                        || pes::get_payload_offset(&p) != off
                        || pes::is_pts(&p) != (p[7] >= 0x80)
                        || pes::is_dts(&p) != (p[7] & 0x40 != 0)
                        || pes::get_length(&p) != u16::from(p[4]) << 8 | u16::from(p[5])
                        || !pes::is_prefix(&p)
                    {
                        return Err(format!("header {:02x?} is read wrongly", &p[..12]));
                    }
                }
            }
            c.bulk(65536);
            c.call(6 * 65536);
            Ok(())
        });
        r.explore("packet length", |c| {
            let hi = c.pick(256);
            for lo in 0..256usize {
                for fill in fills {
                    let mut p = [fill; 20];
                    p[4] = hi as u8;
                    p[5] = lo as u8;
                    if pes::get_length(black_box(&p)) as usize != hi * 256 + lo {
                        return Err(format!("length {:02x} {:02x} read as {}", hi, lo, pes::get_length(&p)));
                    }
                }
            }
            c.bulk(768);
            c.call(768);
            Ok(())
        });
        // every value of any two of the five timestamp bytes with the other
        // three all-zero, all-one or mixed
        r.explore("timestamps: pairs of bytes", |c| {
            let i = c.pick(5);
            let j = c.pick(5);
            if i == j {
                return Ok(());
            }
            let bg = c.of(&[0x00u8, 0xFF, 0xA5, 0x5A]);
            let around = c.of(&fills);
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    let mut b = [bg; 5];
                    b[i] = x;
                    b[j] = y;
                    let v = u64::from(b[0] / 2 % 8) << 30
                        | u64::from(b[1]) << 22
                        | u64::from(b[2] / 2) << 15
                        | u64::from(b[3]) << 7
                        | u64::from(b[4] / 2);
                    let mut p = [around; 24];
                    p[9..14].copy_from_slice(&b);
                    let mut q = [around; 24];
                    q[14..19].copy_from_slice(&b);
                    if pes::get_pts(black_box(&p)) != v {
                        return Err(format!("PTS bytes {:02x?} read as {:x}, expected {:x}", b, pes::get_pts(&p), v));
                    }
                    if pes::get_dts(black_box(&q)) != v {
                        return Err(format!("DTS bytes {:02x?} read as {:x}, expected {:x}", b, pes::get_dts(&q), v));
                    }
                }
            }
            c.bulk(65536);
            c.call(2 * 65536);
            Ok(())
        });
        r.explore("timestamps: values near every power of two", |c| {
            let k = c.pick(34);
            for d in -300i64..=300 {
                let v = ((1i64 << k) + d).rem_euclid(P33 as i64) as u64;
                for m in 0..8u8 {
                    let mk = [m & 1, m >> 1 & 1, m >> 2];
                    let mut p = [0xFFu8; 24];
                    p[9..14].copy_from_slice(&stamp(3, v, mk));
                    let o = (P33 - 1) ^ v;
                    p[14..19].copy_from_slice(&stamp(1, o, mk));
                    let p = black_box(p);
                    if pes::get_pts(&p) != v || pes::get_dts(&p) != o {
                        return Err(format!("PTS {:x} DTS {:x} read as {:x} {:x}", v, o, pes::get_pts(&p), pes::get_dts(&p)));
                    }
                }
            }
            c.bulk(601 * 8);
            c.call(2 * 601 * 8);
            Ok(())
        });
        let mut pts: Vec<u64> = Vec::new();
        for k in 0..=33u32 {
            for d in -2i64..=2 {
                pts.push(((1i64 << k) + d).rem_euclid(P33 as i64) as u64);
            }
        }
        for x in [0, 1, 89, 90, 91, P33 - 1, P33 - 90, P33 - 91, 123_456_789, 8_000_000_000] {
            pts.push(x);
        }
        pts.sort();
        pts.dedup();
        let pts = &pts;
        r.explore("differences", |c| {
            let a = pts[c.pick(pts.len())];
            for &b in pts {
                // b = a + d (mod 2^33)
                let d = (b + P33 - a) % P33;
                if pes::pts_delta(black_box(a), black_box(b)) != d {
                    return Err(format!("difference from {} to {} is {}, expected {}", a, b, pes::pts_delta(a, b), d));
                }
                for e in 0..200u64 {
                    let b = (a + b + e) % P33;
                    let d = (b + P33 - a) % P33;
                    if pes::pts_delta(black_box(a), black_box(b)) != d {
                        return Err(format!("difference from {} to {} is {}, expected {}", a, b, pes::pts_delta(a, b), d));
                    }
                }
                if pes::pts_to_ms(black_box(b)) != b / 90 {
                    return Err(format!("{} is {} ms", b, pes::pts_to_ms(b)));
                }
            }
            c.bulk(201 * pts.len() as u64);
            c.call(202 * pts.len() as u64);
            Ok(())
        });
        r.explore("milliseconds", |c| {
            let k = c.pick(34);
            let base = if k == 33 { 0 } else { 1u64 << k };
            for v in base..base + 1000 {
                if pes::pts_to_ms(black_box(v)) != v / 90 {
                    return Err(format!("{} is {} ms", v, pes::pts_to_ms(v)));
                }
            }
            c.bulk(1000);
            c.call(1000);
            Ok(())
        });
        r.explore("constants", |c| {
            mc::engine::eq("PTS_NONE", pes::PTS_NONE, P33)?;
            mc::engine::eq("PTS_MAX", pes::PTS_MAX, P33 - 1)?;
            c.bulk(2);
            Ok(())
        });
        if thorough {
            r.explore("timestamps: every value", |c| {
                let hi = c.pick(1 << 15) as u64;
                let mut p = [0xFFu8; 24];
                for lo in 0..1u64 << 18 {
                    let v = hi << 18 | lo;
                    let o = (P33 - 1) ^ v;
                    p[9..14].copy_from_slice(&stamp(3, v, [1, 1, 1]));
                    p[14..19].copy_from_slice(&stamp(1, o, [1, 1, 1]));
                    let p = black_box(&p);
                    if pes::get_pts(p) != v || pes::get_dts(p) != o {
                        return Err(format!("PTS {:x} DTS {:x} read as {:x} {:x}", v, o, pes::get_pts(p), pes::get_dts(p)));
                    }
                    if pes::pts_to_ms(black_box(v)) != v / 90 {
                        return Err(format!("{} is {} ms", v, pes::pts_to_ms(v)));
                    }
                }
                c.bulk(1 << 18);
                c.call(3 << 18);
                Ok(())
            });
        }
    })
}
