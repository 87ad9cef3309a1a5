//! C23: packet header queries and setters.
use mc::engine::{eq, run};
use mpegts::ts;

fn main() {
    run("C23", |r| {
        r.deepen();
        // every value of the four header bytes that carry fields, with every
        // adaptation length; the rest of the packet in three fills
        let fills = [0x00u8, 0xFF, 0xA5];
        r.explore("queries: byte 1 x byte 3 x byte 4", |c| {
            let b1 = c.pick(256) as u8;
            let fill = c.of(&fills);
            for b3 in 0..=255u8 {
                for b4 in 0..=255u8 {
                    let mut p = [fill; 188];
                    let b2 = b4 ^ b3.rotate_left(3);
                    p[0] = 0x47;
                    p[1] = b1;
                    p[2] = b2;
                    p[3] = b3;
                    p[4] = b4;
                    let p = std::hint::black_box(p);
                    let ok = ts::is_error(&p) == (b1 >= 0x80)
                        && ts::is_pusi(&p) == (b1 / 64 % 2 == 1)
                        && ts::get_pid(&p) as usize == (b1 as usize % 32) * 256 + b2 as usize
                        && ts::is_scrambled(&p) == (b3 >= 0x40)
                        && ts::is_adaptation(&p) == (b3 / 32 % 2 == 1)
                        && ts::is_payload(&p) == (b3 / 16 % 2 == 1)
                        && ts::get_cc(&p) == b3 % 16
                        && ts::get_adaptation_size(&p) == b4
                        && ts::is_sync(&p);
                    let off = if b3 / 16 % 2 == 0 {
                        0
                    } else if b3 / 32 % 2 == 0 {
                        4
                    } else if 5 + b4 as usize >= 188 {
                        0
                    } else {
                        5 + b4 as usize
                    };
                    if !ok || ts::get_payload_offset(&p) as usize != off {
                        return Err(format!(
                            "header 47 {:02x} {:02x} {:02x} {:02x} fill {:02x}: error {} start {} pid {} scrambled {} adaptation {} payload {} cc {} size {} offset {}",
                            b1, b2, b3, b4, fill,
                            ts::is_error(&p), ts::is_pusi(&p), ts::get_pid(&p), ts::is_scrambled(&p), ts::is_adaptation(&p),
                            ts::is_payload(&p), ts::get_cc(&p), ts::get_adaptation_size(&p), ts::get_payload_offset(&p)
                        ));
                    }
                }
            }
            c.bulk(65536);
            c.call(65536 * 10);
            c.sample(|| format!("byte1={:02x}, bytes 3 and 4 over all values", b1));
            Ok(())
        });

        r.explore("queries: every PID, every first byte", |c| {
            let b1 = c.pick(256) as u8;
            for b2 in 0..=255u8 {
                for b0 in 0..=255u8 {
                    let p = std::hint::black_box([b0, b1, b2, 0x10, 0, 0, 0, 0]);
                    if ts::is_sync(&p) != (b0 == 0x47) || ts::get_pid(&p) as usize != (b1 as usize % 32) * 256 + b2 as usize {
                        return Err(format!("header {:02x?}: sync {} pid {}", p, ts::is_sync(&p), ts::get_pid(&p)));
                    }
                }
            }
            c.bulk(65536);
            c.call(65536 * 2);
            Ok(())
        });

        r.explore("queries: bytes 1 x 2 x 3, any first byte", |c| {
            let b1 = c.pick(256) as u8;
            let (b0, b4, fill) = c.of(&[(0x47u8, 0u8, 0u8), (0x47, 183, 0xFF), (0x00, 7, 0x47), (0xFF, 255, 0x10)]);
            let mut p = [fill; 188];
            p[0] = b0;
            p[1] = b1;
            p[4] = b4;
            for b2 in 0..=255u8 {
                p[2] = b2;
                for b3 in 0..=255u8 {
                    p[3] = b3;
                    let p = std::hint::black_box(&p);
                    let ok = ts::is_error(p) == (b1 >= 0x80)
                        && ts::is_pusi(p) == (b1 / 64 % 2 == 1)
                        && ts::get_pid(p) as usize == (b1 as usize % 32) * 256 + b2 as usize
                        && ts::is_scrambled(p) == (b3 >= 0x40)
                        && ts::is_adaptation(p) == (b3 / 32 % 2 == 1)
                        && ts::is_payload(p) == (b3 / 16 % 2 == 1)
                        && ts::get_cc(p) == b3 % 16
                        && ts::get_adaptation_size(p) == b4
                        && ts::is_sync(p) == (b0 == 0x47)
                        && ts::get_payload_offset(p) as usize == match (b3 / 16 % 4, b4) { (0, _) | (2, _) => 0, (1, _) => 4, (_, 183) | (_, 255) => 0, _ => 5 + b4 as usize };
                    if !ok {
                        return Err(format!("header {:02x?}: some query differs", &p[..6]));
                    }
                }
            }
            c.bulk(65536);
            c.call(65536 * 10);
            Ok(())
        });

        // setters: all values of the bytes of the field x all arguments
        r.explore("setters: PID", |c| {
            let b1 = c.pick(256) as u8;
            let fill = c.of(&fills);
            for b2 in [0u8, 0x55, 0xFF] {
                for pid in 0..8192u16 {
                    let mut p = [fill; 188];
                    p[1] = b1;
                    p[2] = b2;
                    let mut w = p;
                    w[1] = (b1 / 32) * 32 + (pid / 256) as u8;
                    w[2] = (pid % 256) as u8;
                    ts::set_pid(std::hint::black_box(&mut p), pid);
                    if p != w {
                        return Err(format!("set_pid({}) on {:02x} {:02x}: {:02x?}, expected {:02x?}", pid, b1, b2, &p[..6], &w[..6]));
                    }
                }
            }
            c.bulk(3 * 8192);
            c.call(3 * 8192);
            Ok(())
        });
        r.explore("setters: counter, payload flag, start flag", |c| {
            let b = c.pick(256) as u8;
            let fill = c.of(&fills);
            // the other header bytes
            for x in 0..=255u8 {
                for (k, y) in [(0, x), (1, x), (2, x), (4, x), (5, x)] {
                    let mut q = [fill; 188];
                    q[3] = b;
                    q[k] = y;
                    for cc in [0u8, 1, 8, 15] {
                        let mut p = q;
                        ts::set_cc(std::hint::black_box(&mut p), cc);
                        let mut w = q;
                        w[3] = b / 16 * 16 + cc;
                        if p != w {
                            return Err(format!("set_cc({}) on {:02x?}: {:02x?}", cc, &q[..6], &p[..6]));
                        }
                    }
                    for on in [false, true] {
                        let mut p = q;
                        if on { ts::set_payload_1(std::hint::black_box(&mut p)) } else { ts::set_payload_0(std::hint::black_box(&mut p)) }
                        let mut w = q;
                        w[3] = if on { b | 0x10 } else { b & 0xEF };
                        if p != w {
                            return Err(format!("payload flag to {} on {:02x?}: {:02x?}", on, &q[..6], &p[..6]));
                        }
                        let mut p = q;
                        if on { ts::set_pusi_1(std::hint::black_box(&mut p)) } else { ts::set_pusi_0(std::hint::black_box(&mut p)) }
                        let mut w = q;
                        w[1] = if on { q[1] | 0x40 } else { q[1] & 0xBF };
                        if p != w {
                            return Err(format!("start flag to {} on {:02x?}: {:02x?}", on, &q[..6], &p[..6]));
                        }
                    }
                }
                c.call(40);
            }
            c.bulk(256 * 5);
            for cc in 0..16u8 {
                let mut p = [fill; 188];
                p[3] = b;
                let mut w = p;
                w[3] = b / 16 * 16 + cc;
                ts::set_cc(&mut p, cc);
                eq("set_cc", &p[..], &w[..])?;
            }
            let ops: [(fn(&mut [u8]), usize, u8, bool); 4] = [
                (ts::set_payload_0, 3, 0x10, false),
                (ts::set_payload_1, 3, 0x10, true),
                (ts::set_pusi_0, 1, 0x40, false),
                (ts::set_pusi_1, 1, 0x40, true),
            ];
            for (i, (f, at, mask, on)) in ops.iter().enumerate() {
                let mut p = [fill; 188];
                p[*at] = b;
                let mut w = p;
                w[*at] = if *on { b | mask } else { b & !mask };
                f(&mut p);
                eq(&format!("flag setter {}", i), &p[..], &w[..])?;
            }
            c.bulk(20);
            c.call(20);
            Ok(())
        });
        r.explore("setters: sequences", |c| {
            // every sequence of four setters keeps the fields independent
            let mut p = [0u8; 188];
            for (i, b) in p.iter_mut().enumerate() {
                *b = (i * 7) as u8;
            }
            let mut w = p;
            for _ in 0..4 {
                match c.pick(8) {
                    0 => { ts::set_pid(&mut p, 0x1FFF); w[1] |= 0x1F; w[2] = 0xFF; }
                    1 => { ts::set_pid(&mut p, 0x0100); w[1] = (w[1] & 0xE0) | 1; w[2] = 0; }
                    2 => { ts::set_cc(&mut p, 15); w[3] |= 15; }
                    3 => { ts::set_cc(&mut p, 8); w[3] = (w[3] & 0xF0) | 8; }
                    4 => { ts::set_payload_0(&mut p); w[3] &= 0xEF; }
                    5 => { ts::set_payload_1(&mut p); w[3] |= 0x10; }
                    6 => { ts::set_pusi_0(&mut p); w[1] &= 0xBF; }
                    _ => { ts::set_pusi_1(&mut p); w[1] |= 0x40; }
                }
                c.call(1);
                c.state(&p[..]);
                eq("packet", &p[..], &w[..])?;
            }
            Ok(())
        });
        r.explore("constants", |c| {
            let n = ts::NULL_PACKET;
            eq("null packet size", n.len(), 188)?;
            eq("null packet header", &n[..4], &[0x47, 0x1F, 0xFF, 0x10][..])?;
            eq("null packet payload", n[4..].iter().all(|&b| b == 0xFF), true)?;
            eq("null packet pid", ts::get_pid(n), 8191)?;
            eq("PID_NULL", ts::PID_NULL, 8191)?;
            eq("filler size", ts::FILL_PACKET.len(), 188)?;
            eq("filler", ts::FILL_PACKET.iter().all(|&b| b == 0xFF), true)?;
            eq("packet size", ts::PACKET_SIZE, 188)?;
            c.bulk(3);
            c.call(1);
            c.sample(|| "null and filler packets".into());
            Ok(())
        });
        if r.thorough() {
            r.explore("queries: every value of bytes 1 to 4", |c| {
                let (b1, b2) = (c.pick(256) as u8, c.pick(256) as u8);
                let mut p = [0x47u8; 188];
                p[1] = b1;
                p[2] = b2;
                for b3 in 0..=255u8 {
                    p[3] = b3;
                    for b4 in 0..=255u8 {
                        p[4] = b4;
                        let p = std::hint::black_box(&p);
                        let off = if b3 / 16 % 2 == 0 {
                            0
                        } else if b3 / 32 % 2 == 0 {
                            4
                        } else if 5 + b4 as usize >= 188 {
                            0
                        } else {
                            5 + b4 as usize
                        };
                        let ok = ts::is_error(p) == (b1 >= 0x80)
                            && ts::is_pusi(p) == (b1 / 64 % 2 == 1)
                            && ts::get_pid(p) as usize == (b1 as usize % 32) * 256 + b2 as usize
                            && ts::is_scrambled(p) == (b3 >= 0x40)
                            && ts::is_adaptation(p) == (b3 / 32 % 2 == 1)
                            && ts::is_payload(p) == (b3 / 16 % 2 == 1)
                            && ts::get_cc(p) == b3 % 16
                            && ts::get_adaptation_size(p) == b4
                            && ts::get_payload_offset(p) as usize == off;
                        if !ok {
                            return Err(format!("header 47 {:02x} {:02x} {:02x} {:02x} is read wrongly", b1, b2, b3, b4));
                        }
                    }
                }
                c.bulk(65536);
                c.call(65536 * 9);
                Ok(())
            });
        }
    })
}
