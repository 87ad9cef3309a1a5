//! C06: creating and finalising sections.
use mc::engine::{eq, run};
use mc::spec::{be, crc_fast, valid_section};
use mpegts::psi::Psi;

fn finalised(p: &Psi, body: &[u8], flags: u8) -> Result<(), String> {
    let n = body.len() + 4;
    eq("size", p.size, n)?;
    if p.buffer.len() < n {
        return Err(format!("{} bytes present of {}", p.buffer.len(), n));
    }
    let s = &p.buffer[..n];
    eq("length field", be(&s[1..3]) & 0xFFF, n - 3)?;
    eq("flags", s[1] >> 4, flags)?;
    eq("first byte", s[0], body[0])?;
    if s[3..n - 4] != body[3..] {
        return Err("the body changed".into());
    }
    eq("checksum", be(&s[n - 4..]) as u32, crc_fast(&s[..n - 4]))?;
    if n >= 8 && (!p.check() || !valid_section(s)) {
        return Err(format!("not valid after finalising ({} bytes)", n));
    }
    Ok(())
}

fn main() {
    run("C06", |r| {
        let thorough = r.thorough();
        r.explore("creation: every table id, version, header size", |c| {
            let id = c.pick(256) as u8;
            for p in [Psi::default(), Psi::new(id, 8, 0)] {
                eq("size, PID and counter of a new section", (p.size, p.pid, p.cc), (0, 0, 0))?;
            }
            eq("bytes of an empty section", Psi::default().buffer.len(), 0)?;
            for ver in 0..32u8 {
                for size in 6..=20usize {
                    let p = Psi::new(id, size, ver);
                    if p.buffer.len() != size || p.buffer[0] != id || p.buffer[1] >> 7 != 1 || p.buffer[5] >> 1 & 31 != ver || p.buffer[5] & 1 != 1 {
                        return Err(format!("Psi::new({:02x}, {}, {}): {:02x?}", id, size, ver, p.buffer));
                    }
                }
            }
            for size in 3..6usize {
                let p = Psi::new(id, size, 31);
                eq("short header", (p.buffer.len(), p.buffer[0], p.buffer[1] >> 7), (size, id, 1))?;
            }
            c.bulk(32 * 15 + 3);
            c.call(32 * 15 + 3);
            Ok(())
        });
        r.explore("finalising: every total length", |c| {
            // header 3..14 and body so that the total reaches 7..4096
            let total = 7 + c.pick(4090);
            let headers: Vec<usize> = if thorough { (3..15).collect() } else { vec![3, 8, 12] };
            for h in headers {
                if total < h + 4 {
                    continue;
                }
                let mut p = Psi::new(0x42, h, 9);
                let n = total - 4 - h;
                p.buffer.extend((0..n).map(|i| (i ^ total) as u8));
                let flags = (total % 16) as u8;
                p.buffer[1] = flags << 4;
                let body = p.buffer.clone();
                p.finalize();
                finalised(&p, &body, flags).map_err(|e| format!("header {} total {}: {}", h, total, e))?;
                let once = p.buffer.clone();
                p.finalize();
                eq("finalised twice", &p.buffer[..p.size], &once[..])?;
                finalised(&p, &body, flags)?;
                c.call(3);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("finalising: every value of the second byte", |c| {
            let b1 = c.pick(256) as u8;
            for total in [12usize, 15, 255, 256, 257, 258, 259, 260, 1024, 4095, 4096] {
                for b2 in [0u8, 1, 0x55, 0xFF] {
                    let mut p = Psi::new(0x40, 8, 0);
                    p.buffer.resize(total - 4, 0xA7);
                    // what the low bits and the third byte held before does not matter
                    p.buffer[1] = b1;
                    p.buffer[2] = b2;
                    let body = p.buffer.clone();
                    p.finalize();
                    finalised(&p, &body, b1 >> 4)?;
                    c.call(1);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        // edits and finalisations in any order
        let depth = r.by(4, 6);
        r.explore("edit and finalise sequences", |c| {
            let total = c.of(&[12usize, 16, 183, 184, 1024, 4096]);
            let mut p = Psi::new(0x4E, 8, 3);
            p.buffer.resize(total - 4, 0x11);
            let mut body = p.buffer.clone();
            let mut flags = 0xBu8;
            p.finalize();
            finalised(&p, &body, flags)?;
            for _ in 0..depth {
                match c.pick(9) {
                    0 => {
                        p.finalize();
                        finalised(&p, &body, flags)?;
                    }
                    1 => { p.buffer[0] ^= 0x21; body[0] ^= 0x21; p.finalize(); }
                    2 => { p.buffer[1] ^= 0x40; flags ^= 4; p.finalize(); }
                    3 => { p.buffer[5] ^= 0x3E; body[5] ^= 0x3E; p.finalize(); }
                    4 => { let k = total - 5; p.buffer[k] = p.buffer[k].wrapping_add(1); body[k] = body[k].wrapping_add(1); p.finalize(); }
                    5 => { p.buffer[total / 2] = 0; if total / 2 < total - 4 { body[total / 2] = 0; } p.finalize(); }
                    7 => {
                        // bytes behind the section (stuffing, the next section) are not part of it
                        p.buffer.extend_from_slice(&[0xFF, 0x00, 0x42]);
                        p.buffer[7] ^= 0x11;
                        body[7] ^= 0x11;
                        p.finalize();
                    }
                    6 => {
                        // damage the checksum itself; finalising repairs it
                        p.buffer[total - 1] ^= 0xFF;
                        if p.check() {
                            return Err("valid with a damaged checksum".into());
                        }
                        p.finalize();
                    }
                    _ => {
                        // an edit without finalising makes it invalid
                        p.buffer[6] ^= 0x80;
                        body[6] ^= 0x80;
                        if p.check() {
                            return Err("valid after an edit".into());
                        }
                        p.finalize();
                    }
                }
                c.call(1);
                c.state(&(&p.buffer, p.size));
                finalised(&p, &body, flags)?;
            }
            Ok(())
        });
        r.explore("every covered byte edited", |c| {
            let total = c.of(&[12usize, 40, 200]);
            let at = c.pick(total - 4);
            for v in 0..=255u8 {
                let mut p = Psi::new(0x46, 8, 1);
                p.buffer.resize(total - 4, 0x22);
                p.finalize();
                let keep = p.buffer.clone();
                if at == 1 || at == 2 {
                    // the length must stay
                    if at == 2 || v & 0x0F != keep[1] & 0x0F {
                        continue;
                    }
                }
                p.buffer[at] = v;
                if p.check() != (v == keep[at]) {
                    return Err(format!("byte {} of {} set to {:02x} (was {:02x}): valid {}", at, total, v, keep[at], p.check()));
                }
                p.finalize();
                let mut body = keep[..total - 4].to_vec();
                body[at] = v;
                finalised(&p, &body, body[1] >> 4)?;
                c.call(3);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("any first and last bytes of the body", |c| {
            let h = c.of(&[3usize, 8, 12]);
            let n = c.of(&[2usize, 4, 5, 40, 300]);
            let x = c.pick(256) as u8;
            for y in 0..=255u8 {
                for place in 0..3 {
                    let mut p = Psi::new(0x42, h, 9);
                    p.buffer.extend((0..n).map(|i| (i as u8).wrapping_mul(29) | 1));
                    let at = [h, h + n / 2 - 1, h + n - 2][place];
                    p.buffer[at] = x;
                    p.buffer[at + 1] = y;
                    p.buffer[1] = 0xB0;
                    let body = p.buffer.clone();
                    p.finalize();
                    finalised(&p, &body, 0xB).map_err(|e| format!("body of {} bytes with {:02x} {:02x} at {}: {}", n, x, y, at, e))?;
                    c.call(1);
                }
            }
            c.bulk(768);
            Ok(())
        });
        r.explore("tails of special bytes", |c| {
            let h = c.of(&[3usize, 8, 12]);
            let n = c.of(&[0usize, 4, 20, 176, 1000, 4070]);
            let tail = c.pick(7);
            let mut p = Psi::new(0x42, h, 9);
            p.buffer.extend((0..n).map(|i| (i as u8).wrapping_mul(29) | 1));
            for _ in 0..tail {
                let b = c.of(&[0x00u8, 0xFF, 0x55]);
                p.buffer.push(b);
            }
            p.buffer[1] = 0xB0;
            let body = p.buffer.clone();
            c.state(&body);
            p.finalize();
            finalised(&p, &body, 0xB).map_err(|e| format!("body ending {:02x?}: {}", &body[h + n..], e))?;
            c.call(1);
            Ok(())
        });
        r.explore("runs of one byte, and a body that ends like a section", |c| {
            let b = c.pick(256) as u8;
            for h in [3usize, 8, 12] {
                for n in [1usize, 4, 8, 100, 1000, 4096 - 4 - h] {
                    let mut p = Psi::new(b, h, 9);
                    p.buffer.resize(h + n, b);
                    p.buffer[1] = 0xB0;
                    // the body may hold a whole section with its checksum already
                    let fits = p.buffer.len() + 8 <= 4096;
                    for round in 0..2 {
                        let body = p.buffer.clone();
                        p.finalize();
                        finalised(&p, &body, 0xB).map_err(|e| format!("{} bytes of {:02x}, round {}: {}", n, b, round, e))?;
                        c.call(1);
                        c.state(&(b, h, n, round));
                        if !fits {
                            break;
                        }
                        let done = p.buffer.clone();
                        p = Psi::default();
                        p.buffer = done;
                    }
                }
            }
            Ok(())
        });
        r.explore("PID and counter", |c| {
            let pid = c.of(&[0u16, 1, 0x11, 0x100, 0x1FFF, 0x2000, 0xFFFF]);
            let cc = c.pick(16) as u8;
            for n in [0usize, 1, 100, 1000, 4080] {
                let mut p = Psi::new(0x42, 8, 3);
                p.buffer.resize(8 + n, 7);
                p.pid = pid;
                p.cc = cc;
                for _ in 0..2 {
                    p.finalize();
                    eq("PID and counter after finalising", (p.pid, p.cc), (pid, cc))?;
                    c.call(1);
                }
                c.state(&(pid, cc, n));
            }
            Ok(())
        });
    })
}
