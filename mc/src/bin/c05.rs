//! C05: checksum, validity, comparison.
use mc::engine::{eq, run};
use mc::spec::{any_section, crc, crc_fast, crc_step, psi_of, section};
use mpegts::psi::{crc32b, Psi};
use std::hint::black_box;

fn main() {
    run("C05", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("checksum: every message of up to 3 bytes", |c| {
            let a = c.pick(256) as u8;
            let r0 = crc_step(0xFFFF_FFFF, a);
            if a == 0 {
                eq("checksum of nothing", crc32b(&[] as &[u8]), 0xFFFF_FFFF)?;
            }
            eq("checksum of one byte", crc32b([a]), r0)?;
            for b in 0..=255u8 {
                let r1 = crc_step(r0, b);
                if crc32b(black_box([a, b])) != r1 {
                    return Err(format!("checksum of {:02x}{:02x} is {:08x}, expected {:08x}", a, b, crc32b([a, b]), r1));
                }
                for d in 0..=255u8 {
                    let r2 = crc_step(r1, d);
                    let got = crc32b(black_box([a, b, d]));
                    if got != r2 {
                        return Err(format!("checksum of {:02x}{:02x}{:02x} is {:08x}, expected {:08x}", a, b, d, got, r2));
                    }
                }
            }
            c.bulk(1 + 256 + 65536);
            c.call(1 + 256 + 65536);
            Ok(())
        });
        if thorough {
            r.explore("checksum: every message of 4 bytes", |c| {
                let (a, b) = (c.pick(256) as u8, c.pick(256) as u8);
                let r1 = crc_step(crc_step(0xFFFF_FFFF, a), b);
                for d in 0..=255u8 {
                    let r2 = crc_step(r1, d);
                    for e in 0..=255u8 {
                        let w = crc_step(r2, e);
                        if crc32b(black_box([a, b, d, e])) != w {
                            return Err(format!("checksum of {:02x?} is {:08x}, expected {:08x}", [a, b, d, e], crc32b([a, b, d, e]), w));
                        }
                    }
                }
                c.bulk(65536);
                c.call(65536);
                Ok(())
            });
            // a change of no more than 32 consecutive bits is always noticed
            r.explore("corruption: every burst of 24 bits", |c| {
                let s = any_section(16, 3);
                let at = c.pick(13);
                let hi = 1 + c.pick(255);
                let mut p = psi_of(&s);
                p.buffer[at] ^= hi as u8;
                for lo in 0..65536u32 {
                    p.buffer[at + 1] = s[at + 1] ^ (lo >> 8) as u8;
                    p.buffer[at + 2] = s[at + 2] ^ lo as u8;
                    if p.check() {
                        return Err(format!("burst {:02x}{:04x} at byte {}: still valid", hi, lo, at));
                    }
                }
                c.bulk(65536);
                c.call(65536);
                Ok(())
            });
            // the four checksum bytes: one value of 2^32 is right
            r.explore("every wrong checksum", |c| {
                let s = any_section(8, 1);
                let hi = c.pick(65536) as u32;
                let w = u32::from_be_bytes([s[4], s[5], s[6], s[7]]);
                let mut p = psi_of(&s);
                for lo in 0..65536u32 {
                    let v = hi << 16 | lo;
                    p.buffer[4..8].copy_from_slice(&v.to_be_bytes());
                    if p.check() != (v == w) {
                        return Err(format!("checksum {:08x} instead of {:08x}: valid {}", v, w, p.check()));
                    }
                }
                c.bulk(65536);
                c.call(65536);
                Ok(())
            });
        }
        r.explore("checksum: every byte at every depth", |c| {
            let len = 1 + c.pick(96);
            for at in 0..len {
                for v in 0..=255u8 {
                    let mut m: Vec<u8> = (0..len).map(|i| (i * 37 + len) as u8).collect();
                    m[at] = v;
                    if crc32b(&m) != crc_fast(&m) {
                        return Err(format!("checksum of {:02x?} is {:08x}, expected {:08x}", m, crc32b(&m), crc(&m)));
                    }
                }
            }
            c.bulk(256 * len as u64);
            c.call(256 * len as u64);
            Ok(())
        });
        r.explore("checksum: every length", |c| {
            let len = c.pick(4200);
            for fill in 0..4u8 {
                let m: Vec<u8> = match fill {
                    0 => vec![0; len],
                    1 => vec![0xFF; len],
                    2 => (0..len).map(|i| (i * i >> 3) as u8).collect(),
                    _ => (0..len).map(|i| if i == len / 2 { 0x80 } else { 0 }).collect(),
                };
                let w = crc(&m);
                if crc32b(&m) != w || crc_fast(&m) != w {
                    return Err(format!("checksum of {} bytes kind {} is {:08x}, expected {:08x}", len, fill, crc32b(&m), w));
                }
            }
            c.bulk(4);
            c.call(4);
            Ok(())
        });

        r.explore("checksum: long messages", |c| {
            let len = (1usize << c.range(13, if thorough { 24 } else { 20 })) + c.pick(9) - 4;
            let kind = c.pick(3);
            let m: Vec<u8> = match kind {
                0 => vec![0; len],
                1 => (0..len).map(|i| (i * i >> 5) as u8).collect(),
                _ => (0..len).map(|i| if i == len - 1 { 1 } else { 0xFF }).collect(),
            };
            let w = crc_fast(&m);
            if crc32b(&m) != w {
                return Err(format!("checksum of {} bytes kind {} is {:08x}, expected {:08x}", len, kind, crc32b(&m), w));
            }
            c.state(&(len, kind));
            c.call(1);
            Ok(())
        });

        // validity: exactly complete and intact
        r.explore("validity: every length and truncation", |c| {
            let len = 8 + c.pick(4089);
            let s = any_section(len, len as u8);
            let p = psi_of(&s);
            if !p.check() {
                return Err(format!("a good section of {} bytes is not valid", len));
            }
            // declared longer than present
            let mut cuts: Vec<usize> = vec![0, 3, 7, 8, len / 2, len - 5, len - 4, len - 3, len - 2, len - 1];
            if len < 200 || thorough && len % 16 == 0 {
                cuts = (0..len).collect();
            }
            for n in cuts {
                if n >= len {
                    continue;
                }
                let mut q = psi_of(&s);
                q.buffer.truncate(n);
                if q.check() {
                    return Err(format!("{} of {} bytes present, reported valid", n, len));
                }
                c.call(1);
                c.bulk(1);
            }
            // bytes past the end do not matter
            for n in [1usize, 4, 100] {
                let mut q = psi_of(&s);
                q.buffer.resize(len + n, 0xFF);
                if !q.check() {
                    return Err(format!("{} bytes and {} more: not valid", len, n));
                }
                c.call(1);
                c.bulk(1);
            }
            c.call(1);
            c.bulk(1);
            Ok(())
        });
        r.explore("validity: shorter than 8 bytes", |c| {
            let len = c.pick(8);
            // also with a matching checksum over the first bytes
            let mut s: Vec<u8> = (0..len).map(|i| i as u8).collect();
            if len >= 4 {
                let w = crc(&s[..len - 4]).to_be_bytes();
                s[len - 4..].copy_from_slice(&w);
            }
            for extra in 0..12 {
                let mut q = Psi::default();
                q.buffer = s.clone();
                q.buffer.resize(len + extra, 0);
                q.size = len;
                if q.check() {
                    return Err(format!("a section of {} bytes is reported valid", len));
                }
            }
            c.bulk(12);
            c.call(12);
            Ok(())
        });
        // corruption: 1, 2 and 3 bits, bursts
        let lens: &[usize] = if thorough { &[8, 9, 12, 16, 20, 33, 64] } else { &[8, 9, 12, 16, 20] };
        r.explore("corruption: 1 to 3 bits", |c| {
            let len = lens[c.pick(lens.len())];
            let s = any_section(len, 5);
            let bits = len * 8;
            let i = c.pick(bits);
            let mut p = psi_of(&s);
            let flip = |p: &mut Psi, k: usize| p.buffer[k / 8] ^= 1 << (k % 8);
            flip(&mut p, i);
            let mut n = 0u64;
            if p.check() {
                return Err(format!("bit {} of {} flipped: still valid", i, bits));
            }
            for j in i + 1..bits {
                flip(&mut p, j);
                if p.check() {
                    return Err(format!("bits {} {} of {} flipped: still valid", i, j, bits));
                }
                if thorough || len <= 16 {
                    for k in j + 1..bits {
                        flip(&mut p, k);
                        n += 1;
                        if p.check() {
                            return Err(format!("bits {} {} {} of {} flipped: still valid", i, j, k, bits));
                        }
                        flip(&mut p, k);
                    }
                }
                flip(&mut p, j);
                n += 1;
            }
            c.call(n + 1);
            c.bulk(n + 1);
            Ok(())
        });
        r.explore("corruption: single bits and bursts of long sections", |c| {
            let len = c.of(&[183usize, 184, 1024, 4096]);
            let s = any_section(len, 9);
            let byte = c.pick(len);
            let mut p = psi_of(&s);
            let mut n = 0;
            for pat in 1..=255u8 {
                for w in 0..3usize {
                    // bursts of up to 24 bits starting in this byte
                    if byte + w >= len {
                        continue;
                    }
                    p.buffer[byte] ^= pat;
                    if w > 0 {
                        p.buffer[byte + w] ^= pat.rotate_left(3) | 1;
                    }
                    if (len < 1000 || w == 0 && pat.count_ones() < 3) && p.check() {
                        return Err(format!("byte {} of {} changed by {:02x}: still valid", byte, len, pat));
                    }
                    if w > 0 {
                        p.buffer[byte + w] ^= pat.rotate_left(3) | 1;
                    }
                    p.buffer[byte] ^= pat;
                    n += 1;
                }
            }
            c.call(n);
            c.bulk(n);
            Ok(())
        });
        r.explore("corruption: every burst of up to 16 bits", |c| {
            let len = c.of(&[12usize, 20]);
            let s = any_section(len, 3);
            let at = c.pick(len * 8 - 16);
            let mut p = psi_of(&s);
            let mut n = 0;
            for pat in 1..=0xFFFFu32 {
                if pat & 1 == 0 && !thorough && pat > 0xFF {
                    continue;
                }
                let put = |p: &mut Psi| {
                    // 16-bit pattern at bit offset `at`
                    let sh = 8 - at % 8;
                    let v = pat << sh;
                    p.buffer[at / 8] ^= (v >> 16) as u8;
                    p.buffer[at / 8 + 1] ^= (v >> 8) as u8;
                    if at / 8 + 2 < len {
                        p.buffer[at / 8 + 2] ^= v as u8;
                    }
                };
                put(&mut p);
                if p.check() {
                    return Err(format!("burst {:x} at bit {}: still valid", pat, at));
                }
                put(&mut p);
                n += 1;
            }
            c.call(n);
            c.bulk(n);
            Ok(())
        });
        r.explore("every wrong checksum byte", |c| {
            let len = 8 + c.pick(60);
            let s = any_section(len, 1);
            for i in 0..4 {
                for v in 0..=255u8 {
                    let mut q = psi_of(&s);
                    let at = len - 4 + i;
                    let same = q.buffer[at] == v;
                    q.buffer[at] = v;
                    if q.check() != same {
                        return Err(format!("{} byte section, checksum byte {} = {:02x}: valid {}", len, i, v, q.check()));
                    }
                }
            }
            c.bulk(1024);
            c.call(1024);
            Ok(())
        });

        // comparison over a pool of complete, incomplete, empty, odd sections
        let mut pool: Vec<(Vec<u8>, usize)> = Vec::new();
        for s in [any_section(8, 1), any_section(8, 2), any_section(12, 1), any_section(200, 1), any_section(200, 2)] {
            let n = s.len();
            for cut in [0, 1, 2, 3, 7, n / 2, n - 5, n - 4, n - 3, n - 1] {
                pool.push((s[..cut].to_vec(), n));
                pool.push((s[..cut].to_vec(), 0));
            }
            let mut long = s.clone();
            long.extend_from_slice(&[1, 2, 3]);
            pool.push((long, n));
            let mut bad = s.clone();
            bad[n - 1] ^= 1;
            pool.push((bad, n));
            let mut body = s.clone();
            body[3] ^= 1;
            pool.push((body, n));
            pool.push((s, n));
        }
        for n in 0..9usize {
            pool.push((vec![0x70; n], n));
            pool.push((vec![0x70; 9], n));
            pool.push((vec![0x71; 9], n));
        }
        pool.push((section(0x42, 0xF, &[0; 8]), 15));
        // sections of other lengths that end in the same four bytes
        let tail = any_section(200, 1)[196..].to_vec();
        for n in [8usize, 9, 12, 199, 201, 384] {
            let mut s = any_section(n, 7);
            s[n - 4..].copy_from_slice(&tail);
            pool.push((s, n));
        }
        let pool = &pool;
        let make = |x: &(Vec<u8>, usize), k: u8| {
            let mut p = Psi::default();
            p.buffer = x.0.clone();
            p.size = x.1;
            p.pid = u16::from(k) * 7;
            p.cc = k;
            p
        };
        r.explore("comparison: every pair", |c| {
            let i = c.pick(pool.len());
            let j = c.pick(pool.len());
            let (x, y) = (&pool[i], &pool[j]);
            let complete = |p: &(Vec<u8>, usize)| p.1 >= 8 && p.0.len() >= p.1;
            let w = if complete(x) && complete(y) {
                x.1 == y.1 && x.0[x.1 - 4..x.1] == y.0[y.1 - 4..y.1]
            } else {
                x.1 == y.1 && x.0 == y.0
            };
            let (a, b) = (make(x, 1), make(y, 2));
            if (a == b) != w || (b == a) != w {
                return Err(format!("sections {:02x?} and {:02x?} compare {} / {}, expected {}", x, y, a == b, b == a, w));
            }
            let e = a.clone();
            if e != a {
                return Err(format!("a copy of {:02x?} is not equal to it", x));
            }
            c.call(3);
            c.state(&(i, j));
            Ok(())
        });
        r.explore("validity: special values of the checksum field", |c| {
            let n = c.of(&[8usize, 9, 12, 20, 184, 1024, 4096]);
            let a = c.pick(256) as u8;
            for fill in [None, Some(0u8), Some(0xFF), Some(a)] {
                let s = match fill {
                    None => any_section(n, a),
                    Some(b) => section(0x42, 0xB, &vec![b; n - 7]),
                };
                let sum = crc_fast(&s[..n - 4]);
                let mut p = psi_of(&s);
                let mut field = |v: u32| -> Result<(), String> {
                    p.buffer[n - 4..].copy_from_slice(&v.to_be_bytes());
                    if p.check() != (v == sum) {
                        return Err(format!("{} bytes with checksum {:08x}, right is {:08x}: {}", n, v, sum, p.check()));
                    }
                    Ok(())
                };
                // the checksum turned around, inverted, shifted, without a part,
                // continued over itself, with another start
                let body = crc_fast(&s[3..n - 4]);
                for v in [sum, !sum, sum.swap_bytes(), sum.reverse_bits(), sum.rotate_left(8), sum.rotate_left(16), sum & 0xFFFF, sum << 16, sum >> 16, 0, !0, 1, body, !body, crc_fast(&s), crc_fast(&s[..n - 5]), n as u32, 0x04C1_1DB7] {
                    field(v)?;
                }
                for b in 0..=255u8 {
                    for v in [[a, a, b, b], [a, b, a, b], [a, b, b, a], [0, 0, a, b], [a, b, 0, 0], [0xFF, 0xFF, a, b], [a, b, 0xFF, 0xFF]] {
                        field(u32::from_be_bytes(v))?;
                    }
                }
                c.bulk(18 + 7 * 256);
                c.call(18 + 7 * 256);
            }
            Ok(())
        });
    })
}
