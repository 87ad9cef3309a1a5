//! C03: arbitrary packets.
use mc::engine::{hash, run};
use mc::spec::{any_section, valid_section};
use mpegts::psi::Psi;
use std::collections::HashSet;

fn safe(p: &Psi) -> Result<(), String> {
    if p.buffer.len() > 4098 + 2 * 188 {
        return Err(format!("{} bytes retained", p.buffer.len()));
    }
    if p.check() {
        if p.buffer.len() < p.size {
            return Err(format!("complete with {} of {} bytes", p.buffer.len(), p.size));
        }
        if !valid_section(&p.buffer[..p.size]) {
            return Err(format!("reported complete: {:02x?}", &p.buffer[..p.size.min(40)]));
        }
    }
    Ok(())
}

fn key(p: &Psi) -> u64 {
    hash(&(&p.buffer, p.size, p.cc, p.pid))
}

/// A packet with any header; `body` starts where the payload would.
fn raw(b1: u8, b3: u8, af: u8, body: &[u8]) -> [u8; 188] {
    let mut p = [0xFFu8; 188];
    p[0] = 0x47;
    p[1] = b1;
    p[2] = 0x11;
    p[3] = b3;
    let mut at = 4;
    if b3 & 0x20 != 0 {
        p[4] = af;
        if af > 0 {
            p[5] = 0;
        }
        at = 5 + af as usize;
    }
    for (i, &b) in body.iter().enumerate() {
        if at + i < 188 {
            p[at + i] = b;
        }
    }
    p
}

fn main() {
    run("C03", |r| {
        let thorough = r.thorough();
        // states from which single packets are tried
        let starts: Vec<Psi> = {
            let mut v = vec![Psi::default()];
            let s = any_section(4096, 1);
            let t = any_section(200, 2);
            for (sec, n) in [(&s, 1usize), (&s, 2), (&s, 22), (&s, 23), (&t, 1), (&t, 2)] {
                let mut p = Psi::default();
                let mut at = 0;
                for i in 0..n {
                    let mut body = if i == 0 { vec![0] } else { vec![] };
                    let k = (184 - body.len()).min(sec.len() - at);
                    body.extend_from_slice(&sec[at..at + k]);
                    at += k;
                    p.mux(&raw(if i == 0 { 0x40 } else { 0 }, 0x10 | (i as u8 & 15), 0, &body));
                }
                v.push(p);
            }
            // a header cut after one and two bytes
            for k in 1..=2usize {
                let mut body = vec![(183 - k) as u8];
                body.resize(184 - k, 0x90);
                body.extend_from_slice(&s[..k]);
                let mut p = Psi::default();
                p.mux(&raw(0x40, 0x10, 0, &body));
                v.push(p);
            }
            v
        };
        let starts = &starts;
        r.explore("single packets: every header flag, control and adaptation byte", |c| {
            let b1 = c.pick(256) as u8;
            let k = c.pick(starts.len());
            for b3 in 0..=255u8 {
                for b4 in 0..=255u8 {
                    let mut p = starts[k].clone();
                    let mut t = [b4.wrapping_add(1) & 0xBF; 188];
                    t[0] = if b4 == 7 { 0 } else { 0x47 };
                    t[1] = b1;
                    t[3] = b3;
                    t[4] = b4;
                    p.mux(&t);
                    if let Err(e) = safe(&p) {
                        return Err(format!("packet {:02x?} after state {}: {}", &t[..8], k, e));
                    }
                }
                c.call(256);
                c.bulk(256);
                if !thorough && b1 & 0x1F > 1 {
                    break;
                }
            }
            Ok(())
        });
        r.explore("single packets: every pointer and section length", |c| {
            let ptr = c.pick(256) as u8;
            let k = c.pick(starts.len());
            let af = c.of(&[255u8, 0, 1, 170, 180, 181, 182, 183]);
            for len in 0..4096usize {
                if !thorough && ptr > 8 && ptr < 178 && len > 300 && len < 4000 {
                    continue;
                }
                c.call(2);
                c.bulk(1);
                let mut body = vec![ptr];
                let top = if len % 2 == 0 { 0x80 } else { 0 };
                body.resize(1 + ptr as usize, 0xB0);
                body.extend_from_slice(&[0x42, top | (len >> 8) as u8, len as u8]);
                let mut p = starts[k].clone();
                let cc = (p.cc + 1) & 15;
                p.mux(&raw(0x40, cc | if af == 255 { 0x10 } else { 0x30 }, af, &body));
                safe(&p).map_err(|e| format!("pointer {} length {} after state {}: {}", ptr, len, k, e))?;
                // and what follows
                p.mux(&raw(0, (cc + 1) & 15 | 0x10, 0, &[0x55; 184]));
                safe(&p).map_err(|e| format!("pointer {} length {} after state {}, next packet: {}", ptr, len, k, e))?;
            }
            Ok(())
        });
        // too short for a section, but with a matching checksum
        r.explore("short sections with a matching checksum", |c| {
            let n = 3 + c.pick(10);
            let ptr = c.pick(184);
            let k = c.pick(starts.len());
            for b1 in (0..=255u8).step_by(if thorough { 1 } else { 5 }) {
                let mut s: Vec<u8> = vec![b1 ^ 0x42, b1 & 0xF0, (n - 3) as u8];
                s.resize(n, b1);
                if n >= 4 {
                    let w = mc::spec::crc(&s[..n - 4]).to_be_bytes();
                    s[n - 4..].copy_from_slice(&w);
                }
                let mut body = vec![ptr as u8];
                body.resize(1 + ptr, 0xB0);
                body.extend_from_slice(&s);
                let mut p = starts[k].clone();
                let cc = (p.cc + 1) & 15;
                p.mux(&raw(0x40, cc | 0x10, 0, &body));
                safe(&p).map_err(|e| format!("section {:02x?} at {} after state {}: {}", s, ptr, k, e))?;
                // the part that did not fit
                let fit = 183usize.saturating_sub(ptr).min(n);
                p.mux(&raw(0, (cc + 1) & 15 | 0x10, 0, &s[fit..]));
                safe(&p).map_err(|e| format!("section {:02x?} at {} after state {}, next packet: {}", s, ptr, k, e))?;
                c.call(2);
                c.bulk(1);
            }
            Ok(())
        });
        // the large alphabet: distinct packets only, counter relative to the state
        let mut seen = HashSet::new();
        let mut alphabet: Vec<([u8; 188], u8)> = Vec::new();
        {
            let pointers: &[u8] = if thorough { &[0, 1, 2, 3, 50, 174, 180, 181, 182, 183, 255] } else { &[0, 1, 2, 174, 181, 182, 183] };
            let lengths: &[u16] = if thorough { &[0, 1, 4, 5, 6, 9, 97, 180, 181, 400, 4093, 4095] } else { &[0, 5, 180, 181, 4095] };
            let good = any_section(100, 3);
            let full = any_section(183, 4);
            let mut add = |p: [u8; 188], d: u8| {
                if seen.insert((p.to_vec(), d)) {
                    alphabet.push((p, d));
                }
            };
            for pusi in [0u8, 0x40] {
                for ctl in [0x00u8, 0x10, 0x20, 0x30] {
                    for af in [0u8, 1, 170, 179, 180, 181, 182, 183, 184, 255] {
                        if ctl & 0x20 == 0 && af != 0 {
                            continue;
                        }
                        for &ptr in pointers {
                            if pusi == 0 && ptr > 1 {
                                continue;
                            }
                            for &len in lengths {
                                for top in [0x00u16, 0xB000] {
                                    let mut body = if pusi != 0 { vec![ptr] } else { vec![] };
                                    body.resize(body.len() + if pusi != 0 { ptr as usize } else { 0 }, 0x91);
                                    let x = top | len;
                                    body.extend_from_slice(&[0x42, (x >> 8) as u8, x as u8, ptr]);
                                    if af < 2 || ptr < 3 || len > 4000 {
                                        add(raw(pusi, ctl, af, &body), 1);
                                    }
                                }
                            }
                            for s in [&good, &full] {
                                let mut body = if pusi != 0 { vec![ptr] } else { vec![] };
                                body.resize(body.len() + if pusi != 0 { ptr as usize } else { 0 }, 0x91);
                                body.extend_from_slice(s);
                                add(raw(pusi, ctl, af, &body), 1);
                            }
                        }
                        let z = [0u8; 184];
                        add(raw(pusi, ctl, af, &z), 1);
                        add(raw(pusi, ctl, af, &z), 0);
                        add(raw(pusi, ctl, af, &z), 5);
                    }
                }
            }
            // error, priority and scrambling bits, bad sync
            for b1 in [0x80u8, 0xC0, 0xE0, 0x20] {
                for b3 in [0x10u8, 0x50, 0x90, 0xD0] {
                    add(raw(b1, b3, 0, &[0, 0x42, 0xB0, 0x09]), 1);
                }
            }
        }
        let alphabet = &alphabet;
        let step = |p: &Psi, a: usize| -> Result<Psi, String> {
            let (mut t, d) = alphabet[a];
            t[3] |= (p.cc + d) & 15;
            let mut q = p.clone();
            q.mux(&t);
            safe(&q).map_err(|e| format!("{} (packet {:02x?})", e, &t[..16]))?;
            Ok(q)
        };
        r.bfs("large alphabet", vec![Psi::default()], alphabet.len(), 3, key, step);
        // the small alphabet to a fixpoint, counters reduced to relative ones
        // (all filler is 0xFF, so a state is a header and a length)
        let small: Vec<([u8; 188], u8)> = vec![
            (raw(0x40, 0x10, 0, &[0, 0x42, 0xBF, 0xFF]), 1),
            (raw(0x40, 0x10, 0, &[0, 0x42, 0x0F, 0xFF]), 1),
            (raw(0x40, 0x10, 0, &[0, 0x42, 0xB0, 0xC8]), 1),
            (raw(0x40, 0x10, 0, &[0, 0x42, 0x00, 0x00]), 1),
            (raw(0x40, 0x30, 181, &[0, 0x42]), 1),
            (raw(0x40, 0x30, 180, &[0, 0x42, 0xBF]), 1),
            (raw(0x40, 0x10, 0, &[1, 0xFF, 0x42, 0xBF, 0xFD]), 1),
            (raw(0x40, 0x10, 0, &[100]), 1),
            (raw(0x40, 0x10, 0, &[182]), 1),
            (raw(0x40, 0x10, 0, &[183]), 1),
            (raw(0x40, 0x10, 0, &[0xFF]), 1),
            (raw(0x00, 0x10, 0, &[]), 1),
            (raw(0x00, 0x10, 0, &[]), 0),
            (raw(0x00, 0x30, 182, &[]), 1),
            (raw(0x00, 0x30, 181, &[]), 1),
            (raw(0x00, 0x30, 90, &[]), 1),
            (raw(0x00, 0x30, 183, &[]), 1),
            (raw(0x00, 0x20, 183, &[]), 1),
            (raw(0x00, 0x00, 0, &[]), 1),
        ];
        let small = &small;
        let fix = r.bfs(
            "small alphabet to a fixpoint",
            vec![Psi::default()],
            small.len(),
            5000,
            |p| hash(&(&p.buffer, p.size)),
            |p, a| {
                let (mut t, d) = small[a];
                t[3] |= (p.cc + d) & 15;
                let mut q = p.clone();
                q.mux(&t);
                safe(&q)?;
                Ok(q)
            },
        );
        if !fix {
            r.assume("the small alphabet did not reach a fixpoint within the bound");
        }
        // absolute counters: every sequence without merging
        let depth = r.by(4, 5);
        r.explore("every counter value, unmerged sequences", |c| {
            let mut p = Psi::default();
            for i in 0..depth {
                let k = c.of(&[0usize, 2, 6, 7, 11, 14]);
                let mut t = small[k].0;
                t[3] |= if i < 2 { c.pick(16) as u8 } else { (p.cc + c.of(&[1u8, 0])) & 15 };
                p.mux(&t);
                c.call(1);
                safe(&p)?;
            }
            c.state(&(&p.buffer, p.size, p.cc));
            Ok(())
        });
        // long runs: memory stays bounded
        r.explore("long runs of one packet pair", |c| {
            let a = c.pick(small.len());
            let b = c.pick(small.len());
            let mut p = Psi::default();
            p.cc = 15;
            for i in 0..400u32 {
                let (mut t, d) = if i % 7 == 0 { small[a] } else { small[b] };
                t[3] |= (p.cc + d) & 15;
                p.mux(&t);
                safe(&p)?;
            }
            c.call(400);
            c.state(&(a, b));
            Ok(())
        });
    })
}
