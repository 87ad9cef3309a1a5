//! C01: reassembly of intact packet runs.
use mc::engine::{hex, run, Ctx};
use mc::spec::{any_section, section};
use mc::spec::ts::{no_payload, pack, packet, room, Packet};
use mpegts::psi::Psi;

fn held(p: &Psi) -> Option<&[u8]> {
    if p.check() {
        Some(&p.buffer[..p.size])
    } else {
        None
    }
}

/// Feeds packets of packed sections; on each packet exactly the first section
/// ending there is reported.
fn feed(c: &mut Ctx, p: &mut Psi, pk: &[Packet], span: &[(usize, usize)], sections: &[Vec<u8>]) -> Result<(), String> {
    for (i, t) in pk.iter().enumerate() {
        p.mux(t);
        c.call(2);
        let want = span.iter().position(|s| s.1 == i);
        match (held(p), want) {
            (None, None) => {}
            (Some(s), Some(k)) if s == &sections[k][..] => {}
            (Some(s), w) => {
                let w = w.map(|k| hex(&sections[k]));
                return Err(format!("packet {}: reported {} bytes {}, expected {:?}", i, s.len(), hex(s), w));
            }
            (None, Some(k)) => {
                return Err(format!("packet {}: section {} of {} bytes (packets {:?}) not reported", i, k, sections[k].len(), span[k]));
            }
        }
    }
    Ok(())
}

fn start(cc: u8) -> Psi {
    let mut p = Psi::default();
    p.cc = cc;
    p
}

fn main() {
    run("C01", |r| {
        let thorough = r.thorough();
        r.explore("every length and pointer", |c| {
            let n = c.range(8, 4096);
            let s = any_section(n, n as u8);
            for ptr in 0..183usize {
                // pointer filler as if an earlier section ended there
                let mut pay = vec![ptr as u8];
                pay.extend((0..ptr).map(|i| 0x80 | (i as u8)));
                let k = n.min(183 - ptr);
                pay.extend_from_slice(&s[..k]);
                pay.resize(184, 0xFF);
                let cc = (ptr as u8).wrapping_mul(3).wrapping_add(n as u8) & 15;
                let mut p = start((n % 16) as u8);
                p.mux(&packet(100, cc, true, None, &pay));
                c.call(1);
                let mut at = k;
                let mut i = 1;
                while at < n {
                    if p.check() {
                        return Err(format!("{} bytes, pointer {}: reported after {} bytes", n, ptr, at));
                    }
                    let k = (n - at).min(184);
                    let mut pay = s[at..at + k].to_vec();
                    pay.resize(184, 0xFF);
                    p.mux(&packet(100, cc.wrapping_add(i) & 15, false, None, &pay));
                    c.call(1);
                    at += k;
                    i = i.wrapping_add(1);
                }
                if held(&p) != Some(&s[..]) {
                    return Err(format!("{} bytes, pointer {}: not reported", n, ptr));
                }
                // something follows: not reported again
                p.mux(&packet(100, cc.wrapping_add(i) & 15, ptr % 2 == 0, None, &[if ptr % 2 == 0 { 0 } else { 0xFF }; 184]));
                c.call(1);
                if p.check() {
                    return Err(format!("{} bytes, pointer {}: reported twice", n, ptr));
                }
            }
            c.bulk(183);
            c.sample(|| format!("{} bytes with every pointer 0..182", n));
            Ok(())
        });
        let afs: &[Option<usize>] = &[None, Some(0), Some(1), Some(2), Some(7), Some(90), Some(91), Some(150), Some(179), Some(180), Some(181), Some(182)];
        r.explore("every length and adaptation size", |c| {
            let n = c.range(8, 4096);
            let a = c.pick(afs.len());
            let b = c.of(&[0usize, 1, 6]);
            let s = [any_section(n, 3), any_section(20, 4)];
            let cc = (n / 3 % 16) as u8;
            let (pk, span) = pack(8191, cc, &s, &[true, true], |i| if i % 2 == 0 { afs[a] } else { afs[(a + b) % afs.len()] });
            let mut p = start(5);
            c.state(&(n, a, b));
            feed(c, &mut p, &pk, &span, &s)
        });
        r.explore("every adaptation size in every packet of a short run", |c| {
            let n = c.of(&[8usize, 9, 20, 184, 200]);
            let s = [any_section(n, 9)];
            let a = c.pick(183);
            let b = c.pick(184);
            let (pk, span) = pack(1, 7, &s, &[true], |i| match i {
                0 => if a == 182 { None } else { Some(a) },
                1 => if b == 183 { None } else { Some(b) },
                _ => None,
            });
            c.state(&(n, a, b, 0));
            feed(c, &mut start(0), &pk, &span, &s)
        });
        // lengths that put the boundary of the second section everywhere
        let lens: Vec<usize> = {
            let mut v = vec![8, 9, 10, 12, 21, 60];
            v.extend(173..=192);
            v.extend([358, 364, 365, 366, 367, 368, 369, 370, 375, 550, 551, 552, 1021, 1024, 4093, 4096]);
            v
        };
        let lens = &lens;
        r.explore("packed: two sections", |c| {
            let a = c.range(8, 760);
            let b = c.of(lens);
            let st = c.pick(2) == 1;
            let s = [any_section(a, 1), any_section(b, 2), any_section(30, 3)];
            let cc = (a % 16) as u8;
            let (pk, span) = pack(5, cc, &s, &[st, false, true], |_| None);
            c.state(&(a, b, st));
            feed(c, &mut start(0), &pk, &span, &s)
        });
        r.explore("packed: three and four sections", |c| {
            let short = [8usize, 12, 60, 100, 173, 174, 175, 176, 180, 181, 182, 183, 184, 185, 186, 200, 366, 367, 368, 369, 550, 4096];
            let v: Vec<usize> = (0..if thorough { 4 } else { 3 }).map(|_| c.of(&short)).collect();
            let st = c.pick(8);
            let s: Vec<Vec<u8>> = v.iter().enumerate().map(|(i, &n)| any_section(n, i as u8 + 1)).collect();
            let stuff: Vec<bool> = (0..4).map(|i| st >> i & 1 == 1).collect();
            let (pk, span) = pack(5, 14, &s, &stuff, |_| None);
            c.state(&(&v, st));
            c.sample(|| format!("sections of {:?} bytes in {} packets", v, pk.len()));
            feed(c, &mut start(0), &pk, &span, &s)
        });
        r.explore("packed: with adaptation fields", |c| {
            let v = [c.of(&[8usize, 9, 100, 183, 184, 185, 400]), c.of(&[8usize, 50, 183, 184, 185, 367]), c.of(&[8usize, 90, 200])];
            let a: Vec<Option<usize>> = (0..3).map(|_| c.of(&[None, Some(0usize), Some(1), Some(100), Some(174), Some(175), Some(180), Some(181)])).collect();
            let st = c.pick(4);
            let s: Vec<Vec<u8>> = v.iter().enumerate().map(|(i, &n)| any_section(n, i as u8 + 1)).collect();
            let (pk, span) = pack(5, 9, &s, &[st & 1 == 1, st & 2 == 2, true], |i| a[i % 3]);
            c.state(&(v, &a, st));
            feed(c, &mut start(3), &pk, &span, &s)
        });
        r.explore("packed: many small sections in a packet, every phase", |c| {
            let n = c.range(8, 200);
            let count = c.range(1, 30);
            let s: Vec<Vec<u8>> = (0..count).map(|i| any_section(n, i as u8)).collect();
            let (pk, span) = pack(5, (n % 16) as u8, &s, &vec![false; count], |_| None);
            c.state(&(n, count));
            feed(c, &mut start(0), &pk, &span, &s)
        });
        r.explore("long runs: every counter phase", |c| {
            let cc = c.pick(16) as u8;
            let own = c.pick(16) as u8;
            let n = c.of(&[8usize, 183, 184, 1024, 3000, 4096]);
            let s: Vec<Vec<u8>> = (0..40).map(|i| any_section(n, i)).collect();
            let (pk, span) = pack(5, cc, &s, &vec![true; 40], |_| None);
            c.state(&(cc, own, n));
            feed(c, &mut start(own), &pk, &span, &s)
        });
        r.explore("packets at the beginning of longer slices, any priority and PID", |c| {
            let n = c.of(lens);
            let m = c.of(&[8usize, 20, 183, 184, 185, 900]);
            let packed = c.pick(2) == 1;
            let af = c.of(&[None, Some(0), Some(50)]);
            let way = c.pick(4);
            let pid = c.of(&[0u16, 1, 0x10, 0x47, 0x1000, 0x1FFE, 0x1FFF]);
            let s = [any_section(n, 1), any_section(m, 2), any_section(n, 3)];
            let (mut pk, span) = pack(pid, 9, &s, &[!packed, !packed, true], |i| if i % 3 == 1 { af } else { None });
            if way >= 2 {
                pk.iter_mut().for_each(|p| p[1] |= 0x20);
            }
            // packets one after the other, or 16 more bytes to each
            let size = 188 + way % 2 * 16;
            let all: Vec<u8> = pk.iter().flat_map(|p| p.iter().copied().chain((0..size - 188).map(|i| 0x47 ^ i as u8))).collect();
            c.state(&(n, m, packed, af, way, pid));
            let mut p = start(3);
            for i in 0..pk.len() {
                p.mux(&all[i * size..]);
                c.call(2);
                let want = span.iter().position(|s| s.1 == i).map(|k| &s[k][..]);
                if held(&p) != want {
                    return Err(format!("packet {} of {} given in a slice of {} bytes: reported {:?}, expected {:?}", i, pk.len(), all.len() - i * size, held(&p).map(hex), want.map(hex)));
                }
            }
            Ok(())
        });
        // what may have been fed before
        // (continuations start with a byte that, taken as the second byte of a
        // section, announces a checksum: a section without one would count)
        let upper = |n: usize| (64..=255u8).map(|k| any_section(n, k)).find(|s| s[183] >= 0x80).unwrap();
        let big = upper(4096);
        let mid = upper(300);
        let one = any_section(100, 72);
        let fill = |pre: &[u8], more: &[u8], n: usize| -> Vec<u8> {
            let mut v = pre.to_vec();
            v.extend_from_slice(&more[..more.len().min(n - v.len())]);
            v.resize(n, 0xFF);
            v
        };
        let tail = |k: usize| -> Vec<u8> {
            // the packet ends with `k` bytes of a section
            let mut v = vec![(183 - k) as u8];
            v.resize(184 - k, 0x99);
            v.extend_from_slice(&big[..k]);
            v
        };
        let mut hist: Vec<(bool, Option<usize>, Vec<u8>, bool)> = vec![
            (true, None, fill(&[0], &big, 184), true),
            (true, None, fill(&[0], &mid, 184), true),
            (true, None, fill(&[0], &one, 184), true),
            (true, None, tail(1), true),
            (true, None, tail(2), true),
            (true, None, tail(3), true),
            (true, None, tail(120), true),
            (false, None, big[183..367].to_vec(), true),
            (false, None, fill(&mid[183..], &[], 184), true),
            (false, None, vec![0x80; 184], true),
            (true, None, vec![0xFF; 184], true),
            (true, None, fill(&[0], &[0xFF; 200], 184), true),
            (true, None, fill(&[0, 0x42, 0xBF, 0xFF], &[0xFF; 200], 184), true),
            (true, None, fill(&[0, 0x42, 0xB0, 0x00], &[0xFF; 200], 184), true),
            (true, None, fill(&[0, 0x42, 0xB0, 0x05], &[0x91; 200], 184), true),
            (true, Some(181), vec![0, 0x42], true),
            (true, Some(182), vec![0], true),
            (false, Some(182), vec![0xBF], true),
            (true, None, fill(&[183], &big, 184), true),
            // without a checksum, too long to be completed
            (true, None, fill(&[0, 0x70, 0x7F, 0xFF], &[0xFF; 200], 184), true),
            (true, Some(181), vec![0, 0x70], true),
            (true, Some(180), vec![0, 0x70, 0x7F], true),
        ];
        hist.push((false, None, Vec::new(), false)); // no payload
        let hist = &hist;
        let kinds = hist.len() + 2;
        let hp = |k: usize, cc: u8| -> Packet {
            if k < hist.len() {
                let (pusi, af, pay, payload) = &hist[k];
                if !payload {
                    return no_payload(5, cc);
                }
                return packet(5, cc, *pusi, *af, pay);
            }
            // adaptation field longer than the packet, payload announced
            let mut p = packet(5, cc, k % 2 == 0, Some(0), &[0x42; 183]);
            p[4] = if k % 2 == 0 { 183 } else { 255 };
            p
        };
        let depth = r.by(3, 4);
        r.explore("every history of malformed and partial packets, then an intact run", |c| {
            let mut p = Psi::default();
            let mut cc = c.of(&[0u8, 13]);
            let mut path = Vec::new();
            for _ in 0..depth {
                let k = c.pick(kinds + 1);
                if k == kinds {
                    break;
                }
                p.mux(&hp(k, cc));
                path.push(k);
                if k != hist.len() - 1 {
                    cc = (cc + c.of(&[1u8, 3])) & 15;
                }
            }
            c.state(&(&path, p.size, p.buffer.len(), cc));
            for n in [8usize, 100, 183, 184, 400, 4096] {
                for ptr in [0usize, 1, 2, 5, 60, 174, 181, 182] {
                    for d in [0u8, 6] {
                        if n == 4096 && (d != 0 || ptr > 2 && ptr != 60) {
                            continue;
                        }
                        let s = any_section(n, 5);
                        let mut q = p.clone();
                        let mut pay = vec![ptr as u8];
                        pay.resize(1 + ptr, 0x95);
                        let k = n.min(room(None) - 1 - ptr);
                        pay.extend_from_slice(&s[..k]);
                        pay.resize(184, 0xFF);
                        let mut x = (cc + d) & 15;
                        q.mux(&packet(5, x, true, None, &pay));
                        let mut at = k;
                        while at < n {
                            if q.check() && &q.buffer[..q.size] == &s[..] {
                                return Err("reported too early".to_string());
                            }
                            x = (x + 1) & 15;
                            let k = (n - at).min(184);
                            let mut pay = s[at..at + k].to_vec();
                            pay.resize(184, 0xFF);
                            q.mux(&packet(5, x, false, None, &pay));
                            at += k;
                        }
                        c.call(2 + n as u64 / 184);
                        if held(&q) != Some(&s[..]) {
                            return Err(format!("after history {:?}: section of {} bytes with pointer {} (counter gap {}) not reported", path, n, ptr, d));
                        }
                    }
                }
            }
            Ok(())
        });
        r.explore("any bytes around the packet boundaries", |c| {
            // where the pair stands: first body bytes, around the end of the first
            // and second packet, in front of the checksum
            let n = c.of(&[400usize, 800]);
            let at = c.of(&[3usize, 181, 182, 183, 365, 366, 367, 368, 393]);
            let x = c.pick(256) as u8;
            let base = any_section(n, 5);
            let next = any_section(30, 6);
            for y in 0..=255u8 {
                for z in [0u8, 1, 0x47, 0xFF] {
                    let mut rest = base[3..n - 4].to_vec();
                    rest[at - 3] = x;
                    rest[at - 2] = y;
                    if let Some(b) = rest.get_mut(at - 1) {
                        *b = z;
                    }
                    let l = vec![section(0x42, 0xB, &rest), next.clone()];
                    let (pk, span) = pack(100, 7, &l, &[false, true], |_| None);
                    let mut p = start(6);
                    feed(c, &mut p, &pk, &span, &l).map_err(|e| format!("{:02x} {:02x} {:02x} at byte {}: {}", x, y, z, at, e))?;
                }
            }
            c.bulk(1024);
            Ok(())
        });
        r.explore("runs of one byte over whole packets", |c| {
            let b = c.pick(256) as u8;
            let n = c.of(&[8usize, 20, 183, 184, 185, 367, 368, 1024, 4096]);
            let id = c.of(&[0u8, 2, 0x42, 0x47, 0x70, 0xFE]);
            let ptr = c.of(&[0usize, 1, 180]);
            let l = vec![any_section(ptr + 190, 1), section(id, 0xB, &vec![b; n - 7]), section(id, 0x8, &vec![!b; n - 7])];
            let (pk, span) = pack(100, 7, &l, &[b % 2 == 0, true, true], |_| None);
            let mut p = start(6);
            feed(c, &mut p, &pk, &span, &l).map_err(|e| format!("{} bytes of {:02x}, table id {:02x}: {}", n, b, id, e))?;
            c.state(&(b, n, id, ptr));
            Ok(())
        });
        r.explore("every table id and flags", |c| {
            let id = c.pick(255) as u8;
            for flags in 8..16u8 {
                for n in [9usize, 183, 184, 300] {
                    let l = vec![section(id, flags, &any_section(n, id)[3..n - 4]), section(!id & 0x7F, flags, &any_section(n, 1)[3..n - 4])];
                    let (pk, span) = pack(100, 7, &l, &[true, true], |_| None);
                    let mut p = start(6);
                    feed(c, &mut p, &pk, &span, &l).map_err(|e| format!("table id {:02x} flags {:x}: {}", id, flags, e))?;
                    c.state(&(id, flags, n));
                }
            }
            Ok(())
        });
        r.explore("any content of the adaptation field", |c| {
            let flags = c.pick(256) as u8;
            let fill = c.of(&[0u8, 0xFF, 0x47, 0x55]);
            for n in [1usize, 2, 7, 8, 13, 30, 100, 170] {
                for which in 1..8usize {
                    let l = vec![any_section(250, n as u8), any_section(90, 3), any_section(300, 4)];
                    let af = |i: usize| if which >> (i % 3) & 1 == 1 { Some(n) } else { None };
                    let (mut pk, span) = pack(100, 7, &l, &[false, n % 2 == 0, true], af);
                    for t in &mut pk {
                        if t[3] & 0x20 != 0 && t[4] as usize == n {
                            t[5] = flags;
                            t[6..5 + n].iter_mut().for_each(|b| *b = fill);
                        }
                    }
                    let mut p = start(6);
                    feed(c, &mut p, &pk, &span, &l).map_err(|e| format!("adaptation fields of {} bytes with flags {:02x} filled with {:02x}: {}", n, flags, fill, e))?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("objects with any PID, packets of any PID", |c| {
            let hi = c.pick(256) as u16;
            let own = c.of(&[0u16, 1, 0x11, 0x1FFF, 0xFFFF]);
            let l = vec![any_section(250, 1), any_section(90, 3)];
            for pid in hi * 32..hi * 32 + 32 {
                for own in [own, pid, pid ^ 1] {
                    let (pk, span) = pack(pid, 7, &l, &[true, true], |_| None);
                    let mut p = start(6);
                    p.pid = own;
                    feed(c, &mut p, &pk, &span, &l).map_err(|e| format!("object with PID {}, packets of PID {}: {}", own, pid, e))?;
                    c.state(&(pid, own));
                }
            }
            Ok(())
        });
        r.explore("objects cloned while they collect", |c| {
            let n = c.range(8, 800);
            let m = c.of(&[8usize, 100, 300]);
            let cc = c.of(&[0u8, 7, 14, 15]);
            let stuff = c.pick(2) == 1;
            let l = vec![any_section(n, 1), any_section(m, 3)];
            let (pk, span) = pack(100, cc, &l, &[stuff, true], |_| None);
            let mut all = Vec::new();
            let mut p = start((cc + 15) & 15);
            for (i, t) in pk.iter().enumerate() {
                all.push((i, p.clone()));
                p.mux(t);
                c.call(2);
            }
            // each clone goes on by itself
            for (i, mut q) in all {
                let rest: Vec<(usize, usize)> = span.iter().map(|s| if s.1 >= i { (s.0.saturating_sub(i), s.1 - i) } else { (usize::MAX, usize::MAX) }).collect();
                let copy = q.clone();
                feed(c, &mut q, &pk[i..], &rest, &l).map_err(|e| format!("cloned before packet {}: {}", i, e))?;
                let mut q = copy;
                feed(c, &mut q, &pk[i..], &rest, &l).map_err(|e| format!("cloned before packet {}, clone of the clone: {}", i, e))?;
                c.bulk(2);
            }
            Ok(())
        });
    })
}
