//! C27: the packet reader under every read behaviour.
use mc::engine::{run, Ctx};
use mc::spec::io::{packets, Source};
use mpegts::reader::{TsRead, TsReader};
use std::io::ErrorKind;

/// Packet `i` of a stream; `kind` chooses the payload.
fn pkt(i: usize, kind: usize) -> Vec<u8> {
    let mut p = vec![0x47u8, i as u8, 0x11, 0x10];
    for k in 4..188 {
        p.push(match kind {
            0 => (k as u8).wrapping_mul(37).wrapping_add(i as u8),
            1 => 0x47,
            _ => if (k + i) % 3 == 0 { 0x47 } else { k as u8 },
        });
    }
    p
}

fn junk(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| match (i * 7 + salt) as u8 { 0x47 => 0x46, b => b }).collect()
}

fn read_all(c: &mut Ctx, s: Source, buflen: usize) -> Result<(), String> {
    let want = packets(&s.data);
    let data = s.data.clone();
    let mut r = TsReader::new(s);
    for (i, &at) in want.iter().enumerate() {
        let mut buf = vec![0xA5u8; buflen];
        let n = r.read(&mut buf).map_err(|e| format!("packet {}: error {:?}", i, e))?;
        if n != 188 {
            return Err(format!("packet {} of {}: read returned {}", i, want.len(), n));
        }
        if buf[..188] != data[at..at + 188] {
            let d = (0..188).find(|&k| buf[k] != data[at + k]).unwrap();
            return Err(format!("packet {} differs at byte {}", i, d));
        }
        if buf[188..].iter().any(|&b| b != 0xA5) {
            return Err(format!("packet {}: bytes after the packet touched", i));
        }
    }
    for k in 0..2 {
        let mut buf = vec![0xA5u8; buflen];
        match r.read(&mut buf) {
            Ok(0) => {}
            x => return Err(format!("read {} after the last of {} packets: {:?}", k, want.len(), x)),
        }
        if buf[188..].iter().any(|&b| b != 0xA5) {
            return Err("bytes after the packet touched at the end".to_string());
        }
    }
    c.call(want.len() as u64 + 2);
    Ok(())
}

fn stream(n: usize, kind: usize, lead: usize, gap: usize, tail: usize) -> Vec<u8> {
    let mut v = junk(lead, 1);
    for i in 0..n {
        v.extend(pkt(i, kind));
        if i + 1 < n {
            v.extend(junk(gap, i));
        }
    }
    if tail > 0 {
        v.extend_from_slice(&pkt(99, kind)[..tail]);
    }
    v
}

fn main() {
    run("C27", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("every chunk size", |c| {
            let kind = c.pick(3);
            let gap = c.of(&[0usize, 1, 5, 187, 188, 200]);
            let chunk = c.range(1, 600);
            let s = Source { data: stream(4, kind, gap / 2, gap, 100), chunk, ..Source::default() };
            c.state(&(kind, gap, chunk));
            c.sample(|| format!("4 packets, {} bytes between them, reads of {} bytes", gap, chunk));
            read_all(c, s, 188)
        });
        r.explore("every garbage length and tail", |c| {
            let n = c.pick(4);
            let lead = c.pick(if thorough { 800 } else { 400 });
            let tail = c.of(&[0usize, 1, 2, 3, 4, 5, 93, 94, 186, 187]);
            for gap in [0, 1, 2, 47, 186, 187, 188, 189, 375, 376, 377] {
                for buflen in [188, 189, 376, 1000] {
                    let s = Source { data: stream(n, gap % 3, lead, gap, tail), ..Source::default() };
                    read_all(c, s, buflen)?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("a lot of garbage", |c| {
            // around every power of two, up to a megabyte
            let k = c.range(8, if thorough { 22 } else { 20 });
            let d = c.of(&[-188i64, -2, -1, 0, 1, 2, 188]);
            let lead = ((1i64 << k) + d) as usize;
            let chunk = c.of(&[0usize, 1000]);
            c.state(&(k, d, chunk));
            let before = stream(1, 0, 0, 0, 0);
            let mut data = if k % 2 == 0 { before } else { Vec::new() };
            data.extend(stream(2, 2, lead, 0, 5));
            read_all(c, Source { data, chunk, ..Source::default() }, 188)
        });
        r.explore("every tail length", |c| {
            let n = c.pick(3);
            let tail = c.pick(188);
            let kind = c.pick(3);
            let brk = c.pick(tail + 1);
            let data = stream(n, kind, 0, 0, tail);
            let s = Source { breaks: vec![n * 188 + brk], data, ..Source::default() };
            c.state(&(n, tail, kind, brk));
            read_all(c, s, 188)
        });
        r.explore("every value of the byte before a packet and of the sync position", |c| {
            let b = c.pick(256) as u8;
            let n = c.of(&[0usize, 1, 2, 187, 188, 189]);
            let at = c.pick(3);
            // the byte decides, by the reference, where packets start
            let mut data = Vec::new();
            for i in 0..3 {
                if i == at {
                    data.extend(vec![b; n]);
                }
                data.extend(pkt(i, 0));
            }
            data.extend(pkt(3, 0));
            c.state(&(b, n, at));
            read_all(c, Source { data, ..Source::default() }, 188)
        });
        let depth = r.by(2, 3);
        r.explore("every placement of short reads", |c| {
            let (kind, lead, gap, tail) = c.of(&[(0usize, 0usize, 0usize, 0usize), (1, 3, 2, 20)]);
            let data = stream(2, kind, lead, gap, tail);
            let mut breaks = Vec::new();
            let mut from = 1;
            for _ in 0..depth {
                // 0 = no further break
                let k = c.pick(data.len() + 1 - from);
                if k == 0 {
                    break;
                }
                from += k - 1;
                breaks.push(from);
                from += 1;
                if from > data.len() {
                    break;
                }
            }
            c.state(&(kind, &breaks));
            read_all(c, Source { data, breaks, ..Source::default() }, 188)
        });
        r.explore("every set of short reads around the packet boundaries", |c| {
            let at = c.of(&[0usize, 188, 376]);
            let gap = c.of(&[0usize, 3]);
            let data = stream(3, 2, 4, gap, 50);
            let mid = 4 + at + gap * (at / 188);
            let mut breaks = Vec::new();
            for k in 0..if thorough { 16 } else { 12 } {
                if c.pick(2) == 1 {
                    breaks.push((mid + k).saturating_sub(5));
                }
            }
            c.state(&(at, gap, &breaks));
            read_all(c, Source { data, breaks, ..Source::default() }, 188)
        });
        r.explore("interruptions: every position and pair of positions", |c| {
            let (lead, gap, tail) = c.of(&[(0usize, 0usize, 0usize), (2, 3, 10)]);
            let data = stream(2, 0, lead, gap, tail);
            let a = c.pick(data.len() + 1);
            let times = c.of(&[1u32, 2, 40]);
            let mut interrupts = vec![(a, times)];
            let b = c.pick(data.len() + 2);
            if b > 0 {
                interrupts.push((b - 1, 1));
            }
            c.state(&(lead, &interrupts));
            read_all(c, Source { data, interrupts, ..Source::default() }, 188)
        });
        r.explore("interruptions before every read of every chunk size", |c| {
            let chunk = c.range(1, 400);
            let data = stream(3, 0, 5, 2, 17);
            let interrupts = (0..=data.len()).map(|p| (p, 1)).collect();
            c.state(&chunk);
            read_all(c, Source { data, chunk, interrupts, ..Source::default() }, 200)
        });
        let kinds = [
            ErrorKind::WouldBlock,
            ErrorKind::TimedOut,
            ErrorKind::UnexpectedEof,
            ErrorKind::ConnectionReset,
            ErrorKind::BrokenPipe,
            ErrorKind::InvalidData,
            ErrorKind::Other,
        ];
        r.explore("errors: every position, kind and a second error", |c| {
            let (lead, gap, tail) = c.of(&[(0usize, 0usize, 0usize), (2, 3, 10)]);
            let data = stream(3, 0, lead, gap, tail);
            let at = c.pick(data.len() + 1);
            let kind = c.of(&kinds);
            let second = c.of(&[0usize, 1, 100, 188]);
            let mut errors = vec![(at, kind)];
            if second > 0 && at + second <= data.len() {
                errors.push((at + second, ErrorKind::TimedOut));
            }
            let chunk = c.of(&[0usize, 1, 7]);
            c.state(&(lead, at, format!("{:?}", kind), second, chunk));
            let want = packets(&data);
            let before = want.iter().filter(|&&p| p + 188 <= at).count();
            let total = errors.len();
            let mut r = TsReader::new(Source { data: data.clone(), errors, chunk, ..Source::default() });
            let mut seen = 0;
            let mut got = 0;
            for call in 0..12 {
                let mut buf = [0xA5u8; 200];
                c.call(1);
                match r.read(&mut buf) {
                    Err(e) => {
                        if seen == 0 && (e.kind() != kind || got != before) {
                            return Err(format!("call {}: {:?} after {} packets, expected {:?} after {}", call, e.kind(), got, kind, before));
                        }
                        seen += 1;
                    }
                    Ok(0) => break,
                    Ok(188) => {
                        if seen == 0 && (got >= before || buf[..188] != data[want[got]..want[got] + 188]) {
                            return Err(format!("call {}: packet {} before the error at {}", call, got, at));
                        }
                        if buf[0] != 0x47 || buf[188..].iter().any(|&b| b != 0xA5) {
                            return Err(format!("call {}: bad packet after an error", call));
                        }
                        got += 1;
                    }
                    Ok(n) => return Err(format!("call {}: read returned {}", call, n)),
                }
            }
            if seen != total {
                return Err(format!("{} of {} errors passed through", seen, total));
            }
            Ok(())
        });
        r.explore("the source is reachable and given back", |c| {
            let reads = c.pick(4);
            let way = c.pick(3);
            let data = stream(2, 0, 3, 0, 50);
            let mut r = TsReader::new(Source { data: data.clone(), ..Source::default() });
            for _ in 0..reads {
                r.read(&mut [0u8; 188]).map_err(|e| format!("error {:?}", e))?;
            }
            let same = match way {
                0 => r.get_ref().data == data,
                1 => r.get_mut().data == data,
                _ => r.into_inner().data == data,
            };
            c.call(reads as u64 + 1);
            c.state(&(reads, way));
            if !same {
                return Err("another source is returned".to_string());
            }
            Ok(())
        });
        r.explore("long streams", |c| {
            let n = c.of(&[50usize, 300]);
            let chunk = c.of(&[0usize, 1, 13, 187, 188, 189, 1316, 4096]);
            let every = c.of(&[0usize, 1, 7]);
            let mut data = Vec::new();
            for i in 0..n {
                data.extend(pkt(i, i % 3));
                if every > 0 && i % every == 0 {
                    data.extend(junk(1 + i % 190, i));
                }
            }
            let breaks = (0..data.len() / 191).map(|i| i * 191).collect();
            c.state(&(n, chunk, every));
            read_all(c, Source { data, chunk, breaks, ..Source::default() }, 188)
        });
        r.explore("every header", |c| {
            // bytes 1 and 2, or 3 and 4, over all values; neighbours of either kind
            let low = c.pick(2);
            let x = c.pick(256) as u8;
            let other = c.of(&[0x10u8, 0x30, 0x00, 0xD7, 0x47, 0xFF]);
            for y in 0..=255u8 {
                let mut p = pkt(5, 0);
                p[4] = other;
                p[1 + 2 * low] = x;
                p[2 + 2 * low] = y;
                p[3 - 2 * low] = other;
                let mut data = pkt(1, 0);
                data.extend_from_slice(&p);
                data.extend_from_slice(&p);
                data.extend(pkt(2, 0));
                read_all(c, Source { data, chunk: 188 + (y as usize) % 3, ..Source::default() }, 188)?;
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("packets of one byte, every PID", |c| {
            let b = c.pick(256) as u8;
            let at = c.pick(3);
            for pid in (b as u16 * 32)..(b as u16 * 32 + 32) {
                let mut l: Vec<Vec<u8>> = (0..3).map(|i| pkt(i, 0)).collect();
                l[at] = vec![b; 188];
                l[at][0] = 0x47;
                let k = (at + 1) % 3;
                l[k] = vec![0xFF; 188];
                l[k][..4].copy_from_slice(&[0x47, (pid >> 8) as u8, pid as u8, 0x10]);
                read_all(c, Source { data: l.concat(), chunk: 4096, ..Source::default() }, 188)?;
            }
            c.bulk(32);
            Ok(())
        });
    })
}
