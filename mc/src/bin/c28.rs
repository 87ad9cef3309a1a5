//! C28: the draining adapter.
use mc::engine::{run, Ctx};
use mc::spec::io::Source;
use mpegts::reader::{TsDrain, TsRead, TsReader};
use std::io::{Error, ErrorKind, Read};

#[derive(Debug)]
struct Stub {
    next: usize,
    total: usize,
    /// (packet index, how many failures before it is delivered)
    errors: Vec<(usize, u32)>,
}

fn packet(i: usize) -> [u8; 188] {
    let mut p = [0u8; 188];
    for (k, b) in p.iter_mut().enumerate() {
        *b = (k as u8).wrapping_add((i as u8).wrapping_mul(59)) ^ (i as u8);
    }
    p[0] = 0x47;
    p
}

impl TsRead for Stub {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.len() < 188 {
            panic!("source called with a buffer of {} bytes", buf.len());
        }
        for e in self.errors.iter_mut() {
            if e.0 == self.next && e.1 > 0 {
                e.1 -= 1;
                return Err(Error::new(ErrorKind::TimedOut, "stub"));
            }
        }
        if self.next == self.total {
            return Ok(0);
        }
        buf[..188].copy_from_slice(&packet(self.next));
        self.next += 1;
        Ok(188)
    }
}

/// Reads with the given sizes, then with `rest` until the end.
fn drain<R: Read>(c: &mut Ctx, mut d: R, total: usize, errors: u32, sizes: &[usize], rest: usize) -> Result<(), String> {
    let want: Vec<u8> = (0..total).flat_map(packet).collect();
    let mut got = 0;
    let mut seen = 0;
    let mut ended = false;
    let mut step = |n: usize, got: &mut usize, seen: &mut u32, ended: &mut bool| -> Result<(), String> {
        let mut buf = vec![0u8; n];
        c.call(1);
        match d.read(&mut buf) {
            Err(e) => {
                if e.kind() != ErrorKind::TimedOut {
                    return Err(format!("error {:?} instead of the source's", e));
                }
                *seen += 1;
                if *seen > errors {
                    return Err(format!("{} errors surfaced, {} occurred", seen, errors));
                }
            }
            Ok(k) => {
                if k > n {
                    return Err(format!("{} bytes into a buffer of {}", k, n));
                }
                if n > 0 && k == 0 {
                    if *got != want.len() {
                        return Err(format!("end reported after {} of {} bytes", got, want.len()));
                    }
                    *ended = true;
                }
                if *got + k > want.len() {
                    return Err(format!("{} bytes returned, {} in the stream", *got + k, want.len()));
                }
                if let Some(i) = (0..k).find(|&i| buf[i] != want[*got + i]) {
                    return Err(format!("byte {} of the stream differs (read of {})", *got + i, n));
                }
                *got += k;
            }
        }
        Ok(())
    };
    for &n in sizes {
        step(n, &mut got, &mut seen, &mut ended)?;
    }
    let mut guard = 0;
    while !ended {
        step(rest, &mut got, &mut seen, &mut ended)?;
        guard += 1;
        if guard > 1_000_000 {
            return Err("no end of stream".to_string());
        }
    }
    step(rest, &mut got, &mut seen, &mut ended)?;
    if seen != errors {
        return Err(format!("{} errors surfaced, {} occurred", seen, errors));
    }
    Ok(())
}

/// A source of given packets.
#[derive(Debug)]
struct Given<'a>(&'a [[u8; 188]], usize);

impl TsRead for Given<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match self.0.get(self.1) {
            Some(p) => {
                buf[..188].copy_from_slice(p);
                self.1 += 1;
                Ok(188)
            }
            None => Ok(0),
        }
    }
}

/// Every byte of the packets comes through, in reads of `size`.
fn exact(c: &mut Ctx, l: &[[u8; 188]], size: usize) -> Result<(), String> {
    let want = l.concat();
    let mut d = TsDrain::new(Given(l, 0));
    let mut got = Vec::new();
    let mut buf = vec![0u8; size];
    loop {
        let n = d.read(&mut buf).map_err(|e| e.to_string())?;
        c.call(1);
        got.extend_from_slice(&buf[..n]);
        if n == 0 || got.len() > want.len() {
            break;
        }
    }
    if got != want {
        let at = (0..want.len()).find(|&i| got.get(i) != Some(&want[i]));
        return Err(format!("headers {:02x?} in reads of {}: {} of {} bytes, first difference at {:?}", l.iter().map(|p| &p[..5]).collect::<Vec<_>>(), size, got.len(), want.len(), at));
    }
    Ok(())
}

fn main() {
    run("C28", |r| {
        r.deepen();
        let thorough = r.thorough();
        let sizes = [0usize, 1, 2, 93, 94, 95, 186, 187, 188, 189, 190, 200, 282, 375, 376, 377, 564, 1000];
        let depth = r.by(4, 5);
        r.explore("every sequence of buffer sizes", |c| {
            let mut v = Vec::new();
            for _ in 0..depth {
                v.push(c.of(&sizes));
            }
            let rest = c.of(&[1usize, 50, 188, 600]);
            c.state(&(&v, rest));
            c.sample(|| format!("reads of {:?}, then of {}", v, rest));
            drain(c, TsDrain::new(Stub { next: 0, total: 4, errors: vec![] }), 4, 0, &v, rest)
        });
        let deep = r.by(9, 12);
        r.explore("long sequences of buffer sizes", |c| {
            let mut v = Vec::new();
            for _ in 0..deep {
                v.push(c.of(&[1usize, 94, 187, 188]));
            }
            c.state(&v);
            drain(c, TsDrain::new(Stub { next: 0, total: 8, errors: vec![] }), 8, 0, &v, 70)
        });
        let top = if thorough { 800 } else { 400 };
        r.explore("two sizes in turn", |c| {
            let a = c.pick(top);
            let b = c.range(1, top);
            let v: Vec<usize> = (0..8).map(|i| if i % 2 == 0 { a } else { b }).collect();
            c.state(&(a, b));
            drain(c, TsDrain::new(Stub { next: 0, total: 3, errors: vec![] }), 3, 0, &v, b)
        });
        r.explore("every offset inside a packet, then every size", |c| {
            let a = c.pick(188);
            let b = c.range(1, 600);
            c.state(&(a, b, 1));
            drain(c, TsDrain::new(Stub { next: 0, total: 5, errors: vec![] }), 5, 0, &[a, b, 188], b)
        });
        r.explore("errors: every placement of up to three", |c| {
            let mut errors = Vec::new();
            let mut n = 0;
            for i in 0..=3 {
                let k = c.pick(3) as u32;
                n += k;
                if k > 0 {
                    errors.push((i, k));
                }
            }
            let mut v = Vec::new();
            for _ in 0..3 {
                v.push(c.of(&[0usize, 1, 93, 187, 188, 189, 376]));
            }
            let rest = c.of(&[1usize, 187, 188, 300]);
            c.state(&(&errors, &v, rest));
            drain(c, TsDrain::new(Stub { next: 0, total: 3, errors }), 3, n, &v, rest)
        });
        r.explore("large buffers and errors", |c| {
            let large = [1usize, 100, 187, 188, 563, 564, 1315, 1316, 1317, 1880, 4096, 12 * 188, 13 * 188, 65_536, 350 * 188];
            let total = c.of(&[1usize, 7, 12]);
            let mut errors = Vec::new();
            let at = c.pick(total + 2);
            let mut n = 0;
            if at <= total {
                n = c.range(1, 2) as u32;
                errors.push((at, n));
            }
            let v = [c.of(&large), c.of(&large)];
            let rest = c.of(&[1usize, 188, 1316, 40_000]);
            c.state(&(total, &errors, v, rest));
            drain(c, TsDrain::new(Stub { next: 0, total, errors }), total, n, &v, rest)
        });
        r.explore("a reader on top of the adapter on top of a reader", |c| {
            let total = c.pick(6);
            let lead = c.of(&[0usize, 1, 187]);
            let chunk = c.range(1, 400);
            let mut data = vec![0x11u8; lead];
            data.extend((0..total).flat_map(packet));
            let mut r = TsReader::new(TsDrain::new(TsReader::new(Source { data, chunk, ..Source::default() })));
            c.state(&(total, lead, chunk));
            for i in 0..=total {
                let mut b = [0xA5u8; 300];
                let n = mpegts::reader::TsRead::read(&mut r, &mut b).map_err(|e| e.to_string())?;
                c.call(1);
                if n != if i < total { 188 } else { 0 } || i < total && b[..188] != packet(i)[..] {
                    return Err(format!("read {} of {} packets in chunks of {}: {} bytes", i, total, chunk, n));
                }
            }
            Ok(())
        });
        let turns = r.by(6, 7);
        r.explore("two adapters in turn", |c| {
            let second = packet(100)[1] ^ packet(0)[1];
            let mut d: Vec<TsDrain<Stub>> = (0..2).map(|i| TsDrain::new(Stub { next: i * 100, total: i * 100 + 3, errors: vec![] })).collect();
            let want: Vec<Vec<u8>> = (0..2).map(|i| (i * 100..i * 100 + 3).flat_map(packet).collect()).collect();
            assert!(second != 0);
            let mut got = [0usize; 2];
            let mut steps = Vec::new();
            for _ in 0..turns {
                let k = c.pick(2);
                let n = c.of(&[1usize, 100, 187, 188, 400]);
                steps.push((k, n));
                let mut b = vec![0u8; n];
                let x = d[k].read(&mut b).map_err(|e| e.to_string())?;
                c.call(1);
                if x > n || got[k] + x > want[k].len() || b[..x] != want[k][got[k]..got[k] + x] || x == 0 && got[k] < want[k].len() {
                    return Err(format!("two adapters, (which, size) {:?}: {} bytes, after {} of its stream", steps, x, got[k]));
                }
                got[k] += x;
            }
            c.state(&steps);
            Ok(())
        });
        r.explore("every number of packets, every size", |c| {
            let total = c.pick(8);
            let n = c.range(1, 1000);
            c.state(&(total, n, 2));
            drain(c, TsDrain::new(Stub { next: 0, total, errors: vec![] }), total, 0, &[], n)
        });
        r.explore("on top of the packet reader", |c| {
            let total = c.of(&[0usize, 1, 2, 5, 40]);
            let n = c.range(1, 500);
            let tail = c.of(&[0usize, 1, 187]);
            let mut data: Vec<u8> = (0..total).flat_map(packet).collect();
            data.extend_from_slice(&packet(7)[..tail]);
            c.state(&(total, n, tail, 3));
            drain(c, TsDrain::new(TsReader::new(std::io::Cursor::new(data))), total, 0, &[], n)
        });
        r.explore("every header", |c| {
            let low = c.pick(2);
            let x = c.pick(256) as u8;
            let size = c.of(&[100usize, 188, 200, 600]);
            for y in 0..=255u8 {
                let mut l = [packet(1), packet(2), packet(2), packet(3)];
                for p in &mut l[1..3] {
                    p[3 - 2 * low] = 0x1F;
                    p[1 + 2 * low] = x;
                    p[2 + 2 * low] = y;
                }
                exact(c, &l, size)?;
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("packets of one byte, every PID", |c| {
            let b = c.pick(256) as u8;
            let size = c.of(&[100usize, 188, 200, 600]);
            for pid in (b as u16 * 32)..(b as u16 * 32 + 32) {
                let mut l = [packet(1), [b; 188], [0xFF; 188], packet(3)];
                l[1][0] = 0x47;
                l[2][..4].copy_from_slice(&[0x47, (pid >> 8) as u8, pid as u8, 0x10]);
                exact(c, &l, size)?;
            }
            c.bulk(32);
            Ok(())
        });
    })
}
