//! C14: which sections the table parsers take in.
use mc::engine::run;
use mc::spec::any::{empty, fresh, from, models, Model, PARSERS};
use mc::spec::desc::D;
use mc::spec::table::{Eit, Event, Nit, Pat, Pmt, Sdt, Service, Tot};
use mc::spec::{crc_fast, psi_of, section};
use mpegts::psi::Psi;

fn ids(k: usize) -> &'static [u8] {
    const EIT: [u8; 34] = {
        let mut a = [0u8; 34];
        let mut i = 0;
        while i < 34 {
            a[i] = 0x4E + i as u8;
            i += 1;
        }
        a
    };
    match k {
        0 => &[0x00],
        1 => &[0x02],
        2 => &[0x42, 0x46],
        3 => &[0x40, 0x41],
        4 => &EIT,
        5 => &[0x70],
        _ => &[0x73],
    }
}

/// Smallest section: header, fixed fields and checksum.
const MIN: [usize; PARSERS] = [12, 16, 15, 16, 18, 8, 14];

/// The bits of a section that say nothing about the content: (byte, bits).
fn reserved(k: usize, s: &[u8]) -> Vec<(usize, u8)> {
    let end = s.len() - 4;
    let mut v = vec![(1, 0xF0)];
    if k == 6 {
        v.push((8, 0xF0));
        return v;
    }
    v.extend([(5, 0xC1), (6, 0xFF), (7, 0xFF)]);
    let len = |at: usize| (s[at] as usize & 15) << 8 | s[at + 1] as usize;
    // fixed fields; first item; where its loop length is, if it has one
    let (mut at, item, loop_at) = match k {
        0 => (8, 4, None),
        1 => {
            v.extend([(8, 0xE0), (10, 0xF0)]);
            (12 + len(10), 5, Some(3))
        }
        2 => {
            v.push((10, 0xFF));
            (11, 5, Some(3))
        }
        3 => {
            v.extend([(8, 0xF0), (10 + len(8), 0xF0)]);
            (12 + len(8), 6, Some(4))
        }
        _ => {
            v.extend([(12, 0xFF), (13, 0xFF)]);
            (14, 12, Some(10))
        }
    };
    while at < end {
        match k {
            0 => v.push((at + 2, 0xE0)),
            1 => v.extend([(at + 1, 0xE0), (at + 3, 0xF0)]),
            2 => v.push((at + 2, 0xFC)),
            3 => v.push((at + 4, 0xF0)),
            _ => {}
        }
        at += item + loop_at.map_or(0, |l| len(at + l));
    }
    v
}

fn main() {
    run("C14", |r| {
        r.deepen();
        // sections offered: (bytes, size claimed, content if acceptable)
        let mut pool: Vec<(String, Psi, Option<Model>)> = Vec::new();
        for x in models() {
            let s = x.section();
            let name = format!("{:?}", x).chars().take(60).collect::<String>();
            pool.push((name.clone(), psi_of(&s), Some(x.clone())));
            // with other bytes after the section
            let mut p = psi_of(&s);
            p.buffer.extend_from_slice(&[0xFF; 60]);
            pool.push((format!("{} + stuffing", name), p, Some(x.clone())));
            if x.kind() != 5 {
                let mut y = s.clone();
                let n = y.len();
                y[n - 1] ^= 1;
                pool.push((format!("{} checksum wrong", name), psi_of(&y), None));
                let mut y = s.clone();
                y[5] ^= 0x20;
                pool.push((format!("{} damaged", name), psi_of(&y), None));
            }
            let mut p = psi_of(&s);
            p.buffer.truncate(s.len() - 1);
            pool.push((format!("{} incomplete", name), p, None));
        }
        // other table ids, valid
        for id in [0x01u8, 0x03, 0x43, 0x4A, 0x72, 0xFE] {
            pool.push((format!("table id {:02x}", id), psi_of(&section(id, 0xB, &[0; 30])), None));
        }
        let pool = &pool;
        let depth = 3;
        let long = r.by(5, 7);
        r.explore("every sequence of sections against every parser", |c| {
            let k = c.pick(PARSERS);
            let mut t = fresh(k);
            let mut want = empty(k);
            for step in 0..depth {
                let i = c.pick(pool.len() + 1);
                if i == pool.len() {
                    break;
                }
                let (name, psi, content) = &pool[i];
                let before = format!("{:?}", t);
                t.parse(psi);
                c.call(1);
                c.log(|| format!("step {}: {}", step, name));
                match content {
                    Some(m) if m.kind() == k => {
                        want.add(m);
                        want.same(&t).map_err(|e| format!("after {}: {}", name, e))?;
                    }
                    _ => {
                        let after = format!("{:?}", t);
                        if after != before {
                            return Err(format!("{} changed the table: {} -> {}", name, before, after));
                        }
                    }
                }
                c.state(&format!("{:?}", t));
            }
            Ok(())
        });
        r.explore("long sequences of one kind", |c| {
            let k = c.pick(PARSERS);
            let own: Vec<&(String, Psi, Option<Model>)> = pool.iter().filter(|p| p.2.as_ref().map_or(false, |m| m.kind() == k)).collect();
            let mut t = fresh(k);
            let mut want = empty(k);
            for _ in 0..long {
                let x = own[c.pick(own.len().min(5))];
                t.parse(&x.1);
                want.add(x.2.as_ref().unwrap());
                want.same(&t)?;
                c.call(1);
            }
            c.state(&format!("{:?}", t));
            Ok(())
        });
        // sections with as many entries as fit, or with one
        r.explore("very many entries", |c| {
            let k = c.of(&[0usize, 1, 2, 3, 4, 6]);
            let full = c.pick(2) == 1;
            let at = c.of(&[16usize, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536]);
            let n = |most: usize| if full { most } else { 1 };
            let d = vec![D::X52(k as u8)];
            let x = match k {
                0 => Model::Pat(Pat { version: 1, tsid: 2, items: (0..n(253)).map(|i| (i as u16, 0x100)).collect() }),
                1 => Model::Pmt(Pmt { version: 1, pnr: 2, pcr: 3, desc: d, items: (0..n(200)).map(|i| (i as u8, 0x100, vec![])).collect() }),
                2 => Model::Sdt(Sdt { table_id: 0x42, version: 1, tsid: 2, onid: 3, items: (0..n(200)).map(|i| Service { pnr: i as u16, ..Default::default() }).collect() }),
                3 => Model::Nit(Nit { table_id: 0x40, version: 1, nid: 2, desc: d, items: (0..n(160)).map(|i| (i as u16, 4, vec![])).collect() }),
                4 => Model::Eit(Eit { table_id: 0x50, version: 1, pnr: 2, tsid: 3, onid: 4, items: (0..n(330)).map(|i| Event { id: i as u16, ..Default::default() }).collect() }),
                _ => Model::Tot(Tot { time: 86400, desc: (0..n(300)).map(|i| D::X52(i as u8)).collect() }),
            };
            let size = match k { 0 => n(253), 1 => n(200), 2 => n(200), 3 => n(160), 4 => n(330), _ => n(300) };
            let p = psi_of(&x.section());
            let mut t = fresh(k);
            let mut want = empty(k);
            let mut have = 0;
            while have < at + 2 {
                t.parse(&p);
                want.add(&x);
                c.call(1);
                have += size;
                // around the boundary and at the end
                if !full && at <= 4096 && have + 2 > at || have >= at + 2 {
                    want.same(&t).map_err(|e| format!("kind {} with {} entries: {}", k, have, e.chars().take(200).collect::<String>()))?;
                }
            }
            c.state(&(k, full, at));
            Ok(())
        });
        r.explore("created from a section", |c| {
            let k = c.pick(PARSERS);
            let (name, psi, _) = &pool[c.pick(pool.len())];
            let mut t = fresh(k);
            t.parse(psi);
            let f = from(k, psi);
            c.call(2);
            c.state(&(k, name));
            if format!("{:?}", t) != format!("{:?}", f) {
                return Err(format!("{}: parsed {:?}, created {:?}", name, t, f));
            }
            Ok(())
        });
        r.explore("every table id and length", |c| {
            let k = c.pick(PARSERS);
            let id = c.pick(256) as u8;
            let flags = c.of(&[0xBu8, 0xF, 0x7, 0x3]);
            for n in 8..60usize {
                for sum in [true, false] {
                    // scalars are set, loops are empty
                    let mut rest = vec![0u8; n - 7];
                    for (i, b) in [0x12u8, 0x34, 0xC3, 0, 0].iter().enumerate() {
                        if i < rest.len() {
                            rest[i] = *b;
                        }
                    }
                    let mut s = section(id, flags, &rest);
                    if !sum {
                        s[n - 2] ^= 0x40;
                    }
                    let takes = if k == 5 { id == 0x70 && n == 8 } else { ids(k).contains(&id) && n >= MIN[k] && sum };
                    let mut t = fresh(k);
                    let before = format!("{:?}", t);
                    t.parse(&psi_of(&s));
                    c.call(1);
                    c.state(&(k, id, flags, n, sum));
                    let after = format!("{:?}", t);
                    if (after != before) != takes {
                        return Err(format!("table id {:02x}, {} bytes, checksum {}: {}", id, n, sum, if takes { "ignored" } else { "taken in" }));
                    }
                }
            }
            Ok(())
        });
        r.explore("every damaged bit and truncation", |c| {
            let ms = models();
            let x = &ms[c.pick(ms.len())];
            let s = x.section();
            let k = x.kind();
            for n in 3..s.len() {
                let mut p = psi_of(&s);
                p.buffer.truncate(n);
                let mut t = fresh(k);
                t.parse(&p);
                c.call(1);
                if format!("{:?}", t) != format!("{:?}", fresh(k)) {
                    return Err(format!("{} of {} bytes taken in", n, s.len()));
                }
                c.state(&(&s, n));
            }
            if k != 5 {
                for bit in 0..s.len() * 8 {
                    let mut y = s.clone();
                    y[bit / 8] ^= 0x80 >> (bit % 8);
                    let mut t = fresh(k);
                    t.parse(&psi_of(&y));
                    c.call(1);
                    if format!("{:?}", t) != format!("{:?}", fresh(k)) {
                        return Err(format!("taken in with bit {} wrong", bit));
                    }
                    c.state(&(&s, bit, 1));
                }
            }
            Ok(())
        });
        r.explore("reserved bits and section numbers of any value", |c| {
            let ms = models();
            let x = &ms[c.pick(ms.len())];
            let k = x.kind();
            if k == 5 {
                return Ok(());
            }
            let base = x.section();
            let l = reserved(k, &base);
            let i = c.pick(l.len() + 1);
            let others = c.pick(3);
            for v in 0..=255u8 {
                let mut s = base.clone();
                for (j, &(at, mask)) in l.iter().enumerate() {
                    let b = match others {
                        _ if j == i || i == l.len() => v,
                        0 => s[at],
                        1 => 0,
                        _ => 0xFF,
                    };
                    s[at] = s[at] & !mask | b & mask;
                }
                let n = s.len();
                let sum = crc_fast(&s[..n - 4]).to_be_bytes();
                s[n - 4..].copy_from_slice(&sum);
                let mut t = fresh(k);
                t.parse(&psi_of(&s));
                c.call(1);
                c.state(&s);
                let mut want = empty(k);
                want.add(x);
                want.same(&t).map_err(|e| format!("reserved bits {:02x?} set by {:02x}: {}", l.get(i), v, e))?;
            }
            Ok(())
        });
        r.explore("sections received on any PID with any counter", |c| {
            let ms = models();
            let x = &ms[c.pick(ms.len())];
            let k = x.kind();
            let mut p = psi_of(&x.section());
            let mut want = empty(k);
            want.add(x);
            for pid in 0..0x2001u16 {
                p.pid = if pid == 0x2000 { 0xFFFF } else { pid };
                p.cc = pid as u8 & 15;
                let mut t = fresh(k);
                t.parse(&p);
                want.same(&t).map_err(|e| format!("PID {} counter {}: {}", p.pid, p.cc, e))?;
            }
            c.call(0x2001);
            c.bulk(0x2001);
            Ok(())
        });
        r.explore("a section after one with other fields", |c| {
            const ID: [u16; 9] = [0, 1, 2, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF];
            const TIME: [u64; 12] = [0, 1, 60, 3599, 3600, 43_200, 86_399, 86_400, 172_799, 1_600_041_599, 1_600_041_600, 2_145_916_800];
            let k = c.pick(PARSERS);
            // what differs, and how often it comes
            let what = c.pick(5);
            let values = match what {
                0 => 32,
                1 => ids(k).len(),
                2 | 3 => ID.len(),
                _ => TIME.len(),
            };
            let v: Vec<usize> = (0..3).map(|i| if i == 2 && values > 12 { 0 } else { c.pick(values) }).collect();
            let full = c.pick(8);
            let mut t = fresh(k);
            let mut want = empty(k);
            for (i, &v) in v.iter().enumerate() {
                let version = if what == 0 { v as u8 } else { 5 };
                let table_id = ids(k)[if what == 1 { v } else { 0 }];
                let a = ID[if what == 2 { v } else { 4 }];
                let b = ID[if what == 3 { v } else { 5 }];
                let time = TIME[if what == 4 { v } else { 3 }];
                let some = full >> i & 1 == 1;
                let desc = if some { vec![D::X52(a as u8)] } else { vec![] };
                let n = usize::from(some);
                let x = match k {
                    0 => Model::Pat(Pat { version, tsid: a, items: vec![(b, a & 0x1FFF); n] }),
                    1 => Model::Pmt(Pmt { version, pnr: a, pcr: b & 0x1FFF, desc: desc.clone(), items: vec![(b as u8, a & 0x1FFF, desc); n] }),
                    2 => Model::Sdt(Sdt { table_id, version, tsid: a, onid: b, items: vec![Service { pnr: b, schedule: 1, following: 1, running: 4, ca: 1, desc }; n] }),
                    3 => Model::Nit(Nit { table_id, version, nid: a, desc: desc.clone(), items: vec![(b, a, desc); n] }),
                    4 => Model::Eit(Eit { table_id, version, pnr: a, tsid: b, onid: a, items: vec![Event { id: b, start: time, duration: 60, status: 1, ca: 1, desc }; n] }),
                    5 => Model::Tdt(time),
                    _ => Model::Tot(Tot { time, desc }),
                };
                t.parse(&psi_of(&x.section()));
                want.add(&x);
                c.call(1);
                want.same(&t).map_err(|e| format!("section {} of {:?}: {}", i, v, e))?;
            }
            c.state(&format!("{:?}", want));
            Ok(())
        });
    })
}
