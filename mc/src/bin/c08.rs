//! C08: program map tables.
use mc::engine::run;
use mc::spec::desc::{filler, zoo};
use mc::spec::table::Pmt;

fn main() {
    run("C08", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("every program number, version, PID and stream type", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let v = (hi * 256 + lo) as u16;
                let t = Pmt {
                    version: (v % 32) as u8,
                    pnr: v,
                    pcr: v % 8192,
                    desc: vec![],
                    items: vec![(lo as u8, (v.wrapping_mul(3)) % 8192, vec![]), (hi as u8, 8191 - v % 8192, vec![])],
                };
                let n = t.round_trip(0x100 + lo as u16, (v & 15) as u8)?;
                c.call(n);
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("every combination of boundary fields", |c| {
            let t = Pmt {
                version: c.of(&[0u8, 1, 15, 16, 31]),
                pnr: c.of(&[0u16, 1, 0xFF, 0x100, 0xFFFF]),
                pcr: c.of(&[0u16, 0xFF, 0x100, 0x1000, 0x1FFF]),
                desc: filler(c.of(&[0usize, 2, 100, 256, 300]), 1),
                items: vec![(c.of(&[0u8, 2, 0x1B, 0x80, 0xFF]), c.of(&[0u16, 0xFF, 0x100, 0x1000, 0x1FFF]), filler(c.of(&[0usize, 3, 255, 256, 600]), 2))],
            };
            c.state(&format!("{:?}", (t.version, t.pnr, t.pcr, t.desc.len(), &t.items)));
            let n = t.round_trip(0x1FFE, 9)?;
            c.call(n);
            Ok(())
        });
        r.explore("every size of program and stream descriptors", |c| {
            let a = c.pick(1009);
            if a == 1 {
                return Ok(());
            }
            let desc = filler(a, 1);
            for b in (0..=1003).filter(|&b| b != 1) {
                let t = Pmt { version: 3, pnr: 1, pcr: 0x100, desc: desc.clone(), items: vec![(2, 0x101, filler(b, 2)), (4, 0x102, vec![])] };
                let n = t.round_trip(0x100, 0).map_err(|e| format!("program descriptors of {} bytes, stream descriptors of {}: {}", a, b, e))?;
                c.call(n);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("every split of streams over sections", |c| {
            let sizes = [0usize, 2, 99, 249, 250, 251, 331, 332, 333, 334, 494, 495, 496, 497, 500, 1000, 1001, 1002, 1003];
            let a = c.of(&[0usize, 2, 500, 1000, 1003, 1004, 1008]);
            let k = c.pick(if thorough { 5 } else { 4 });
            let v: Vec<usize> = (0..k).map(|_| c.of(&sizes)).collect();
            let t = Pmt {
                version: 9,
                pnr: 500,
                pcr: 0x1FFF,
                desc: filler(a, 7),
                items: v.iter().enumerate().map(|(i, &n)| (i as u8, 0x200 + i as u16, filler(n, i as u8))).collect(),
            };
            c.state(&(a, &v));
            c.sample(|| format!("program descriptors {} bytes, stream descriptors {:?}", a, v));
            let n = t.round_trip(0x100, 5)?;
            c.call(n);
            Ok(())
        });
        r.explore("every number of streams", |c| {
            let n = c.pick(1201);
            let d = c.of(&[0usize, 2, 3, 10, 57, 250]);
            let a = c.of(&[0usize, 6, 700]);
            if n * (d + 5) > 180_000 {
                return Ok(());
            }
            let t = Pmt {
                version: 1,
                pnr: n as u16,
                pcr: 33,
                desc: filler(a, 3),
                items: (0..n).map(|i| (i as u8, (i % 8192) as u16, filler(d, i as u8))).collect(),
            };
            c.state(&(n, d, a));
            let k = t.round_trip(0x20, (n % 16) as u8)?;
            c.call(k);
            Ok(())
        });
        r.explore("every sequence of typed descriptors", |c| {
            let z = zoo();
            let k = c.pick(if thorough { 5 } else { 4 });
            let l: Vec<_> = (0..k).map(|_| z[c.pick(z.len())].clone()).collect();
            let place = c.pick(3);
            let mut t = Pmt { version: 2, pnr: 2, pcr: 2, desc: vec![], items: vec![(6, 50, vec![]), (6, 51, vec![]), (6, 52, vec![])] };
            match place {
                0 => t.desc = l,
                1 => t.items[0].2 = l,
                _ => {
                    t.desc = l.clone();
                    t.items[1].2 = l.iter().rev().cloned().collect();
                    t.items[2].2 = l;
                }
            }
            c.state(&format!("{:?}", t.items));
            let n = t.round_trip(0x20, 2)?;
            c.call(n);
            Ok(())
        });
        let most = r.by(4, 5);
        r.explore("streams that share a type, a PID or descriptors", |c| {
            let k = c.range(2, most);
            let pcr = c.of(&[0x20u16, 1, 0x1FFF]);
            let d = c.pick(2);
            let items: Vec<(u8, u16, Vec<_>)> = (0..k)
                .map(|_| (c.of(&[2u8, 6]), c.of(&[0x20u16, 0x21]), filler(c.of(&[0usize, 4]), 2)))
                .collect();
            let t = Pmt { version: 1, pnr: 0x20, pcr, desc: filler(4 * d, 2), items };
            c.state(&format!("{:?}", (pcr, d, &t.items)));
            let n = t.round_trip(0x20, 9)?;
            c.call(n);
            Ok(())
        });
    })
}
