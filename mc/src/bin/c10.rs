//! C10: network information tables.
use mc::engine::run;
use mc::spec::desc::{filler, zoo};
use mc::spec::table::Nit;

fn main() {
    run("C10", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("every id and version", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let v = (hi * 256 + lo) as u16;
                let t = Nit {
                    table_id: if v % 2 == 0 { 0x40 } else { 0x41 },
                    version: (v / 2 % 32) as u8,
                    nid: v,
                    desc: vec![],
                    items: vec![(v, v.swap_bytes(), vec![]), (!v, v ^ 0x5AA5, filler(2 + lo % 4, 1))],
                };
                let n = t.round_trip(0x10, (v & 15) as u8)?;
                c.call(n);
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("every combination of boundary fields", |c| {
            let t = Nit {
                table_id: c.of(&[0x40u8, 0x41]),
                version: c.of(&[0u8, 1, 15, 16, 31]),
                nid: c.of(&[0u16, 0xFF, 0x100, 0xFFFF]),
                desc: filler(c.of(&[0usize, 2, 255, 256, 600]), 1),
                items: vec![(c.of(&[0u16, 0xFF, 0x100, 0xFFFF]), c.of(&[0u16, 0xFF, 0x100, 0xFFFF]), filler(c.of(&[0usize, 2, 255, 256, 600]), 2))],
            };
            c.state(&format!("{:?}", t));
            let n = t.round_trip(0x10, 9)?;
            c.call(n);
            Ok(())
        });
        r.explore("every size of network and stream descriptors", |c| {
            // header 12, stream 6, checksum 4
            let a = c.pick(1009);
            if a == 1 {
                return Ok(());
            }
            let desc = filler(a, 1);
            for b in (0..=1002).filter(|&b| b != 1) {
                let t = Nit { table_id: 0x40, version: 3, nid: 1, desc: desc.clone(), items: vec![(2, 0x101, filler(b, 2)), (4, 0x102, vec![])] };
                let n = t.round_trip(0x10, 0).map_err(|e| format!("network descriptors of {} bytes, stream descriptors of {}: {}", a, b, e))?;
                c.call(n);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("every split of streams over sections", |c| {
            let sizes = [0usize, 2, 99, 245, 246, 247, 248, 329, 330, 331, 494, 495, 496, 497, 498, 1000, 1001, 1002];
            let a = c.of(&[0usize, 2, 500, 1000, 1002, 1003, 1008]);
            let k = c.pick(if thorough { 5 } else { 4 });
            let v: Vec<usize> = (0..k).map(|_| c.of(&sizes)).collect();
            let t = Nit {
                table_id: 0x41,
                version: 9,
                nid: 500,
                desc: filler(a, 7),
                items: v.iter().enumerate().map(|(i, &n)| (i as u16, 0x200 + i as u16, filler(n, i as u8))).collect(),
            };
            c.state(&(a, &v));
            c.sample(|| format!("network descriptors {} bytes, stream descriptors {:?}", a, v));
            let n = t.round_trip(0x10, 5)?;
            c.call(n);
            Ok(())
        });
        r.explore("every number of streams", |c| {
            let n = c.pick(1201);
            let d = c.of(&[0usize, 2, 3, 13, 57, 120]);
            let a = c.of(&[0usize, 6, 700]);
            if n * (d + 6) > 180_000 {
                return Ok(());
            }
            let t = Nit { table_id: 0x40, version: 1, nid: n as u16, desc: filler(a, 3), items: (0..n).map(|i| (i as u16, (i % 8192) as u16, filler(d, i as u8))).collect() };
            c.state(&(n, d, a));
            let k = t.round_trip(0x10, (n % 16) as u8)?;
            c.call(k);
            Ok(())
        });
        r.explore("every sequence of typed descriptors", |c| {
            let z = zoo();
            let k = c.pick(if thorough { 5 } else { 4 });
            let l: Vec<_> = (0..k).map(|_| z[c.pick(z.len())].clone()).collect();
            let place = c.pick(3);
            let mut t = Nit { table_id: 0x40, version: 2, nid: 2, desc: vec![], items: vec![(6, 50, vec![]), (6, 51, vec![]), (6, 52, vec![])] };
            match place {
                0 => t.desc = l,
                1 => t.items[0].2 = l,
                _ => {
                    t.desc = l.clone();
                    t.items[1].2 = l.iter().rev().cloned().collect();
                    t.items[2].2 = l;
                }
            }
            c.state(&format!("{:?}", t));
            let n = t.round_trip(0x10, 2)?;
            c.call(n);
            Ok(())
        });
        let most = r.by(4, 5);
        r.explore("streams that share ids or descriptors", |c| {
            let k = c.range(2, most);
            let nid = c.of(&[1u16, 2]);
            let d = c.pick(2);
            let items: Vec<(u16, u16, Vec<_>)> = (0..k).map(|_| (c.of(&[1u16, 2]), c.of(&[1u16, 2]), filler(c.of(&[0usize, 4]), 2))).collect();
            let t = Nit { table_id: 0x40, version: 1, nid, desc: filler(4 * d, 2), items };
            c.state(&format!("{:?}", (nid, d, &t.items)));
            let n = t.round_trip(0x10, 9)?;
            c.call(n);
            Ok(())
        });
    })
}
