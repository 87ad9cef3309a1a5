//! C09: service description tables.
use mc::engine::run;
use mc::spec::desc::{filler, zoo};
use mc::spec::table::{Sdt, Service};

fn svc(pnr: u16, bits: usize, n: usize, salt: u8) -> Service {
    Service {
        pnr,
        schedule: (bits & 1) as u8,
        following: (bits >> 1 & 1) as u8,
        ca: (bits >> 2 & 1) as u8,
        running: (bits >> 3 & 7) as u8,
        desc: filler(n, salt),
    }
}

fn main() {
    run("C09", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("every id, version, flag and status value", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let v = (hi * 256 + lo) as u16;
                let t = Sdt {
                    table_id: if v % 2 == 0 { 0x42 } else { 0x46 },
                    version: (v / 2 % 32) as u8,
                    tsid: v,
                    onid: v.rotate_left(5) ^ 0x55,
                    items: vec![svc(v.swap_bytes(), lo % 64, 0, 0), svc(v, (hi + lo) % 64, 2, 0)],
                };
                let n = t.round_trip(0x11, (v & 15) as u8)?;
                c.call(n);
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("every original network id", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let v = (hi * 256 + lo) as u16;
                let t = Sdt { table_id: 0x46, version: 0, tsid: 0, onid: v, items: vec![] };
                let n = t.round_trip(0x11, 0)?;
                c.call(n);
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("every combination of flags, status and descriptor length", |c| {
            let bits = c.pick(64);
            let other = c.pick(64);
            for n in [0usize, 2, 255, 256, 257, 512, 1000] {
                for id in [0x42u8, 0x46] {
                    let t = Sdt { table_id: id, version: 5, tsid: 1, onid: 2, items: vec![svc(1, bits, n, 1), svc(2, other, 0, 2)] };
                    let k = t.round_trip(0x11, 0)?;
                    c.call(k);
                    c.state(&(bits, other, n, id));
                }
            }
            Ok(())
        });
        r.explore("every pair of service sizes", |c| {
            // header 11, service 5, checksum 4
            let a = c.pick(1005);
            if a == 1 {
                return Ok(());
            }
            let first = svc(1, 0, a, 1);
            for b in (0..=1004).filter(|&b| b != 1) {
                let t = Sdt { table_id: 0x42, version: 0, tsid: 0, onid: 0, items: vec![first.clone(), svc(2, 63, b, 2), svc(3, 8, 0, 3)] };
                let n = t.round_trip(0x11, 0).map_err(|e| format!("descriptors of {} and {} bytes: {}", a, b, e))?;
                c.call(n);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("every split of services over sections", |c| {
            let sizes = [0usize, 2, 50, 246, 247, 248, 249, 330, 331, 332, 497, 498, 499, 500, 1002, 1003, 1004];
            let k = c.pick(if thorough { 6 } else { 5 });
            let v: Vec<usize> = (0..k).map(|_| c.of(&sizes)).collect();
            let t = Sdt {
                table_id: 0x42,
                version: 9,
                tsid: 500,
                onid: 3,
                items: v.iter().enumerate().map(|(i, &n)| svc(i as u16, i * 9, n, i as u8)).collect(),
            };
            c.state(&v);
            c.sample(|| format!("service descriptors {:?}", v));
            let n = t.round_trip(0x11, 5)?;
            c.call(n);
            Ok(())
        });
        r.explore("every number of services", |c| {
            let n = c.pick(1201);
            let d = c.of(&[0usize, 2, 3, 20, 57, 120]);
            if n * (d + 5) > 180_000 {
                return Ok(());
            }
            let t = Sdt { table_id: 0x46, version: 1, tsid: n as u16, onid: 33, items: (0..n).map(|i| svc(i as u16, i, d, i as u8)).collect() };
            c.state(&(n, d));
            let k = t.round_trip(0x11, (n % 16) as u8)?;
            c.call(k);
            Ok(())
        });
        r.explore("every sequence of typed descriptors", |c| {
            let z = zoo();
            let k = c.pick(if thorough { 5 } else { 4 });
            let l: Vec<_> = (0..k).map(|_| z[c.pick(z.len())].clone()).collect();
            let place = c.pick(2);
            let mut t = Sdt { table_id: 0x42, version: 2, tsid: 2, onid: 2, items: vec![svc(1, 9, 0, 0), svc(2, 33, 0, 0)] };
            if place == 1 {
                t.items[1].desc = l.iter().rev().cloned().collect();
            }
            t.items[0].desc = l;
            c.state(&format!("{:?}", t.items));
            let n = t.round_trip(0x11, 2)?;
            c.call(n);
            Ok(())
        });
        r.explore("every combination of boundary fields", |c| {
            let ids = [0u16, 1, 0xFF, 0x100, 0x8000, 0xFFFF];
            let table_id = c.of(&[0x42u8, 0x46]);
            let version = c.of(&[0u8, 1, 30, 31]);
            let tsid = c.of(&ids);
            let onid = c.of(&ids);
            let pnr = c.of(&ids);
            let place = c.pick(3);
            for bits in 0..64 {
                for n in [0usize, 2, 255, 256, 1004] {
                    let mut items = vec![svc(7, 21, 0, 0), svc(9, 42, 2, 0)];
                    items.insert(place, svc(pnr, bits, n, 5));
                    let k = Sdt { table_id, version, tsid, onid, items }.round_trip(0x11, version & 15)?;
                    c.call(k);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        let most = r.by(3, 4);
        r.explore("services that share a number, flags or descriptors", |c| {
            let k = c.range(2, most);
            let onid = c.of(&[1u16, 2]);
            let items: Vec<Service> = (0..k).map(|_| svc(c.of(&[1u16, 2]), c.of(&[0usize, 1, 8, 32]), c.of(&[0usize, 4]), 2)).collect();
            let t = Sdt { table_id: 0x42, version: 1, tsid: 1, onid, items };
            c.state(&format!("{:?}", (onid, &t.items)));
            let n = t.round_trip(0x11, 9)?;
            c.call(n);
            Ok(())
        });
    })
}
