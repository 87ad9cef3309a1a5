//! C07: program association tables.
use mc::engine::run;
use mc::spec::table::Pat;

fn main() {
    run("C07", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("every stream id and version", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let tsid = (hi * 256 + lo) as u16;
                for version in [tsid as u8 % 32, (hi as u8) % 32] {
                    let t = Pat { version, tsid, items: vec![(1, 2)] };
                    let n = t.round_trip(0, tsid as u8 & 15)?;
                    c.call(n);
                }
            }
            c.bulk(512);
            Ok(())
        });
        r.explore("every version, counter and PID of boundary tables", |c| {
            let version = c.pick(32) as u8;
            let cc = c.pick(16) as u8;
            let pid = c.of(&[0u16, 1, 0x11, 0x0FFF, 0x1000, 0x1FFE, 0x1FFF]);
            for n in [0usize, 1, 43, 44, 45, 252, 253, 254, 506] {
                let t = Pat { version, tsid: 0xFFFF, items: (0..n).map(|i| (i as u16, 8191 - i as u16)).collect() };
                let k = t.round_trip(pid, cc)?;
                c.call(k);
                c.state(&(version, cc, pid, n));
            }
            Ok(())
        });
        r.explore("every program number", |c| {
            let hi = c.pick(256);
            let items = (0..256).map(|lo| ((hi * 256 + lo) as u16, (hi * 32 + lo / 8) as u16)).collect();
            let t = Pat { version: 1, tsid: 7, items };
            let n = t.round_trip(0, 0)?;
            c.call(n);
            c.bulk(256);
            Ok(())
        });
        r.explore("every PID", |c| {
            let hi = c.pick(32);
            let swap = c.pick(2);
            let items = (0..256).map(|lo| (if swap == 0 { 0xFFFF } else { 0 }, (hi * 256 + lo) as u16)).collect();
            let t = Pat { version: 31, tsid: 0, items };
            let n = t.round_trip(0, 0)?;
            c.call(n);
            c.bulk(256);
            Ok(())
        });
        r.explore("every number of programs", |c| {
            let n = c.pick(2001);
            let kind = c.pick(if thorough { 4 } else { 2 });
            let items = (0..n)
                .map(|i| match kind {
                    0 => (i as u16, (i * 5 % 8192) as u16),
                    1 => (0, 16),
                    2 => (0xFFFF, 0x1FFF),
                    _ => ((i * 331) as u16, 0x1FFF - (i % 7) as u16),
                })
                .collect();
            let t = Pat { version: (n % 32) as u8, tsid: n as u16, items };
            c.state(&(n, kind));
            c.sample(|| format!("{} programs", n));
            let k = t.round_trip(0, (n % 16) as u8)?;
            c.call(k);
            Ok(())
        });
        let depth = r.by(5, 7);
        r.explore("every short list over boundary values", |c| {
            let mut items = Vec::new();
            for _ in 0..depth {
                match c.pick(8) {
                    0 => break,
                    k => items.push([(0u16, 0x10u16), (1, 0), (0xFF, 0xFF), (0x100, 0x100), (0xFFFF, 0x1FFF), (0x8000, 0x1000), (1, 0x10)][k - 1]),
                }
            }
            let t = Pat { version: 17, tsid: 0x1234, items };
            c.state(&t.items);
            let k = t.round_trip(0, 3)?;
            c.call(k);
            Ok(())
        });
        r.explore("every combination of boundary fields", |c| {
            let version = c.of(&[0u8, 1, 15, 16, 30, 31]);
            let tsid = c.of(&[0u16, 1, 0xFF, 0x100, 0x1FFF, 0x8000, 0xFFFF]);
            let (pid, cc) = c.of(&[(0u16, 0u8), (0x1FFE, 15), (0x100, 7)]);
            let n = c.range(1, 3);
            let all = [(0u16, 0x10u16), (0, 0), (1, 0), (0xFF, 0xFF), (0x100, 0x100), (0xFFFF, 0x1FFF), (0x8000, 0x1000), (0x1FFF, 0x1FFE), (0, 0x1FFF), (0xFFFF, 0)];
            let items: Vec<_> = (0..n).map(|_| c.of(&all)).collect();
            c.state(&(version, tsid, pid, &items));
            let k = Pat { version, tsid, items }.round_trip(pid, cc)?;
            c.call(k);
            Ok(())
        });
        if thorough {
            r.explore("every program number with every PID", |c| {
                let pnr = c.pick(65536) as u16;
                for block in 0..32u16 {
                    // the number itself, and tables in which it changes from
                    // entry to entry
                    let items = (0..256).map(|i| (pnr.wrapping_add(i * (block % 2)), block * 256 + i)).collect();
                    let n = Pat { version: (pnr % 32) as u8, tsid: pnr, items }.round_trip(0, (block % 16) as u8)?;
                    c.call(n);
                }
                c.bulk(8192);
                Ok(())
            });
            r.explore("every stream id with every version", |c| {
                let tsid = c.pick(65536) as u16;
                for version in 0..32u8 {
                    let n = Pat { version, tsid, items: vec![(tsid, 0x100)] }.round_trip(0, version & 15)?;
                    c.call(n);
                }
                c.bulk(32);
                Ok(())
            });
        }
        let most = r.by(4, 6);
        r.explore("items that share a number or a PID", |c| {
            let k = c.range(2, most);
            let items: Vec<(u16, u16)> = (0..k).map(|_| (c.of(&[0u16, 1, 2]), c.of(&[0x20u16, 0x21, 1]))).collect();
            c.state(&items);
            for tsid in [1u16, 0x20] {
                let n = Pat { version: 1, tsid, items: items.clone() }.round_trip(0, 3)?;
                c.call(n);
            }
            Ok(())
        });
    })
}
