//! C11: present/following event tables.
use mc::engine::run;
use mc::spec::desc::{filler, zoo};
use mc::spec::table::{Eit, Event};
use mc::spec::time::LAST_DAY;

const DAYS: u64 = LAST_DAY + 1;

fn eit(items: Vec<Event>) -> Eit {
    Eit { table_id: 0x4E, version: 1, pnr: 100, tsid: 2, onid: 3, items }
}

fn ev(start: u64, duration: u32) -> Event {
    Event { id: 7, start, duration, status: 4, ca: 0, desc: vec![] }
}

fn main() {
    run("C11", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("every day, boundary seconds", |c| {
            let from = c.pick((DAYS as usize + 63) / 64) as u64 * 64;
            let secs = [0u64, 1, 59, 60, 599, 3599, 3600, 35999, 36000, 43199, 43200, 71999, 72000, 82800, 86340, 86399];
            for day in from..(from + 64).min(DAYS) {
                let t = eit(secs.iter().map(|s| ev(day * 86400 + s, *s as u32)).collect());
                let n = t.round_trip(0x12, (day % 16) as u8)?;
                c.call(n);
                c.bulk(16);
            }
            Ok(())
        });
        r.explore("every second of boundary days", |c| {
            // first and last day, leap days, year ends
            let day = c.of(&[0u64, 58, 59, 789, 790, 10956, 10957, 11016, 11017, 16071, DAYS - 1]);
            let hour = c.pick(24) as u64;
            for k in 0..36u64 {
                let t = eit((0..100).map(|i| ev(day * 86400 + hour * 3600 + k * 100 + i, 0)).collect());
                let n = t.round_trip(0x12, 0)?;
                c.call(n);
            }
            c.bulk(3600);
            Ok(())
        });
        r.explore("every duration below 100 hours", |c| {
            let hour = c.pick(100) as u32;
            for k in 0..36u32 {
                let t = eit((0..100).map(|i| ev(86399, hour * 3600 + k * 100 + i)).collect());
                let n = t.round_trip(0x12, 0)?;
                c.call(n);
            }
            c.bulk(3600);
            Ok(())
        });
        r.explore("every id and version", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let v = (hi * 256 + lo) as u16;
                let mut t = eit(vec![ev(1_600_000_000, 3600), ev(1_600_003_600, 60)]);
                t.table_id = if v % 2 == 0 { 0x4E } else { 0x4F };
                t.version = (v / 2 % 32) as u8;
                t.pnr = v;
                t.tsid = v.swap_bytes();
                t.onid = v.rotate_left(3) ^ 0xA5;
                t.items[0].id = v;
                t.items[1].id = !v;
                let n = t.round_trip(0x12, (v & 15) as u8)?;
                c.call(n);
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("every status and flag with every descriptor length", |c| {
            let status = c.pick(8) as u8;
            let ca = c.pick(2) as u8;
            let id = c.of(&[0x4Eu8, 0x4F]);
            let step = if thorough { 1 } else { 3 };
            for n in (0..=4066usize).step_by(step).chain([255, 256, 257, 4065, 4066]) {
                if n == 1 {
                    continue;
                }
                let mut t = eit(vec![Event { id: 1, start: 1_500_000_000, duration: 5, status, ca, desc: filler(n, 1) }, ev(5, 5)]);
                t.table_id = id;
                let k = t.round_trip(0x12, 3)?;
                c.call(k);
                c.state(&(status, ca, id, n));
            }
            Ok(())
        });
        r.explore("every number of events", |c| {
            let n = c.pick(201);
            let d = c.of(&[0usize, 2, 100, 1000]);
            let id = c.of(&[0x4Eu8, 0x4F]);
            let mut t = eit((0..n).map(|i| Event { id: i as u16, start: 1_600_000_000 + i as u64 * 1800, duration: 1800, status: i as u8 % 8, ca: i as u8 % 2, desc: filler(d, i as u8) }).collect());
            t.table_id = id;
            c.state(&(n, d, id));
            c.sample(|| format!("{} events", n));
            let k = t.round_trip(0x12, (n % 16) as u8)?;
            c.call(k);
            Ok(())
        });
        r.explore("every sequence of typed descriptors", |c| {
            let z = zoo();
            let k = c.pick(if thorough { 5 } else { 4 });
            let l: Vec<_> = (0..k).map(|_| z[c.pick(z.len())].clone()).collect();
            let mut t = eit(vec![ev(1, 1), ev(2, 2)]);
            t.items[1].desc = l.iter().rev().cloned().collect();
            t.items[0].desc = l;
            c.state(&format!("{:?}", t.items));
            let n = t.round_trip(0x12, 2)?;
            c.call(n);
            Ok(())
        });
        r.explore("every combination of boundary fields", |c| {
            let ids = [0u16, 1, 0xFF, 0x100, 0xFFFF];
            let table_id = c.of(&[0x4Eu8, 0x4F]);
            let version = c.of(&[0u8, 1, 31]);
            let pnr = c.of(&ids);
            let tsid = c.of(&[0u16, 0x100, 0xFFFF]);
            let onid = c.of(&[0u16, 0x100, 0xFFFF]);
            let id = c.of(&ids);
            let count = c.range(1, if thorough { 3 } else { 2 });
            let place = c.pick(count);
            for start in [0u64, 1, 86399, 1_582_934_400 + 43_199, DAYS * 86400 - 1] {
                for duration in [0u32, 1, 3600, 86400, 359_999] {
                    for status in [0u8, 1, 4, 7] {
                        for ca in [0u8, 1] {
                            for n in [0usize, 2, 256] {
                                let mut items = vec![ev(1_600_000_000, 60); count];
                                items[place] = Event { id, start, duration, status, ca, desc: filler(n, 1) };
                                let k = Eit { table_id, version, pnr, tsid, onid, items }.round_trip(0x12, version & 15)?;
                                c.call(k);
                                c.bulk(1);
                            }
                        }
                    }
                }
            }
            Ok(())
        });
        if thorough {
            r.explore("every minute of every day", |c| {
                let day = c.pick(DAYS as usize) as u64;
                for k in 0..8u64 {
                    let t = eit((0..180).map(|i| ev(day * 86400 + (k * 180 + i) * 60 + (day + i) % 60, (day * 37 + i) as u32 % 360_000)).collect());
                    let n = t.round_trip(0x12, k as u8)?;
                    c.call(n);
                }
                c.bulk(1440);
                Ok(())
            });
        }
        let most = r.by(3, 4);
        r.explore("events that share an id, a time or descriptors", |c| {
            let k = c.range(2, most);
            let items: Vec<Event> = (0..k)
                .map(|_| Event {
                    id: c.of(&[7u16, 100]),
                    start: c.of(&[1_600_000_000u64, 1_600_003_600, 0]),
                    duration: c.of(&[0u32, 3600]),
                    status: c.of(&[1u8, 4]),
                    ca: 0,
                    desc: filler(c.of(&[0usize, 4]), 2),
                })
                .collect();
            let t = eit(items);
            c.state(&format!("{:?}", t.items));
            let n = t.round_trip(0x12, 9)?;
            c.call(n);
            Ok(())
        });
        r.explore("every day, every combination of boundary times and durations", |c| {
            let from = c.pick((DAYS as usize + 31) / 32) as u64 * 32;
            for day in from..(from + 32).min(DAYS) {
                let mut items = Vec::new();
                for s in [0u64, 1, 3599, 3600, 43200, 86340, 86399] {
                    for d in [0u32, 1, 59, 3599, 3600, 86399, 86400, 359_999] {
                        items.push(ev(day * 86400 + s, d));
                    }
                }
                let n = eit(items).round_trip(0x12, 0)?;
                c.call(n);
                c.bulk(56);
            }
            Ok(())
        });
    })
}
