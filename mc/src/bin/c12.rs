//! C12: schedule event tables.
use mc::engine::{run, Ctx};
use mc::spec::desc::{filler, zoo};
use mc::spec::table::{emit, feed, Eit, Event};
use mc::spec::time::LAST_DAY;
use mc::spec::{psi_of, valid_section};

const SEG: u64 = 10800;
const DAYS: u64 = LAST_DAY + 1;

const FIRST: &str = "events of the first event's three-hour segment are numbered as the next segment, e.g. an event at 18:10 in section 56 instead of 48";
const GAP: &str = "after three-hour segments without events the numbering advances by one segment only, e.g. events at 00:00 and 09:00 of one day in sections 8 and 16 instead of 0 and 24";

fn ev(id: usize, start: u64, size: usize) -> Event {
    Event { id: id as u16, start, duration: 1800, status: id as u8 % 8, ca: id as u8 % 2, desc: filler(size, id as u8) }
}

fn eit(items: Vec<Event>) -> Eit {
    Eit { table_id: 0x50, version: 3, pnr: 100, tsid: 2, onid: 3, items }
}

/// The segment each event is numbered in, counted from the midnight before the
/// first event. `shift`: the first event's segment is numbered as the next one.
/// `lag`: numbering advances by one segment however many are empty.
fn segments(t: &Eit, shift: u64, lag: bool) -> Vec<u64> {
    let first = t.items[0].start / SEG;
    let midnight = first / 8 * 8;
    let mut at = first + shift;
    let mut next = at + 1;
    t.items
        .iter()
        .map(|e| {
            while e.start / SEG >= next {
                at += 1;
                next += 1;
                if lag {
                    break;
                }
            }
            at - midnight
        })
        .collect()
}

fn check(c: &mut Ctx, t: &Eit) -> Result<u64, String> {
    let (s, out) = emit(&t.real(), 0x12, 5)?;
    if t.items.is_empty() {
        return if s.is_empty() { Ok(1) } else { Err("an empty table emits sections".into()) };
    }
    let s0 = t.items[0].start / SEG;
    let mut next = 0; // event
    let mut place = Vec::new(); // segment each event was numbered in
    let mut prev: Option<(u8, u8)> = None;
    for (n, x) in s.iter().enumerate() {
        let at = |e: String| format!("section {} of {} (table {:02x} number {}): {}", n, s.len(), x[0], x[6], e);
        if x.len() > 4096 || x.len() < 18 || !valid_section(x) {
            return Err(at(format!("not a valid section ({} bytes)", x.len())));
        }
        if x[0] & 0xF0 != t.table_id & 0xF0 || x[1] & 0xF0 != 0xF0 {
            return Err(at(format!("first bytes {:02x} {:02x}", x[0], x[1])));
        }
        // program, version and current bit, stream, network
        let mut want = t.head(x[6] as usize, x[7] as usize, x[12] as usize, x[13] as usize);
        want.truncate(11);
        if x[3..14] != want[..] {
            return Err(at(format!("header {:02x?}, expected {:02x?}", &x[3..14], want)));
        }
        let group = |y: &[u8]| (y[0], y[6] / 8);
        match prev {
            None if x[0] & 0x0F != 0 || x[6] != 0 => return Err(at("is the first one".into())),
            Some((id, num)) => {
                if x[0] < id || x[0] == id && x[6] <= num {
                    return Err(at(format!("follows table {:02x} number {}", id, num)));
                }
                // one further in the segment, or the start of the next segment
                let follows = x[0] == id && (x[6] == num + 1 && x[6] % 8 != 0 || x[6] % 8 == 0 && x[6] / 8 == num / 8 + 1);
                if !follows && !(x[0] == id + 1 && x[6] == 0 && num >= 248) {
                    return Err(at(format!("leaves out numbers after table {:02x} number {}", id, num)));
                }
            }
            _ => {}
        }
        prev = Some((x[0], x[6]));
        let last = s.iter().filter(|y| y[0] == x[0]).map(|y| y[6]).max().unwrap();
        let last_table = s.iter().map(|y| y[0]).max().unwrap();
        if x[7] != last || x[13] != last_table {
            return Err(at(format!("last section {} last table {:02x}, expected {} and {:02x}", x[7], x[13], last, last_table)));
        }
        let seg_last = s.iter().filter(|y| group(y) == group(x)).map(|y| y[6]).max().unwrap();
        if x[12] != seg_last {
            return Err(at(format!("last section of the segment {}, expected {}", x[12], seg_last)));
        }
        // events
        let body = &x[14..x.len() - 4];
        let mut p = 0;
        let first = next;
        while p < body.len() {
            let e = t.items.get(next).ok_or_else(|| at("more events than in the table".into()))?.bytes();
            if p + e.len() > body.len() || body[p..p + e.len()] != e[..] {
                return Err(at(format!("event {} differs: {:02x?}", next, &body[p..(p + 12).min(body.len())])));
            }
            p += e.len();
            next += 1;
            place.push((x[0] & 0x0F) as u64 * 32 + x[6] as u64 / 8);
        }
        let seg = |i: usize| t.items[i].start / SEG;
        for i in first + 1..next {
            if seg(i) != seg(i - 1) && seg(i) > s0 + 1 {
                return Err(at(format!("events {} and {} of segments {} and {} together", i - 1, i, seg(i - 1) - s0, seg(i) - s0)));
            }
        }
        if next > first && first > 0 && seg(first) != seg(first - 1) && seg(first) > s0 + 1 && x[6] % 8 != 0 {
            return Err(at(format!("starts segment {} with a number not divisible by 8", seg(first) - s0)));
        }
    }
    if next != t.items.len() {
        return Err(format!("{} of {} events emitted", next, t.items.len()));
    }
    let want = segments(t, 0, false);
    if place != want {
        let known = [(1, false), (0, true), (1, true)].iter().find(|x| segments(t, x.0, x.1) == place);
        match known {
            None => return Err(format!("events numbered in segments {:?}, expected {:?}", place, want)),
            Some(&(shift, lag)) => {
                if shift == 1 {
                    c.known("schedule-first-segment", FIRST);
                }
                if lag {
                    c.known("schedule-gap", GAP);
                }
            }
        }
    }
    // parsed by the crate
    let mut got = mpegts::psi::Eit::default();
    for x in &s {
        got.parse(&psi_of(x));
    }
    t.same(&got, false)?;
    let mut got = mpegts::psi::Eit::default();
    let n = feed(&out, |p| got.parse(p));
    if n != s.len() {
        return Err(format!("{} of {} sections reassembled", n, s.len()));
    }
    t.same(&got, false)?;
    Ok(1 + 2 * s.len() as u64)
}

fn main() {
    run("C12", |r| {
        let thorough = r.thorough();
        let day = 18_500u64 * 86400;
        r.assume("events are chronological and at most 8 sections are needed per segment");
        r.explore("every arrangement of a few events", |c| {
            let seg = c.pick(8) as u64;
            let off = c.of(&[0u64, 1, 5400, 10799]);
            let sizes = c.pick(8);
            let k = c.range(1, if !thorough { 4 } else if sizes < 2 { 6 } else { 5 });
            let long = if sizes < 2 || thorough { c.of(&[1800u32, 0, 10800, 359_999]) } else { 1800 };
            let mut at = day + seg * SEG + off;
            let mut items = Vec::new();
            for i in 0..k {
                if i > 0 {
                    at += c.of(&[0u64, 1800, SEG - 1, SEG, SEG + 1, 2 * SEG, 9 * SEG + 7]);
                }
                let n = match sizes {
                    0 => 0,
                    1 => 100,
                    2 => 2027,
                    3 => 2033,
                    4 => [4000, 60][i % 2],
                    5 => [10, 4066][i % 2],
                    6 => [4066, 0, 4064][i % 3],
                    _ => [1350, 1345, 1340][i % 3],
                };
                items.push(Event { duration: long, ..ev(i, at, n) });
            }
            let t = eit(items);
            c.state(&(seg, off, sizes, long, t.items.iter().map(|e| e.start).collect::<Vec<_>>()));
            c.sample(|| format!("events at {:?}", t.items.iter().map(|e| e.start - day).collect::<Vec<_>>()));
            let n = check(c, &t)?;
            c.call(n);
            Ok(())
        });
        r.explore("every two sizes in one segment", |c| {
            let a = c.pick(4067);
            let seg = c.of(&[0u64, 7]);
            if a == 1 {
                return Ok(());
            }
            let step = if thorough { 16 } else { 127 };
            // near the limit every sum, otherwise coarsely
            for b in (0..=4066usize).filter(|&b| b != 1 && ((a + b + 24 + 14) as i64 - 4092).abs() < 6 || b % step == 5) {
                let t = eit(vec![ev(1, day + seg * SEG, a), ev(2, day + seg * SEG + 5, b), ev(3, day + seg * SEG + 6, 0)]);
                let n = check(c, &t).map_err(|e| format!("descriptors of {} and {} bytes: {}", a, b, e))?;
                c.call(n);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("every number of events per segment", |c| {
            let seg = c.pick(8) as u64;
            let n = c.range(1, 60);
            let size = c.of(&[0usize, 40, 300, 488, 490, 500, 498]);
            let segs = c.of(&[1u64, 2, 3, 5]);
            // at most 8 sections per segment, the first two count as one
            if n * (size + 12) > 7 * 4070 / 2 {
                return Ok(());
            }
            let mut items = Vec::new();
            for s in 0..segs {
                for i in 0..n {
                    items.push(ev(items.len(), day + (seg + s) * SEG + (i as u64) * 150, size));
                }
            }
            c.state(&(seg, n, size, segs));
            let k = check(c, &eit(items))?;
            c.call(k);
            Ok(())
        });
        r.explore("full segments: up to eight sections", |c| {
            let seg = c.pick(8) as u64;
            let a = c.range(1, 8);
            let b = c.range(1, 8);
            let d = c.range(1, 8);
            let size = c.of(&[4000usize, 4050, 4064]);
            let mut items = Vec::new();
            // first event's segment and the two after the following one
            for (s, n) in [(0u64, a), (2, b), (3, d)] {
                for i in 0..n {
                    items.push(ev(items.len(), day + (seg + s) * SEG + i as u64 * 60, size));
                }
            }
            c.state(&(seg, a, b, d, size));
            let k = check(c, &eit(items))?;
            c.call(k);
            Ok(())
        });
        r.explore("long runs over many tables", |c| {
            let seg = c.pick(8) as u64;
            let id = c.of(&[0x50u8, 0x60]);
            let gap = c.of(&[SEG, SEG / 2, SEG / 3, SEG - 1, 2 * SEG]);
            let size = c.of(&[0usize, 700]);
            // one event per slot at most, 16 tables of 32 segments
            let steps = [1usize, 2, 20, 30, 31, 32, 33, 60, 62, 63, 64, 65, 90, 96, 127, 128, 200, 256, 300, 400, 450, 480, 490];
            let n = steps[c.pick(steps.len())];
            let mut t = eit((0..n).map(|i| ev(i, day + seg * SEG + i as u64 * gap, size)).collect());
            t.table_id = id;
            c.state(&(seg, id, gap, n, size));
            let k = check(c, &t)?;
            c.call(k);
            Ok(())
        });
        r.explore("every length of a run", |c| {
            let n = c.range(1, 495);
            let seg = c.of(&[0u64, 3, 7]);
            let mut t = eit((0..n).map(|i| ev(i, day + seg * SEG + i as u64 * SEG, 0)).collect());
            t.table_id = [0x50, 0x6F, 0x53][n % 3];
            c.state(&(n, seg));
            let k = check(c, &t)?;
            c.call(k);
            Ok(())
        });
        r.explore("a full segment anywhere in a long run", |c| {
            let n = c.range(2, if thorough { 400 } else { 140 });
            let k = c.range(1, 8);
            let after = c.of(&[0usize, 1, 40]);
            let seg = c.of(&[0u64, 6]);
            let mut items = Vec::new();
            for s in 0..=n + after {
                for i in 0..if s == n { k } else { 1 } {
                    items.push(ev(items.len(), day + (seg + s as u64) * SEG + i as u64 * 60, if s == n { 4050 } else { 0 }));
                }
            }
            let mut t = eit(items);
            t.table_id = [0x50, 0x6F, 0x53][n % 3];
            c.state(&(n, k, after, seg));
            let k = check(c, &t)?;
            c.call(k);
            Ok(())
        });
        r.explore("every start day and segment", |c| {
            let from = c.pick((DAYS as usize + 63) / 64) as u64 * 64;
            for d in from..(from + 64).min(DAYS - 1) {
                for seg in 0..8u64 {
                    let a = d * 86400 + seg * SEG;
                    let t = eit(vec![ev(1, a, 0), ev(2, a + SEG - 1, 0), ev(3, a + 3 * SEG, 2), ev(4, a + 4 * SEG - 1, 0)]);
                    let n = check(c, &t)?;
                    c.call(n);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("every second of the first segment pair", |c| {
            let s = c.pick(8) as u64;
            for k in 0..SEG {
                let a = day + s * SEG + k;
                let t = eit(vec![ev(1, a, 0), ev(2, day + (s + 2) * SEG + (k * 7) % SEG, 0)]);
                let n = check(c, &t)?;
                c.call(n);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("every id, version and table id", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let v = (hi * 256 + lo) as u16;
                let mut t = eit(vec![ev(1, day, 0), ev(2, day + 5 * SEG, 0)]);
                t.table_id = 0x50 + (v % 32) as u8;
                t.version = (v / 32 % 32) as u8;
                t.pnr = v;
                t.tsid = v.swap_bytes();
                t.onid = v.rotate_left(3) ^ 0xA5;
                t.items[0].id = v;
                let n = check(c, &t)?;
                c.call(n);
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("every combination of boundary fields", |c| {
            let ids = [0u16, 0x100, 0xFFFF];
            let table_id = c.of(&[0x50u8, 0x5F, 0x60, 0x6F]);
            let version = c.of(&[0u8, 1, 31]);
            let pnr = c.of(&ids);
            let tsid = c.of(&ids);
            let onid = c.of(&ids);
            let id = c.of(&ids);
            let place = c.pick(3);
            for start in [day, day + 7 * SEG, day + SEG - 1] {
                for duration in [0u32, 1, 10_800, 359_999] {
                    for status in [0u8, 1, 4, 7] {
                        for ca in [0u8, 1] {
                            for n in [0usize, 2, 256] {
                                let mut items = vec![ev(1, start, 0), ev(2, start + 2, 0), ev(3, start + 3 * SEG, 0)];
                                items[place] = Event { id, start: items[place].start, duration, status, ca, desc: filler(n, 1) };
                                let k = check(c, &Eit { table_id, version, pnr, tsid, onid, items })?;
                                c.call(k);
                                c.bulk(1);
                            }
                        }
                    }
                }
            }
            Ok(())
        });
        r.explore("every sequence of typed descriptors", |c| {
            let z = zoo();
            let k = c.pick(if thorough { 5 } else { 4 });
            let l: Vec<_> = (0..k).map(|_| z[c.pick(z.len())].clone()).collect();
            let mut t = eit(vec![ev(1, day, 0), ev(2, day + 5 * SEG, 0), ev(3, day + 6 * SEG, 0)]);
            t.items[2].desc = l.iter().rev().cloned().collect();
            t.items[0].desc = l;
            c.state(&format!("{:?}", t.items));
            let n = check(c, &t)?;
            c.call(n);
            Ok(())
        });
    })
}
