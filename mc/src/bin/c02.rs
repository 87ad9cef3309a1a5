//! C02: lost, repeated and reordered packets.
use mc::engine::{run, Ctx};
use mc::spec::any_section;
use mc::spec::ts::{no_payload, pack, Packet};
use mpegts::psi::Psi;

struct Stream {
    sections: Vec<Vec<u8>>,
    packets: Vec<Packet>,
    span: Vec<(usize, usize)>,
}

/// Adaptation field lengths by packet; the first kind is without.
fn fields(kind: usize, i: usize) -> Option<usize> {
    match kind {
        0 => None,
        1 => Some(0),
        2 => [None, Some(0), Some(1), Some(100)][i % 4],
        _ => [Some(182), Some(7), None, Some(60), Some(0)][i % 5],
    }
}

fn stream(lens: &[usize], packed: bool, cc: u8) -> Stream {
    stream_with(lens, packed, cc, 0)
}

fn stream_with(lens: &[usize], packed: bool, cc: u8, kind: usize) -> Stream {
    let sections: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, &n)| any_section(n, i as u8 + 1)).collect();
    let (packets, span) = pack(17, cc, &sections, &vec![!packed; lens.len()], |i| fields(kind, i));
    Stream { sections, packets, span }
}

/// Feeds the packets named by `order` (None = packet without payload) and
/// watches every report.
fn monitor(c: &mut Ctx, s: &Stream, order: &[Option<usize>]) -> Result<(), String> {
    let mut p = Psi::default();
    let mut fed: Vec<usize> = Vec::new();
    let at = |t: usize, e: String| Err(format!("fed {:?}, at step {}: {}", order.iter().map(|o| o.map_or(-1, |x| x as i64)).collect::<Vec<_>>(), t, e));
    for (t, o) in order.iter().enumerate() {
        let i = match o {
            None => {
                // carries nothing, changes nothing
                let before = (p.check(), p.size, p.buffer.clone());
                let mut x = no_payload(17, (t % 16) as u8);
                // an adaptation field of any kind
                for flags in [0u8, 0x80, 0x10, 0xFF] {
                    x[5] = flags;
                    p.mux(&x);
                }
                // neither payload nor adaptation field
                x[3] &= 0x0F;
                p.mux(&x);
                c.call(5);
                if (p.check(), p.size, &p.buffer) != (before.0, before.1, &before.2) {
                    return at(t, "a packet without payload changed the state".into());
                }
                continue;
            }
            Some(i) => *i,
        };
        p.mux(&s.packets[i]);
        c.call(2);
        fed.push(i);
        // sections whose whole run was fed contiguously up to here
        let intact = |k: usize| {
            let (a, b) = s.span[k];
            let n = b - a + 1;
            b == i && fed.len() >= n && fed[fed.len() - n..].iter().enumerate().all(|(j, &x)| x == a + j)
        };
        let first = (0..s.sections.len()).find(|&k| s.span[k].1 == i && intact(k));
        let repeat = fed.len() >= 2 && fed[fed.len() - 2] == i;
        if p.check() {
            let got = &p.buffer[..p.size];
            match first {
                Some(k) if got == &s.sections[k][..] => {}
                _ => {
                    let which = s.sections.iter().position(|x| &x[..] == got);
                    return at(t, format!("reported {} bytes (section {:?}), allowed {:?}", got.len(), which, first));
                }
            }
        } else if let Some(k) = first {
            if !repeat {
                return at(t, format!("section {} arrived intact and was not reported", k));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Fault {
    None,
    Drop(usize),
    Dup(usize),
    Delay(usize),
    Insert,
}

fn main() {
    run("C02", |r| {
        let thorough = r.thorough();
        let faults = [
            Fault::None,
            Fault::Drop(1),
            Fault::Drop(2),
            Fault::Drop(3),
            Fault::Drop(15),
            Fault::Drop(16),
            Fault::Drop(17),
            Fault::Dup(1),
            Fault::Dup(2),
            Fault::Delay(1),
            Fault::Delay(2),
            Fault::Delay(3),
            Fault::Delay(16),
            Fault::Insert,
        ];
        let shapes: Vec<(Vec<usize>, bool)> = vec![
            (vec![20, 500, 183, 190, 8, 700, 30], false),
            (vec![20, 500, 183, 190, 8, 700, 30], true),
            (vec![400, 300, 350, 200, 367, 368, 20], true),
            (vec![4096, 25, 3800, 40], false),
            (vec![4096, 25, 3800, 40], true),
            (vec![30, 30, 180, 30, 181, 30, 182, 30, 183, 400, 9, 9], true),
        ];
        let shapes = &shapes;
        let place = |c: &mut Ctx, s: &Stream, n: usize| -> Vec<Option<usize>> {
            let len = s.packets.len();
            c.deviations(n as u32);
            let mut order: Vec<Option<usize>> = Vec::new();
            let mut later: Vec<(usize, usize)> = Vec::new(); // (position, packet)
            let mut i = 0;
            while i < len {
                match faults[c.pick_dev(faults.len())] {
                    Fault::None => order.push(Some(i)),
                    Fault::Drop(n) => i += n - 1,
                    Fault::Dup(n) => order.extend(vec![Some(i); n + 1]),
                    Fault::Delay(n) => later.push((i + n, i)),
                    Fault::Insert => order.extend([None, Some(i)]),
                }
                later.retain(|&(at, k)| {
                    if at <= i {
                        order.push(Some(k));
                    }
                    at > i
                });
                i += 1;
            }
            order.extend(later.into_iter().map(|x| Some(x.1)));
            order
        };
        r.explore("one fault, every counter phase", |c| {
            let k = c.pick(shapes.len());
            let cc = c.pick(16) as u8;
            let s = stream(&shapes[k].0, shapes[k].1, cc);
            let order = place(c, &s, 1);
            c.state(&(k, cc, &order));
            c.sample(|| format!("sections {:?}, fed {:?}", shapes[k].0, order));
            monitor(c, &s, &order)
        });
        let streams: Vec<Vec<Stream>> = shapes.iter().map(|s| (0..16).map(|cc| stream(&s.0, s.1, cc)).collect()).collect();
        let streams = &streams;
        let n = r.by(3, 4);
        r.explore("several faults", |c| {
            // the long streams get one fault less
            let k = c.pick(shapes.len());
            let s = &streams[k][[0usize, 13][k % 2]];
            let order = place(c, s, if s.packets.len() > 20 { n - 1 } else { n });
            c.state(&(k, &order));
            monitor(c, s, &order)
        });
        r.explore("two faults, every counter phase", |c| {
            let k = c.pick(shapes.len());
            let cc = c.pick(16);
            let s = &streams[k][cc];
            let order = place(c, s, 2);
            c.state(&(k, cc, &order, 2));
            monitor(c, s, &order)
        });
        let some: Vec<Vec<Stream>> = shapes.iter().map(|s| (1..4).map(|kind| stream_with(&s.0, s.1, 13, kind)).collect()).collect();
        let some = &some;
        r.explore("one fault, every counter phase, with adaptation fields", |c| {
            let k = c.pick(shapes.len());
            let cc = c.pick(16) as u8;
            let kind = c.range(1, 3);
            let s = stream_with(&shapes[k].0, shapes[k].1, cc, kind);
            let order = place(c, &s, 1);
            c.state(&(k, cc, &order, kind));
            monitor(c, &s, &order)
        });
        r.explore("two faults, with adaptation fields", |c| {
            let k = c.pick(shapes.len());
            let kind = c.range(1, 3);
            let s = &some[k][kind - 1];
            let order = place(c, s, 2);
            c.state(&(k, &order, kind));
            monitor(c, s, &order)
        });
        r.explore("every order of a short stream", |c| {
            // any sequence of packets of a short stream, with repetition
            let k = c.pick(3);
            let shapes: [(&[usize], bool); 3] = [(&[300, 20, 190], false), (&[300, 250, 20, 200], true), (&[20, 400, 20], true)];
            let kind = c.pick(2);
            let s = stream_with(shapes[k].0, shapes[k].1, [15u8, 3, 9][k], kind);
            let depth = if thorough { 8 } else { 7 - kind };
            let mut order = Vec::new();
            for _ in 0..depth {
                match c.pick(s.packets.len() + 1) {
                    0 => order.push(None),
                    i => order.push(Some(i - 1)),
                }
            }
            c.state(&(k, &order, kind, 3));
            monitor(c, &s, &order)
        });
        r.explore("every number of lost packets in a long section, then a new one", |c| {
            let n = c.of(&[2000usize, 4096]);
            let packed = c.pick(2) == 1;
            let kind = c.pick(3);
            let s = stream_with(&[n, n - 1, 50, n - 2, 60], packed, 4, kind);
            let from = c.pick(s.packets.len());
            let lost = c.range(1, 40);
            let order: Vec<Option<usize>> = (0..s.packets.len()).filter(|&i| i < from || i >= from + lost).map(Some).collect();
            c.state(&(n, packed, kind, from, lost));
            monitor(c, &s, &order)
        });
    })
}
