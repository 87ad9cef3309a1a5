//! C32: several tables through the whole pipeline.
use mc::engine::{run, Ctx, R};
use mc::spec::any::{fresh, Model};
use mc::spec::desc::{filler, zoo, D};
use mc::spec::io::Source;
use mc::spec::table::{Eit, Event, Nit, Pat, Pmt, Sdt, Service, Tot};
use mpegts::psi::Psi;
use mpegts::reader::{TsRead, TsReader};

/// Tables sent on one PID, one after the other.
struct Lane {
    pid: u16,
    tables: Vec<Model>,
}

/// What was sent in one cycle of a lane.
struct Sent {
    cc: u8,
    packets: Vec<u8>,
}

impl Lane {
    fn packetise(&self, cc: &mut u8) -> Sent {
        let start = *cc;
        let mut out = Vec::new();
        for t in &self.tables {
            t.real().demux(self.pid, cc, &mut out);
        }
        Sent { cc: start, packets: out }
    }

    fn count(&self) -> usize {
        self.packetise(&mut 0).packets.len() / 188
    }
}

fn d(l: &[usize]) -> Vec<D> {
    let z = zoo();
    l.iter().map(|&i| z[i].clone()).collect()
}

fn lanes() -> Vec<Lane> {
    let svc = |pnr: u16, desc| Service { pnr, schedule: (pnr & 1) as u8, following: 1, running: 4, ca: 0, desc };
    let ev = |id: u16, desc| Event { id, start: 1_600_000_000 + u64::from(id) * 3600, duration: 3600, status: 4, ca: 1, desc };
    vec![
        Lane { pid: 0, tables: vec![Model::Pat(Pat { version: 1, tsid: 2, items: (0..60).map(|i| (i + 1, 0x1000 + i)).collect() })] },
        Lane {
            pid: 0x1000,
            tables: vec![Model::Pmt(Pmt { version: 4, pnr: 5, pcr: 0x100, desc: d(&[0]), items: vec![(2, 0x100, filler(150, 1)), (4, 0x101, d(&[1, 10])), (6, 0x102, filler(300, 0))] })],
        },
        Lane { pid: 0x11, tables: vec![Model::Sdt(Sdt { table_id: 0x42, version: 7, tsid: 8, onid: 9, items: (1..14).map(|i| svc(i, d(&[7]))).collect() })] },
        Lane { pid: 0x10, tables: vec![Model::Nit(Nit { table_id: 0x40, version: 3, nid: 4, desc: d(&[3]), items: vec![(1, 2, d(&[5, 4])), (3, 4, d(&[6])), (5, 6, filler(200, 1))] })] },
        Lane { pid: 0x12, tables: vec![Model::Eit(Eit { table_id: 0x4E, version: 1, pnr: 2, tsid: 3, onid: 4, items: vec![ev(1, d(&[8])), ev(2, filler(220, 1))] })] },
        Lane { pid: 0x14, tables: vec![Model::Tdt(1_600_000_000), Model::Tot(Tot { time: 1_600_000_001, desc: d(&[11]) })] },
        Lane { pid: 0x1FFE, tables: vec![Model::Pmt(Pmt { version: 31, pnr: 0xFFFF, pcr: 0x1FFF, desc: vec![], items: vec![(0x1B, 0x47, vec![])] })] },
        // more than one section
        Lane { pid: 0x200, tables: vec![Model::Pmt(Pmt { version: 2, pnr: 7, pcr: 0x300, desc: filler(180, 1), items: vec![(2, 0x300, filler(700, 0)), (3, 0x301, filler(250, 1))] })] },
        Lane { pid: 0x112, tables: vec![Model::Eit(Eit { table_id: 0x50, version: 1, pnr: 2, tsid: 3, onid: 4, items: vec![ev(1, d(&[8])), ev(2, d(&[9]))] })] },
    ]
}

/// Receiver of one PID.
struct Rx<'a> {
    lane: &'a Lane,
    psi: Psi,
    sections: Vec<Psi>,
    done: usize,
}

/// Number of sections one cycle of the lane has.
fn sections(l: &Lane) -> usize {
    let s = l.packetise(&mut 0);
    mc::spec::ts::depacketise(&s.packets, l.pid, 0).map(|x| x.0.len()).unwrap_or(usize::MAX)
}

/// Sends the given cycles of each lane in an order of lanes, reads, routes,
/// parses and re-assembles. `noise` puts foreign packets after each position.
fn pipeline(c: &mut Ctx, lanes: &[&Lane], sent: &[Vec<Sent>], order: &[usize], noise: &dyn Fn(usize) -> Vec<u8>, source: Source) -> R {
    // the counter of a PID goes on through all tables and cycles
    for (l, s) in lanes.iter().zip(sent) {
        let first = s[0].cc;
        let mut n = 0;
        for x in s {
            if x.cc != (first + n) & 15 {
                return Err(format!("PID {:#x}: counter {} after {} packets from {}", l.pid, x.cc, n, first));
            }
            for p in x.packets.chunks(188) {
                if p[3] & 15 != (first + n) & 15 {
                    return Err(format!("PID {:#x}: packet with counter {}, {} packets after {}", l.pid, p[3] & 15, n, first));
                }
                n = (n + 1) & 15;
            }
        }
    }
    let flat: Vec<Vec<u8>> = sent.iter().map(|s| s.iter().flat_map(|x| x.packets.iter().copied()).collect()).collect();
    let mut next = vec![0usize; lanes.len()];
    let mut data = noise(0);
    for (i, &l) in order.iter().enumerate() {
        data.extend_from_slice(&flat[l][next[l]..next[l] + 188]);
        next[l] += 188;
        data.extend(noise(i + 1));
    }
    for (l, n) in next.iter().enumerate() {
        assert!(*n == flat[l].len(), "model: order");
    }
    let total = data.len() / 188;
    let mut rx: Vec<Rx> = lanes.iter().map(|l| Rx { lane: l, psi: Psi::default(), sections: Vec::new(), done: 0 }).collect();
    let per: Vec<usize> = lanes.iter().map(|l| sections(l)).collect();
    let mut reader = TsReader::new(Source { data, ..source });
    let mut buf = [0u8; 188];
    let mut got = 0;
    loop {
        match reader.read(&mut buf) {
            Ok(188) => got += 1,
            Ok(0) => break,
            x => return Err(format!("reader returned {:?}", x)),
        }
        let pid = mpegts::ts::get_pid(&buf);
        if let Some(i) = lanes.iter().position(|l| l.pid == pid) {
            let r = &mut rx[i];
            r.psi.mux(&buf);
            c.call(1);
            // the time table has no checksum, it is offered when a section starts
            let time = buf[1] & 0x40 != 0 && buf[3] & 0x10 != 0 && r.psi.buffer.first() == Some(&0x70) && r.psi.size == 8;
            // a packet without payload brings nothing new
            if buf[3] & 0x10 != 0 && (time || r.psi.check()) {
                r.sections.push(r.psi.clone());
                if r.sections.len() == per[i] {
                    let s = r.sections.split_off(0);
                    let sent = &sent[i][r.done];
                    r.done += 1;
                    let mut cc = sent.cc;
                    let mut again = Vec::new();
                    for m in &r.lane.tables {
                        let mut t = fresh(m.kind());
                        for p in &s {
                            t.parse(p);
                        }
                        m.same(&t).map_err(|e| format!("PID {:#x}, cycle {}: {}", pid, r.done, e))?;
                        t.demux(pid, &mut cc, &mut again);
                        c.call(3);
                    }
                    if again != sent.packets {
                        return Err(format!("PID {:#x}, cycle {}: re-assembled packets differ from those sent", pid, r.done));
                    }
                }
            }
        }
    }
    if got != total {
        return Err(format!("{} packets read of {}", got, total));
    }
    for (i, r) in rx.iter().enumerate() {
        if r.done != sent[i].len() {
            return Err(format!("PID {:#x}: {} tables received of {}", r.lane.pid, r.done, sent[i].len()));
        }
    }
    c.call(got as u64);
    Ok(())
}

/// Cycles of a lane from a counter.
fn cycles(l: &Lane, n: usize, mut cc: u8) -> Vec<Sent> {
    (0..n).map(|_| l.packetise(&mut cc)).collect()
}

fn quiet(_: usize) -> Vec<u8> {
    Vec::new()
}

/// Chooses an interleaving of the given numbers of packets.
fn interleave(c: &mut Ctx, mut left: Vec<usize>) -> Vec<usize> {
    let mut order = Vec::new();
    loop {
        let can: Vec<usize> = (0..left.len()).filter(|&i| left[i] > 0).collect();
        if can.is_empty() {
            return order;
        }
        let i = can[c.pick(can.len())];
        left[i] -= 1;
        order.push(i);
    }
}

fn foreign(kind: usize, pid: u16, cc: u8) -> Vec<u8> {
    match kind {
        0 => vec![],
        1 => mpegts::ts::NULL_PACKET.to_vec(),
        // elementary stream packet of another PID
        2 => {
            let mut p = vec![0x47, 0x41, 0x77, 0x10 | cc & 15, 0, 0, 1, 0xE0];
            p.resize(188, 0x47);
            p
        }
        // adaptation field only, on the PID of a table
        _ => {
            let mut p = vec![0x47, (pid >> 8) as u8, pid as u8, 0x20 | cc & 15, 183, 0x00];
            p.resize(188, 0xFF);
            p
        }
    }
}

fn main() {
    run("C32", |r| {
        r.deepen();
        let thorough = r.thorough();
        let all = lanes();
        let all = &all;
        let n = all.len();
        r.explore("named PIDs", |c| {
            use mpegts::psi::*;
            let got = [PAT_PID, NIT_PID, SDT_PID, EIT_PID, TDT_PID, TOT_PID];
            let k = c.pick(got.len());
            let want = [0u16, 0x10, 0x11, 0x12, 0x14, 0x14][k];
            c.call(1);
            c.state(&k);
            if got[k] != want {
                return Err(format!("PID of table {} is {:#x}, expected {:#x}", k, got[k], want));
            }
            Ok(())
        });
        r.explore("every interleaving of two tables, every counter", |c| {
            let a = c.pick(n);
            let b = c.pick(n);
            if a == b {
                return Ok(());
            }
            let l = [&all[a], &all[b]];
            let counts: Vec<usize> = l.iter().map(|x| x.count()).collect();
            // both counters; the full product for a few pairs
            let cc = if thorough || a + b == 3 { [c.pick(16) as u8, c.pick(16) as u8] } else { let x = c.pick(16) as u8; [x, (x * 7 + 3) & 15] };
            let order = interleave(c, counts);
            let sent: Vec<Vec<Sent>> = (0..2).map(|i| cycles(l[i], 1, cc[i])).collect();
            c.state(&(a, b, cc, &order));
            c.sample(|| format!("PIDs {:#x} and {:#x}, order {:?}", l[0].pid, l[1].pid, order));
            pipeline(c, &l, &sent, &order, &quiet, Source { chunk: 1 + (order.len() + cc[0] as usize) % 200, ..Source::default() })
        });
        r.explore("every interleaving of three tables", |c| {
            let sets = [[0usize, 1, 5], [1, 4, 6], [2, 5, 6], [3, 4, 5], [0, 5, 8], [1, 5, 8], [3, 0, 6], [2, 4, 5], [1, 3, 5]];
            let s = c.of(&sets);
            let l = [&all[s[0]], &all[s[1]], &all[s[2]]];
            let counts: Vec<usize> = l.iter().map(|x| x.count()).collect();
            let total: usize = counts.iter().sum();
            if total > if thorough { 15 } else { 13 } {
                return Ok(());
            }
            let cc = c.of(&[0u8, 14, 15]);
            let order = interleave(c, counts);
            let sent: Vec<Vec<Sent>> = (0..3).map(|i| cycles(l[i], 1, (cc + i as u8 * 5) & 15)).collect();
            c.state(&(s, cc, &order));
            pipeline(c, &l, &sent, &order, &quiet, Source { chunk: 188, ..Source::default() })
        });
        r.explore("many cycles, every read size", |c| {
            let l: Vec<&Lane> = all.iter().collect();
            let turn = c.pick(n);
            let chunk = c.range(1, 400);
            let k = if thorough { 33 } else { 17 };
            let sent: Vec<Vec<Sent>> = l.iter().enumerate().map(|(i, x)| cycles(x, k, (i * 3 + turn) as u8 & 15)).collect();
            // rounds: every lane sends one packet in turn while it has any
            let mut left: Vec<usize> = sent.iter().map(|s| s.iter().map(|x| x.packets.len() / 188).sum()).collect();
            let mut order = Vec::new();
            while left.iter().any(|&x| x > 0) {
                for j in 0..n {
                    let i = (j * (1 + turn % 2) + turn) % n;
                    if left[i] > 0 {
                        left[i] -= 1;
                        order.push(i);
                    }
                }
            }
            c.state(&(turn, chunk));
            pipeline(c, &l, &sent, &order, &quiet, Source { chunk, ..Source::default() })
        });
        r.explore("foreign packets anywhere", |c| {
            let s = c.of(&[[1usize, 2, 4], [0, 3, 5], [7, 8, 6]]);
            let l = [&all[s[0]], &all[s[1]], &all[s[2]]];
            let kind = c.range(0, 3);
            let which = c.pick(3);
            let sent: Vec<Vec<Sent>> = (0..3).map(|i| cycles(l[i], 2, 13 + i as u8)).collect();
            let mut left: Vec<usize> = sent.iter().map(|s| s.iter().map(|x| x.packets.len() / 188).sum()).collect();
            let mut order = Vec::new();
            let rotate = c.pick(3);
            while left.iter().any(|&x| x > 0) {
                for j in 0..3 {
                    let i = (j + rotate) % 3;
                    if left[i] > 0 {
                        left[i] -= 1;
                        order.push(i);
                    }
                }
            }
            // counter of the last packet of that PID at each position
            let mut cc = (13 + which as u8 + 15) & 15;
            let mut at = vec![cc];
            for &o in &order {
                if o == which {
                    cc = (cc + 1) & 15;
                }
                at.push(cc);
            }
            let total = order.len() + 1;
            let a = c.pick(total);
            let b = c.pick(total);
            let pid = l[which].pid;
            let noise = |i: usize| -> Vec<u8> {
                let mut v = Vec::new();
                for p in [a, b] {
                    if p == i {
                        v.extend(foreign(kind, pid, at[i]));
                    }
                }
                v
            };
            c.state(&(s, kind, which, rotate, a, b));
            pipeline(c, &l, &sent, &order, &noise, Source { chunk: 100, ..Source::default() })
        });
        r.explore("interrupted and short reads at every position", |c| {
            let l = [&all[5], &all[6], &all[8]];
            let sent: Vec<Vec<Sent>> = l.iter().map(|x| cycles(x, 1, 15)).collect();
            let order: Vec<usize> = (0..3).flat_map(|i| vec![i; sent[i][0].packets.len() / 188]).collect();
            let len = order.len() * 188;
            let a = c.pick(len);
            let b = c.of(&[0usize, 1, 187, 188, 189, 375, 376]);
            let k = c.range(0, 2) as u32;
            let source = Source { breaks: { let mut v = vec![a, b]; v.sort(); v }, interrupts: if k > 0 { vec![(a, k)] } else { vec![] }, ..Source::default() };
            c.state(&(a, b, k));
            pipeline(c, &l, &sent, &order, &quiet, source)
        });
    })
}
