//! C33: a damaged stream of several tables.
use mc::engine::{run, Ctx, R};
use mc::spec::any::{fresh, Model};
use mc::spec::desc::{filler, zoo, D};
use mc::spec::io::{packets, Source};
use mc::spec::table::{Eit, Event, Nit, Pat, Pmt, Sdt, Service, Tot};
use mpegts::psi::Psi;
use mpegts::reader::{TsRead, TsReader};

/// Packets without any table between the two cycles.
const GAP: usize = 4;

/// A section as sent: its bytes and the packets of the stream that carry it.
struct Section {
    pid: u16,
    bytes: Vec<u8>,
    packets: Vec<usize>,
    /// Time tables have no checksum.
    time: bool,
}

struct Stream {
    lanes: Vec<(u16, Vec<Model>)>,
    data: Vec<u8>,
    sections: Vec<Section>,
    /// Length of the first cycle, packets.
    first: usize,
}

fn d(l: &[usize]) -> Vec<D> {
    let z = zoo();
    l.iter().map(|&i| z[i].clone()).collect()
}

fn lanes() -> Vec<(u16, Vec<Model>)> {
    let svc = |pnr: u16| Service { pnr, schedule: (pnr & 1) as u8, following: 1, running: 4, ca: 0, desc: d(&[7]) };
    let ev = |id: u16, desc| Event { id, start: 1_600_000_000 + u64::from(id) * 3600, duration: 3600, status: 4, ca: 1, desc };
    vec![
        (0, vec![Model::Pat(Pat { version: 1, tsid: 2, items: (0..50).map(|i| (i + 1, 0x1000 + i)).collect() })]),
        (0x1000, vec![Model::Pmt(Pmt { version: 4, pnr: 5, pcr: 0x100, desc: d(&[0]), items: vec![(2, 0x100, filler(150, 1)), (4, 0x101, d(&[1, 10])), (6, 0x102, filler(120, 0))] })]),
        (0x11, vec![Model::Sdt(Sdt { table_id: 0x42, version: 7, tsid: 8, onid: 9, items: (1..8).map(svc).collect() })]),
        (0x10, vec![Model::Nit(Nit { table_id: 0x40, version: 3, nid: 4, desc: d(&[3]), items: vec![(1, 2, d(&[5, 4])), (3, 4, d(&[6])), (5, 6, filler(200, 1))] })]),
        (0x12, vec![Model::Eit(Eit { table_id: 0x4E, version: 1, pnr: 2, tsid: 3, onid: 4, items: vec![ev(1, d(&[8])), ev(2, filler(200, 1))] })]),
        (0x14, vec![Model::Tdt(1_600_000_000), Model::Tot(Tot { time: 1_600_000_001, desc: d(&[11]) })]),
    ]
}

/// Two cycles of all tables, the packets of the PIDs taking turns.
fn stream() -> Stream {
    let lanes = lanes();
    let mut s = Stream { lanes, data: Vec::new(), sections: Vec::new(), first: 0 };
    let mut cc: Vec<u8> = (0..s.lanes.len()).map(|i| (i * 5 + 13) as u8 & 15).collect();
    for cycle in 0..2 {
        let mut flat = Vec::new();
        let mut pending = Vec::new();
        for (i, (pid, tables)) in s.lanes.iter().enumerate() {
            let start = cc[i];
            let mut v = Vec::new();
            for t in tables {
                t.real().demux(*pid, &mut cc[i], &mut v);
            }
            let secs = mc::spec::ts::depacketise(&v, *pid, start).expect("model: packets").0;
            flat.push(v);
            pending.push(secs);
        }
        let mut next = vec![0usize; flat.len()];
        let mut open: Vec<Vec<usize>> = vec![Vec::new(); flat.len()];
        while (0..flat.len()).any(|i| next[i] < flat[i].len()) {
            for i in 0..flat.len() {
                if next[i] == flat[i].len() {
                    continue;
                }
                let p = &flat[i][next[i]..next[i] + 188];
                open[i].push(s.data.len() / 188);
                s.data.extend_from_slice(p);
                next[i] += 188;
                // the packet is the last of its section if the next one starts another
                if next[i] == flat[i].len() || flat[i][next[i] + 1] & 0x40 != 0 {
                    let bytes = pending[i].remove(0);
                    let time = bytes[0] == 0x70;
                    s.sections.push(Section { pid: s.lanes[i].0, bytes, packets: std::mem::take(&mut open[i]), time });
                }
            }
        }
        if cycle == 0 {
            s.first = s.data.len() / 188;
            for _ in 0..GAP {
                s.data.extend_from_slice(&mpegts::ts::NULL_PACKET);
            }
        }
    }
    s
}

/// A stream being damaged; where each byte came from is kept.
struct Damaged {
    data: Vec<u8>,
    origin: Vec<usize>,
}

impl Damaged {
    fn new(s: &Stream) -> Damaged {
        Damaged { data: s.data.clone(), origin: (0..s.data.len()).collect() }
    }

    fn set(&mut self, at: usize, x: u8) {
        if self.data[at] != x {
            self.data[at] = x;
            self.origin[at] = usize::MAX;
        }
    }

    fn flip(&mut self, at: usize, x: u8) {
        self.set(at, self.data[at] ^ x);
    }

    fn remove(&mut self, at: usize, n: usize) {
        self.data.drain(at..at + n);
        self.origin.drain(at..at + n);
    }

    fn insert(&mut self, at: usize, new: Vec<u8>) {
        self.origin.splice(at..at, vec![usize::MAX; new.len()]);
        self.data.splice(at..at, new);
    }

    fn pid(&self, at: usize) -> u16 {
        u16::from(self.data[at + 1] & 0x1F) << 8 | u16::from(self.data[at + 2])
    }

    /// Which packet of the stream is whole at an offset.
    fn packet(&self, at: usize) -> Option<usize> {
        let o = self.origin[at];
        if o != usize::MAX && o % 188 == 0 && (0..188).all(|i| self.origin[at + i] == o + i) {
            Some(o / 188)
        } else {
            None
        }
    }
}

/// One section as received.
struct Got {
    pid: u16,
    psi: Psi,
    /// Number of packets read before.
    at: usize,
}

/// Receives a damaged stream. `extra` is how much more often than sent a
/// section may arrive.
fn receive(c: &mut Ctx, s: &Stream, v: Damaged, extra: usize, chunk: usize) -> R {
    // which packets the stream still contains
    let offsets = packets(&v.data);
    let fate: Vec<Option<usize>> = offsets.iter().map(|&o| v.packet(o)).collect();
    let mut whole = 0;
    let mut due: Vec<(usize, usize)> = Vec::new();
    for (n, x) in s.sections.iter().enumerate() {
        let at: Option<Vec<usize>> = x.packets.iter().map(|k| fate.iter().position(|f| *f == Some(*k))).collect();
        let at = match at {
            Some(v) => v,
            None => continue,
        };
        if at.windows(2).any(|w| w[0] > w[1]) {
            continue;
        }
        // another packet of that PID in between is outside the statement
        let alone = (at[0]..=*at.last().unwrap()).all(|i| at.contains(&i) || v.pid(offsets[i]) != x.pid);
        if alone {
            due.push((n, *at.last().unwrap()));
            if x.packets[0] >= s.first {
                whole += 1;
            }
        }
    }
    if whole * 2 != s.sections.len() {
        return Err("model: damage reaches the second cycle".into());
    }
    // receiver
    let pids: Vec<u16> = s.lanes.iter().map(|l| l.0).collect();
    let mut psi: Vec<Psi> = pids.iter().map(|_| Psi::default()).collect();
    let mut got: Vec<Got> = Vec::new();
    let mut reader = TsReader::new(Source { data: v.data, chunk, ..Source::default() });
    let mut buf = [0u8; 188];
    let mut n = 0;
    loop {
        match reader.read(&mut buf) {
            Ok(188) => n += 1,
            Ok(0) => break,
            x => return Err(format!("reader returned {:?}", x)),
        }
        let pid = mpegts::ts::get_pid(&buf);
        if let Some(i) = pids.iter().position(|p| *p == pid) {
            let r = &mut psi[i];
            r.mux(&buf);
            let time = pid == 0x14 && buf[1] & 0x40 != 0 && r.buffer.first() == Some(&0x70) && r.size == 8 && r.buffer.len() >= 8;
            if buf[3] & 0x10 != 0 && (time || r.check()) {
                got.push(Got { pid, psi: r.clone(), at: n - 1 });
            }
        }
    }
    c.call(2 * n as u64);
    if n != offsets.len() {
        return Err(format!("{} packets read, the stream has {}", n, offsets.len()));
    }
    // nothing that was not sent
    for g in &got {
        let b = &g.psi.buffer[..g.psi.size];
        if b[0] == 0x70 && g.psi.size == 8 {
            continue;
        }
        let sent = s.sections.iter().filter(|x| x.bytes == b).count();
        if sent == 0 {
            return Err(format!("PID {:#x}, packet {}: a section of {} bytes was reported complete that was never sent", g.pid, g.at, b.len()));
        }
        let times = got.iter().filter(|h| h.psi.size == g.psi.size && h.psi.buffer[..h.psi.size] == *b).count();
        if times > sent + extra {
            return Err(format!("PID {:#x}: a section sent {} times was reported {} times", g.pid, sent, times));
        }
    }
    // everything that arrived whole
    for (k, last) in due {
        let x = &s.sections[k];
        if !got.iter().any(|g| g.at == last && g.pid == x.pid && g.psi.buffer[..g.psi.size] == x.bytes[..]) {
            return Err(format!("PID {:#x}: section {} (time: {}) arrived whole with packet {} but was not reported", x.pid, k, x.time, last));
        }
    }
    // the second cycle gives the tables, whatever the first one left
    let gap = offsets.len() - (s.data.len() / 188 - s.first - GAP);
    for (pid, tables) in &s.lanes {
        for m in tables {
            let mut t = fresh(m.kind());
            let mut any = fresh(m.kind());
            for g in got.iter().filter(|g| g.pid == *pid) {
                any.parse(&g.psi);
                if g.at >= gap {
                    t.parse(&g.psi);
                }
                c.call(1);
            }
            m.same(&t).map_err(|e| format!("PID {:#x}, after the damage: {}", pid, e))?;
        }
    }
    Ok(())
}

fn main() {
    run("C33", |r| {
        let thorough = r.thorough();
        let s = stream();
        let s = &s;
        let len = s.first * 188;
        r.explore("every byte changed to every value", |c| {
            let at = c.pick(len);
            let x = c.range(1, 255) as u8;
            let mut v = Damaged::new(s);
            v.flip(at, x);
            c.state(&(at, x));
            c.sample(|| format!("byte {} of packet {} changed by {:#04x}", at % 188, at / 188, x));
            receive(c, s, v, 0, 0)
        });
        r.explore("every two bits of the first bytes of a packet", |c| {
            let k = c.pick(s.first);
            let bits = if thorough { 40 * 8 } else { 14 * 8 };
            let a = c.pick(bits);
            let b = c.pick(bits);
            if b <= a {
                return Ok(());
            }
            let mut v = Damaged::new(s);
            for i in [a, b] {
                v.flip(k * 188 + i / 8, 0x80 >> (i % 8));
            }
            c.state(&(k, a, b));
            receive(c, s, v, 0, 188)
        });
        r.explore("header bytes of two packets", |c| {
            let a = c.pick(s.first);
            let b = c.pick(s.first);
            if b <= a {
                return Ok(());
            }
            let (i, j) = (c.pick(8), c.pick(8));
            let masks: &[u8] = if thorough { &[0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xFF] } else { &[0x01, 0x10, 0x40, 0xFF] };
            let (x, y) = (c.of(masks), c.of(masks));
            let mut v = Damaged::new(s);
            v.flip(a * 188 + i, x);
            v.flip(b * 188 + j, y);
            c.state(&(a, b, i, j, x, y));
            receive(c, s, v, 0, 400)
        });
        r.explore("a sync byte lost, another appears", |c| {
            let k = c.pick(s.first);
            let lost = c.of(&[0x00u8, 0x46, 0xFF]);
            let at = c.range(1, 187);
            let far = c.range(0, 1);
            let mut v = Damaged::new(s);
            v.set(k * 188, lost);
            v.set((k + far) * 188 + at, 0x47);
            c.state(&(k, lost, at, far));
            receive(c, s, v, 0, 100)
        });
        r.explore("a run of bytes overwritten", |c| {
            let at = c.pick(len);
            let n = if thorough { c.range(2, 60) } else { c.of(&[2, 3, 4, 5, 8, 9, 20, 33]) };
            let n = n.min(len - at);
            let how = c.pick(4);
            let mut v = Damaged::new(s);
            for i in 0..n {
                let x = match how {
                    0 => 0x00,
                    1 => 0xFF,
                    2 => !v.data[at + i],
                    _ => [0x47, 0x40, 0x00, 0x10][i % 4],
                };
                v.set(at + i, x);
            }
            c.state(&(at, n, how));
            receive(c, s, v, 0, 188)
        });
        r.explore("bytes removed anywhere", |c| {
            let at = c.pick(len);
            let some = [1usize, 2, 3, 4, 94, 187, 188, 189, 375, 376, 377, 564, 1128];
            let n = if thorough { c.range(1, 600) } else { c.of(&some) };
            let n = n.min(len - at);
            let mut v = Damaged::new(s);
            v.remove(at, n);
            c.state(&(at, n));
            receive(c, s, v, 0, 1 + at % 300)
        });
        r.explore("joining the stream anywhere", |c| {
            let n = c.range(0, len);
            c.state(&n);
            let mut v = Damaged::new(s);
            v.remove(0, n);
            receive(c, s, v, 0, 0)
        });
        r.explore("bytes put in anywhere", |c| {
            let at = c.pick(len);
            let some = [1usize, 2, 4, 94, 187, 188, 189, 376];
            let n = if thorough { c.range(1, 400) } else { c.of(&some) };
            let how = c.pick(5);
            let new: Vec<u8> = match how {
                0 => vec![0x00; n],
                1 => vec![0xFF; n],
                2 => vec![0x47; n],
                // what was just sent again
                3 => s.data[at.saturating_sub(n)..at].to_vec(),
                // what comes next
                _ => s.data[at..at + n].to_vec(),
            };
            let mut v = Damaged::new(s);
            v.insert(at, new);
            c.state(&(at, n, how));
            receive(c, s, v, 2, 188)
        });
        r.explore("two stretches exchanged", |c| {
            let a = c.pick(len);
            let n = c.of(&[1usize, 4, 94, 188, 200]);
            let far = c.of(&[0usize, 1, 94, 188, 376]);
            let b = a + n + far;
            if b + n > len {
                return Ok(());
            }
            let mut v = Damaged::new(s);
            for i in 0..n {
                v.data.swap(a + i, b + i);
                v.origin.swap(a + i, b + i);
            }
            c.state(&(a, n, far));
            receive(c, s, v, 0, 0)
        });
    })
}
