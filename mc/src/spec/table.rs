//! Tables: model values, reference encoders and parsers, comparison.
use super::desc::{decode_loop, encode_all, real as real_desc, same_list, D};
use super::{be, section, time, ts, valid_section, Put};
use mpegts::psi as m;
use mpegts::psi::PsiDemux;

type R = Result<(), String>;

pub fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> R {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, exp))
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Pat {
    pub version: u8,
    pub tsid: u16,
    pub items: Vec<(u16, u16)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Pmt {
    pub version: u8,
    pub pnr: u16,
    pub pcr: u16,
    pub desc: Vec<D>,
    pub items: Vec<(u8, u16, Vec<D>)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Service {
    pub pnr: u16,
    pub schedule: u8,
    pub following: u8,
    pub running: u8,
    pub ca: u8,
    pub desc: Vec<D>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sdt {
    pub table_id: u8,
    pub version: u8,
    pub tsid: u16,
    pub onid: u16,
    pub items: Vec<Service>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Nit {
    pub table_id: u8,
    pub version: u8,
    pub nid: u16,
    pub desc: Vec<D>,
    pub items: Vec<(u16, u16, Vec<D>)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Event {
    pub id: u16,
    pub start: u64,
    pub duration: u32,
    pub status: u8,
    pub ca: u8,
    pub desc: Vec<D>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Eit {
    pub table_id: u8,
    pub version: u8,
    pub pnr: u16,
    pub tsid: u16,
    pub onid: u16,
    pub items: Vec<Event>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tot {
    pub time: u64,
    pub desc: Vec<D>,
}

/// Descriptor loop with its length field; `top` are the bits above the length.
fn dloop(v: &mut Vec<u8>, top: usize, l: &[D]) {
    let e = encode_all(l);
    assert!(e.len() < 4096, "model: loop too long");
    v.p16(top << 12 | e.len());
    v.extend_from_slice(&e);
}

fn ver(v: u8) -> usize {
    assert!(v < 32, "model: version");
    0b11 << 6 | (v as usize) << 1 | 1
}

// ---------------------------------------------------------------- PAT

impl Pat {
    pub fn real(&self) -> m::Pat {
        let mut t = m::Pat::default();
        t.version = self.version;
        t.tsid = self.tsid;
        for &(pnr, pid) in &self.items {
            let mut i = m::PatItem::default();
            i.pnr = pnr;
            i.pid = pid;
            t.items.push(i);
        }
        t
    }

    pub fn same(&self, t: &m::Pat) -> R {
        want("version", t.version, self.version)?;
        want("stream id", t.tsid, self.tsid)?;
        want("number of programs", t.items.len(), self.items.len())?;
        for (i, (a, b)) in t.items.iter().zip(&self.items).enumerate() {
            want(&format!("program {}", i), (a.pnr, a.pid), *b)?;
        }
        Ok(())
    }

    pub fn head(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(self.tsid as usize).p8(ver(self.version)).p8(n).p8(last);
        v
    }

    pub fn item(&(pnr, pid): &(u16, u16)) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(pnr as usize).p16(0b111 << 13 | pid as usize);
        v
    }

    /// One section with everything.
    pub fn section(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = self.head(n, last);
        for i in &self.items {
            v.extend(Pat::item(i));
        }
        section(0x00, 0xB, &v)
    }

    pub fn emitted(&self, s: &[Vec<u8>]) -> R {
        let items: Vec<Vec<u8>> = self.items.iter().map(Pat::item).collect();
        check_split(s, 0x00, 0xB, 1024, |n, last| self.head(n, last), |_, _| Vec::new(), &items)
    }
}

// ---------------------------------------------------------------- PMT

impl Pmt {
    pub fn real(&self) -> m::Pmt {
        let mut t = m::Pmt::default();
        t.version = self.version;
        t.pnr = self.pnr;
        t.pcr = self.pcr;
        t.descriptors = real_desc(&self.desc);
        for (ty, pid, d) in &self.items {
            let mut i = m::PmtItem::default();
            i.stream_type = *ty;
            i.pid = *pid;
            i.descriptors = real_desc(d);
            t.items.push(i);
        }
        t
    }

    pub fn same(&self, t: &m::Pmt) -> R {
        want("version", t.version, self.version)?;
        want("program number", t.pnr, self.pnr)?;
        want("clock PID", t.pcr, self.pcr)?;
        same_list(&self.desc, &t.descriptors).map_err(|e| format!("program descriptors: {}", e))?;
        want("number of streams", t.items.len(), self.items.len())?;
        for (i, (a, b)) in t.items.iter().zip(&self.items).enumerate() {
            want(&format!("stream {}", i), (a.stream_type, a.pid), (b.0, b.1))?;
            same_list(&b.2, &a.descriptors).map_err(|e| format!("stream {}: {}", i, e))?;
        }
        Ok(())
    }

    pub fn head(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(self.pnr as usize).p8(ver(self.version)).p8(n).p8(last).p16(0b111 << 13 | self.pcr as usize);
        dloop(&mut v, 15, if n == 0 { &self.desc } else { &[] });
        v
    }

    pub fn item((ty, pid, d): &(u8, u16, Vec<D>)) -> Vec<u8> {
        let mut v = Vec::new();
        v.p8(*ty as usize).p16(0b111 << 13 | *pid as usize);
        dloop(&mut v, 15, d);
        v
    }

    pub fn section(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = self.head(n, last);
        for i in &self.items {
            v.extend(Pmt::item(i));
        }
        section(0x02, 0xB, &v)
    }

    pub fn emitted(&self, s: &[Vec<u8>]) -> R {
        let items: Vec<Vec<u8>> = self.items.iter().map(Pmt::item).collect();
        check_split(s, 0x02, 0xB, 1024, |n, last| self.head(n, last), |_, _| Vec::new(), &items)
    }
}

// ---------------------------------------------------------------- SDT

impl Sdt {
    pub fn real(&self) -> m::Sdt {
        let mut t = m::Sdt::default();
        t.table_id = self.table_id;
        t.version = self.version;
        t.tsid = self.tsid;
        t.onid = self.onid;
        for x in &self.items {
            let mut i = m::SdtItem::default();
            i.pnr = x.pnr;
            i.eit_schedule_flag = x.schedule;
            i.eit_present_following_flag = x.following;
            i.running_status = x.running;
            i.free_ca_mode = x.ca;
            i.descriptors = real_desc(&x.desc);
            t.items.push(i);
        }
        t
    }

    pub fn same(&self, t: &m::Sdt) -> R {
        want("table id", t.table_id, self.table_id)?;
        want("version", t.version, self.version)?;
        want("stream id", t.tsid, self.tsid)?;
        want("network id", t.onid, self.onid)?;
        want("number of services", t.items.len(), self.items.len())?;
        for (i, (a, b)) in t.items.iter().zip(&self.items).enumerate() {
            want(
                &format!("service {}", i),
                (a.pnr, a.eit_schedule_flag, a.eit_present_following_flag, a.running_status, a.free_ca_mode),
                (b.pnr, b.schedule, b.following, b.running, b.ca),
            )?;
            same_list(&b.desc, &a.descriptors).map_err(|e| format!("service {}: {}", i, e))?;
        }
        Ok(())
    }

    pub fn head(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(self.tsid as usize).p8(ver(self.version)).p8(n).p8(last).p16(self.onid as usize).p8(0xFF);
        v
    }

    pub fn item(x: &Service) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(x.pnr as usize).p8(0b111111 << 2 | (x.schedule as usize) << 1 | x.following as usize);
        dloop(&mut v, (x.running as usize) << 1 | x.ca as usize, &x.desc);
        v
    }

    pub fn section(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = self.head(n, last);
        for i in &self.items {
            v.extend(Sdt::item(i));
        }
        section(self.table_id, 0xF, &v)
    }

    pub fn emitted(&self, s: &[Vec<u8>]) -> R {
        let items: Vec<Vec<u8>> = self.items.iter().map(Sdt::item).collect();
        check_split(s, self.table_id, 0xF, 1024, |n, last| self.head(n, last), |_, _| Vec::new(), &items)
    }
}

// ---------------------------------------------------------------- NIT

impl Nit {
    pub fn real(&self) -> m::Nit {
        let mut t = m::Nit::default();
        t.table_id = self.table_id;
        t.version = self.version;
        t.network_id = self.nid;
        t.descriptors = real_desc(&self.desc);
        for (tsid, onid, d) in &self.items {
            let mut i = m::NitItem::default();
            i.tsid = *tsid;
            i.onid = *onid;
            i.descriptors = real_desc(d);
            t.items.push(i);
        }
        t
    }

    pub fn same(&self, t: &m::Nit) -> R {
        want("table id", t.table_id, self.table_id)?;
        want("version", t.version, self.version)?;
        want("network id", t.network_id, self.nid)?;
        same_list(&self.desc, &t.descriptors).map_err(|e| format!("network descriptors: {}", e))?;
        want("number of streams", t.items.len(), self.items.len())?;
        for (i, (a, b)) in t.items.iter().zip(&self.items).enumerate() {
            want(&format!("stream {}", i), (a.tsid, a.onid), (b.0, b.1))?;
            same_list(&b.2, &a.descriptors).map_err(|e| format!("stream {}: {}", i, e))?;
        }
        Ok(())
    }

    pub fn head(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(self.nid as usize).p8(ver(self.version)).p8(n).p8(last);
        dloop(&mut v, 15, if n == 0 { &self.desc } else { &[] });
        v
    }

    pub fn item((tsid, onid, d): &(u16, u16, Vec<D>)) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(*tsid as usize).p16(*onid as usize);
        dloop(&mut v, 15, d);
        v
    }

    pub fn section(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = self.head(n, last);
        let l: Vec<u8> = self.items.iter().flat_map(Nit::item).collect();
        v.p16(15 << 12 | l.len());
        v.extend(l);
        section(self.table_id, 0xF, &v)
    }

    pub fn emitted(&self, s: &[Vec<u8>]) -> R {
        let items: Vec<Vec<u8>> = self.items.iter().map(Nit::item).collect();
        check_split(
            s,
            self.table_id,
            0xF,
            1024,
            |n, last| self.head(n, last),
            |_, body| {
                let mut v = Vec::new();
                v.p16(15 << 12 | body);
                v
            },
            &items,
        )
    }
}

// ---------------------------------------------------------------- EIT

impl Event {
    pub fn real(&self) -> m::EitItem {
        let mut i = m::EitItem::default();
        i.event_id = self.id;
        i.start = self.start;
        i.duration = self.duration;
        i.status = self.status;
        i.ca_mode = self.ca;
        i.descriptors = real_desc(&self.desc);
        i
    }

    pub fn same(&self, a: &m::EitItem) -> R {
        want("event id", a.event_id, self.id)?;
        want("start", a.start, self.start)?;
        want("duration", a.duration, self.duration)?;
        want("status", a.status, self.status)?;
        want("scrambling", a.ca_mode, self.ca)?;
        same_list(&self.desc, &a.descriptors)
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(self.id as usize);
        v.extend_from_slice(&time::utc(self.start));
        v.extend_from_slice(&time::dur(self.duration.into()));
        dloop(&mut v, (self.status as usize) << 1 | self.ca as usize, &self.desc);
        v
    }
}

impl Eit {
    pub fn real(&self) -> m::Eit {
        let mut t = m::Eit::default();
        t.table_id = self.table_id;
        t.version = self.version;
        t.pnr = self.pnr;
        t.tsid = self.tsid;
        t.onid = self.onid;
        t.items = self.items.iter().map(Event::real).collect();
        t
    }

    /// Compares the events and the ids; the table id only if asked for.
    pub fn same(&self, t: &m::Eit, with_table_id: bool) -> R {
        if with_table_id {
            want("table id", t.table_id, self.table_id)?;
        }
        want("version", t.version, self.version)?;
        want("program number", t.pnr, self.pnr)?;
        want("stream id", t.tsid, self.tsid)?;
        want("network id", t.onid, self.onid)?;
        want("number of events", t.items.len(), self.items.len())?;
        for (i, (a, b)) in t.items.iter().zip(&self.items).enumerate() {
            b.same(a).map_err(|e| format!("event {}: {}", i, e))?;
        }
        Ok(())
    }

    pub fn head(&self, n: usize, last: usize, seg_last: usize, last_table: usize) -> Vec<u8> {
        let mut v = Vec::new();
        v.p16(self.pnr as usize).p8(ver(self.version)).p8(n).p8(last).p16(self.tsid as usize).p16(self.onid as usize);
        v.p8(seg_last).p8(last_table);
        v
    }

    pub fn section(&self, n: usize, last: usize) -> Vec<u8> {
        let mut v = self.head(n, last, last, self.table_id as usize);
        for i in &self.items {
            v.extend(i.bytes());
        }
        section(self.table_id, 0xF, &v)
    }

    /// Present/following: one section per event.
    pub fn emitted_pf(&self, s: &[Vec<u8>]) -> R {
        want("number of sections", s.len(), self.items.len())?;
        let last = s.len().wrapping_sub(1);
        for (n, (got, ev)) in s.iter().zip(&self.items).enumerate() {
            let mut v = self.head(n, last, last, self.table_id as usize);
            v.extend(ev.bytes());
            want(&format!("section {}", n), got, &section(self.table_id, 0xF, &v))?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- TDT, TOT

pub fn tdt_section(t: u64) -> Vec<u8> {
    let mut v = vec![0x70, 0x70, 5];
    v.extend_from_slice(&time::utc(t));
    v
}

impl Tot {
    pub fn real(&self) -> m::Tot {
        let mut t = m::Tot::default();
        t.time = self.time;
        t.descriptors = real_desc(&self.desc);
        t
    }

    pub fn same(&self, t: &m::Tot) -> R {
        want("time", t.time, self.time)?;
        same_list(&self.desc, &t.descriptors)
    }

    pub fn section(&self) -> Vec<u8> {
        let mut v = time::utc(self.time).to_vec();
        dloop(&mut v, 15, &self.desc);
        section(0x73, 0x7, &v)
    }
}

// ---------------------------------------------------------------- common

/// Checks emitted sections: headers by number, bodies concatenating to the
/// items with breaks only between items. `mid(n, body_len)` is what stands
/// between header and items.
fn check_split(
    s: &[Vec<u8>],
    table_id: u8,
    flags: u8,
    max: usize,
    head: impl Fn(usize, usize) -> Vec<u8>,
    mid: impl Fn(usize, usize) -> Vec<u8>,
    items: &[Vec<u8>],
) -> R {
    if s.is_empty() {
        return Err("no section emitted".to_string());
    }
    if s.len() > 256 {
        return Err(format!("{} sections emitted", s.len()));
    }
    let last = s.len() - 1;
    let mut next = 0;
    for (n, sec) in s.iter().enumerate() {
        let at = |e: String| format!("section {} of {}: {}", n, s.len(), e);
        if sec.len() > max {
            return Err(at(format!("{} bytes long", sec.len())));
        }
        if !valid_section(sec) {
            return Err(at("length or checksum wrong".into()));
        }
        want("table id", sec[0], table_id).map_err(at)?;
        want("flags", sec[1] >> 4, flags).map_err(at)?;
        let h = head(n, last);
        let midlen = mid(n, 0).len();
        let start = 3 + h.len() + midlen;
        if sec.len() < start + 4 {
            return Err(at("shorter than its header".into()));
        }
        want("header", &sec[3..3 + h.len()], &h[..]).map_err(at)?;
        let body = &sec[start..sec.len() - 4];
        want("loop length", &sec[3 + h.len()..start], &mid(n, body.len())[..]).map_err(at)?;
        let mut p = 0;
        while p < body.len() {
            let it = match items.get(next) {
                Some(i) => i,
                None => return Err(at("more items than in the table".into())),
            };
            if p + it.len() > body.len() || body[p..p + it.len()] != it[..] {
                let e = (p + it.len()).min(body.len());
                return Err(at(format!("item {}: got {:02x?}, expected {:02x?}", next, &body[p..e], it)));
            }
            p += it.len();
            next += 1;
        }
    }
    want("items emitted", next, items.len())
}

/// The sections a table of the crate emits, through its own packetiser, read by
/// the reference depacketiser; also checks the counter that is left.
pub fn emit<T: PsiDemux>(t: &T, pid: u16, cc: u8) -> Result<(Vec<Vec<u8>>, Vec<u8>), String> {
    // the packets are appended to whatever is there
    let before = [0x47u8, 0x1F, 0xFF];
    let mut out = before.to_vec();
    let mut c = cc;
    t.demux(pid, &mut c, &mut out);
    if out.len() < 3 || out[..3] != before {
        return Err("earlier bytes of the destination changed".to_string());
    }
    out.drain(..3);
    let (s, next) = ts::depacketise(&out, pid, cc)?;
    want("counter after assembly", c, next)?;
    Ok((s, out))
}

/// Feeds packets to a reassembler of the crate, calling `f` on each complete section.
pub fn feed(packets: &[u8], mut f: impl FnMut(&m::Psi)) -> usize {
    let mut p = m::Psi::default();
    let mut n = 0;
    for k in packets.chunks(188) {
        p.mux(k);
        if p.check() {
            n += 1;
            f(&p);
        }
    }
    n
}

/// Assembles, compares the sections with the standard, parses them one by one
/// and through the reassembler, and compares the result.
macro_rules! round_trip {
    ($model:ty, $real:ty, $emitted:ident, |$m:ident, $t:ident| $same:expr) => {
        impl $model {
            pub fn round_trip(&self, pid: u16, cc: u8) -> Result<u64, String> {
                let $m = self;
                let (s, out) = emit(&$m.real(), pid, cc)?;
                $m.$emitted(&s)?;
                let mut t = <$real>::default();
                for x in &s {
                    t.parse(&super::psi_of(x));
                }
                if !s.is_empty() {
                    let $t = &t;
                    $same.map_err(|e: String| format!("parsed: {}", e))?;
                }
                let mut t = <$real>::default();
                let n = feed(&out, |p| t.parse(p));
                want("sections reassembled", n, s.len())?;
                if !s.is_empty() {
                    let $t = &t;
                    $same.map_err(|e: String| format!("reassembled and parsed: {}", e))?;
                }
                if s.len() == 1 {
                    let t = <$real>::from(&super::psi_of(&s[0]));
                    let $t = &t;
                    $same.map_err(|e: String| format!("created from its section: {}", e))?;
                }
                Ok(1 + s.len() as u64 + out.len() as u64 / 188)
            }
        }
    };
}

round_trip!(Pat, m::Pat, emitted, |x, t| x.same(t));
round_trip!(Pmt, m::Pmt, emitted, |x, t| x.same(t));
round_trip!(Sdt, m::Sdt, emitted, |x, t| x.same(t));
round_trip!(Nit, m::Nit, emitted, |x, t| x.same(t));
round_trip!(Eit, m::Eit, emitted_pf, |x, t| x.same(t, true));

// ---------------------------------------------------------------- reference parsers

/// Header of a descriptor loop at `at`: (descriptors, end) when it lies before
/// `end`, else Err with the descriptors of the clamped loop.
pub fn dloop_at(b: &[u8], at: usize, end: usize) -> Result<(Vec<D>, usize), Vec<D>> {
    let n = be(&b[at..at + 2]) & 0xFFF;
    if at + 2 + n > end {
        Err(decode_loop(&b[at + 2..end]))
    } else {
        Ok((decode_loop(&b[at + 2..at + 2 + n]), at + 2 + n))
    }
}

/// Items with a fixed part of `fixed` bytes whose last two are a 12-bit loop length.
pub fn items_at(b: &[u8], mut at: usize, end: usize, fixed: usize) -> Vec<(Vec<u8>, Vec<D>, usize)> {
    let mut v = Vec::new();
    while at + fixed <= end {
        match dloop_at(b, at + fixed - 2, end) {
            Ok((d, next)) => {
                v.push((b[at..at + fixed].to_vec(), d, next));
                at = next;
            }
            Err(_) => break,
        }
    }
    v
}
