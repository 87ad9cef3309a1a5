//! C15: malformed sections with a right checksum.
use mc::engine::{hex, run, Ctx, R};
use mc::spec::desc::{decode_loop, same_list, zoo, D};
use mc::spec::table::{dloop_at, items_at, want, Eit, Event, Nit, Pat, Pmt, Sdt, Service, Tot};
use mc::spec::{be, crc_fast, psi_of, Put};
use mpegts::psi::{self as m, Descriptors, PsiDemux};

const KINDS: usize = 6;

/// Corrects length and checksum of a section.
fn seal(mut s: Vec<u8>) -> Vec<u8> {
    let n = s.len() - 3;
    assert!(n < 4096 && s.len() >= 7, "model: section");
    s[1] = s[1] & 0xF0 | (n >> 8) as u8;
    s[2] = n as u8;
    s.truncate(n + 3 - 4);
    let c = crc_fast(&s);
    s.p32(c as usize);
    s
}

/// Adds length and checksum to a section body.
fn complete(mut s: Vec<u8>) -> Vec<u8> {
    s.extend_from_slice(&[0; 4]);
    seal(s)
}

/// Seconds of a BCD time when all digits are valid.
fn clock(b: &[u8], hours: u64) -> Option<u64> {
    let mut v = [0; 3];
    for i in 0..3 {
        let (h, l) = (u64::from(b[i] >> 4), u64::from(b[i] & 15));
        if h > 9 || l > 9 {
            return None;
        }
        v[i] = h * 10 + l;
    }
    if v[0] < hours && v[1] < 60 && v[2] < 60 {
        Some(v[0] * 3600 + v[1] * 60 + v[2])
    } else {
        None
    }
}

fn utc(b: &[u8]) -> Option<u64> {
    let day = be(&b[..2]) as u64;
    if day < 40587 {
        return None;
    }
    Some((day - 40587) * 86400 + clock(&b[2..5], 24)?)
}

fn outer(got: &Descriptors, all: Result<&[D], &[D]>) -> R {
    match all {
        Ok(d) => same_list(d, got),
        // a loop longer than the section: nothing that is not there
        Err(d) => {
            if got.len() > d.len() {
                return Err(format!("{} descriptors from a section with {}", got.len(), d.len()));
            }
            same_list(&d[..got.len()], got)
        }
    }
}

/// Everything else one can do with a parsed table.
fn use_it<T: PsiDemux + std::fmt::Debug>(t: &T, d: &[&Descriptors]) -> R {
    let s = format!("{:?}", t);
    if s.is_empty() {
        return Err("formats to nothing".to_string());
    }
    for d in d {
        let c = (*d).clone();
        let (mut a, mut b) = (Vec::new(), Vec::new());
        d.assemble(&mut a);
        c.assemble(&mut b);
        want("encoding of a clone", &b, &a)?;
    }
    let mut cc = 7;
    let mut out = Vec::new();
    t.demux(0x123, &mut cc, &mut out);
    want("partial packet", out.len() % 188, 0)?;
    let _ = t.psi_list_assemble();
    Ok(())
}

/// Parses a section and compares with what it contains. `deep`: also use the result.
fn check(c: &mut Ctx, kind: usize, s: &[u8], deep: bool) -> R {
    c.call(if deep { 6 } else { 1 });
    judge(kind, s, deep).map_err(|e| format!("section {}: {}", hex(s), e))
}

fn judge(kind: usize, s: &[u8], deep: bool) -> R {
    let psi = psi_of(s);
    let end = s.len() - 4;
    let min = [12, 16, 15, 16, 18, 14][kind];
    let short = s.len() < min;
    let version = || (s[5] & 0x3E) >> 1;
    match kind {
        0 => {
            let t = m::Pat::from(&psi);
            if short {
                return want("items", t.items.len(), 0);
            }
            let n = (end - 8) / 4;
            want("tsid", t.tsid as usize, be(&s[3..5]))?;
            want("version", t.version, version())?;
            want("items", t.items.len(), n)?;
            for (i, x) in t.items.iter().enumerate() {
                want("program", x.pnr as usize, be(&s[8 + i * 4..10 + i * 4]))?;
                want("PID", x.pid as usize, be(&s[10 + i * 4..12 + i * 4]) & 0x1FFF)?;
            }
            if deep {
                use_it(&t, &[])?;
            }
        }
        1 => {
            let t = m::Pmt::from(&psi);
            if short {
                return want("items", t.items.len(), 0);
            }
            want("program", t.pnr as usize, be(&s[3..5]))?;
            want("version", t.version, version())?;
            want("clock PID", t.pcr as usize, be(&s[8..10]) & 0x1FFF)?;
            match dloop_at(s, 10, end) {
                Err(d) => {
                    outer(&t.descriptors, Err(&d))?;
                    want("items", t.items.len(), 0)?;
                }
                Ok((d, at)) => {
                    outer(&t.descriptors, Ok(&d))?;
                    let v = items_at(s, at, end, 5);
                    want("items", t.items.len(), v.len())?;
                    for (x, (f, d, _)) in t.items.iter().zip(&v) {
                        want("type", x.stream_type, f[0])?;
                        want("PID", x.pid as usize, be(&f[1..3]) & 0x1FFF)?;
                        same_list(d, &x.descriptors)?;
                    }
                }
            }
            if deep {
                for x in &t.items {
                    let _ = x.get_stream_type();
                }
                let d: Vec<&Descriptors> = Some(&t.descriptors).into_iter().chain(t.items.iter().map(|x| &x.descriptors)).collect();
                use_it(&t, &d)?;
            }
        }
        2 => {
            let t = m::Sdt::from(&psi);
            if short {
                return want("items", t.items.len(), 0);
            }
            want("table id", t.table_id, s[0])?;
            want("tsid", t.tsid as usize, be(&s[3..5]))?;
            want("version", t.version, version())?;
            want("onid", t.onid as usize, be(&s[8..10]))?;
            let v = items_at(s, 11, end, 5);
            want("items", t.items.len(), v.len())?;
            for (x, (f, d, _)) in t.items.iter().zip(&v) {
                want("service", x.pnr as usize, be(&f[..2]))?;
                want("flags", [x.eit_schedule_flag, x.eit_present_following_flag], [f[2] >> 1 & 1, f[2] & 1])?;
                want("status", [x.running_status, x.free_ca_mode], [f[3] >> 5, f[3] >> 4 & 1])?;
                same_list(d, &x.descriptors)?;
            }
            if deep {
                let d: Vec<&Descriptors> = t.items.iter().map(|x| &x.descriptors).collect();
                use_it(&t, &d)?;
            }
        }
        3 => {
            let t = m::Nit::from(&psi);
            if short {
                return want("items", t.items.len(), 0);
            }
            want("table id", t.table_id, s[0])?;
            want("network", t.network_id as usize, be(&s[3..5]))?;
            want("version", t.version, version())?;
            match dloop_at(s, 8, end) {
                Err(d) => {
                    outer(&t.descriptors, Err(&d))?;
                    want("items", t.items.len(), 0)?;
                }
                Ok((d, at)) if at + 2 > end => {
                    // no room for the length of the loop of transport streams
                    outer(&t.descriptors, Err(&d))?;
                    want("items", t.items.len(), 0)?;
                }
                Ok((d, at)) => {
                    outer(&t.descriptors, Ok(&d))?;
                    let v = items_at(s, at + 2, end, 6);
                    // the length of the loop of transport streams may be honoured or not
                    let inner = at + 2 + (be(&s[at..at + 2]) & 0xFFF);
                    let other = if inner < end { items_at(s, at + 2, inner, 6) } else { v.clone() };
                    let v = if t.items.len() == v.len() { v } else { other };
                    want("items", t.items.len(), v.len())?;
                    for (x, (f, d, _)) in t.items.iter().zip(&v) {
                        want("tsid", x.tsid as usize, be(&f[..2]))?;
                        want("onid", x.onid as usize, be(&f[2..4]))?;
                        same_list(d, &x.descriptors)?;
                    }
                }
            }
            if deep {
                let d: Vec<&Descriptors> = Some(&t.descriptors).into_iter().chain(t.items.iter().map(|x| &x.descriptors)).collect();
                use_it(&t, &d)?;
            }
        }
        4 => {
            let t = m::Eit::from(&psi);
            if short {
                return want("items", t.items.len(), 0);
            }
            want("table id", t.table_id, s[0])?;
            want("service", t.pnr as usize, be(&s[3..5]))?;
            want("version", t.version, version())?;
            want("tsid", t.tsid as usize, be(&s[8..10]))?;
            want("onid", t.onid as usize, be(&s[10..12]))?;
            let v = items_at(s, 14, end, 12);
            want("items", t.items.len(), v.len())?;
            for (x, (f, d, _)) in t.items.iter().zip(&v) {
                want("event", x.event_id as usize, be(&f[..2]))?;
                if let Some(u) = utc(&f[2..7]) {
                    want("start", x.start, u)?;
                }
                if let Some(u) = clock(&f[7..10], 100) {
                    want("duration", u64::from(x.duration), u)?;
                }
                want("status", [x.status, x.ca_mode], [f[10] >> 5, f[10] >> 4 & 1])?;
                same_list(d, &x.descriptors)?;
            }
            if deep {
                for x in &t.items {
                    let y = x.clone();
                    want("clone", format!("{:?}", y), format!("{:?}", x))?;
                }
                let d: Vec<&Descriptors> = t.items.iter().map(|x| &x.descriptors).collect();
                use_it(&t, &d)?;
            }
        }
        _ => {
            let t = m::Tot::from(&psi);
            if short {
                return want("descriptors", t.descriptors.len(), 0);
            }
            if let Some(u) = utc(&s[3..8]) {
                want("time", t.time, u)?;
            }
            match dloop_at(s, 8, end) {
                Err(d) => outer(&t.descriptors, Err(&d))?,
                Ok((d, _)) => outer(&t.descriptors, Ok(&d))?,
            }
            if deep {
                use_it(&t, &[&t.descriptors])?;
            }
        }
    }
    Ok(())
}

/// Well-formed sections the spaces start from, with the offsets of their
/// 12-bit length fields.
fn bases() -> Vec<(usize, Vec<u8>, Vec<usize>)> {
    let z = zoo();
    let d = |l: &[usize]| -> Vec<D> { l.iter().map(|&i| z[i].clone()).collect() };
    let mut out = Vec::new();
    let mut put = |kind: usize, s: Vec<u8>, first: &[usize], items: Option<usize>| {
        let end = s.len() - 4;
        let mut at: Vec<usize> = first.to_vec();
        if let Some(fixed) = items {
            let mut i = match kind {
                1 => dloop_at(&s, 10, end).unwrap().1,
                3 => dloop_at(&s, 8, end).unwrap().1 + 2,
                2 => 11,
                _ => 14,
            };
            if kind == 3 {
                at.push(i - 2);
            }
            for (_, _, next) in items_at(&s, i, end, fixed) {
                at.push(i + fixed - 2);
                i = next;
            }
        }
        out.push((kind, s, at));
    };
    put(0, Pat { version: 1, tsid: 2, items: vec![(0, 16), (1, 100), (2, 8190)] }.section(0, 0), &[], None);
    put(1, Pmt { version: 4, pnr: 5, pcr: 6, desc: d(&[0]), items: vec![(2, 0x100, d(&[10])), (4, 0x101, d(&[1, 2])), (6, 0x102, vec![])] }.section(0, 0), &[10], Some(5));
    put(1, Pmt { version: 4, pnr: 5, pcr: 6, desc: vec![], items: vec![(6, 0x1FFF, d(&[15, 16]))] }.section(0, 1), &[10], Some(5));
    let svc = |pnr, desc| Service { pnr, schedule: 1, following: 1, running: 7, ca: 1, desc };
    put(2, Sdt { table_id: 0x42, version: 7, tsid: 8, onid: 9, items: vec![svc(1, d(&[7])), svc(2, vec![]), svc(3, d(&[13]))] }.section(0, 0), &[], Some(5));
    put(3, Nit { table_id: 0x40, version: 3, nid: 4, desc: d(&[3]), items: vec![(1, 2, d(&[5])), (3, 4, d(&[4, 6])), (5, 6, vec![])] }.section(0, 0), &[8], Some(6));
    put(3, Nit { table_id: 0x41, version: 3, nid: 4, desc: vec![], items: vec![(1, 2, d(&[12]))] }.section(0, 0), &[8], Some(6));
    let ev = |id, start, desc| Event { id, start, duration: 5400, status: 4, ca: 1, desc };
    put(4, Eit { table_id: 0x4E, version: 1, pnr: 2, tsid: 3, onid: 4, items: vec![ev(1, 1_600_000_000, d(&[8])), ev(2, 1_600_005_400, d(&[9]))] }.section(0, 0), &[], Some(12));
    put(4, Eit { table_id: 0x50, version: 1, pnr: 2, tsid: 3, onid: 4, items: vec![ev(1, 1_599_955_200, vec![]), ev(2, 1_600_005_400, vec![]), ev(3, 1_600_015_400, d(&[10]))] }.section(0, 0), &[], Some(12));
    put(5, Tot { time: 1_600_000_000, desc: d(&[11]) }.section(), &[8], None);
    put(5, Tot { time: 0, desc: d(&[10, 14]) }.section(), &[8], None);
    out
}

fn main() {
    run("C15", |r| {
        r.deepen();
        let thorough = r.thorough();
        let all = bases();
        let all = &all;
        let sets = || -> Vec<u8> { (0..=255).collect() };
        r.explore("every value of every loop length, pairs", |c| {
            let (kind, s, at) = &all[c.pick(all.len())];
            if at.is_empty() {
                return check(c, *kind, s, true);
            }
            let a = at[c.pick(at.len())];
            let b = at[c.pick(at.len())];
            let hi = c.pick(16);
            for lo in 0..256 {
                let v = hi * 256 + lo;
                // the other length: unchanged or any value around the section size
                let others: Vec<usize> = if a == b { vec![0] } else { (0..=if hi == 0 { s.len() } else { 8 }).collect() };
                for o in others {
                    let mut x = s.clone();
                    if a != b {
                        x[b] = x[b] & 0xF0;
                        x[b + 1] = o as u8;
                    }
                    x[a] = x[a] & 0xF0 | hi as u8;
                    x[a + 1] = lo as u8;
                    check(c, *kind, &seal(x), v < 300 && (a == b || o % 5 == 0))?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("every value of every byte", |c| {
            let (kind, s, _) = &all[c.pick(all.len())];
            let i = c.range(3, s.len() - 5);
            for v in sets() {
                let mut x = s.clone();
                x[i] = v;
                check(c, *kind, &seal(x), true)?;
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("pairs of bytes", |c| {
            let (kind, s, _) = &all[c.pick(all.len())];
            let i = c.range(3, s.len() - 5);
            let values: &[u8] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 8, 12, 13, 0x10, 0x20, 0x40, 0x43, 0x48, 0x4E, 0x58, 0x7F, 0x80, 0x9F, 0xF0, 0xFE, 0xFF] } else { &[0, 1, 2, 3, 5, 9, 0x10, 0x4E, 0x7F, 0xF0, 0xFF] };
            let v = c.of(values);
            let mut x = s.clone();
            x[i] = v;
            for j in i + 1..s.len() - 4 {
                let old = x[j];
                for &w in values {
                    x[j] = w;
                    check(c, *kind, &seal(x.clone()), j % 3 == 0 || thorough)?;
                    c.bulk(1);
                }
                x[j] = old;
            }
            Ok(())
        });
        r.explore("every truncation, with every value of the last bytes", |c| {
            let (kind, s, _) = &all[c.pick(all.len())];
            let n = c.range(3, s.len() - 4);
            let v = c.pick(256) as u8;
            for (a, b) in [(v, None), (v, Some(v)), (v, Some(!v)), (0xF0, Some(v)), (0, Some(v))] {
                let mut x = s[..n].to_vec();
                // bytes after the cut
                x.push(a);
                if let Some(b) = b {
                    x.push(b);
                }
                check(c, *kind, &complete(x), v < 16)?;
                c.bulk(1);
            }
            check(c, *kind, &complete(s[..n].to_vec()), true)
        });
        r.explore("arbitrary bodies over an alphabet", |c| {
            let kind = c.pick(KINDS);
            let head = [8usize, 10, 11, 8, 14, 8][kind];
            let id = [0x00u8, 0x02, 0x42, 0x40, 0x50, 0x73][kind];
            let alphabet: &[u8] = if thorough { &[0, 1, 2, 5, 6, 12, 0x52, 0xF0, 0xFF] } else { &[0, 1, 2, 5, 0x52, 0xF0, 0xFF] };
            let n = c.range(0, if thorough { 8 } else { 7 });
            let mut b: Vec<u8> = (0..n.min(3)).map(|_| c.of(alphabet)).collect();
            b.resize(n, 0);
            let rest = n - n.min(3);
            let total = alphabet.len().pow(rest as u32);
            let mut x = vec![id, 0xB0, 0, 0x12, 0x34, 0xC5, 0, 0];
            x.resize(head, 0xFF);
            if kind == 5 {
                // date and time of a TOT
                x[3..8].copy_from_slice(&[0xE7, 0x00, 0x12, 0x00, 0x00]);
            }
            for i in 0..total {
                let mut k = i;
                for y in &mut b[n - rest..] {
                    *y = alphabet[k % alphabet.len()];
                    k /= alphabet.len();
                }
                check(c, kind, &complete([&x[..], &b[..]].concat()), i % 16 == 0)?;
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("events of any date, time and duration bytes", |c| {
            let hi = c.pick(256) as u8;
            for lo in 0..=255u8 {
                for (date, time, dur) in [
                    ([hi, lo], [0x12, 0x34, 0x56], [0x01, 0x30, 0x00]),
                    ([hi, lo], [0xFF; 3], [0xFF; 3]),
                    ([0xE0, 0x00], [hi, lo, 0x59], [0x00, hi, lo]),
                    ([0xFF, 0xFF], [0x23, hi, lo], [hi, lo, 0x00]),
                    ([0x00, 0x00], [lo, 0x59, hi], [hi, 0x00, lo]),
                ] {
                    for id in [0x4E, 0x50] {
                        let mut x = vec![id, 0xF0, 0, 0, 1, 0xC1, 0, 0, 0, 2, 0, 3, 0, id, 0, 9];
                        x.extend_from_slice(&date);
                        x.extend_from_slice(&time);
                        x.extend_from_slice(&dur);
                        x.extend_from_slice(&[0x80, 0]);
                        check(c, 4, &complete(x), true)?;
                        c.bulk(1);
                    }
                }
                let mut x = vec![0x73, 0x70, 0, hi, lo, lo, hi, 0x59, 0xF0, 0];
                check(c, 5, &complete(x.clone()), true)?;
                x[5..8].copy_from_slice(&[0x23, hi, lo]);
                check(c, 5, &complete(x), true)?;
                c.bulk(2);
            }
            Ok(())
        });
        r.explore("schedules of events with hostile dates", |c| {
            let dates = [[0u8, 0], [0x9E, 0x8A], [0x9E, 0x8B], [0xE0, 0x00], [0xE0, 0x01], [0xFF, 0xFF]];
            let times = [[0u8, 0, 0], [0x02, 0x59, 0x59], [0x23, 0x59, 0x59], [0x99, 0x99, 0x99], [0xFF, 0xFF, 0xFF]];
            let durs = [[0u8, 0, 0], [0x03, 0, 0], [0x99, 0x59, 0x59], [0xFF, 0xFF, 0xFF]];
            let id = c.of(&[0x4Eu8, 0x4F, 0x50, 0x5F, 0x60, 0x6F]);
            let k = c.range(1, if thorough { 4 } else { 3 });
            let mut x = vec![id, 0xF0, 0, 0, 1, 0xC1, 0, 0, 0, 2, 0, 3, 0, id];
            let mut key = vec![id];
            for i in 0..k {
                x.extend_from_slice(&[0, i as u8]);
                x.extend_from_slice(&c.of(&dates));
                x.extend_from_slice(&c.of(&times));
                x.extend_from_slice(&durs[(i + x[17] as usize) % 4]);
                x.extend_from_slice(&[0x80, 0]);
            }
            key.extend_from_slice(&x);
            c.state(&key);
            check(c, 4, &complete(x), true)
        });
        r.explore("every section size", |c| {
            let kind = c.pick(KINDS);
            let id = [0x00u8, 0x02, 0x42, 0x40, 0x4E, 0x73][kind];
            let fill = c.pick(5);
            let hi = c.pick(256);
            for n in (hi * 16).max(8)..hi * 16 + 16 {
                if n > 4096 - 2 {
                    continue;
                }
                let mut x = vec![id, 0xB0, 0];
                x.resize(n - 4, 0);
                for (i, b) in x[3..].iter_mut().enumerate() {
                    *b = match fill {
                        0 => 0,
                        1 => 0xFF,
                        2 => 1,
                        3 => (i * 7) as u8,
                        _ => [0u8, 0, 0, 0xF0, 8][i % 5],
                    };
                }
                check(c, kind, &complete(x), n % 4 == 0 || n < 1100)?;
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("sections of the largest sizes whose loops fill them", |c| {
            let kind = c.range(1, 5);
            let n = c.of(&[1000usize, 1020, 1021, 1022, 1023, 1024, 1025, 2000, 4000, 4090, 4093, 4094, 4095, 4096]);
            let skew = c.range(0, 8);
            let mut x: Vec<u8> = match kind {
                1 => vec![0x02, 0xB0, 0, 0, 1, 0xC1, 0, 0, 0xE1, 0],
                2 => vec![0x42, 0xF0, 0, 0, 1, 0xC1, 0, 0, 0, 2, 0xFF, 0, 3, 0xFF],
                3 => vec![0x40, 0xF0, 0, 0, 1, 0xC1, 0, 0],
                4 => vec![0x4E, 0xF0, 0, 0, 1, 0xC1, 0, 0, 0, 2, 0, 3, 0, 0x4E, 0, 9, 0xE0, 0, 0x12, 0, 0, 1, 0, 0],
                _ => vec![0x73, 0x70, 0, 0xE0, 0, 0x12, 0, 0],
            };
            // loop length around what fits
            let fit = n - 4 - x.len() - 2;
            let v = (fit + skew).saturating_sub(4);
            x.p16(0xF000 | (v & 0xFFF));
            let mut i = 0u8;
            while x.len() < n - 4 {
                let left = n - 4 - x.len();
                if left < 2 {
                    x.push(0);
                    break;
                }
                let k = (left - 2).min(200);
                x.push([0x80u8, 0x09, 0x40, 0x83][i as usize % 4]);
                x.push(k as u8);
                x.extend((0..k).map(|j| 0x20 + (j as u8 ^ i) % 0x5F));
                i += 1;
            }
            c.state(&x);
            if x.len() + 4 > 4098 {
                return Ok(());
            }
            check(c, kind, &complete(x), true)
        });
        r.explore("descriptor loops of items, any outer length", |c| {
            let kind = c.of(&[1usize, 2, 3, 4, 5]);
            let z = zoo();
            let i = c.pick(z.len());
            let j = c.pick(z.len());
            let l = [z[i].encode(), z[j].encode()].concat();
            let mut x: Vec<u8> = match kind {
                1 => vec![0x02, 0xB0, 0, 0, 1, 0xC1, 0, 0, 0xE1, 0, 0xF0, 0, 2, 0xE1, 0],
                2 => vec![0x42, 0xF0, 0, 0, 1, 0xC1, 0, 0, 0, 2, 0xFF, 0, 3, 0xFF],
                3 => vec![0x40, 0xF0, 0, 0, 1, 0xC1, 0, 0, 0xF0, 0, 0xF0, 0, 0, 1, 0, 2],
                4 => vec![0x4E, 0xF0, 0, 0, 1, 0xC1, 0, 0, 0, 2, 0, 3, 0, 0x4E, 0, 9, 0xE0, 0, 0x12, 0, 0, 1, 0, 0],
                _ => vec![0x73, 0x70, 0, 0xE0, 0, 0x12, 0, 0],
            };
            let at = x.len();
            x.p16(0xF000);
            x.extend_from_slice(&l);
            x.extend_from_slice(&[0x52, 1, 9]);
            // a second item
            x.extend_from_slice(&[0, 4, 0xE0, 0xF0, 0, 0x52, 1, 3]);
            for v in 0..x.len() {
                let mut y = x.clone();
                y[at + 1] = v as u8;
                check(c, kind, &complete(y), true)?;
                c.bulk(1);
            }
            debug_assert!(decode_loop(&l).len() == 2);
            Ok(())
        });
    })
}
