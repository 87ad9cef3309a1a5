//! C35: no call influences another.
use mc::engine::{run, R};
use mc::spec::any::{fresh, models, Model};
use mc::spec::desc::{encode_all, real, same_list, zoo, T, TABLES, UTF8};
use mc::spec::io::Source;
use mc::spec::table::{feed, want, Nit, Pmt};
use mc::spec::{any_section, crc, psi_of, time, ts};
use mpegts::bytes::Bytes;
use mpegts::psi::{crc32b, BCDTime, Descriptors, MJDFrom, MJDTo, Psi, PsiDemux, BCD};
use mpegts::reader::{TsDrain, TsRead, TsReader};
use mpegts::textcode::{lang, StringDVB};
use std::io::Read;

struct Op {
    name: String,
    run: Box<dyn Fn() -> R + Sync + Send>,
}

/// Single calls with what the specification says they give. Neighbours in the
/// list are alike: equal length, equal ends, equal beginning.
fn catalogue() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    let mut add = |name: String, run: Box<dyn Fn() -> R + Sync + Send>| v.push(Op { name, run });

    // checksums
    let long = any_section(100, 1)[..100].to_vec();
    let mut other = long.clone();
    other[50] ^= 0x40;
    let mut strings = vec![vec![], vec![0], b"123456789".to_vec(), b"123459789".to_vec(), b"1234567890".to_vec(), long.clone(), other];
    strings.push(long[..99].to_vec());
    for s in strings {
        let c = crc(&s);
        add(format!("checksum of {} bytes", s.len()), Box::new(move || want("checksum", crc32b(&s[..]), c)));
    }

    // languages
    for (a, b) in [("en", Some("eng")), ("eng", Some("en")), ("de", Some("ger")), ("deu", Some("de")), ("ger", Some("de")), ("tat", Some("tt")), ("cat", Some("ca")), ("xat", None), ("xx", None), ("", None)] {
        add(format!("language {:?}", a), Box::new(move || want("language", lang::convert(a), b)));
    }

    // texts
    let bytes: [(u8, &[u8]); 11] = [
        (0, b"Text"), (5, b"Text"), (5, &[0xBF, 0xE0, 0xD8]), (9, &[0xBF, 0xE0, 0xD8]), (1, &[0xBF, 0xE0, 0xD8]), (2, &[0xBF, 0xE0, 0xD8]),
        (0, &[0x41, 0xE0, 0xFF]), (21, "Приз".as_bytes()), (21, "Прим".as_bytes()), (15, &[0xA4]), (1, &[0xA4]),
    ];
    for (cp, b) in bytes {
        let t = T::new(cp, b);
        let u = t.clone();
        add(format!("reading a text of table {}", cp), Box::new(move || {
            let s = u.real();
            u.same("text", &s)?;
            want("displayed", s.to_string(), u.text())?;
            want("size", s.size(), u.wire().len())
        }));
        add(format!("encoding a text in table {}", cp), Box::new(move || {
            let text = t.text();
            if text.contains('?') {
                return Ok(());
            }
            let s = StringDVB::from_str(&text, t.cp);
            t.same("text", &s)?;
            let mut out = vec![1];
            s.assemble_sized(&mut out);
            want("wire form", &out[2..], &t.wire()[..])
        }));
    }
    for cp in TABLES {
        add(format!("an unknown character in table {}", cp), Box::new(move || {
            let s = StringDVB::from_str("A\u{4e00}B", cp);
            want("text", s.to_string(), if cp == UTF8 { "A\u{4e00}B" } else { "A?B" }.to_string())
        }));
        add(format!("letters in table {}", cp), Box::new(move || {
            let s = StringDVB::from_str("letters", cp);
            want("table", s.get_codepage(), cp)?;
            want("text", s.to_string(), "letters".to_string())
        }));
    }
    for cp in [12u8, 16, 255] {
        add(format!("no table {}", cp), Box::new(move || {
            let s = StringDVB::from_str("é\u{4e00}", cp);
            want("table", s.get_codepage(), UTF8)?;
            want("text", s.to_string(), "é\u{4e00}".to_string())
        }));
    }
    for (n, pieces) in [(5usize, vec!["abcde", "fghij", "kl"]), (6, vec!["abcdef", "ghijkl"]), (12, vec!["abcdefghijkl"])] {
        add(format!("splitting by {}", n), Box::new(move || {
            let got: Vec<String> = StringDVB::from_str("abcdefghijkl", 0).split(n).iter().map(|p| p.to_string()).collect();
            want("pieces", got, pieces.iter().map(|p| p.to_string()).collect())
        }));
        add(format!("truncating to {}", n), Box::new(move || {
            let mut s = StringDVB::from_str("abcdefghijkl", 5);
            s.truncate(n);
            want("text", s.to_string(), if n == 12 { "abcdefghijkl".to_string() } else { format!("{}...", &"abcdefghijkl"[..n - 3]) })
        }));
    }

    // numbers and dates
    for (a, b) in [(0u32, 0u32), (12_345_678, 0x1234_5678), (12_345_687, 0x1234_5687), (99, 0x99)] {
        add(format!("decimal {}", a), Box::new(move || {
            want("coded", a.to_bcd(), b)?;
            want("decoded", b.from_bcd(), a)
        }));
    }
    for s in [0u32, 3661, 86399, 43200] {
        add(format!("time of day {}", s), Box::new(move || {
            want("coded", s.to_bcd_time().from_bcd_time(), s)?;
            let m = (s / 60) as u16;
            want("minutes", m.to_bcd_time().from_bcd_time(), m)
        }));
    }
    for d in [0u64, 1, 11_016, 24_948] {
        add(format!("day {}", d), Box::new(move || {
            let m = time::mjd(d) as u16;
            want("day number", (d * 86400).to_mjd(), m)?;
            want("midnight", m.from_mjd(), d * 86400)
        }));
    }
    for k in 0..3usize {
        add(format!("field {}", k), Box::new(move || {
            let mut b = [0xA5u8; 8];
            b[k..].set_u24(0x12_3456);
            b[k + 3..].set_u16(0x789A);
            want("24 bits", b[k..].get_u24(), 0x12_3456)?;
            want("32 bits", b[k..].get_u32(), 0x1234_5678)?;
            want("16 bits", b[k + 3..].get_u16(), 0x789A)
        }));
    }

    // clocks and timestamps
    for pcr in [0u64, 1, 299, 300, 2_576_980_377_599, 1_234_567_890_123] {
        add(format!("clock {}", pcr), Box::new(move || {
            let mut p = ts::packet(0x100, 0, false, Some(20), &[0; 163]);
            p[5] = 0x10;
            mpegts::ts::set_pcr(&mut p, pcr);
            want("present", mpegts::ts::is_pcr(&p), true)?;
            want("clock", mpegts::ts::get_pcr(&p), pcr)?;
            want("difference", mpegts::ts::pcr_delta(pcr / 2, pcr), pcr - pcr / 2)?;
            want("jitter", mpegts::ts::pcr_jitter_ns(pcr, pcr), 0)?;
            want("microseconds", mpegts::ts::pcr_to_us(pcr), pcr / 27)
        }));
    }
    for pts in [0u64, 0x1_FFFF_FFFF, 0x1_2345_6789] {
        add(format!("timestamp {}", pts), Box::new(move || {
            let mut p = vec![0, 0, 1, 0xE0, 0, 0, 0x80, 0xC0, 10];
            for v in [pts, !pts & 0x1_FFFF_FFFF] {
                p.extend_from_slice(&[0x21 | (v >> 29) as u8 & 0x0E, (v >> 22) as u8, (v >> 14) as u8 | 1, (v >> 7) as u8, (v << 1) as u8 | 1]);
            }
            want("presentation", mpegts::es::pes::get_pts(&p), pts)?;
            want("decoding", mpegts::es::pes::get_dts(&p), !pts & 0x1_FFFF_FFFF)?;
            want("offset", mpegts::es::pes::get_payload_offset(&p), 19)?;
            want("difference", mpegts::es::pes::pts_delta(pts, pts), 0)
        }));
    }

    // sections
    for n in [8usize, 183, 184, 600, 601] {
        let s = any_section(n, n as u8);
        let t = s.clone();
        add(format!("building a section of {} bytes", n), Box::new(move || {
            let mut p = Psi::new(t[0], 3, 0);
            p.buffer[1] = t[1] & 0xF0;
            p.buffer.extend_from_slice(&t[3..t.len() - 4]);
            p.finalize();
            want("section", &p.buffer[..], &t[..])?;
            p.pid = 0x123;
            p.cc = 9;
            let mut out = Vec::new();
            p.demux(&mut out);
            want("packetised", ts::depacketise(&out, 0x123, 9)?.0, vec![t.clone()])
        }));
        let (pk, _) = ts::pack(0x77, 14, &[s.clone()], &[true], |_| None);
        add(format!("receiving a section of {} bytes", n), Box::new(move || {
            let mut p = Psi::default();
            for (i, k) in pk.iter().enumerate() {
                p.mux(k);
                want("complete", p.check(), i + 1 == pk.len())?;
            }
            want("section", &p.buffer[..p.size], &s[..])
        }));
    }
    let (x, y) = (any_section(50, 3), any_section(50, 4));
    add("comparing sections".into(), Box::new(move || {
        let (a, b) = (psi_of(&x), psi_of(&y));
        want("same", a == a.clone(), true)?;
        want("different", a == b, false)?;
        want("valid", a.check() && b.check(), true)
    }));

    // tables
    for (i, m) in models().into_iter().enumerate() {
        let s = m.section();
        let m2 = m.clone();
        let s2 = s.clone();
        add(format!("parsing table {}", i), Box::new(move || {
            let mut t = fresh(m.kind());
            t.parse(&psi_of(&s));
            m.same(&t)
        }));
        // schedules are split over sections in a way of their own
        if matches!(m2, Model::Eit(ref e) if e.table_id != 0x4E) {
            continue;
        }
        add(format!("emitting table {}", i), Box::new(move || {
            let (mut cc, mut out) = (i as u8 % 16, Vec::new());
            m2.real().demux(0x40 + i as u16, &mut cc, &mut out);
            want("sections", ts::depacketise(&out, 0x40 + i as u16, i as u8 % 16)?.0, vec![s2.clone()])
        }));
    }
    for d in zoo() {
        let b = d.encode();
        add(format!("descriptor {:02x} of {} bytes", b[0], b.len()), Box::new(move || {
            let l = [d.clone()];
            let mut out = Vec::new();
            let n = real(&l).assemble(&mut out);
            want("encoded", (n, &out[..]), (b.len(), &b[..]))?;
            let mut r = Descriptors::default();
            r.parse(&b);
            same_list(&l, &r)
        }));
    }

    // readers
    for k in 0..2usize {
        let data = stream(2 + k, k);
        add(format!("reading {} packets", 2 + k), Box::new(move || {
            let mut r = TsReader::new(Source { data: data.clone(), chunk: 100 + k, ..Source::default() });
            let mut got = Vec::new();
            let mut buf = [0u8; 188];
            while r.read(&mut buf).map_err(|e| e.to_string())? > 0 {
                got.extend_from_slice(&buf);
            }
            want("bytes", &got[..], &data[k..])
        }));
    }

    // what formatting shows must not depend on what was formatted before
    let mut p = ts::packet(0x1234, 7, true, Some(30), &[1; 153]);
    p[5] = 0x10;
    let mut q = p;
    q[9] ^= 1;
    for p in [p, q] {
        let first = format!("{:?}", mpegts::ts::TsPacket::new(&p));
        add("formatting a packet".into(), Box::new(move || want("shown", format!("{:?}", mpegts::ts::TsPacket::new(&p)), first.clone())));
    }
    v
}

/// `n` packets after `lead` bytes of no packet.
fn stream(n: usize, lead: usize) -> Vec<u8> {
    let mut v = vec![0x11; lead];
    for i in 0..n {
        v.extend_from_slice(&ts::packet(0x200 + i as u16, i as u8, false, None, &[(i * 3) as u8; 184]));
    }
    v
}

/// Uses of an object that take several calls. Every step checks what can be
/// seen after it.
const USES: usize = 8;
const STEPS: usize = 4;

fn start(k: usize, salt: usize) -> Box<dyn FnMut(usize) -> R> {
    match k {
        0 => {
            // reassembly of a section
            let s = any_section(700 + salt, salt as u8);
            let (pk, _) = ts::pack(0x77, 14, &[s.clone()], &[true], |_| None);
            let mut p = Psi::default();
            Box::new(move |i| {
                p.mux(&pk[i]);
                want("complete", p.check(), i == 3)?;
                if i == 3 {
                    want("section", &p.buffer[..p.size], &s[..])?;
                }
                Ok(())
            })
        }
        1 => {
            // packets from a source, 50 bytes at a time
            let data = stream(4, salt);
            let mut r = TsReader::new(Source { data: data.clone(), chunk: 50, ..Source::default() });
            Box::new(move |i| {
                let mut b = [0u8; 190];
                want("read", r.read(&mut b).map_err(|e| e.to_string())?, 188)?;
                want("packet", &b[..188], &data[salt + i * 188..][..188])
            })
        }
        2 => {
            // the adapter, by parts of packets
            let data = stream(4, salt);
            let mut r = TsDrain::new(TsReader::new(Source { data: data.clone(), ..Source::default() }));
            let mut got = Vec::new();
            Box::new(move |i| {
                while got.len() < 150 * (i + 1) {
                    let mut b = [0u8; 100];
                    let n = r.read(&mut b).map_err(|e| e.to_string())?;
                    if n == 0 {
                        return Err("end of stream".into());
                    }
                    got.extend_from_slice(&b[..n]);
                }
                want("bytes", &got[..], &data[salt..][..got.len()])
            })
        }
        3 => {
            // a table filled and emitted again and again
            let z = zoo();
            let mut m = Pmt { version: 3, pnr: 7 + salt as u16, pcr: 0x100, desc: vec![], items: vec![] };
            let mut t = m.real();
            let mut cc = salt as u8;
            let mut out = Vec::new();
            Box::new(move |i| {
                let item = (2u8, 0x100 + (i + salt) as u16, z[i..i + 2].to_vec());
                let mut one = Pmt { items: vec![item.clone()], ..Default::default() }.real();
                t.items.push(one.items.pop().unwrap());
                m.items.push(item);
                m.same(&t)?;
                let first = cc;
                out.clear();
                t.demux(0x99, &mut cc, &mut out);
                let (s, next) = ts::depacketise(&out, 0x99, first)?;
                want("counter", cc, next)?;
                m.emitted(&s)
            })
        }
        4 => {
            // a table parsed section by section
            let z = zoo();
            let parts: Vec<Nit> = (0..STEPS).map(|i| Nit { table_id: 0x40, version: 1, nid: 5 + salt as u16, desc: z[i..i + 1].to_vec(), items: vec![(i as u16, salt as u16, z[i + 1..i + 3].to_vec())] }).collect();
            let mut t = fresh(3);
            let mut m = mc::spec::any::empty(3);
            Box::new(move |i| {
                let x = Model::Nit(parts[i].clone());
                t.parse(&psi_of(&x.section()));
                m.add(&x);
                m.same(&t)
            })
        }
        5 => {
            // a list of descriptors, decoded onto and encoded
            let z = zoo();
            let mut l = Descriptors::default();
            let mut m = Vec::new();
            Box::new(move |i| {
                let d = &z[(i * 3 + salt) % z.len()];
                if i % 2 == 0 {
                    d.push(&mut l);
                } else {
                    l.parse(&d.encode());
                }
                m.push(d.clone());
                same_list(&m, &l)?;
                let w = encode_all(&m);
                let mut out = Vec::new();
                l.assemble(&mut out);
                want("size", l.size(), w.len())?;
                want("encoded", &out[..], &w[..])
            })
        }
        6 => {
            // a section built, finalised, edited and packetised
            let want_s = any_section(300 + salt, 9);
            let mut p = Psi::new(0, 3, 0);
            let mut out = Vec::new();
            Box::new(move |i| {
                match i {
                    0 => {
                        p = Psi::new(want_s[0], 3, 0);
                        p.buffer[1] = want_s[1] & 0xF0;
                        p.buffer.extend_from_slice(&want_s[3..want_s.len() - 4]);
                        p.buffer[100] ^= 0xFF;
                        p.pid = 0x321;
                    }
                    1 => {
                        p.finalize();
                        want("valid", p.check(), true)?;
                    }
                    2 => {
                        p.buffer[100] ^= 0xFF;
                        want("valid", p.check(), false)?;
                        p.finalize();
                        want("section", &p.buffer[..], &want_s[..])?;
                    }
                    _ => {
                        p.demux(&mut out);
                        want("packetised", ts::depacketise(&out, 0x321, 0)?.0, vec![want_s.clone()])?;
                    }
                }
                Ok(())
            })
        }
        _ => {
            // packets of two PIDs into two reassemblers
            let (a, b) = (any_section(300, 1 + salt as u8), any_section(300, 101 + salt as u8));
            let (x, _) = ts::pack(0x50, 0, &[a.clone()], &[true], |_| None);
            let (y, _) = ts::pack(0x51, 0, &[b.clone()], &[true], |_| None);
            let (mut p, mut q) = (Psi::default(), Psi::default());
            Box::new(move |i| {
                match i {
                    0 => p.mux(&x[0]),
                    1 => q.mux(&y[0]),
                    2 => p.mux(&x[1]),
                    _ => {
                        q.mux(&y[1]);
                        want("second", &q.buffer[..q.size], &b[..])?;
                    }
                }
                want("first complete", p.check(), i >= 2)?;
                want("second complete", q.check(), i >= 3)?;
                if i >= 2 {
                    want("first", &p.buffer[..p.size], &a[..])?;
                }
                Ok(())
            })
        }
    }
}

fn main() {
    let ops = catalogue();
    let ops = &ops;
    run("C35", |r| {
        r.assume("objects are used from one thread at a time");
        let depth = r.by(2, 3);
        r.explore("every sequence of calls", |c| {
            // the last call of the sequence in turn
            let seq: Vec<usize> = (0..depth).map(|_| c.pick(ops.len())).collect();
            c.log(|| seq.iter().map(|&i| ops[i].name.clone()).collect::<Vec<_>>().join(", "));
            for last in ops {
                for &i in &seq {
                    (ops[i].run)().map_err(|e| format!("{} in {:?}: {}", ops[i].name, seq.iter().map(|&i| &ops[i].name[..]).collect::<Vec<_>>(), e))?;
                }
                (last.run)().map_err(|e| format!("{} after {:?}: {}", last.name, seq.iter().map(|&i| &ops[i].name[..]).collect::<Vec<_>>(), e))?;
                c.call(depth as u64 + 1);
            }
            c.bulk(ops.len() as u64);
            c.sample(|| format!("{:?}, then each of {} calls", seq.iter().map(|&i| &ops[i].name[..]).collect::<Vec<_>>(), ops.len()));
            Ok(())
        });
        r.explore("a use of several calls with any two other calls between", |c| {
            let k = c.pick(USES);
            let g = c.pick(STEPS);
            let h = c.range(g, STEPS - 1);
            let a = c.pick(ops.len());
            for b in ops {
                let mut u = start(k, 1);
                for i in 0..STEPS {
                    if i == g {
                        (ops[a].run)().map_err(|e| format!("{} before step {} of use {}: {}", ops[a].name, i, k, e))?;
                    }
                    if i == h {
                        (b.run)().map_err(|e| format!("{} before step {} of use {}: {}", b.name, i, k, e))?;
                    }
                    u(i).map_err(|e| format!("step {} of use {} with {} before {} and {} before {}: {}", i, k, ops[a].name, g, b.name, h, e))?;
                }
                c.call(STEPS as u64 + 2);
            }
            c.bulk(ops.len() as u64);
            Ok(())
        });
        let uses = r.by(2, 3);
        r.explore("every interleaving of several uses", |c| {
            let kinds: Vec<usize> = (0..uses).map(|_| c.pick(USES)).collect();
            let mut u: Vec<_> = kinds.iter().enumerate().map(|(i, &k)| start(k, i)).collect();
            let mut at = vec![0usize; uses];
            let mut order = Vec::new();
            loop {
                let open: Vec<usize> = (0..uses).filter(|&i| at[i] < STEPS).collect();
                if open.is_empty() {
                    break;
                }
                let i = open[c.pick(open.len())];
                order.push(i);
                u[i](at[i]).map_err(|e| format!("uses {:?} in the order {:?}: {}", kinds, order, e))?;
                at[i] += 1;
                c.call(1);
            }
            c.state(&(&kinds, &order));
            c.sample(|| format!("uses {:?} in the order {:?}", kinds, order));
            Ok(())
        });
    })
}
