//! C16: the coding of each descriptor kind.
use mc::engine::{eq, run, R};
use mc::spec::desc::{encode_all, same_list, zoo, D, T, TABLES, UTF8};
use mc::spec::time::LAST_DAY;
use mpegts::constants as k;
use mpegts::psi::Descriptors;

/// Encodes and decodes one descriptor; returns the number of calls.
fn check(d: &D) -> Result<u64, String> {
    let want = d.encode();
    let mut l = Descriptors::default();
    d.push(&mut l);
    if l.size() != want.len() {
        return Err(format!("{:?}: size {}, expected {}", d, l.size(), want.len()));
    }
    let mut out = Vec::with_capacity(300);
    out.push(0xA5);
    let n = l.assemble(&mut out);
    if n != want.len() || out[0] != 0xA5 || out[1..] != want[..] {
        return Err(format!("{:?} encoded as {:02x?}, expected {:02x?}", d, &out[1..], want));
    }
    let mut b = Descriptors::default();
    b.parse(&want);
    let mut it = b.iter();
    match (it.next(), it.next()) {
        (Some(x), None) => d.same(x).map_err(|e| format!("{:02x?} decoded: {}", want, e))?,
        _ => return Err(format!("{:02x?} decoded to {} descriptors", want, b.len())),
    }
    Ok(3)
}

/// Text of `n` bytes in a table.
fn text(cp: u8, n: usize, salt: usize) -> T {
    let b: Vec<u8> = (0..n)
        .map(|i| if cp == UTF8 { 0x20 + ((i + salt) % 0x5F) as u8 } else { [0x20 + ((i * 7 + salt) % 0x5F) as u8, 0xA0 + ((i + salt) % 0x60) as u8][i & 1] })
        .collect();
    // text in the default table starts with a character of it
    let mut t = T { cp, b };
    if cp == 0 && n > 0 {
        t.b[0] = 0x41;
    }
    t
}

fn main() {
    run("C16", |r| {
        let thorough = r.thorough();
        r.explore("conditional access: every system, PID and data length", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let v = hi * 256 + lo;
                for pid in [0u16, 0x1FFF, (v % 8192) as u16] {
                    c.call(check(&D::X09 { caid: v as u16, pid, data: vec![hi as u8; v % 3] })?);
                }
                c.bulk(3);
            }
            if hi < 252 {
                for b in 0..=255u8 {
                    c.call(check(&D::X09 { caid: 0x1234, pid: 0x0ABC, data: vec![b; hi] })?);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("language: every code byte, audio type and count", |c| {
            let a = c.pick(256) as u8;
            for b in 0..=255u8 {
                for t in [a, b, 0, 255] {
                    for code in [[0x65, a, b], [a.max(0x20), b, 0x67], [b.max(0x20), 0x6E, a]] {
                        c.call(check(&D::X0A(vec![(code, t)]))?);
                        c.bulk(1);
                    }
                }
            }
            if a < 64 {
                let l = (0..a).map(|i| ([0x61 + i % 26, 0x62 + i % 5, 0x7A - i % 20], i)).collect();
                c.call(check(&D::X0A(l))?);
            }
            Ok(())
        });
        r.explore("maximum bitrate: every value", |c| {
            let hi = c.pick(1024) as u32;
            for lo in 0..4096 {
                c.call(check(&D::X0E(hi * 4096 + lo))?);
            }
            c.bulk(4096);
            Ok(())
        });
        r.explore("network name: every table, length and character", |c| {
            let cp = c.of(&TABLES);
            let max = 255 - text(cp, 1, 0).wire().len() + 1;
            for n in 0..=max {
                for salt in 0..4 {
                    c.call(check(&D::X40(text(cp, n, salt * 31)))?);
                    c.bulk(1);
                }
            }
            if cp != UTF8 {
                for a in 0x20..=0xFFu8 {
                    for b in 0..=0xFFu8 {
                        c.call(check(&D::X40(T::new(cp, &[a, b])))?);
                        c.bulk(1);
                    }
                }
            } else {
                for u in 0..0xFFFFu32 {
                    if let Some(x) = char::from_u32(u) {
                        c.call(check(&D::X40(T::new(cp, x.to_string().as_bytes())))?);
                        c.bulk(1);
                    }
                }
            }
            Ok(())
        });
        r.explore("service list: every id, type and count", |c| {
            let hi = c.pick(256);
            for lo in 0..256 {
                let v = hi * 256 + lo;
                for t in [0, lo as u8, 255] {
                    c.call(check(&D::X41(vec![(v as u16, t), (!v as u16, hi as u8)]))?);
                    c.bulk(1);
                }
            }
            if hi <= 85 {
                c.call(check(&D::X41((0..hi).map(|i| ((i * 771) as u16, i as u8)).collect()))?);
            }
            Ok(())
        });
        let step = 1usize;
        r.explore("satellite: every frequency", |c| {
            let hi = c.pick(10_000);
            let mut lo = hi % step;
            while lo < 10_000 {
                let freq = (hi * 10_000 + lo) as u32;
                c.call(check(&D::X43 { freq, orb: 192, we: 1, pol: 0, rof: 0, s2: 0, modu: 1, sr: 22000, fec: 4 })?);
                c.bulk(1);
                lo += step;
            }
            Ok(())
        });
        r.explore("satellite: every position, symbol rate and flag", |c| {
            let a = c.pick(1000);
            for b in 0..1000u32 {
                let v = a as u32 * 1000 + b;
                c.call(check(&D::X43 {
                    freq: v,
                    orb: (v % 10_000) as u16,
                    we: (b & 1) as u8,
                    pol: (a & 3) as u8,
                    rof: (b >> 1 & 3) as u8,
                    s2: (a >> 2 & 1) as u8,
                    modu: (b >> 3 & 3) as u8,
                    sr: v,
                    fec: (a >> 3 & 15) as u8,
                })?);
            }
            c.bulk(1000);
            Ok(())
        });
        r.explore("satellite: every combination of flags", |c| {
            let f = c.pick(256) as u8;
            let fec = c.pick(16) as u8;
            for freq in [0, 1, 99_999_999, 12_345_678] {
                for orb in [0, 1, 9999, 1800, 3599] {
                    for sr in [0, 1, 999_999, 123_456] {
                        let d = D::X43 { freq, orb, we: f >> 7, pol: f >> 5 & 3, rof: f >> 3 & 3, s2: f >> 2 & 1, modu: f & 3, sr, fec };
                        c.call(check(&d)?);
                        c.bulk(1);
                    }
                }
            }
            Ok(())
        });
        r.explore("cable: every frequency", |c| {
            let hi = c.pick(42_950) as u32;
            let mut lo = hi % step as u32;
            while lo < 1000 {
                let freq = hi * 1000 + lo;
                if freq <= 42_949_672 {
                    c.call(check(&D::X44 { freq, outer: 2, modu: 3, sr: 6875, fec: 15 })?);
                    c.bulk(1);
                }
                lo += step as u32;
            }
            Ok(())
        });
        r.explore("cable: every symbol rate, modulation and code", |c| {
            let a = c.pick(1000) as u32;
            for b in 0..1000u32 {
                let v = a * 1000 + b;
                c.call(check(&D::X44 { freq: v * 42, outer: (a % 16) as u8, modu: (v % 256) as u8, sr: v, fec: (b % 16) as u8 })?);
                c.bulk(1);
            }
            if a < 256 {
                for o in 0..256u32 {
                    for (freq, sr) in [(0, 0), (42_949_672, 999_999), (3_460_000, 6875)] {
                        c.call(check(&D::X44 { freq, outer: (o / 16) as u8, modu: a as u8, sr, fec: (o % 16) as u8 })?);
                        c.bulk(1);
                    }
                }
            }
            Ok(())
        });
        r.explore("service: every type, table and pair of lengths", |c| {
            let n = c.pick(253);
            let salt = n;
            for m in 0..=252 - n {
                for (a, b) in [(0u8, 0u8), (5, 0), (0, 21), (1, 9)] {
                    let d = D::X48 { ty: (n + m) as u8, provider: text(a, n, salt), name: text(b, m, salt + 7) };
                    if d.fits() {
                        c.call(check(&d)?);
                        c.bulk(1);
                    }
                }
            }
            for a in TABLES {
                for b in TABLES {
                    for (x, y) in [(0, 1), (1, 0), (3, 4)] {
                        c.call(check(&D::X48 { ty: n as u8, provider: text(a, x, n), name: text(b, y, n) })?);
                        c.bulk(1);
                    }
                }
            }
            Ok(())
        });
        r.explore("short event: every table and pair of lengths", |c| {
            let n = c.pick(251);
            let lang = [0x61 + (n % 26) as u8, 0x7A - (n % 26) as u8, 0x41 + (n % 26) as u8];
            for m in 0..=250 - n {
                for (a, b) in [(0u8, 0u8), (5, 0), (0, 21), (2, 13)] {
                    let d = D::X4D { lang, name: text(a, n, 1), text: text(b, m, 2) };
                    if d.fits() {
                        c.call(check(&d)?);
                        c.bulk(1);
                    }
                }
            }
            for a in TABLES {
                for b in TABLES {
                    for (x, y) in [(0, 1), (1, 0), (3, 4)] {
                        c.call(check(&D::X4D { lang, name: text(a, x, n), text: text(b, y, n) })?);
                        c.bulk(1);
                    }
                }
            }
            Ok(())
        });
        r.explore("extended event: numbers, items and lengths", |c| {
            let items = c.pick(5);
            let n = c.of(&[0usize, 1, 2, 20, 59]);
            let m = c.of(&[0usize, 1, 3, 25]);
            let (a, b) = c.of(&[(0u8, 0u8), (5, 0), (0, 21), (3, 10), (4, 14)]);
            for x in 0..=249 {
                let d = D::X4E {
                    num: (x % 16) as u8,
                    last: (x / 16) as u8,
                    lang: *b"ita",
                    items: (0..items).map(|i| (text(a, n + i, i), text(b, m * i, 9 - i))).collect(),
                    text: text(b, x, 3),
                };
                if d.fits() {
                    c.call(check(&d)?);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("extended event: every pair of item lengths and every item count", |c| {
            let n = c.pick(248);
            for m in 0..=247 - n {
                let d = D::X4E { num: 15, last: 15, lang: [0x71; 3], items: vec![(text(0, n, 1), text(0, m, 5))], text: T::default() };
                c.call(check(&d)?);
                c.bulk(1);
            }
            if n <= 124 {
                let d = D::X4E { num: 0, last: 9, lang: *b"spa", items: vec![(T::default(), T::default()); n], text: T::default() };
                if d.fits() {
                    c.call(check(&d)?);
                }
                let d = D::X4E { num: 3, last: 9, lang: *b"spa", items: vec![(text(0, 1, n), text(0, 1, n + 1)); n / 4], text: text(0, n, 0) };
                if d.fits() {
                    c.call(check(&d)?);
                }
            }
            Ok(())
        });
        r.explore("stream identifier: every value", |c| {
            let v = c.pick(256) as u8;
            c.call(check(&D::X52(v))?);
            c.bulk(1);
            Ok(())
        });
        r.explore("local time offset: every region, offset and count", |c| {
            let o = c.pick(1440) as u16;
            for region in 0..64u8 {
                for pol in 0..2 {
                    for next in [0, 59, 60, 1439, o, 1439 - o] {
                        c.call(check(&D::X58(vec![(*b"AUS", region, pol, o, 1_000_000_000 + u64::from(o) * 3607, next)]))?);
                        c.bulk(1);
                    }
                }
            }
            if o < 20 {
                let v = (0..o).map(|i| ([0x41 + i as u8, 0x5A, 0x20], i as u8, (i % 2) as u8, i * 71, u64::from(i) * 86_399, i * 70)).collect();
                c.call(check(&D::X58(v))?);
            }
            Ok(())
        });
        r.explore("local time offset: every date and time of day", |c| {
            let day = c.range(0, LAST_DAY as usize / 64) as u64 * 64;
            for d in day..(day + 64).min(LAST_DAY as u64 + 1) {
                for s in [0u64, 1, 59, 60, 3599, 3600, 35999, 36000, 86399] {
                    c.call(check(&D::X58(vec![(*b"GBR", 1, 0, 60, d * 86400 + s, 0)]))?);
                    c.bulk(1);
                }
                let s = d * 4 % 86400;
                for s in s..s + 4 {
                    c.call(check(&D::X58(vec![(*b"GBR", 1, 0, 60, d * 86400 + s % 86400, 0), (*b"IRL", 63, 1, 600, s % 86400, 1)]))?);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("terrestrial: every combination of fields", |c| {
            let b4 = c.pick(64) as u8;
            let b5 = c.pick(256) as u8;
            for b6 in 0..=255u8 {
                let f = [
                    b4 >> 3, b4 >> 2 & 1, b4 >> 1 & 1, b4 & 1,
                    b5 >> 6, b5 >> 3 & 7, b5 & 7,
                    b6 >> 5, b6 >> 3 & 3, b6 >> 1 & 3, b6 & 1,
                ];
                c.call(check(&D::X5A { freq: 47_400_000, f })?);
            }
            c.bulk(256);
            Ok(())
        });
        let step = r.by(4usize, 1);
        r.explore("terrestrial: every frequency", |c| {
            let hi = c.pick(65_536);
            for end in [hi as u32, 429_496_729 - hi as u32] {
                c.call(check(&D::X5A { freq: end, f: [0, 1, 1, 0, 1, 2, 3, 4, 3, 2, 0] })?);
                c.bulk(1);
            }
            let mut lo = hi % step;
            while lo < 6554 {
                let freq = hi * 6554 + lo;
                if freq <= 429_496_729 {
                    c.call(check(&D::X5A { freq: freq as u32, f: [0, 1, 1, 0, 1, 2, 3, 4, 3, 2, 0] })?);
                    c.bulk(1);
                }
                lo += step;
            }
            Ok(())
        });
        r.explore("logical channels: every service, number and count", |c| {
            let hi = c.pick(1024);
            for lo in 0..64usize {
                let v = (hi * 64 + lo) as u16;
                for vis in 0..2 {
                    for n in [hi as u16, v % 1024, 0, 1023] {
                        c.call(check(&D::X83(vec![(v, vis, n), (!v, 1 - vis, 1023 - n)]))?);
                        c.bulk(1);
                    }
                }
            }
            if hi < 64 {
                c.call(check(&D::X83((0..hi).map(|i| (i as u16 * 999, (i & 1) as u8, (i * 16) as u16)).collect()))?);
            }
            Ok(())
        });
        r.explore("conditional access: every combination of boundary fields", |c| {
            let ids = [0u16, 1, 0xFF, 0x100, 0x0500, 0x1FFF, 0xFFFF];
            let caid = c.of(&ids);
            let pid = c.pick(8192) as u16;
            for n in [0usize, 1, 2, 3, 8, 251] {
                for b in [0u8, 0x20, 0xFF] {
                    c.call(check(&D::X09 { caid, pid, data: vec![b; n] })?);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("language and service lists: every combination of boundary entries", |c| {
            let n = c.range(1, if thorough { 5 } else { 4 });
            let l: Vec<_> = (0..n).map(|_| c.of(&[(*b"eng", 0u8), (*b"eng", 1), (*b"   ", 0), ([0x7F; 3], 255), (*b"rus", 3), ([0xFF; 3], 0x80), (*b"ger", 0)])).collect();
            c.state(&l);
            c.call(check(&D::X0A(l.clone()))?);
            let ids: Vec<_> = l.iter().map(|x| (u16::from_be_bytes([x.0[0] ^ 0x65, x.0[1] ^ x.1]), x.1)).collect();
            c.call(check(&D::X41(ids.clone()))?);
            c.call(check(&D::X83(ids.iter().map(|x| (x.0, x.1 & 1, x.0 >> 6)).collect()))?);
            Ok(())
        });
        r.explore("cable: every combination of boundary fields", |c| {
            let freq = c.of(&[0u32, 1, 9, 10, 9_999, 10_000, 3_460_000, 9_999_999, 10_000_000, 42_949_672]);
            let sr = c.of(&[0u32, 1, 9, 10, 99, 100, 6875, 6900, 9999, 10_000, 99_999, 100_000, 999_999]);
            let modu = c.pick(256) as u8;
            for o in 0..=255u8 {
                c.call(check(&D::X44 { freq, outer: o >> 4, modu, sr, fec: o & 15 })?);
            }
            c.bulk(256);
            Ok(())
        });
        r.explore("event texts: every language byte and combination of tables and lengths", |c| {
            let a = c.of(&TABLES);
            let b = c.of(&TABLES);
            for x in 0..=255u8 {
                for lang in [[x, 0x6E, 0x67], [0x65, x, 0x67], [0x65, 0x6E, x]] {
                    for (i, j) in [(0, 0), (0, 2), (2, 0), (1, 1)] {
                        if lang[0] >= 0x20 {
                            c.call(check(&D::X4D { lang, name: text(a, i, 1), text: text(b, j, 2) })?);
                            let items = vec![(text(b, j, 3), text(a, i, 4)); i];
                            c.call(check(&D::X4E { num: x >> 4, last: x & 15, lang, items, text: text(b, j, 5) })?);
                            c.bulk(2);
                        }
                    }
                }
            }
            Ok(())
        });
        r.explore("extended event: every pair of numbers", |c| {
            let num = c.pick(16) as u8;
            let last = c.pick(16) as u8;
            for k in 0..4 {
                for (n, m) in [(0, 0), (0, 1), (1, 0), (2, 3), (20, 20)] {
                    for x in [0, 1, 30] {
                        for cp in TABLES {
                            let d = D::X4E { num, last, lang: *b"eng", items: vec![(text(cp, n, 1), text(cp, m, 2)); k], text: text(cp, x, 3) };
                            if d.fits() {
                                c.call(check(&d)?);
                                c.bulk(1);
                            }
                        }
                    }
                }
            }
            Ok(())
        });
        r.explore("local time offset: every combination of boundary fields", |c| {
            let code = c.of(&[*b"GBR", *b"   ", [0x7F; 3], [0x20, 0xFF, 0x80], *b"aus"]);
            let region = c.pick(64) as u8;
            let o = c.of(&[0u16, 1, 9, 10, 59, 60, 61, 599, 600, 720, 1199, 1200, 1439]);
            for pol in 0..2 {
                for next in [0u16, 1, 59, 60, 600, 1439] {
                    for at in [0u64, 86_399, 951_782_400, 1_332_637_200, LAST_DAY * 86_400 + 86_399] {
                        let e = (code, region, pol, o, at, next);
                        c.call(check(&D::X58(vec![e]))?);
                        c.call(check(&D::X58(vec![(*b"FRA", 0, 0, 60, 5, 120), e, (*b"FRA", 1, 1, 0, 6, 0)]))?);
                        c.bulk(2);
                    }
                }
            }
            Ok(())
        });
        r.explore("terrestrial: boundary frequencies and every combination of fields", |c| {
            let freq = c.of(&[0u32, 1, 0xFFFF, 0x1_0000, 17_750_000, 429_496_729]);
            let b5 = c.pick(256) as u8;
            for b4 in [0u8, 1, 2, 4, 8, 31, 32, 63] {
                for b6 in 0..=255u8 {
                    let f = [
                        b4 >> 3, b4 >> 2 & 1, b4 >> 1 & 1, b4 & 1,
                        b5 >> 6, b5 >> 3 & 7, b5 & 7,
                        b6 >> 5, b6 >> 3 & 3, b6 >> 1 & 3, b6 & 1,
                    ];
                    c.call(check(&D::X5A { freq, f })?);
                }
            }
            c.bulk(2048);
            Ok(())
        });
        r.explore("every ordered triple of kinds", |c| {
            let z = zoo();
            let n = z.len();
            let l = [z[c.pick(n)].clone(), z[c.pick(n)].clone(), z[c.pick(n)].clone()];
            let want: Vec<u8> = mc::spec::desc::encode_all(&l);
            let mut out = Vec::new();
            let got = mc::spec::desc::real(&l).assemble(&mut out);
            eq("returned size", got, want.len())?;
            eq("bytes", &out, &want)?;
            let mut b = Descriptors::default();
            b.parse(&want);
            mc::spec::desc::same_list(&l, &b)?;
            c.call(3);
            c.state(&want);
            Ok(())
        });
        r.explore("code points", |c| constants(c.pick(1)));
        if !thorough {
            r.assume("quick tier: delivery frequencies are covered with a fixed stride; every value in the thorough tier");
        }
        r.explore("every language and country code", |c| {
            let (a, b) = (c.pick(256) as u8, c.pick(256) as u8);
            for d in 0..=255u8 {
                let code = [a, b, d];
                // a code of these descriptors written through the public text type
                // starts with a character
                if a < 0x20 {
                    return Ok(());
                }
                c.call(check(&D::X0A(vec![(code, b)]))?);
                if thorough || a & b & d & 0x80 == 0 && (a | b | d) & 0x80 == 0 {
                    c.call(check(&D::X4D { lang: code, name: T::default(), text: T::default() })?);
                    c.call(check(&D::X4E { num: 0, last: 0, lang: code, items: vec![], text: T::default() })?);
                    c.call(check(&D::X58(vec![(code, 1, 0, 60, 86400, 120)]))?);
                    c.bulk(3);
                }
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("entries that share fields", |c| {
            let n = c.range(2, if thorough { 4 } else { 3 });
            let l: Vec<(usize, usize, usize)> = (0..n).map(|_| (c.pick(2), c.pick(2), c.pick(2))).collect();
            c.state(&l);
            let code = [*b"GBR", *b"FRA"];
            let texts = [T::new(0, b"AB"), T::new(5, b"AB"), T::new(0, b"A"), T::default()];
            c.call(check(&D::X0A(l.iter().map(|x| (code[x.0], x.1 as u8)).collect()))?);
            c.call(check(&D::X41(l.iter().map(|x| (1 + x.0 as u16, 1 + x.1 as u8)).collect()))?);
            c.call(check(&D::X83(l.iter().map(|x| (1 + x.0 as u16, x.2 as u8, 1 + x.1 as u16)).collect()))?);
            for (region, time) in [(0, 0), (0, 1), (1, 0)] {
                c.call(check(&D::X58(l.iter().map(|x| (code[x.0], (x.1 * region) as u8, x.2 as u8, 60, 86400 + 5 * (x.1 * time) as u64, if x.1 == 1 { 60 } else { 120 })).collect()))?);
            }
            for last in &texts {
                let items = l.iter().map(|x| (texts[2 * x.0 + x.1].clone(), texts[2 * x.2 + x.1].clone())).collect();
                c.call(check(&D::X4E { num: 0, last: 0, lang: *b"eng", items, text: last.clone() })?);
                let items = l.iter().map(|x| (texts[2 * x.0 + x.1].clone(), texts[2 * x.0 + x.2].clone())).collect();
                c.call(check(&D::X4E { num: 1, last: 1, lang: *b"ABA", items, text: last.clone() })?);
                for first in &texts {
                    c.call(check(&D::X48 { ty: 1, provider: first.clone(), name: last.clone() })?);
                    c.call(check(&D::X4D { lang: *b"ABA", name: first.clone(), text: last.clone() })?);
                }
            }
            Ok(())
        });
        r.explore("behind and in front of any other descriptor", |c| {
            let z = zoo();
            let d = &z[c.pick(z.len())];
            let tag = c.pick(256) as u8;
            for body in [&[][..], &[0], &[0, 0], &[0, 0, 0, 0x28], &[0, 0, 0, 1], &[0xFF; 4], &[0x41; 5], &[1; 8], &[0; 13]] {
                let o = D::decode(tag, body);
                for l in [vec![o.clone(), d.clone()], vec![d.clone(), o.clone()], vec![d.clone(), o.clone(), d.clone()]] {
                    let mut got = Descriptors::default();
                    got.parse(&encode_all(&l));
                    same_list(&l, &got).map_err(|e| format!("{:?}: {}", l, e))?;
                    c.call(1);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("texts that repeat each other", |c| {
            let cp = c.of(&TABLES);
            let n = c.range(0, 120);
            // the second text: the same, in another table, one byte less or different
            for kind in 0..5 {
                let a = text(cp, n, 1);
                let mut b = a.clone();
                match kind {
                    0 => {}
                    1 => b.cp = if cp == UTF8 { 5 } else if cp == 5 { 9 } else { 5 },
                    2 => {
                        b.b.pop();
                    }
                    3 if n > 1 => *b.b.last_mut().unwrap() ^= 1,
                    4 if n > 1 && cp != 0 => b.b[0] ^= 1,
                    _ => continue,
                }
                for (x, y) in [(&a, &b), (&b, &a)] {
                    let mut lang = *b"eng";
                    for (i, l) in lang.iter_mut().enumerate() {
                        *l = if x.b.len() == 3 && x.b[i] >= 0x20 { x.b[i] } else { *l };
                    }
                    let mut l = vec![
                        D::X48 { ty: n as u8, provider: x.clone(), name: y.clone() },
                        D::X4D { lang, name: x.clone(), text: y.clone() },
                        D::X4E { num: 0, last: 0, lang, items: vec![(x.clone(), y.clone())], text: T::default() },
                        D::X4E { num: 0, last: 1, lang, items: vec![(x.clone(), T::default())], text: y.clone() },
                        D::X4E { num: 1, last: 1, lang, items: vec![(T::default(), x.clone())], text: y.clone() },
                    ];
                    if n < 58 {
                        l.push(D::X4E { num: 0, last: 0, lang, items: vec![(x.clone(), x.clone()), (y.clone(), y.clone())], text: T::default() });
                        l.push(D::X4E { num: 0, last: 0, lang, items: vec![(x.clone(), y.clone()), (x.clone(), T::default())], text: y.clone() });
                    }
                    for d in l {
                        if d.encode().len() <= 257 && d.fits() {
                            c.call(check(&d)?);
                            c.bulk(1);
                        }
                    }
                }
            }
            Ok(())
        });
    })
}

fn constants(_: usize) -> R {
    // EN 300 468, 6.2.13.2: satellite
    eq("west", k::POSITION_WEST, 0)?;
    eq("east", k::POSITION_EAST, 1)?;
    eq("linear horizontal", k::POLARIZATION_H, 0)?;
    eq("linear vertical", k::POLARIZATION_V, 1)?;
    eq("circular left", k::POLARIZATION_L, 2)?;
    eq("circular right", k::POLARIZATION_R, 3)?;
    eq("roll-off 0.35", k::ROF_A035, 0)?;
    eq("roll-off 0.25", k::ROF_A025, 1)?;
    eq("roll-off 0.20", k::ROF_A020, 2)?;
    eq("auto", k::MODULATION_DVB_S_AUTO, 0)?;
    eq("QPSK", k::MODULATION_DVB_S_QPSK, 1)?;
    eq("8PSK", k::MODULATION_DVB_S_8PSK, 2)?;
    eq("16QAM", k::MODULATION_DVB_S_16QAM, 3)?;
    // 6.2.13.1: cable
    eq("not defined", k::MODULATION_DVB_C_NOT_DEFINED, 0)?;
    eq("16-QAM", k::MODULATION_DVB_C_16_QAM, 1)?;
    eq("32-QAM", k::MODULATION_DVB_C_32_QAM, 2)?;
    eq("64-QAM", k::MODULATION_DVB_C_64_QAM, 3)?;
    eq("128-QAM", k::MODULATION_DVB_C_128_QAM, 4)?;
    eq("256-QAM", k::MODULATION_DVB_C_256_QAM, 5)?;
    eq("outer FEC not defined", k::FEC_OUTER_NOT_DEFINED, 0)?;
    eq("no outer FEC", k::FEC_OUTER_NO_CODING, 1)?;
    eq("RS(204/188)", k::FEC_OUTER_RS, 2)?;
    eq("inner FEC not defined", k::FEC_NOT_DEFINED, 0)?;
    eq("1/2", k::FEC_1_2, 1)?;
    eq("2/3", k::FEC_2_3, 2)?;
    eq("3/4", k::FEC_3_4, 3)?;
    eq("5/6", k::FEC_5_6, 4)?;
    eq("7/8", k::FEC_7_8, 5)?;
    eq("8/9", k::FEC_8_9, 6)?;
    eq("3/5", k::FEC_3_5, 7)?;
    eq("4/5", k::FEC_4_5, 8)?;
    eq("9/10", k::FEC_9_10, 9)?;
    eq("no inner FEC", k::FEC_NONE, 15)?;
    // 6.2.13.4: terrestrial
    eq("QPSK", k::MODULATION_DVB_T_QPSK, 0)?;
    eq("16-QAM", k::MODULATION_DVB_T_16QAM, 1)?;
    eq("64-QAM", k::MODULATION_DVB_T_64QAM, 2)?;
    eq("8 MHz", k::BANDWIDTH_DVB_T_8MHZ, 0)?;
    eq("7 MHz", k::BANDWIDTH_DVB_T_7MHZ, 1)?;
    eq("6 MHz", k::BANDWIDTH_DVB_T_6MHZ, 2)?;
    eq("5 MHz", k::BANDWIDTH_DVB_T_5MHZ, 3)?;
    eq("non-hierarchical, native", k::HIERARCHY_DVB_T_NON_NATIVE, 0)?;
    eq("alpha 1, native", k::HIERARCHY_DVB_T_A1_NATIVE, 1)?;
    eq("alpha 2, native", k::HIERARCHY_DVB_T_A2_NATIVE, 2)?;
    eq("alpha 4, native", k::HIERARCHY_DVB_T_A4_NATIVE, 3)?;
    eq("non-hierarchical, in-depth", k::HIERARCHY_DVB_T_NON_IN_DEPTH, 4)?;
    eq("alpha 1, in-depth", k::HIERARCHY_DVB_T_A1_IN_DEPTH, 5)?;
    eq("alpha 2, in-depth", k::HIERARCHY_DVB_T_A2_IN_DEPTH, 6)?;
    eq("alpha 4, in-depth", k::HIERARCHY_DVB_T_A4_IN_DEPTH, 7)?;
    eq("1/2", k::CODE_RATE_DVB_T_1_2, 0)?;
    eq("2/3", k::CODE_RATE_DVB_T_2_3, 1)?;
    eq("3/4", k::CODE_RATE_DVB_T_3_4, 2)?;
    eq("5/6", k::CODE_RATE_DVB_T_5_6, 3)?;
    eq("7/8", k::CODE_RATE_DVB_T_7_8, 4)?;
    eq("1/32", k::GUARD_INTERVAL_1_32, 0)?;
    eq("1/16", k::GUARD_INTERVAL_1_16, 1)?;
    eq("1/8", k::GUARD_INTERVAL_1_8, 2)?;
    eq("1/4", k::GUARD_INTERVAL_1_4, 3)?;
    eq("2k", k::TRANSMISSION_MODE_2K, 0)?;
    eq("8k", k::TRANSMISSION_MODE_8K, 1)?;
    eq("4k", k::TRANSMISSION_MODE_4K, 2)
}
