//! C19: transcoding by character tables.
use mc::engine::run;
use mc::spec::charset::table;
use mc::spec::desc::{T, TABLES, UTF8};
use mpegts::textcode::StringDVB;
use std::collections::HashMap;

/// Reference encoding of one character.
fn enc(maps: &HashMap<u8, HashMap<u32, u8>>, cp: u8, ch: char, out: &mut Vec<u8>) {
    let u = ch as u32;
    if u <= 0x7F {
        out.push(u as u8);
    } else if u <= 0x9F {
    } else if let Some(&b) = maps[&cp].get(&u) {
        out.push(b);
    } else {
        match u {
            0xAB | 0xBB | 0x201C | 0x201D | 0x201F => out.push(b'"'),
            0x2018 | 0x2019 | 0x201B => out.push(b'\''),
            0x2026 => out.extend_from_slice(b"..."),
            _ => out.push(b'?'),
        }
    }
}

fn main() {
    let mut maps: HashMap<u8, HashMap<u32, u8>> = HashMap::new();
    for cp in TABLES {
        if let Some(t) = table(cp) {
            let mut m = HashMap::new();
            for (i, &u) in t.iter().enumerate() {
                if u != 0 {
                    m.entry(u).or_insert(0xA0 + i as u8);
                }
            }
            maps.insert(cp, m);
        }
    }
    let maps = &maps;
    run("C19", |r| {
        r.deepen();
        r.explore("decoding: every byte of every table", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            if cp == UTF8 {
                return Ok(());
            }
            for b in 0..=255u8 {
                for (pre, post) in [(&b"A"[..], &b""[..]), (b"A", b"z"), (b"\xC1", b"\xC1")] {
                    let mut v = pre.to_vec();
                    v.push(b);
                    v.extend_from_slice(post);
                    let t = T::new(cp, &v);
                    let s = t.real();
                    t.same("text", &s)?;
                    let got = s.to_string();
                    if got != t.text() {
                        return Err(format!("table {} bytes {:02x?} read as {:?}, expected {:?}", cp, v, got, t.text()));
                    }
                    c.call(2);
                    c.bulk(1);
                }
            }
            c.sample(|| format!("table {}: 256 bytes", cp));
            Ok(())
        });
        r.explore("decoding: every pair of bytes", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let a = c.pick(256) as u8;
            if cp == 0 && a < 0x20 {
                return Ok(());
            }
            for b in 0..=255u8 {
                let t = T::new(cp, &[a, b]);
                let got = t.real().to_string();
                if got != t.text() {
                    return Err(format!("table {} bytes {:02x} {:02x} read as {:?}, expected {:?}", cp, a, b, got, t.text()));
                }
            }
            c.call(256);
            c.bulk(256);
            Ok(())
        });
        if r.thorough() {
            r.explore("decoding: every three bytes", |c| {
                let cp = TABLES[c.pick(TABLES.len())];
                let a = c.pick(256) as u8;
                if cp == 0 && a < 0x20 {
                    return Ok(());
                }
                for b in 0..=255u8 {
                    for d in 0..=255u8 {
                        let t = T::new(cp, &[a, b, d]);
                        let got = t.real().to_string();
                        if got != t.text() {
                            return Err(format!("table {} bytes {:02x} {:02x} {:02x} read as {:?}, expected {:?}", cp, a, b, d, got, t.text()));
                        }
                    }
                }
                c.call(65536);
                c.bulk(65536);
                Ok(())
            });
            r.explore("encoding: every pair of characters below U+3000", |c| {
                let cp = TABLES[c.pick(TABLES.len())];
                let x = c.pick(0x3000) as u32;
                let x = char::from_u32(x).unwrap();
                let near: Vec<u32> = (0..0x460).chain(0x0E00..0x0E60).chain(0x2000..0x2130).collect();
                if !near.contains(&(x as u32)) && x as u32 % 16 != 0 {
                    return Ok(());
                }
                for &y in &near {
                    let s: String = [x, char::from_u32(y).unwrap()].iter().collect();
                    let mut want = Vec::new();
                    if cp == UTF8 {
                        want.extend_from_slice(s.as_bytes());
                    } else {
                        s.chars().for_each(|ch| enc(maps, cp, ch, &mut want));
                    }
                    let d = StringDVB::from_str(&s, cp);
                    if d.as_bytes() != &want[..] || d.get_codepage() != cp {
                        return Err(format!("{:?} in table {}: {:02x?}, expected {:02x?}", s, cp, d.as_bytes(), want));
                    }
                }
                c.call(near.len() as u64);
                c.bulk(near.len() as u64);
                Ok(())
            });
        }
        r.explore("encoding: every character in every table", |c| {
            let hi = c.pick(0x1100) as u32;
            for cp in TABLES {
                for lo in 0..256u32 {
                    let ch = match char::from_u32(hi * 256 + lo) {
                        Some(ch) => ch,
                        None => continue,
                    };
                    let mut want = Vec::new();
                    let mut buf = [0u8; 4];
                    if cp == UTF8 {
                        want.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                    } else {
                        enc(maps, cp, ch, &mut want);
                    }
                    let s = StringDVB::from_str(ch.encode_utf8(&mut buf), cp);
                    if s.as_bytes() != &want[..] || s.get_codepage() != cp {
                        return Err(format!("U+{:04X} in table {}: table {} bytes {:02x?}, expected {:02x?}", ch as u32, cp, s.get_codepage(), s.as_bytes(), want));
                    }
                    // identity on representable characters
                    if cp == UTF8 || (ch as u32) < 0x80 || maps[&cp].contains_key(&(ch as u32)) {
                        let back = s.to_string();
                        if back.chars().ne(std::iter::once(ch)) {
                            return Err(format!("U+{:04X} in table {} comes back as {:?}", ch as u32, cp, back));
                        }
                    }
                    c.call(2);
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("unsupported table numbers", |c| {
            let cp = c.pick(256) as u8;
            if TABLES.contains(&cp) {
                return Ok(());
            }
            for s in ["", "A", "Привет", "«é»…\u{1F600}", "\u{80}\u{9F}\u{0}", "\u{FFFF}\u{10FFFF}"] {
                let d = StringDVB::from_str(s, cp);
                if d.get_codepage() != UTF8 || d.as_bytes() != s.as_bytes() || d.to_string() != s {
                    return Err(format!("{:?} with table {}: table {} bytes {:02x?}", s, cp, d.get_codepage(), d.as_bytes()));
                }
                c.call(2);
                c.state(&(cp, s));
            }
            Ok(())
        });
        let chars: Vec<char> = "A~\u{0}\u{7F}\u{80}\u{9F}\u{A0}\u{A1}é«»Жﬁα\u{0E2A}\u{2018}\u{201B}\u{201D}\u{2026}€\u{2015}\u{FFFD}\u{FFFF}\u{10000}\u{1F600}".chars().collect();
        let chars = &chars;
        let depth = r.by(3, 4);
        r.explore("encoding and decoding: strings", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let mut s = String::new();
            for _ in 0..depth {
                match c.pick(chars.len() + 1) {
                    0 => break,
                    k => s.push(chars[k - 1]),
                }
            }
            let mut want = Vec::new();
            if cp == UTF8 {
                want.extend_from_slice(s.as_bytes());
            } else {
                s.chars().for_each(|ch| enc(maps, cp, ch, &mut want));
            }
            let d = StringDVB::from_str(&s, cp);
            if d.as_bytes() != &want[..] || d.get_codepage() != cp {
                return Err(format!("{:?} in table {}: {:02x?}, expected {:02x?}", s, cp, d.as_bytes(), want));
            }
            let t = T { cp, b: want };
            let back = d.to_string();
            if back != t.text() {
                return Err(format!("{:?} in table {} comes back as {:?}, expected {:?}", s, cp, back, t.text()));
            }
            c.call(2);
            c.state(&(cp, &t.b));
            Ok(())
        });
        let powers = r.by(17, 21);
        r.explore("encoding and decoding: long texts", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let n = (1usize << c.range(7, powers)) + c.pick(5) - 2;
            let some: Vec<char> = if cp == UTF8 { "Az é€\u{1F600}".chars().collect() } else { "Az ~".chars().chain((0xA1..=0xFFu8).flat_map(|b| T::new(cp, &[b]).text().chars().collect::<Vec<_>>()).filter(|&x| x != '?')).collect() };
            let s: String = (0..n).map(|i| some[i % some.len()]).collect();
            let mut want = Vec::new();
            if cp == UTF8 {
                want.extend_from_slice(s.as_bytes());
            } else {
                let each: Vec<Vec<u8>> = some.iter().map(|&ch| { let mut v = Vec::new(); enc(maps, cp, ch, &mut v); v }).collect();
                (0..n).for_each(|i| want.extend_from_slice(&each[i % some.len()]));
            }
            let d = StringDVB::from_str(&s, cp);
            if d.as_bytes() != &want[..] || d.get_codepage() != cp {
                return Err(format!("{} characters in table {}: {} bytes, expected {}", n, cp, d.as_bytes().len(), want.len()));
            }
            if d.to_string() != s {
                return Err(format!("{} characters in table {} come back different", n, cp));
            }
            c.call(2);
            c.state(&(cp, n));
            Ok(())
        });
        // invalid UTF-8: every string of up to 4 bytes over the boundary bytes
        let bs = [0x20u8, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF];
        r.explore("decoding: UTF-8, invalid parts", |c| {
            let mut v = vec![0x15u8];
            for _ in 0..depth {
                match c.pick(bs.len() + 1) {
                    0 => break,
                    k => v.push(bs[k - 1]),
                }
            }
            let d = StringDVB::from(&v[..]);
            let want = String::from_utf8_lossy(&v[1..]);
            if d.to_string() != want || d.get_codepage() != UTF8 || d.as_bytes() != &v[1..] {
                return Err(format!("UTF-8 bytes {:02x?} read as {:?}, expected {:?}", &v[1..], d.to_string(), want));
            }
            c.call(2);
            c.state(&v);
            Ok(())
        });
        r.explore("encoding: every pair of ASCII and table characters", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let mut chars: Vec<char> = (0..0x80u8).map(char::from).collect();
            if let Some(t) = table(cp) {
                chars.extend(t.iter().filter(|&&u| u != 0).map(|&u| char::from_u32(u).unwrap()));
            }
            chars.extend(['\u{80}', '\u{9F}', '\u{AB}', '\u{201C}', '\u{2019}', '\u{2026}', '\u{3042}', '\u{1F600}']);
            let k = c.pick(256 + 8);
            if k >= chars.len() {
                return Ok(());
            }
            for &y in &chars {
                for tail in ["", "A"] {
                    let s: String = [chars[k], y].iter().collect::<String>() + tail;
                    let mut want = Vec::new();
                    if cp == UTF8 {
                        want.extend_from_slice(s.as_bytes());
                    } else {
                        s.chars().for_each(|ch| enc(maps, cp, ch, &mut want));
                    }
                    let d = StringDVB::from_str(&s, cp);
                    if d.as_bytes() != &want[..] || d.get_codepage() != cp {
                        return Err(format!("{:?} in table {}: {:02x?}, expected {:02x?}", s, cp, d.as_bytes(), want));
                    }
                }
            }
            c.call(2 * chars.len() as u64);
            c.bulk(2 * chars.len() as u64);
            Ok(())
        });
        let wide = r.thorough();
        r.explore("encoding: every three ASCII characters", |c| {
            let cp = if wide { TABLES[c.pick(TABLES.len())] } else { c.of(&[0u8, 5, UTF8]) };
            let x = c.pick(128) as u8;
            let mut s = String::new();
            for y in 0..128u8 {
                for z in 0..128u8 {
                    s.clear();
                    s.extend([x as char, y as char, z as char]);
                    let d = StringDVB::from_str(&s, cp);
                    if d.as_bytes() != s.as_bytes() || d.get_codepage() != cp {
                        return Err(format!("{:?} in table {}: {:02x?}", s, cp, d.as_bytes()));
                    }
                }
            }
            c.call(128 * 128);
            c.bulk(128 * 128);
            Ok(())
        });
    })
}
