//! C21: truncating and splitting text.
use mc::engine::{run, Ctx};
use mc::spec::desc::{T, TABLES, UTF8};

fn split(c: &mut Ctx, t: &T, limit: usize) -> Result<(), String> {
    let s = t.real();
    let at = |e: String| format!("table {} bytes {:02x?} split by {}: {}", t.cp, t.b, limit, e);
    let v = s.split(limit);
    c.call(1);
    let valid = t.cp == UTF8 && std::str::from_utf8(&t.b).is_ok();
    if t.b.is_empty() && (v.len() != 1 || !v[0].is_empty()) {
        return Err(at(format!("{} pieces", v.len())));
    }
    let mut all = Vec::new();
    for p in &v {
        // an empty text has no table on the wire
        if !t.b.is_empty() && p.get_codepage() != t.cp {
            return Err(at(format!("piece in table {}", p.get_codepage())));
        }
        if !t.b.is_empty() && p.is_empty() {
            return Err(at("an empty piece".into()));
        }
        let wire = T::new(if t.b.is_empty() { 0 } else { t.cp }, p.as_bytes()).wire().len();
        if wire > limit || p.size() > limit {
            return Err(at(format!("piece of {} bytes", wire)));
        }
        if valid && std::str::from_utf8(p.as_bytes()).is_err() {
            return Err(at(format!("piece {:02x?} breaks a character", p.as_bytes())));
        }
        all.extend_from_slice(p.as_bytes());
    }
    // not finer than needed: what a selector or a character may take
    for p in &v[..v.len() - 1] {
        if T::new(t.cp, p.as_bytes()).wire().len() + 3 < limit {
            return Err(at(format!("piece of {} bytes before the last", p.as_bytes().len())));
        }
    }
    if all != t.b {
        return Err(at(format!("pieces give {:02x?}", all)));
    }
    if s.as_bytes() != &t.b[..] {
        return Err(at("the source changed".into()));
    }
    Ok(())
}

fn truncate(c: &mut Ctx, t: &T, limit: usize) -> Result<(), String> {
    let mut s = t.real();
    let before = s.clone();
    let at = |e: String| format!("table {} bytes {:02x?} truncated to {}: {}", t.cp, t.b, limit, e);
    s.truncate(limit);
    c.call(1);
    let b = s.as_bytes();
    if t.b.len() <= limit {
        if s != before {
            return Err(at(format!("changed to {:02x?}", b)));
        }
        return Ok(());
    }
    if s.get_codepage() != before.get_codepage() {
        return Err(at("table changed".into()));
    }
    if b.len() > limit {
        return Err(at(format!("{} bytes left", b.len())));
    }
    let dots: &[u8] = if limit >= 3 { b"..." } else { b"" };
    if !b.ends_with(dots) {
        return Err(at(format!("no dots: {:02x?}", b)));
    }
    let head = &b[..b.len() - dots.len()];
    if !t.b.starts_with(head) {
        return Err(at(format!("not a prefix: {:02x?}", b)));
    }
    let room = limit - dots.len();
    if t.cp != UTF8 {
        if head.len() != room {
            return Err(at(format!("{} bytes kept of {}", head.len(), room)));
        }
    } else if let Ok(u) = std::str::from_utf8(&t.b) {
        let mut k = room;
        while !u.is_char_boundary(k) {
            k -= 1;
        }
        if head.len() != k {
            return Err(at(format!("{} bytes kept, {} fit", head.len(), k)));
        }
    }
    // twice is the same as once
    let once = s.clone();
    s.truncate(limit);
    if s != once {
        return Err(at(format!("again gives {:02x?}", s.as_bytes())));
    }
    Ok(())
}

fn main() {
    run("C21", |r| {
        let chars = ["a", ".", "é", "\u{7FF}", "€", "語", "\u{1F600}"];
        let depth = r.by(7, 9);
        r.explore("UTF-8: strings over all character widths, every limit", |c| {
            let mut s = String::new();
            for _ in 0..depth {
                match c.pick(chars.len() + 1) {
                    0 => break,
                    k => s.push_str(chars[k - 1]),
                }
            }
            let t = T::new(UTF8, s.as_bytes());
            for limit in 0..s.len() + 4 {
                truncate(c, &t, limit)?;
                if limit >= 5 {
                    split(c, &t, limit)?;
                }
            }
            split(c, &t, 5)?;
            c.state(&s);
            Ok(())
        });
        r.explore("UTF-8: long strings, every limit", |c| {
            let w = c.pick(chars.len());
            let shift = c.pick(5);
            let n = c.of(&[20usize, 60, 100]);
            let mut s = "x".repeat(shift);
            for i in 0..n {
                s.push_str(if i % 11 == 10 { "a" } else { chars[w] });
            }
            let t = T::new(UTF8, s.as_bytes());
            for limit in 0..s.len() + 4 {
                truncate(c, &t, limit)?;
                if limit >= 5 {
                    split(c, &t, limit)?;
                }
                c.bulk(1);
            }
            Ok(())
        });
        let bs = [0x41u8, 0x80, 0xBF, 0xC2, 0xE2, 0xF0, 0xFF];
        r.explore("UTF-8: invalid bytes", |c| {
            let mut b = Vec::new();
            for _ in 0..depth {
                match c.pick(bs.len() + 1) {
                    0 => break,
                    k => b.push(bs[k - 1]),
                }
            }
            let t = T::new(UTF8, &b);
            for limit in 0..b.len() + 2 {
                truncate(c, &t, limit)?;
                if limit >= 5 {
                    split(c, &t, limit)?;
                }
            }
            split(c, &t, 5)?;
            c.state(&b);
            Ok(())
        });
        r.explore("every table, every length, every limit", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let n = c.pick(301);
            let b: Vec<u8> = (0..n).map(|i| if cp == UTF8 { b'a' + (i % 26) as u8 } else { 0xA0 + (i * 7 % 96) as u8 }).collect();
            let t = T::new(cp, &b);
            for limit in (0..n + 8).chain([254, 255, 256, 1000]) {
                truncate(c, &t, limit)?;
                if limit >= 5 {
                    split(c, &t, limit)?;
                }
            }
            c.bulk(n as u64 + 12);
            c.sample(|| format!("table {} {} bytes", cp, n));
            Ok(())
        });
        r.explore("long texts and large limits", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let near = |p: usize| [p - 2, p - 1, p, p + 1, p + 2, p + 3];
            let n = [near(512), near(4096), near(65_536), near(70_000)][c.pick(4)][c.pick(6)];
            let b: Vec<u8> = (0..n).map(|i| if cp == UTF8 { b'a' + (i % 26) as u8 } else { 0xA0 + (i * 7 % 96) as u8 }).collect();
            let t = T::new(cp, &b);
            for p in [257usize, 300, 512, 1000, 4096, 32_768, 65_536, 70_000] {
                for limit in near(p) {
                    truncate(c, &t, limit)?;
                    split(c, &t, limit)?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("any pair of bytes around the cut", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let x = c.pick(256) as u8;
            let limit = c.of(&[8usize, 20]);
            let selector = T::new(cp, b"a").wire().len() - 1;
            for y in 0..=255u8 {
                for from in limit - selector - 2..=limit - selector {
                    let mut b = vec![b'a'; 2 * limit + 3];
                    b[from] = x;
                    b[from + 1] = y;
                    split(c, &T::new(cp, &b), limit)?;
                }
                for from in limit - 5..=limit {
                    let mut b = vec![b'a'; limit + 3];
                    b[from] = x;
                    b[from + 1] = y;
                    truncate(c, &T::new(cp, &b), limit)?;
                }
            }
            c.bulk(256 * 9);
            Ok(())
        });
        r.explore("runs of one byte", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let b = c.pick(256) as u8;
            // would be a selector
            if cp == 0 && b < 0x20 {
                return Ok(());
            }
            for n in [1usize, 4, 5, 6, 9, 20, 40, 255, 256, 257] {
                for limit in [5usize, 6, 7, 20, 249, 255, 256] {
                    let t = T::new(cp, &vec![b; n]);
                    split(c, &t, limit)?;
                    truncate(c, &t, limit)?;
                    c.state(&(cp, b, n, limit));
                }
            }
            Ok(())
        });
    })
}
