//! C20: wire form of text.
use mc::engine::{eq, run, Ctx};
use mc::spec::desc::{T, TABLES, UTF8};
use mpegts::textcode::StringDVB;

/// Writes in all ways and compares with the reference wire form.
fn written(c: &mut Ctx, s: &StringDVB, wire: &[u8]) -> Result<(), String> {
    if s.size() != wire.len() {
        return Err(format!("announced size {} of {:?}, expected {}", s.size(), s, wire.len()));
    }
    let mut d = vec![0xEE, 0xDD];
    s.assemble(&mut d);
    if d[..2] != [0xEE, 0xDD] || d[2..] != *wire {
        return Err(format!("{:?} written as {:02x?}, expected {:02x?}", s, d, wire));
    }
    if wire.len() < 256 {
        let mut d = vec![0x77];
        s.assemble_sized(&mut d);
        if d[0] != 0x77 || d[1] as usize != wire.len() || d[2..] != *wire {
            return Err(format!("{:?} written with length as {:02x?}, expected {:02x?}", s, d, wire));
        }
    }
    c.call(3);
    Ok(())
}

/// Reads arbitrary bytes and writes them again.
fn any(c: &mut Ctx, w: &[u8]) -> Result<(), String> {
    let s = StringDVB::from(w);
    let want = T::read(w);
    if s.as_bytes() != &want.b[..] || s.get_codepage() != want.cp {
        return Err(format!("{:02x?} read as table {} bytes {:02x?}, expected table {} bytes {:02x?}", w, s.get_codepage(), s.as_bytes(), want.cp, want.b));
    }
    let shown = s.to_string();
    if shown != want.text() {
        return Err(format!("{:02x?} shown as {:?}, expected {:?}", w, shown, want.text()));
    }
    let out = want.wire();
    if out.len() > w.len() {
        return Err(format!("{:02x?} needs {} bytes to write", w, out.len()));
    }
    written(c, &s, &out)?;
    c.call(2);
    Ok(())
}

fn main() {
    run("C20", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("every table and length", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let n = c.pick(256);
            for fill in 0..4u8 {
                let b: Vec<u8> = (0..n)
                    .map(|i| match fill {
                        0 => b'a' + (i % 26) as u8,
                        1 => if cp == UTF8 { [0xD0, 0x96][i % 2] } else { 0xA0 + (i % 96) as u8 },
                        2 => 0x20 + (i * 7 % 0x5F) as u8,
                        _ => if cp == 0 && i == 0 { 0x20 } else { (i * 31) as u8 },
                    })
                    .collect();
                let t = T { cp, b };
                let w = t.wire();
                let s = StringDVB::from(&w[..]);
                t.same("read", &s)?;
                eq("empty", s.is_empty(), t.b.is_empty())?;
                written(c, &s, &w)?;
                if let Ok(u) = std::str::from_utf8(&t.b) {
                    // the same text made from characters
                    if cp == UTF8 || u.is_ascii() {
                        let e = StringDVB::from_str(u, cp);
                        eq("table", e.get_codepage(), cp)?;
                        written(c, &e, &w)?;
                        if n > 0 && e != s {
                            return Err(format!("table {}: {:?} written and read is not equal", cp, u));
                        }
                    }
                }
                if n > 0 && StringDVB::from(&w[..]) != s {
                    return Err("two readings differ".into());
                }
                c.state(&(cp, n, fill));
            }
            c.sample(|| format!("table {} with {} bytes", cp, n));
            Ok(())
        });
        r.explore("reading: every string of up to 3 bytes", |c| {
            let a = c.pick(256) as u8;
            if a == 0 {
                any(c, &[])?;
            }
            any(c, &[a])?;
            for b in 0..=255u8 {
                any(c, &[a, b])?;
                if thorough || a < 0x20 || b < 0x20 || b % 16 == 0 {
                    for d in 0..=255u8 {
                        any(c, &[a, b, d])?;
                    }
                    c.bulk(256);
                }
            }
            c.bulk(257);
            Ok(())
        });
        if thorough {
            r.explore("reading: every string of 4 bytes behind a selector", |c| {
                let a = c.pick(0x20) as u8;
                let b = c.pick(256) as u8;
                for d in 0..=255u8 {
                    for e in 0..=255u8 {
                        any(c, &[a, b, d, e])?;
                    }
                }
                c.bulk(65536);
                Ok(())
            });
        }
        r.explore("reading: every selector with every continuation class", |c| {
            let a = c.pick(32) as u8;
            let b = c.pick(256) as u8;
            let tails: [&[u8]; 9] = [b"", b"A", b"\x00", b"\x10\x00\x05x", b"\x80\x9F", b"\xA0\xFF\xC1", b"\xD0\x96", b"\xF0\x9F\x98\x80!", b"hello world"];
            for d in 0..=255u8 {
                for t in tails {
                    let mut w = vec![a, b, d];
                    w.extend_from_slice(t);
                    any(c, &w)?;
                }
            }
            c.bulk(256 * 9);
            Ok(())
        });
        r.explore("equality: every pair of texts", |c| {
            // made from characters, so that every table can hold the same bytes
            let mut pool: Vec<(T, StringDVB)> = Vec::new();
            for &cp in TABLES.iter() {
                let words = ["", " ", "a", "A", "ab", "ba", "aa", "abc", "abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyZ", "abcdefghijklm"];
                for w in words.iter() {
                    pool.push((T { cp, b: w.as_bytes().to_vec() }, StringDVB::from_str(w, cp)));
                }
            }
            let i = c.pick(pool.len());
            let (a, x) = &pool[i];
            for (b, y) in &pool {
                if a.b.is_empty() && b.b.is_empty() && a.cp != b.cp {
                    continue;
                }
                let same = a.cp == b.cp && a.b == b.b;
                if (x == y) != same || (x != y) == same {
                    return Err(format!("{:?} and {:?} compare as {}", x, y, x == y));
                }
                c.call(2);
                c.bulk(1);
            }
            let mut k = x.clone();
            a.same("clone", &k)?;
            if k != *x {
                return Err(format!("{:?} is not equal to its clone", x));
            }
            k.truncate(0);
            a.same("source of a changed clone", x)?;
            eq("default text", (StringDVB::default().get_codepage(), StringDVB::default().is_empty()), (0, true))
        });
        r.explore("writing after reading is stable", |c| {
            // read, write, read again: the same text
            let a = c.pick(256) as u8;
            for b in 0..=255u8 {
                for d in [0u8, 1, 4, 5, 8, 12, 15, 16, 0x20, 0x80, 0xC1, 0xFF] {
                    for w in [vec![a, b, d], vec![a, b, d, b, a], vec![0x15, a, b, d]] {
                        let s = StringDVB::from(&w[..]);
                        let mut o = Vec::new();
                        s.assemble(&mut o);
                        let s2 = StringDVB::from(&o[..]);
                        if s.as_bytes() != s2.as_bytes() || !s.is_empty() && s != s2 {
                            return Err(format!("{:02x?}: read {:?}, written {:02x?}, read again {:?}", w, s, o, s2));
                        }
                        c.call(3);
                        c.bulk(1);
                    }
                }
            }
            Ok(())
        });
        r.explore("very long texts", |c| {
            // the length-prefixed form does not apply
            let cp = TABLES[c.pick(TABLES.len())];
            let n = (1usize << c.range(8, 18)) + c.pick(9) - 4;
            let t = T { cp, b: (0..n).map(|i| b' ' + (i % 90) as u8).collect() };
            let s = t.real();
            t.same("read", &s)?;
            let w = t.wire();
            let mut o = vec![1, 2];
            s.assemble(&mut o);
            if s.size() != w.len() || o[..2] != [1, 2] || o[2..] != w[..] {
                return Err(format!("table {}, {} bytes: size {}, {} written, expected {}", cp, n, s.size(), o.len() - 2, w.len()));
            }
            c.call(3);
            c.state(&(cp, n));
            Ok(())
        });
        r.explore("behind many other bytes", |c| {
            let before = (1usize << c.range(7, if thorough { 20 } else { 17 })) + c.pick(5) - 2;
            let cp = TABLES[c.pick(TABLES.len())];
            for n in [0usize, 1, 2, 100, 251, 252] {
                let t = T { cp, b: vec![b'x'; n] };
                let (s, w) = (t.real(), t.wire());
                let mut d = vec![0xA5; before];
                s.assemble(&mut d);
                s.assemble_sized(&mut d);
                let e = before + w.len();
                if d[..before].iter().any(|&b| b != 0xA5) || d.len() != e + 1 + w.len() || d[before..e] != w[..] || d[e] as usize != w.len() || d[e + 1..] != w[..] {
                    return Err(format!("table {}, {} bytes behind {}: written as {:02x?}", cp, n, before, &d[before..]));
                }
                c.state(&(cp, n, before));
                c.call(2);
            }
            Ok(())
        });
        r.explore("long texts", |c| {
            let cp = TABLES[c.pick(TABLES.len())];
            let n = 250 + c.pick(60);
            let t = T { cp, b: vec![b'x'; n] };
            let s = t.real();
            t.same("read", &s)?;
            c.state(&(cp, n));
            written(c, &s, &t.wire())
        });
    })
}
