//! C30: diagnostic formatting.
use mc::engine::{run, Ctx, R};
use mc::spec::desc::{zoo, T, TABLES, UTF8};
use mc::spec::{be, psi_of, section};
use mpegts::psi as m;
use mpegts::textcode::StringDVB;
use mpegts::ts::{TsAdaptation, TsPacket};

/// Value of a named field in formatted output.
fn field<'a>(s: &'a str, name: &str) -> Result<&'a str, String> {
    let key = format!("{}: ", name);
    let mut from = 0;
    while let Some(i) = s[from..].find(&key) {
        let at = from + i;
        if at == 0 || !s.as_bytes()[at - 1].is_ascii_alphanumeric() && s.as_bytes()[at - 1] != b'_' {
            let v = &s[at + key.len()..];
            let end = v.find(|c: char| c == ',' || c == ' ' || c == '}' || c == '\n').unwrap_or(v.len());
            return Ok(&v[..end]);
        }
        from = at + key.len();
    }
    Err(format!("no {} in {}", name, s))
}

fn has(s: &str, name: &str, want: impl std::fmt::Display) -> R {
    let got = field(s, name)?;
    if got == want.to_string() {
        Ok(())
    } else {
        Err(format!("{} shown as {}, is {}: {}", name, got, want, s))
    }
}

/// A flag may be shown as a boolean or a digit.
fn flag(s: &str, name: &str, want: bool) -> R {
    let got = field(s, name)?;
    if got == want.to_string() || got == (want as u8).to_string() {
        Ok(())
    } else {
        Err(format!("{} shown as {}, is {}: {}", name, got, want, s))
    }
}

fn adaptation(s: &str, p: &[u8]) -> R {
    let n = p[4];
    has(s, "length", n)?;
    let names = ["discontinuity", "random_access", "es_priority", "PCR_flag", "OPCR_flag", "splicing_point", "private_data", "af_extension"];
    if n == 0 {
        // the field has no flags: not shown, or shown as unset
        for name in &names {
            if field(s, name).is_ok() {
                flag(s, name, false)?;
            }
        }
        return Ok(());
    }
    for (i, name) in names.iter().enumerate() {
        flag(s, name, p[5] >> (7 - i) & 1 == 1)?;
    }
    if p[5] & 0x10 != 0 && n >= 7 {
        let base = be(&p[6..10]) as u64 * 2 + u64::from(p[10] >> 7);
        let ext = u64::from(p[10] & 1) * 256 + u64::from(p[11]);
        has(s, "pcr", base * 300 + ext)?;
    }
    if p[5] & 0x10 == 0 && field(s, "pcr").is_ok() {
        return Err(format!("a clock is shown that is not there: {}", s));
    }
    Ok(())
}

fn packet(c: &mut Ctx, p: &[u8]) -> R {
    c.call(2);
    let s = format!("{:?}", TsPacket::new(p));
    flag(&s, "sync", p[0] == 0x47)?;
    flag(&s, "error", p[1] & 0x80 != 0)?;
    flag(&s, "pusi", p[1] & 0x40 != 0)?;
    has(&s, "pid", be(&p[1..3]) & 0x1FFF)?;
    has(&s, "scrambling", p[3] >> 6)?;
    flag(&s, "payload", p[3] & 0x10 != 0)?;
    has(&s, "cc", p[3] & 15)?;
    let a = format!("{:?}", TsAdaptation::new(p));
    if p[3] & 0x20 == 0 {
        has(&s, "adaptation", "false")?;
        if a != "false" {
            return Err(format!("adaptation field shown in a packet without one: {}", a));
        }
    } else {
        adaptation(&s, p)?;
        adaptation(&a, p)?;
    }
    let _ = format!("{:#?}", TsPacket::new(p));
    Ok(())
}

/// Formats anything; the output is not empty.
fn shows<X: std::fmt::Debug>(c: &mut Ctx, x: &X) -> R {
    c.call(2);
    if format!("{:?}", x).is_empty() || format!("{:#?}", x).is_empty() {
        return Err("formats to nothing".to_string());
    }
    Ok(())
}

fn text(c: &mut Ctx, w: &[u8]) -> R {
    c.call(3);
    let t = T::read(w);
    let real = StringDVB::from(w);
    let s = format!("{:?}", real);
    if t.cp == UTF8 && std::str::from_utf8(&t.b).is_err() {
        // how undecodable text looks is not claimed
        let _ = real.to_string();
        return Ok(());
    }
    let want = t.text();
    // text without bytes has no table
    if !t.b.is_empty() {
        has(&s, "codepage", t.cp)?;
    }
    let shown = format!("text: {:?}", want);
    if !s.contains(&shown) {
        return Err(format!("{:02x?} shown as {}, expected {}", w, s, shown));
    }
    if real.to_string() != want {
        return Err(format!("{:02x?} displayed as {:?}, expected {:?}", w, real.to_string(), want));
    }
    Ok(())
}

fn tables(c: &mut Ctx, s: &[u8]) -> R {
    let p = psi_of(s);
    shows(c, &p)?;
    shows(c, &m::Pat::from(&p))?;
    shows(c, &m::Pmt::from(&p))?;
    shows(c, &m::Sdt::from(&p))?;
    shows(c, &m::Nit::from(&p))?;
    shows(c, &m::Eit::from(&p))?;
    shows(c, &m::Tdt::from(&p))?;
    shows(c, &m::Tot::from(&p))
}

fn main() {
    run("C30", |r| {
        let thorough = r.thorough();
        r.explore("every packet header", |c| {
            let b1 = c.pick(256) as u8;
            let b3 = c.pick(256) as u8;
            let mut p = [0xFFu8; 188];
            p[0] = 0x47;
            p[1] = b1;
            p[3] = b3;
            let step = if thorough { 1 } else { 17 };
            for b2 in (0..=255u8).step_by(step) {
                p[2] = b2;
                p[4] = b1 ^ b2;
                packet(c, &p)?;
                c.bulk(1);
            }
            for b0 in 0..=255u8 {
                p[0] = b0;
                if b1 % 16 == 0 {
                    packet(c, &p)?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("every adaptation length and flag byte", |c| {
            let n = c.pick(256) as u8;
            let f = c.pick(256) as u8;
            let mut p = [0x00u8; 188];
            p[..6].copy_from_slice(&[0x47, 0x01, 0x00, 0x30, n, f]);
            for control in [0x00u8, 0x10, 0x20, 0x30] {
                for pcr in [[0u8; 6], [0xFF; 6], [0x12, 0x34, 0x56, 0x78, 0x80, 0x99], [0, 0, 0, 1, 0x7F, 0x2B]] {
                    p[3] = control;
                    p[6..12].copy_from_slice(&pcr);
                    packet(c, &p)?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("every clock byte", |c| {
            let i = c.pick(6);
            let j = c.pick(6);
            let mut p = [0x55u8; 188];
            p[..6].copy_from_slice(&[0x47, 0x01, 0x00, 0x20, 183, 0x10]);
            for a in 0..=255u8 {
                for b in [0u8, 1, 0x7F, 0x80, 0x81, 0xFE, 0xFF] {
                    p[6 + i] = a;
                    p[6 + j] = b;
                    packet(c, &p)?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("every short text", |c| {
            let a = c.pick(256) as u8;
            text(c, &[])?;
            text(c, &[a])?;
            for b in 0..=255u8 {
                text(c, &[a, b])?;
                let third: &[u8] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0x15, 0x20, 0x7F, 0x80, 0xA0, 0xC3, 0xE2, 0xF0, 0xFF] } else { &[0, 1, 5, 12, 15, 0x41, 0x80, 0xA9, 0xF0] };
                for &x in third {
                    text(c, &[a, b, x])?;
                    text(c, &[a, b, x, b, a])?;
                    c.bulk(2);
                }
            }
            Ok(())
        });
        r.explore("every character of every table", |c| {
            let cp = c.of(&TABLES);
            for a in 0..=255u8 {
                for tail in [&[][..], &[0x41], &[0x22, 0x5C], &[0x0A, 0x8A]] {
                    let mut b = vec![0x41, a];
                    b.extend_from_slice(tail);
                    text(c, &T::new(cp, &b).wire())?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("descriptors of any tag and body", |c| {
            let tag = c.pick(256) as u8;
            let n = c.pick(256);
            for f in [0u8, 1, 0x10, 0x15, 0x20, 0x99, 0xFF] {
                let mut v = vec![tag, n as u8];
                v.resize(2 + n, f);
                let mut l = m::Descriptors::default();
                l.parse(&v);
                shows(c, &l)?;
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("descriptors with any byte changed", |c| {
            let z = zoo();
            let d = z[c.pick(z.len())].encode();
            let i = c.pick(d.len());
            for a in 0..=255u8 {
                let mut v = d.clone();
                v[i] = a;
                v.extend_from_slice(&[0x52, 1, 2, 0x43]);
                let mut l = m::Descriptors::default();
                l.parse(&v);
                shows(c, &l)?;
                for x in l.iter() {
                    shows(c, x)?;
                }
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("tables from arbitrary sections", |c| {
            let id = c.of(&[0x00u8, 0x02, 0x40, 0x41, 0x42, 0x46, 0x4E, 0x50, 0x6F, 0x70, 0x73, 0xFF]);
            let fill = c.of(&[0u8, 1, 5, 0x10, 0x20, 0x4E, 0x99, 0xF0, 0xFF]);
            for n in 1..if thorough { 400 } else { 120 } {
                let mut b = vec![fill; n];
                tables(c, &section(id, 0xB, &b))?;
                for (i, x) in b.iter_mut().enumerate() {
                    *x = (i as u8).wrapping_mul(fill);
                }
                tables(c, &section(id, 0xB, &b))?;
                // long loops
                for (i, x) in b.iter_mut().enumerate() {
                    *x = [0u8, fill, 0xF0, 3][i % 4];
                }
                tables(c, &section(id, 0xB, &b))?;
                c.bulk(3);
            }
            Ok(())
        });
        r.explore("texts of every length", |c| {
            let cp = c.of(&TABLES);
            let hi = c.pick(17);
            for n in hi * 256..hi * 256 + 256 {
                for b in [b'a', b'"'] {
                    text(c, &T::new(cp, &vec![b; n]).wire())?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
    })
}
