//! C22: language codes.
use mc::engine::run;
use mc::spec::lang::LANGS;
use mpegts::textcode::lang::convert;
use std::collections::HashMap;

fn main() {
    // (two-letter, terminological, bibliographic)
    let mut want: HashMap<&str, &str> = HashMap::new();
    for &(two, t, b) in LANGS {
        want.insert(two, b);
        want.insert(b, two);
        want.insert(t, two);
    }
    let want = &want;
    let check = move |s: &str| -> Result<(), String> {
        let got = convert(s);
        if got != want.get(s).copied() {
            return Err(format!("{:?} converts to {:?}, expected {:?}", s, got, want.get(s)));
        }
        Ok(())
    };
    run("C22", |r| {
        r.deepen();
        r.explore("every string of up to 3 printable characters", |c| {
            let a = (0x20 + c.pick(0x5F)) as u8 as char;
            let mut s = String::new();
            check(&s)?;
            s.push(a);
            check(&s)?;
            for b in 0x20..0x7Fu8 {
                s.truncate(1);
                s.push(b as char);
                check(&s)?;
                for d in 0x20..0x7Fu8 {
                    s.truncate(2);
                    s.push(d as char);
                    check(&s)?;
                }
            }
            c.bulk(2 + 95 + 95 * 95);
            c.call(2 + 95 + 95 * 95);
            Ok(())
        });
        r.explore("control characters, longer and non-ASCII strings", |c| {
            let base = c.pick(LANGS.len());
            let (two, t, b) = LANGS[base];
            let mut n = 0;
            for x in [two, b, t] {
                for extra in ["", " ", "\0", "x", "é", "語", "\u{1F600}"] {
                    for s in [format!("{}{}", x, extra), format!("{}{}", extra, x), x.to_uppercase() + extra, x.replace('a', "á") + extra] {
                        check(&s)?;
                        n += 1;
                    }
                }
                for y in [two, b, t] {
                    check(&format!("{}{}", x, y))?;
                    check(&format!("{},{}", x, y))?;
                    n += 2;
                }
                for i in 0..=x.len() {
                    check(&x[..i])?;
                    check(&x[i..])?;
                    n += 2;
                }
            }
            c.bulk(n);
            c.call(n);
            c.sample(|| format!("{} / {} / {}", two, b, t));
            Ok(())
        });
        r.explore("every character alone, doubled, tripled", |c| {
            let hi = c.pick(0x1100) as u32;
            let mut n = 0;
            for lo in 0..256 {
                if let Some(ch) = char::from_u32(hi * 256 + lo) {
                    for k in 1..=3 {
                        let s: String = std::iter::repeat(ch).take(k).collect();
                        check(&s)?;
                        n += 1;
                    }
                }
            }
            c.bulk(n);
            c.call(n);
            Ok(())
        });
    })
}
