//! C13: time tables.
use mc::engine::{eq, run, Ctx};
use mc::spec::desc::{filler, zoo, D};
use mc::spec::table::{emit, feed, tdt_section, Tot};
use mc::spec::time::{utc, LAST_DAY};
use mc::spec::{psi_of, section};
use mpegts::psi::{self as m, Psi, PsiDemux};

const DAYS: u64 = LAST_DAY + 1;

fn new_tdt(t: u64) -> m::Tdt {
    let mut d = m::Tdt::default();
    d.time = t;
    d
}

/// One time through TDT and TOT, fully checked.
fn both(c: &mut Ctx, t: u64, desc: &[D], cc: u8) -> Result<(), String> {
    let at = |e: String| format!("time {}: {}", t, e);
    let (s, out) = emit(&new_tdt(t), 0x14, cc).map_err(at)?;
    let want = tdt_section(t);
    if s != [want.clone()] {
        return Err(at(format!("TDT {:02x?}, expected {:02x?}", s, want)));
    }
    let mut d = new_tdt(1);
    d.parse(&psi_of(&want));
    eq("TDT time", d.time, t)?;
    eq("TDT created from its section", m::Tdt::from(&psi_of(&want)).time, t)?;
    let mut p = Psi::default();
    let mut d = new_tdt(1);
    for k in out.chunks(188) {
        p.mux(k);
        d.parse(&p);
    }
    eq("TDT time reassembled", d.time, t)?;

    let model = Tot { time: t, desc: desc.to_vec() };
    let (s, out) = emit(&model.real(), 0x14, cc).map_err(at)?;
    let want = model.section();
    if s != [want.clone()] {
        return Err(at(format!("TOT {:02x?}, expected {:02x?}", s, want)));
    }
    model.same(&m::Tot::from(&psi_of(&want))).map_err(at)?;
    let mut d = m::Tot::default();
    let n = feed(&out, |p| d.parse(p));
    eq("TOT sections", n, 1)?;
    model.same(&d).map_err(at)?;
    c.call(8);
    Ok(())
}

fn main() {
    run("C13", |r| {
        let thorough = r.thorough();
        r.explore("every day, boundary seconds", |c| {
            let from = c.pick((DAYS as usize + 63) / 64) as u64 * 64;
            for day in from..(from + 64).min(DAYS) {
                for s in [0u64, 1, 59, 60, 3599, 3600, 35999, 36000, 43200, 71999, 72000, 86399] {
                    both(c, day * 86400 + s, &[], (day % 16) as u8)?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        // TDT: bytes of the only packet against the reference, and back
        let days: Vec<u64> = if thorough { (0..DAYS).collect() } else { (0..DAYS).filter(|d| d % 97 == 0 || *d > DAYS - 3 || *d < 2).collect() };
        let days = &days;
        r.explore("every second", |c| {
            let day = days[c.pick(days.len())];
            let mut out: Vec<u8> = Vec::with_capacity(188);
            let head = utc(day * 86400);
            let mut p = psi_of(&tdt_section(0));
            for s in 0..86400u64 {
                let t = day * 86400 + s;
                let b = |v: u64| (v / 10 * 16 + v % 10) as u8;
                let want = [0x47, 0x40, 0x14, 0x13, 0, 0x70, 0x70, 5, head[0], head[1], b(s / 3600), b(s / 60 % 60), b(s % 60), 0xFF, 0xFF];
                out.clear();
                let mut cc = 3;
                new_tdt(t).demux(0x14, &mut cc, &mut out);
                if out.len() != 188 || out[..15] != want || cc != 4 {
                    return Err(format!("time {}: TDT packet {:02x?}, expected {:02x?}", t, &out[..15.min(out.len())], want));
                }
                p.buffer.clear();
                p.buffer.extend_from_slice(&out[5..13]);
                let mut d = new_tdt(1);
                d.parse(&p);
                if d.time != t {
                    return Err(format!("time {} parsed as {}", t, d.time));
                }
            }
            c.call(2 * 86400);
            c.bulk(86400);
            Ok(())
        });
        r.explore("descriptor layouts", |c| {
            let t = c.of(&[0u64, 1_332_637_199, LAST_DAY * 86400 + 86399]);
            let z = zoo();
            let k = c.pick(if thorough { 5 } else { 4 });
            let l: Vec<_> = (0..k).map(|_| z[c.pick(z.len())].clone()).collect();
            c.state(&(t, format!("{:?}", l)));
            both(c, t, &l, 7)
        });
        r.explore("every descriptor length", |c| {
            let n = c.pick(4083);
            if n == 1 {
                return Ok(());
            }
            c.state(&n);
            both(c, 1_000_000_000 + n as u64, &filler(n, 2), (n % 16) as u8)
        });
        r.explore("every combination of boundary times, counters and descriptors", |c| {
            let day = c.of(&[0u64, 1, 58, 59, 789, 10_956, 10_957, 16_071, DAYS - 2, DAYS - 1]);
            let s = c.of(&[0u64, 9, 10, 59, 60, 599, 3599, 3600, 35_999, 36_000, 43_200, 71_999, 72_000, 86_399]);
            let cc = c.pick(16) as u8;
            let n = c.of(&[0usize, 2, 157, 158, 255, 256, 257, 341, 342, 343, 1009, 4082]);
            c.state(&(day, s, cc, n));
            both(c, day * 86400 + s, &filler(n, cc), cc)
        });
        // what must not be taken
        r.explore("incomplete, foreign and damaged sections", |c| {
            let t = c.of(&[0u64, 86399, 1_600_000_000]);
            let tdt = tdt_section(t);
            let tot = Tot { time: t, desc: zoo()[c.pick(4)..][..2].to_vec() }.section();
            let old = 424242;
            let untouched = |what: String, p: &Psi| -> Result<(), String> {
                let mut a = new_tdt(old);
                a.parse(p);
                let mut b = m::Tot::default();
                b.time = old;
                b.parse(p);
                if a.time != old || b.time != old || !b.descriptors.is_empty() {
                    return Err(format!("{}: TDT time {}, TOT time {}, {} descriptors", what, a.time, b.time, b.descriptors.len()));
                }
                Ok(())
            };
            for s in [&tdt, &tot] {
                // truncated: size known, bytes missing
                for n in 3..s.len() {
                    let mut p = psi_of(s);
                    p.buffer.truncate(n);
                    untouched(format!("{} of {} bytes", n, s.len()), &p)?;
                    c.call(2);
                    c.state(&(t, s.len(), n));
                }
                // every other table id, with the checksum it should have
                for id in 0..=255u8 {
                    if id == 0x70 || id == 0x73 {
                        continue;
                    }
                    let mut x = s.clone();
                    x[0] = id;
                    untouched(format!("table id {:02x}", id), &psi_of(&x))?;
                    let y = section(id, 7, &s[3..s.len() - if s.len() == 8 { 0 } else { 4 }]);
                    untouched(format!("table id {:02x} with checksum", id), &psi_of(&y))?;
                    c.call(4);
                    c.state(&(t, s.len(), id, 1));
                }
            }
            // a TOT with any bit wrong
            for bit in 0..tot.len() * 8 {
                let mut x = tot.clone();
                x[bit / 8] ^= 0x80 >> (bit % 8);
                untouched(format!("TOT with bit {} wrong", bit), &psi_of(&x))?;
                c.call(2);
                c.state(&(t, bit, 2));
            }
            // a TDT of any other size
            for n in 0..64usize {
                if n != 8 {
                    let mut x = vec![0x70, 0x70, n.saturating_sub(3) as u8];
                    x.resize(n.max(3), 0x12);
                    untouched(format!("TDT of {} bytes", x.len()), &psi_of(&x))?;
                    c.call(2);
                }
            }
            // each table ignores the other's section
            let mut a = new_tdt(old);
            a.parse(&psi_of(&tot));
            eq("TDT from a TOT section", a.time, old)?;
            let mut b = m::Tot::default();
            b.parse(&psi_of(&tdt));
            eq("TOT from a TDT section", b.time, 0)?;
            Ok(())
        });
        r.explore("partly received", |c| {
            // sections cut by packets: no parse before the last byte
            let af = c.range(0, 181);
            let t = 1_234_567_890;
            let tot = c.pick(2) == 1;
            let s = if tot { Tot { time: t, desc: zoo()[11..12].to_vec() }.section() } else { tdt_section(t) };
            let (pk, span) = mc::spec::ts::pack(0x14, 2, &[s], &[true], |_| Some(af));
            let mut p = Psi::default();
            let (mut a, mut b) = (new_tdt(5), m::Tot::default());
            for (i, k) in pk.iter().enumerate() {
                p.mux(k);
                a.parse(&p);
                b.parse(&p);
                c.call(3);
                let done = i == span[0].1;
                eq("TDT time", a.time, if done && !tot { t } else { 5 })?;
                eq("TOT time", b.time, if done && tot { t } else { 0 })?;
            }
            c.state(&(af, tot));
            Ok(())
        });
        r.explore("cut by packets of which any may be lost", |c| {
            // four times, every byte of them different
            let times = [951_909_071u64, 1_234_567_333, 1_700_000_002, 1_999_999_444];
            let cap = c.range(3, 12);
            let all: Vec<Vec<u8>> = times.iter().map(|&t| tdt_section(t)).collect();
            let (pk, span) = mc::spec::ts::pack(0x14, 9, &all, &[false, false, false, true], |_| Some(183 - cap));
            let n = pk.len();
            let mut p = Psi::default();
            let mut fed = Vec::new();
            for (i, k) in pk.iter().enumerate() {
                if c.pick(2) == 1 {
                    fed.push(false);
                    continue;
                }
                fed.push(true);
                p.mux(k);
                let mut a = new_tdt(5);
                a.parse(&p);
                c.call(2);
                // the first one to end here, if all of it was fed
                let want = span.iter().position(|x| x.1 == i).filter(|&x| (span[x].0..=i).all(|j| fed[j]));
                let ends: Vec<u64> = span.iter().zip(&times).filter(|(x, _)| x.1 == i && (x.0..=i).all(|j| fed[j])).map(|(_, &t)| t).collect();
                match want {
                    Some(x) => eq("time received", a.time, times[x])?,
                    None if a.time != 5 && !ends.contains(&a.time) => return Err(format!("time {} out of packets fed {:?} of {}", a.time, fed, n)),
                    None => {}
                }
                c.state(&(cap, &fed));
            }
            c.sample(|| format!("{} bytes per packet, {} packets, fed {:?}", cap, n, fed));
            Ok(())
        });
    })
}
