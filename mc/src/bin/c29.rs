//! C29: classification of elementary streams.
use mc::engine::run;
use mc::spec::desc::zoo;
use mpegts::es::StreamType;
use mpegts::psi::{DescRaw, PmtItem};

/// Reference, from the statement.
fn class(ty: u8, tags: &[u8]) -> StreamType {
    match ty {
        0x01 | 0x02 | 0x10 | 0x1B | 0x24 => StreamType::VIDEO,
        0x03 | 0x04 | 0x0F | 0x11 => StreamType::AUDIO,
        0x05 if tags.contains(&0x6F) => StreamType::AIT,
        0x06 => {
            for t in tags {
                match t {
                    0x56 => return StreamType::TTX,
                    0x59 => return StreamType::SUB,
                    0x6A | 0x7A | 0x81 => return StreamType::AUDIO,
                    _ => {}
                }
            }
            StreamType::DATA
        }
        _ => StreamType::DATA,
    }
}

fn item(ty: u8, tags: &[u8]) -> PmtItem {
    let mut i = PmtItem::default();
    i.stream_type = ty;
    i.pid = 0x100;
    for &t in tags {
        i.descriptors.push(DescRaw { tag: t, data: vec![0xC0, t] });
    }
    i
}

fn check(ty: u8, tags: &[u8]) -> Result<(), String> {
    let got = item(ty, tags).get_stream_type();
    let want = class(ty, tags);
    if got != want {
        return Err(format!("type {:02x} with descriptors {:02x?} is {:?}, expected {:?}", ty, tags, got, want));
    }
    Ok(())
}

const DECIDING: [u8; 6] = [0x56, 0x59, 0x6A, 0x7A, 0x81, 0x6F];

fn main() {
    run("C29", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("every type x every single tag", |c| {
            let ty = c.pick(256) as u8;
            if StreamType::default() != StreamType::DATA {
                return Err("the default type is not data".to_string());
            }
            check(ty, &[])?;
            for t in 0..=255u8 {
                check(ty, &[t])?;
            }
            c.bulk(257);
            c.call(257);
            c.sample(|| format!("type {:02x}", ty));
            Ok(())
        });
        // pairs of tags: all for the types where descriptors matter, and in the
        // thorough tier for every type
        r.explore("every pair of tags", |c| {
            let ty = if thorough { c.pick(256) as u8 } else { c.of(&[0x05u8, 0x06, 0x02, 0x03, 0x1B, 0x0D, 0x80]) };
            let a = c.pick(256) as u8;
            for b in 0..=255u8 {
                check(ty, &[a, b])?;
            }
            c.bulk(256);
            c.call(256);
            Ok(())
        });
        let alpha = [0x56u8, 0x59, 0x6A, 0x7A, 0x81, 0x6F, 0x0A, 0x52, 0x7F];
        let depth = r.by(4, 6);
        r.explore("sequences over the deciding tags", |c| {
            let ty = c.of(&[0x05u8, 0x06, 0x01, 0x0F, 0x0B]);
            let mut tags = Vec::new();
            for _ in 0..depth {
                match c.pick(alpha.len() + 1) {
                    0 => break,
                    k => tags.push(alpha[k - 1]),
                }
            }
            c.state(&(ty, &tags));
            c.call(1);
            check(ty, &tags)
        });
        r.explore("every position of a deciding tag in a long list", |c| {
            let ty = c.of(&[0x05u8, 0x06, 0x02, 0x04, 0xF0]);
            let n = 1 + c.pick(40);
            let at = c.pick(n);
            for t in alpha {
                let mut tags = vec![0x0Eu8; n];
                tags[at] = t;
                check(ty, &tags)?;
                c.state(&(ty, &tags));
            }
            c.call(alpha.len() as u64);
            Ok(())
        });
        r.explore("parsed streams with every descriptor kind around", |c| {
            let ty = c.pick(256) as u8;
            let z = zoo();
            let k = c.pick(z.len());
            for t in [0x56u8, 0x59, 0x6A, 0x7A, 0x81, 0x6F, 0x55] {
                for first in [true, false] {
                    let raw = vec![t, 2, 0xC0, 0x01];
                    let e = z[k].encode();
                    let d: Vec<u8> = if first { [raw, e].concat() } else { [e, raw].concat() };
                    let mut b = vec![ty, 0xE1, 0x00, 0xF0 | (d.len() >> 8) as u8, d.len() as u8];
                    b.extend(&d);
                    let it = PmtItem::parse(&b);
                    let tags = if first { [t, z[k].tag()] } else { [z[k].tag(), t] };
                    let want = class(ty, &tags);
                    if it.get_stream_type() != want {
                        return Err(format!("type {:02x} descriptors {:02x?}: {:?}, expected {:?}", ty, tags, it.get_stream_type(), want));
                    }
                    c.state(&(ty, &d));
                    c.call(2);
                }
            }
            Ok(())
        });
        r.explore("every tag with bodies of every length", |c| {
            let ty = c.of(&[0x05u8, 0x06, 0x02, 0x03, 0x0D]);
            let t = c.pick(256) as u8;
            for n in 0..=255usize {
                for fill in [0u8, 0xFF] {
                    let mut i = PmtItem::default();
                    i.stream_type = ty;
                    i.descriptors.push(DescRaw { tag: t, data: vec![fill; n] });
                    let want = class(ty, &[t]);
                    if i.get_stream_type() != want {
                        return Err(format!("type {:02x}, descriptor {:02x} with {} bytes of {:02x} is {:?}, expected {:?}", ty, t, n, fill, i.get_stream_type(), want));
                    }
                    // tags without a type of their own, also parsed; an unparsable
                    // one would be dropped
                    if DECIDING.contains(&t) {
                        let mut b = vec![ty, 0xE1, 0x00, 0xF0 | ((n + 2) >> 8) as u8, (n + 2) as u8, t, n as u8];
                        b.resize(b.len() + n, fill);
                        let got = PmtItem::parse(&b).get_stream_type();
                        if got != want {
                            return Err(format!("type {:02x}, parsed descriptor {:02x} with {} bytes of {:02x} is {:?}, expected {:?}", ty, t, n, fill, got, want));
                        }
                    }
                }
            }
            c.bulk(512);
            c.call(512);
            Ok(())
        });
        r.explore("every body of two bytes of the deciding tags", |c| {
            let ty = c.of(&[0x05u8, 0x06]);
            let t = c.of(&DECIDING);
            let x = c.pick(256) as u8;
            for y in 0..=255u8 {
                let b = [ty, 0xE1, 0x00, 0xF0, 4, t, 2, x, y];
                let got = PmtItem::parse(&b).get_stream_type();
                if got != class(ty, &[t]) {
                    return Err(format!("type {:02x}, descriptor {:02x} with {:02x} {:02x} is {:?}", ty, t, x, y, got));
                }
            }
            c.bulk(256);
            c.call(256);
            Ok(())
        });
    })
}
