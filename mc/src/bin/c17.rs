//! C17: descriptor loops of any content.
use mc::engine::{hex, run, Ctx};
use mc::spec::desc::{decode_loop, encode_all, real, same_list, zoo, D, T};
use mpegts::psi::Descriptors;

const KNOWN: [u8; 14] = [0x09, 0x0A, 0x0E, 0x40, 0x41, 0x43, 0x44, 0x48, 0x4D, 0x4E, 0x52, 0x58, 0x5A, 0x83];

fn check(b: &[u8]) -> Result<(), String> {
    inner(b).map_err(|e| format!("loop {}: {}", hex(b), e))
}

fn inner(b: &[u8]) -> Result<(), String> {
    let want = decode_loop(b);
    let mut l = Descriptors::default();
    l.parse(b);
    same_list(&want, &l)?;
    let size = l.size();
    let mut out = Vec::with_capacity(300);
    let n = l.assemble(&mut out);
    if n != out.len() || size != n {
        return Err(format!("announced {}, returned {}, encoded {} bytes", size, n, out.len()));
    }
    if n > b.len() {
        return Err(format!("{} bytes encoded from {}", n, b.len()));
    }
    let model = encode_all(&want);
    if out != model {
        return Err(format!("encoded as {}, expected {}", hex(&out), hex(&model)));
    }
    // every length byte leads to the next descriptor
    let (mut at, mut k) = (0, 0);
    while at + 2 <= out.len() {
        at += 2 + out[at + 1] as usize;
        k += 1;
    }
    if at != out.len() || k != want.len() {
        return Err(format!("lengths in {} do not add up", hex(&out)));
    }
    let mut again = Descriptors::default();
    again.parse(&out);
    let mut two = Vec::with_capacity(out.len());
    again.assemble(&mut two);
    if two != out {
        return Err(format!("encoded as {}, then as {}", hex(&out), hex(&two)));
    }
    Ok(())
}

fn one(c: &mut Ctx, tag: u8, body: &[u8]) -> Result<(), String> {
    let mut v = Vec::with_capacity(2 + body.len());
    v.push(tag);
    v.push(body.len() as u8);
    v.extend_from_slice(body);
    c.call(4);
    check(&v)
}

fn main() {
    run("C17", |r| {
        let thorough = r.thorough();
        r.explore("every tag, body length and filling", |c| {
            let tag = c.pick(256) as u8;
            let n = c.pick(256);
            for f in [0u8, 1, 4, 5, 0x09, 0x0B, 0x10, 0x15, 0x1F, 0x20, 0x41, 0x99, 0xFF] {
                one(c, tag, &vec![f; n])?;
                c.bulk(1);
            }
            let b: Vec<u8> = (0..n).map(|i| i as u8).collect();
            one(c, tag, &b)?;
            let b: Vec<u8> = (0..n).map(|i| (n - 1 - i) as u8).collect();
            one(c, tag, &b)?;
            c.bulk(2);
            Ok(())
        });
        r.explore("every short body of a known tag", |c| {
            let tag = c.of(&KNOWN);
            let a = c.pick(257);
            if a == 256 {
                return one(c, tag, &[]);
            }
            let a = a as u8;
            one(c, tag, &[a])?;
            let third: Vec<u8> = if thorough { (0..=255).collect() } else { vec![0, 1, 2, 4, 5, 0x0B, 0x0C, 0x10, 0x15, 0x20, 0x7F, 0x80, 0xFF] };
            for b in 0..=255u8 {
                one(c, tag, &[a, b])?;
                for &x in &third {
                    one(c, tag, &[a, b, x])?;
                }
                c.bulk(1 + third.len() as u64);
            }
            Ok(())
        });
        r.explore("bodies over a small alphabet", |c| {
            let tag = c.of(&KNOWN);
            let alphabet: &[u8] = if thorough { &[0, 1, 2, 3, 5, 0x10, 0x20, 0xFF] } else { &[0, 1, 2, 5, 0x10, 0xFF] };
            let first = c.of(alphabet);
            let second = c.of(alphabet);
            let max = if thorough { 8 } else { 7 };
            for n in 1..=max - 2 {
                let mut i = vec![0usize; n];
                let mut b = vec![alphabet[0]; n + 2];
                b[0] = first;
                b[1] = second;
                'all: loop {
                    for (x, &j) in b[2..].iter_mut().zip(&i) {
                        *x = alphabet[j];
                    }
                    one(c, tag, &b)?;
                    c.bulk(1);
                    for j in 0..n {
                        i[j] += 1;
                        if i[j] < alphabet.len() {
                            continue 'all;
                        }
                        i[j] = 0;
                    }
                    break;
                }
            }
            Ok(())
        });
        r.explore("every pair of bytes of a valid body", |c| {
            let z = zoo();
            let d = &z[c.pick(14)];
            let tag = d.tag();
            let body = d.body();
            let n = body.len();
            let i = c.pick(n);
            for j in i + 1..n.max(i + 2) {
                let mut b = body.clone();
                for x in 0..=255u8 {
                    b[i] = x;
                    if j < n {
                        let other: Vec<u8> = if thorough || n <= 13 { (0..=255).collect() } else { vec![0, 1, 2, 3, 4, 5, 8, 0x10, 0x20, 0xFE, 0xFF] };
                        for y in other {
                            b[j] = y;
                            one(c, tag, &b)?;
                            c.bulk(1);
                        }
                    } else {
                        one(c, tag, &b)?;
                        c.bulk(1);
                    }
                }
            }
            Ok(())
        });
        r.explore("every first and second inner length", |c| {
            // fixed part before the first text length
            let (tag, at) = c.of(&[(0x48u8, 1usize), (0x4D, 3), (0x4E, 4)]);
            let n = c.pick(256);
            let fill = c.of(&[0x41u8, 0, 1, 0x10]);
            let mut b = vec![fill; n];
            if n <= at {
                return one(c, tag, &b);
            }
            for x in 0..=255usize {
                b[at] = x as u8;
                let second = at + 1 + x;
                if second < n {
                    let old = b[second];
                    let exact = n - second - 1;
                    for y in [0, exact, exact.wrapping_sub(1) & 255, (exact + 1) & 255, 1, 255] {
                        b[second] = y as u8;
                        one(c, tag, &b)?;
                        c.bulk(1);
                    }
                    b[second] = old;
                } else {
                    one(c, tag, &b)?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("item lengths of extended events", |c| {
            let items = c.pick(if thorough { 250 } else { 60 });
            let text = c.of(&[0usize, 1, 5]);
            let skew = c.pick(3); // text length right, too short, too long
            let mut b = vec![0x12, 0x65, 0x6E, 0x67, items as u8];
            b.extend(vec![0u8; items]);
            b.push(match skew {
                0 => text,
                1 => text.wrapping_sub(1) & 255,
                _ => text + 1,
            } as u8);
            b.extend(vec![0x42; text]);
            for x in 0..=items + 1 {
                for y in 0..=items + 1 {
                    let mut v = b.clone();
                    if items > 0 {
                        v[5] = x as u8;
                        if 6 + x < 5 + items {
                            v[6 + x] = y as u8;
                        }
                    }
                    one(c, 0x4E, &v)?;
                    c.bulk(1);
                }
            }
            Ok(())
        });
        r.explore("text selectors", |c| {
            let tag = c.of(&[0x40u8, 0x48, 0x4D, 0x4E]);
            let third: Vec<u8> = if thorough { (0..=255).collect() } else { vec![0, 1, 4, 5, 11, 12, 15, 16, 0x15, 0x20] };
            let a = c.pick(256) as u8;
            for b in 0..=255u8 {
                for &x in &third {
                    let t = [a, b, x, 0xA1, 0x41];
                    for n in 1..=5 {
                        let t = &t[..n];
                        let k = n as u8;
                        let body: Vec<u8> = match tag {
                            0x40 => t.to_vec(),
                            0x48 => [&[1, k], t, &[k], t].concat(),
                            0x4D => [&b"eng"[..], &[k], t, &[k], t].concat(),
                            _ => [&[0][..], b"eng", &[2 * k + 2, k], t, &[k], t, &[k], t].concat(),
                        };
                        one(c, tag, &body)?;
                    }
                    c.bulk(3);
                }
            }
            Ok(())
        });
        let mut pool: Vec<Vec<u8>> = zoo().iter().map(|d| d.encode()).collect();
        for x in [
            &[0x0Eu8, 2, 1, 2][..],
            &[0x48, 3, 1, 9, 0],
            &[0x4D, 0],
            &[0x4E, 6, 0, 1, 2, 3, 9, 0],
            &[0x58, 13, 0, 0, 0, 0, 0xFF, 0, 0, 0, 0, 0, 0, 0, 0],
            &[0x52, 0],
            &[0x40, 3, 0x10, 0, 0x63],
            &[0x00, 0],
            &[0xFF, 1, 0xFF],
        ] {
            pool.push(x.to_vec());
        }
        let pool = &pool;
        r.explore("every sequence of descriptors, cut anywhere", |c| {
            let k = c.range(1, if thorough { 4 } else { 3 });
            let mut v = Vec::new();
            for _ in 0..k {
                v.extend_from_slice(&pool[c.pick(pool.len())]);
            }
            // cut inside the last descriptor, or not at all
            let last = if k < 4 { v.len().min(40) } else { 1 };
            for n in v.len() - last..=v.len() {
                check(&v[..n])?;
                c.call(4);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("outer lengths", |c| {
            let tag = c.of(&[0x09u8, 0x0A, 0x40, 0x43, 0x48, 0x4E, 0x58, 0x83, 0x00, 0xFF]);
            let n = c.pick(256);
            let mut v = vec![tag, n as u8];
            v.extend((0..n + 6).map(|i| (i * 5) as u8));
            for cut in 0..=v.len() {
                check(&v[..cut])?;
                c.call(4);
                c.bulk(1);
            }
            Ok(())
        });
        r.explore("every loop of a few bytes", |c| {
            let a = c.pick(256) as u8;
            let b = c.pick(256) as u8;
            check(&[a])?;
            check(&[a, b])?;
            c.call(8);
            if !thorough && b > 7 && b < 255 {
                return Ok(());
            }
            for x in 0..=255u8 {
                check(&[a, b, x])?;
                c.call(4);
                for y in [0u8, 1, 2, 0x43, 0xFF] {
                    check(&[a, b % 8, x, y])?;
                    check(&[a, b, x, y, 0x52])?;
                    c.call(8);
                }
            }
            c.bulk(256 * 6);
            Ok(())
        });
        r.explore("behind many other bytes", |c| {
            let before = (1usize << c.range(7, if thorough { 20 } else { 17 })) + c.pick(5) - 2;
            let z = zoo();
            let i = c.pick(z.len());
            let l = [z[i].clone(), z[(i + 1) % z.len()].clone()];
            let w = encode_all(&l);
            let mut out = vec![0xA5; before];
            let n = real(&l).assemble(&mut out);
            c.call(1);
            c.bulk(1);
            if n != w.len() || out[..before].iter().any(|&b| b != 0xA5) || out[before..] != w[..] {
                return Err(format!("behind {} bytes encoded as {}, expected {}", before, hex(&out[before..]), hex(&w)));
            }
            Ok(())
        });
        // raw and extended event descriptors that do not fit are left out
        r.explore("too long to be encoded", |c| {
            let z = zoo();
            let n = c.of(&[254usize, 255, 256, 257, 258, 259, 300, 510, 511, 512, 513, 514, 768, 4093, 65535, 65536, 65537, 65790, 65792, 65793, 1 << 20]);
            let long = match c.pick(3) {
                0 => D::Raw(0x90, vec![1; n]),
                1 => D::Raw(0x4E, vec![0xFF; n]),
                // extended events of the same length, in pieces of 100
                _ => {
                    let t = |k: usize| T::new(0, &vec![b'x'; k]);
                    // numbers, language and two lengths are 6 bytes, an item two more than its texts
                    let mut left = n - 6;
                    let mut items = Vec::new();
                    while left > 255 {
                        let k = left.min(202) - 2;
                        items.push((t(k / 2), t(k - k / 2)));
                        left -= k + 2;
                    }
                    D::X4E { num: 0, last: 0, lang: *b"eng", items, text: t(left) }
                }
            };
            let (i, j) = (c.pick(z.len()), c.pick(z.len()));
            let place = c.pick(3);
            let mut l = vec![z[i].clone(), z[j].clone()];
            let mut w = encode_all(&l);
            l.insert(place, long);
            if n <= 255 {
                w = encode_all(&l);
            }
            let list = real(&l);
            let mut out = vec![0xA5];
            let got = list.assemble(&mut out);
            let mut out2 = Vec::new();
            list.clone().assemble(&mut out2);
            c.call(2);
            c.bulk(1);
            if got != w.len() || out[1..] != w[..] || out2 != w {
                return Err(format!("a descriptor of {} bytes at {}: encoded as {}, expected {}", n, place, hex(&out[1..]), hex(&w)));
            }
            Ok(())
        });
        // long lists: a full section's worth
        r.explore("long loops", |c| {
            let n = c.pick(if thorough { 1400 } else { 400 });
            let d = c.pick(pool.len());
            let mut v = Vec::new();
            for i in 0..n {
                v.extend_from_slice(&pool[(d + i) % pool.len()]);
            }
            v.truncate(4093);
            c.call(4);
            c.bulk(1);
            check(&v)
        });
    })
}
