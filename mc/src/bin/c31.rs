//! C31: big-endian field access and bit packing.
use mc::engine::{eq, run};
use mpegts::bytes::Bytes;
use mpegts::set_bits;
use std::hint::black_box;

fn main() {
    run("C31", |r| {
        r.deepen();
        let thorough = r.thorough();
        r.explore("16 bits: every value, every position", |c| {
            let at = c.pick(11);
            let fill = c.of(&[0x00u8, 0xFF, 0x5A]);
            for v in 0..=0xFFFFu16 {
                let mut b = [fill; 12];
                b[at] = (v / 256) as u8;
                b[at + 1] = (v % 256) as u8;
                if black_box(&b)[at..].get_u16() != v {
                    return Err(format!("get_u16 at {} of {:02x?}: {:x}", at, b, b[at..].get_u16()));
                }
                let mut d = [fill; 12];
                black_box(&mut d)[at..].set_u16(v);
                if d != b {
                    return Err(format!("set_u16({:x}) at {}: {:02x?}, expected {:02x?}", v, at, d, b));
                }
            }
            c.bulk(65536);
            c.call(2 * 65536);
            Ok(())
        });
        r.explore("24 bits: every value", |c| {
            let hi = c.pick(256) as u32;
            let at = c.of(&[0usize, 1, 3, 6]);
            let fill = c.of(&[0x00u8, 0xFF]);
            // exact-length slice (at == 6) and longer ones
            let len = 9;
            for lo in 0..65536u32 {
                let v = hi << 16 | lo;
                let mut b = [fill; 9];
                b[at] = hi as u8;
                b[at + 1] = (lo / 256) as u8;
                b[at + 2] = (lo % 256) as u8;
                if black_box(&b)[at..len].get_u24() != v {
                    return Err(format!("get_u24 at {} of {:02x?}: {:x}", at, b, b[at..].get_u24()));
                }
                // bits above the field are not stored
                let arg = if lo % 2 == 0 { v } else { v | 0xAB00_0000 };
                let mut d = [fill; 9];
                black_box(&mut d)[at..len].set_u24(arg);
                if d != b {
                    return Err(format!("set_u24({:x}) at {}: {:02x?}, expected {:02x?}", arg, at, d, b));
                }
            }
            c.bulk(65536);
            c.call(2 * 65536);
            Ok(())
        });
        r.explore("32 bits", |c| {
            // quick: all values of two adjacent bytes with the other two from a
            // boundary set; thorough: all 2^32
            let (hi, los): (u32, Vec<u32>) = if thorough {
                (c.pick(65536) as u32, (0..65536).collect())
            } else {
                let hi = c.pick(65536) as u32;
                let mut l: Vec<u32> = vec![0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFF00, 0xFFFF, 0x1234];
                l.push(hi);
                l.push(!hi & 0xFFFF);
                (hi, l)
            };
            let at = (hi % 5) as usize;
            for lo in los {
                for (i, v) in [hi << 16 | lo, lo << 16 | hi].into_iter().enumerate() {
                    if thorough && i == 1 {
                        continue;
                    }
                    let mut b = [0xC3u8; 8];
                    b[at] = (v >> 24) as u8;
                    b[at + 1] = (v >> 16 & 255) as u8;
                    b[at + 2] = (v >> 8 & 255) as u8;
                    b[at + 3] = (v & 255) as u8;
                    if black_box(&b)[at..].get_u32() != v {
                        return Err(format!("get_u32 at {} of {:02x?}: {:x}", at, b, b[at..].get_u32()));
                    }
                    let mut d = [0xC3u8; 8];
                    black_box(&mut d)[at..].set_u32(v);
                    if d != b {
                        return Err(format!("set_u32({:x}) at {}: {:02x?}, expected {:02x?}", v, at, d, b));
                    }
                    c.call(2);
                    c.bulk(1 - i as u64);
                }
            }
            Ok(())
        });
        r.explore("exact-length slices", |c| {
            let k = c.of(&[2usize, 3, 4]);
            for v in [0u32, 1, 0x1234_5678, 0x8000_0001, 0xFFFF_FFFF] {
                let mut d = vec![0u8; k];
                let mut w = Vec::new();
                for i in (0..k).rev() {
                    w.push((v >> (8 * i)) as u8);
                }
                match k {
                    2 => { d[..].set_u16(v as u16); eq("get", u32::from(w[..].get_u16()), v & 0xFFFF)?; }
                    3 => { d[..].set_u24(v); eq("get", w[..].get_u24(), v & 0xFF_FFFF)?; }
                    _ => { d[..].set_u32(v); eq("get", w[..].get_u32(), v)?; }
                }
                eq("bytes", &d, &w)?;
                c.bulk(1);
                c.call(2);
            }
            Ok(())
        });
        // Bit packing. The macro takes its layout as tokens, so every partition
        // of 8 bits into 1..8 fields that sum to 8 is produced by passing the
        // sizes as run-time expressions.
        r.explore("bit packing: 8 bits", |c| {
            let mut sizes = Vec::new();
            let mut left = 8usize;
            while left > 0 && sizes.len() < 5 {
                let s = 1 + c.pick(left);
                sizes.push(s);
                left -= s;
            }
            let n = sizes.len();
            for raw in 0..=255u32 {
                // cut the raw byte into fields, pack them, compare
                let mut f = Vec::new();
                let mut top = 8;
                for s in &sizes {
                    top -= s;
                    f.push(((raw >> top) & ((1 << s) - 1)) as u8);
                }
                let want = ((raw >> top) << top) as u8;
                let s = black_box(&sizes);
                let got: u8 = match n {
                    1 => set_bits!(8, f[0], s[0]),
                    2 => set_bits!(8, f[0], s[0], f[1], s[1]),
                    3 => set_bits!(8, f[0], s[0], f[1], s[1], f[2], s[2]),
                    4 => set_bits!(8, f[0], s[0], f[1], s[1], f[2], s[2], f[3], s[3]),
                    _ => set_bits!(8, f[0], s[0], f[1], s[1], f[2], s[2], f[3], s[3], f[4], s[4]),
                };
                eq(&format!("sizes {:?} fields {:?}", sizes, f), got, want)?;
            }
            c.bulk(256);
            c.call(256);
            Ok(())
        });
        r.explore("bit packing: 16 bits", |c| {
            let mut sizes = Vec::new();
            let mut left = 16usize;
            while left > 0 && sizes.len() < 4 {
                let s = 1 + c.pick(left);
                sizes.push(s);
                left -= s;
            }
            let n = sizes.len();
            let step = if thorough { 1 } else { 37 };
            let mut raw = 0u32;
            while raw <= 0xFFFF {
                let mut f = Vec::new();
                let mut top = 16;
                for s in &sizes {
                    top -= s;
                    f.push(((raw >> top) & ((1u32 << s) - 1)) as u16);
                }
                let want = ((raw >> top) << top) as u16;
                let s = black_box(&sizes);
                let got: u16 = match n {
                    1 => set_bits!(16, f[0], s[0]),
                    2 => set_bits!(16, f[0], s[0], f[1], s[1]),
                    3 => set_bits!(16, f[0], s[0], f[1], s[1], f[2], s[2]),
                    _ => set_bits!(16, f[0], s[0], f[1], s[1], f[2], s[2], f[3], s[3]),
                };
                eq(&format!("sizes {:?} fields {:?}", sizes, f), got, want)?;
                c.bulk(1);
                c.call(1);
                raw += step;
            }
            Ok(())
        });
    })
}
