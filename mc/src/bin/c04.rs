//! C04: packetising a section.
use mc::engine::{eq, hex, run, Ctx};
use mc::spec::{any, any_section, section, ts, valid_section};
use mpegts::psi::{Eit, EitItem, Psi, PsiDemux};

/// A section of exactly `len` bytes, also shorter than a checksum needs.
fn bytes(len: usize, salt: u8) -> Vec<u8> {
    if len >= 8 {
        any_section(len, salt)
    } else {
        let mut v = vec![0x70, 0x70, (len - 3) as u8];
        v.extend((3..len).map(|i| i as u8 ^ salt));
        v
    }
}

/// A table type of the user: `(bytes of the body, number of sections)`.
struct Own(usize, usize);

impl PsiDemux for Own {
    fn psi_list_assemble(&self) -> Vec<Psi> {
        (0..self.1)
            .map(|i| {
                let mut p = Psi::new(0x42, 10, 7);
                p.buffer[3] = i as u8;
                p.buffer.resize(10 + self.0, 0x33);
                p
            })
            .collect()
    }

    fn finalize(&self, psi: &mut Psi) {
        // the numbers are known here, the checksum is not yet made
        psi.buffer[8] = psi.buffer[6] ^ 0xFF;
        psi.buffer[9] = psi.buffer[9].wrapping_add(psi.buffer[7]).wrapping_add(1);
    }
}

/// Schedules of one and of several segments.
fn schedules() -> Vec<any::Real> {
    [1usize, 2, 5]
        .iter()
        .map(|&n| {
            let mut t = Eit::default();
            t.table_id = 0x50;
            t.items = (0..n)
                .map(|i| {
                    let mut e = EitItem::default();
                    e.start = 1_600_041_600 + i as u64 * 10_800;
                    e
                })
                .collect();
            any::Real::Eit(t)
        })
        .collect()
}

fn one(c: &mut Ctx, sec: &[u8], pid: u16, cc: u8, dst: &mut Vec<u8>, extra: usize) -> Result<u8, String> {
    let before = dst.clone();
    let mut p = Psi::default();
    p.buffer = sec.to_vec();
    // the buffer of a received section may hold bytes past its end
    p.buffer.resize(sec.len() + extra, 0xEE);
    p.size = sec.len();
    p.pid = pid;
    p.cc = cc;
    p.demux(dst);
    c.call(1);
    let n = (sec.len() + 1 + 183) / 184;
    if dst.len() != before.len() + 188 * n {
        return Err(format!("section of {} bytes made {} bytes of packets, expected {} packets", sec.len(), dst.len() - before.len(), n));
    }
    if dst[..before.len()] != before[..] {
        return Err("earlier bytes of the destination changed".into());
    }
    let (s, next) = ts::depacketise(&dst[before.len()..], pid, cc).map_err(|e| format!("section of {} bytes pid {} cc {}: {}", sec.len(), pid, cc, e))?;
    if s.len() != 1 || s[0] != sec {
        return Err(format!("payload of a {} byte section: {:?}", sec.len(), s.iter().map(|x| hex(x)).collect::<Vec<_>>()));
    }
    eq("counter left", p.cc, next)?;
    eq("pid left", p.pid, pid)?;
    eq("section left", &p.buffer[..sec.len()], sec)?;
    eq("size left", p.size, sec.len())?;
    Ok(next)
}

fn main() {
    run("C04", |r| {
        r.deepen();
        let thorough = r.thorough();
        let pids = [0u16, 1, 0x10, 0x11, 0xFF, 0x100, 0x1234, 0x1FFE, 0x1FFF];
        r.explore("every length x counter x pid x destination", |c| {
            let len = 3 + c.pick(4094);
            let sec = bytes(len, len as u8);
            let ccs: Vec<u8> = if thorough || len < 600 || len % 184 < 3 || len % 184 > 181 { (0..16).collect() } else { vec![(len % 16) as u8, 15] };
            for (i, &cc) in ccs.iter().enumerate() {
                for k in 0..if thorough { pids.len() } else { 2 } {
                    let pid = pids[(len + i * 5 + k) % pids.len()];
                    let prior = [0usize, 1, 188, 187, 3 * 188][(len + k) % 5];
                    let extra = [0usize, 1, 30, 184][(len + i) % 4];
                    let mut dst = vec![0x5Au8; prior];
                    one(c, &sec, pid, cc, &mut dst, extra)?;
                    c.state(&(len, cc, pid, prior, extra));
                }
            }
            Ok(())
        });
        r.explore("every pid", |c| {
            let hi = c.pick(32) as u16;
            for lo in 0..256u16 {
                let mut dst = Vec::new();
                for len in [8usize, 183, 184, 400] {
                    one(c, &bytes(len, lo as u8), hi * 256 + lo, (lo % 16) as u8, &mut dst, 0)?;
                }
                c.bulk(4);
            }
            Ok(())
        });
        // sequences of sections sharing one counter and one destination
        let depth = r.by(3, 4);
        let lens = [3usize, 8, 182, 183, 184, 185, 367, 368, 551, 1024, 4096];
        r.explore("sequences of sections with one counter", |c| {
            let mut cc = c.of(&[0u8, 7, 14, 15]);
            let first = cc;
            let mut dst: Vec<u8> = Vec::new();
            let mut want: Vec<Vec<u8>> = Vec::new();
            for i in 0..depth {
                let s = bytes(lens[c.pick(lens.len())], i as u8);
                cc = one(c, &s, 0x321, cc, &mut dst, 0)?;
                want.push(s);
                c.state(&(&dst, cc));
            }
            let (got, next) = ts::depacketise(&dst, 0x321, first)?;
            eq("sections", got, want)?;
            eq("counter", cc, next)
        });
        // one object packetised repeatedly: the counter runs on
        r.explore("one section repeatedly", |c| {
            let len = lens[c.pick(lens.len())];
            let sec = bytes(len, 1);
            let start = c.pick(16) as u8;
            let mut p = Psi::default();
            p.buffer = sec.clone();
            p.size = len;
            p.pid = 0x45;
            p.cc = start;
            let mut dst = Vec::new();
            for n in 1..=20usize {
                p.demux(&mut dst);
                c.call(1);
                c.state(&(len, p.cc, n));
                let (got, next) = ts::depacketise(&dst, 0x45, start)?;
                eq("number of sections", got.len(), n)?;
                eq("same bytes", got.iter().all(|g| *g == sec), true)?;
                eq("counter", p.cc, next)?;
            }
            Ok(())
        });
        // the packetiser every table type inherits
        r.explore("lists of sections of a table type of the user", |c| {
            let n = c.pick(257);
            let body = c.of(&[0usize, 1, 169, 170, 300, 4082]);
            if n * body > 300_000 {
                return Ok(());
            }
            for cc in 0..16u8 {
                let mut dst = vec![0x5A; 7];
                let mut next = cc;
                Own(body, n).demux(0x1ABC, &mut next, &mut dst);
                c.call(1);
                c.bulk(1);
                eq("earlier bytes", &dst[..7], &[0x5A; 7][..])?;
                let (got, after) = ts::depacketise(&dst[7..], 0x1ABC, cc)?;
                eq("counter", next, after)?;
                eq("sections", got.len(), n)?;
                for (i, s) in got.iter().enumerate() {
                    let (i, last) = (i as u8, (n - 1) as u8);
                    if !valid_section(s) || s.len() != 14 + body {
                        return Err(format!("section {} of {}: not valid", i, n));
                    }
                    eq("bytes", (s[0], s[3], s[5] >> 1 & 31, s[6], s[7], s[8], s[9]), (0x42, i, 7, i, last, i ^ 0xFF, last.wrapping_add(1)))?;
                }
            }
            Ok(())
        });
        // the second of two sections starts where the first ended, whatever
        // their lengths
        r.explore("every length after every length", |c| {
            let a = 3 + c.pick(4094);
            let first = bytes(a, 1);
            let lens: Vec<usize> = if thorough { (3..=4096).collect() } else { vec![3, 8, 182, 183, 184, 185, 367, 4096] };
            for &b in &lens {
                let cc = ((a + b) % 16) as u8;
                let mut dst = Vec::new();
                let next = one(c, &first, 0x321, cc, &mut dst, 0)?;
                one(c, &bytes(b, 2), 0x321, next, &mut dst, 0)?;
            }
            c.bulk(lens.len() as u64);
            Ok(())
        });
        r.explore("any bytes around the packet boundaries", |c| {
            let n = c.of(&[190usize, 400]);
            let at = c.of(&[3usize, 181, 182, 183, 184, 365, 366, 367, 393]);
            if at + 2 > n - 4 {
                return Ok(());
            }
            let x = c.pick(256) as u8;
            let base = any_section(n, 5);
            for y in 0..=255u8 {
                for z in [0u8, 0x47, 0xFF] {
                    let mut s = base.clone();
                    s[at] = x;
                    s[at + 1] = y;
                    if at + 2 < n - 4 {
                        s[at + 2] = z;
                    }
                    let s = section(0x42, 0xB, &s[3..n - 4]);
                    one(c, &s, 0x100, y & 15, &mut Vec::new(), 0).map_err(|e| format!("{:02x} {:02x} {:02x} at byte {}: {}", x, y, z, at, e))?;
                }
            }
            c.bulk(768);
            Ok(())
        });
        r.explore("runs of one byte, every table id", |c| {
            let b = c.pick(256) as u8;
            for n in [8usize, 20, 182, 183, 184, 185, 367, 368, 1024, 4096] {
                for id in [b, 0, 0x42, 0xFE] {
                    let s = section(id, 0x8 | n as u8 & 7, &vec![b; n - 7]);
                    one(c, &s, 0x100, b & 15, &mut Vec::new(), 0).map_err(|e| format!("{} bytes of {:02x}: {}", n, b, e))?;
                    c.state(&(b, n, id));
                }
            }
            Ok(())
        });
        // what the tables of the crate emit on a PID of their own
        r.explore("every table on every PID", |c| {
            let pid = c.pick(8192) as u16;
            for t in any::models().iter().map(|m| m.real()).chain(schedules()) {
                let (mut out, mut cc) = (Vec::new(), 0);
                t.demux(0x100, &mut cc, &mut out);
                let (secs, _) = ts::depacketise(&out, 0x100, 0)?;
                for cc in 0..16u8 {
                    let mut dst = vec![0x5A; cc as usize * 13];
                    let mut next = cc;
                    t.demux(pid, &mut next, &mut dst);
                    c.call(1);
                    c.bulk(1);
                    let n = cc as usize * 13;
                    eq("earlier bytes kept", dst[..n].iter().all(|&x| x == 0x5A), true)?;
                    let (got, after) = ts::depacketise(&dst[n..], pid, cc)?;
                    eq("counter", next, after)?;
                    eq("sections", &got, &secs)?;
                }
            }
            Ok(())
        });
    })
}
