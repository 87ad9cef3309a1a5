//! Descriptors: model values, reference encoder and decoder, conversions.
use super::{be, charset, time, Put};
use mpegts::psi as m;
use mpegts::textcode::StringDVB;

/// Text: character table number and bytes.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct T {
    pub cp: u8,
    pub b: Vec<u8>,
}

pub const UTF8: u8 = 21;

/// Table numbers the standard and the crate share.
pub const TABLES: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 21];

impl T {
    pub fn new(cp: u8, b: &[u8]) -> T {
        T { cp, b: b.to_vec() }
    }

    /// Wire form, EN 300 468 annex A.
    pub fn wire(&self) -> Vec<u8> {
        let mut v = Vec::new();
        if self.b.is_empty() {
            return v;
        }
        match self.cp {
            0 => {}
            1..=4 => v.extend_from_slice(&[0x10, 0, self.cp]),
            5..=15 => v.push(self.cp - 4),
            UTF8 => v.push(0x15),
            _ => panic!("model: table"),
        }
        v.extend_from_slice(&self.b);
        v
    }

    /// Reads a wire form; unsupported selectors become "?".
    pub fn read(w: &[u8]) -> T {
        if w.is_empty() {
            return T::default();
        }
        match w[0] {
            0x20..=0xFF => T::new(0, w),
            0x15 => T::new(UTF8, &w[1..]),
            0x01..=0x0B if charset::table(w[0] + 4).is_some() => T::new(w[0] + 4, &w[1..]),
            0x10 if w.len() >= 3 && w[1] == 0 && w[2] != 0 && charset::table(w[2]).is_some() => T::new(w[2], &w[3..]),
            _ => T::new(0, b"?"),
        }
    }

    /// Decoded characters.
    pub fn text(&self) -> String {
        if self.cp == UTF8 {
            return String::from_utf8_lossy(&self.b).into_owned();
        }
        let t = charset::table(self.cp).expect("model: table");
        let mut s = String::new();
        for &c in &self.b {
            match c {
                0..=0x7F => s.push(c as char),
                0x80..=0x9F => {}
                _ => match t[c as usize - 0xA0] {
                    0 => s.push('?'),
                    u => s.push(char::from_u32(u).unwrap()),
                },
            }
        }
        s
    }

    pub fn real(&self) -> StringDVB {
        StringDVB::from(&self.wire()[..])
    }

    pub fn same(&self, what: &str, s: &StringDVB) -> Result<(), String> {
        // empty text has no observable table on the wire
        if s.as_bytes() == &self.b[..] && (self.b.is_empty() || s.get_codepage() == self.cp) {
            Ok(())
        } else {
            Err(format!("{}: got table {} bytes {:02x?}, expected table {} bytes {:02x?}", what, s.get_codepage(), s.as_bytes(), self.cp, self.b))
        }
    }

    fn sized(&self, v: &mut Vec<u8>) {
        let w = self.wire();
        v.p8(w.len());
        v.extend_from_slice(&w);
    }
}

/// A model descriptor.
#[derive(Clone, PartialEq, Debug)]
pub enum D {
    Raw(u8, Vec<u8>),
    X09 { caid: u16, pid: u16, data: Vec<u8> },
    X0A(Vec<([u8; 3], u8)>),
    X0E(u32),
    X40(T),
    X41(Vec<(u16, u8)>),
    /// frequency in 10 kHz, orbital position in 0.1 degree
    X43 { freq: u32, orb: u16, we: u8, pol: u8, rof: u8, s2: u8, modu: u8, sr: u32, fec: u8 },
    /// frequency in 100 Hz
    X44 { freq: u32, outer: u8, modu: u8, sr: u32, fec: u8 },
    X48 { ty: u8, provider: T, name: T },
    X4D { lang: [u8; 3], name: T, text: T },
    X4E { num: u8, last: u8, lang: [u8; 3], items: Vec<(T, T)>, text: T },
    X52(u8),
    /// code, region, polarity, offset minutes, time, next offset minutes
    X58(Vec<([u8; 3], u8, u8, u16, u64, u16)>),
    /// frequency in 10 Hz; bandwidth, priority, time slicing, mpe-fec,
    /// modulation, hierarchy, hp, lp, guard, transmission, other
    X5A { freq: u32, f: [u8; 11] },
    X83(Vec<(u16, u8, u16)>),
}

/// Digits of a decimal field, `n` nibbles.
fn digits(v: u32, n: u32) -> usize {
    let mut r = 0usize;
    for i in (0..n).rev() {
        r = r * 16 + (v / 10u32.pow(i) % 10) as usize;
    }
    r
}

/// Value of a decimal field, None when a nibble is not a digit.
fn undigits(b: &[u8]) -> Option<u32> {
    let mut r = 0;
    for &x in b {
        for d in [x >> 4, x & 15] {
            if d > 9 {
                return None;
            }
            r = r * 10 + u32::from(d);
        }
    }
    Some(r)
}

fn hms(b: &[u8]) -> Option<u64> {
    let (h, m, s) = (undigits(&b[..1])?, undigits(&b[1..2])?, undigits(&b[2..3])?);
    if h > 23 || m > 59 || s > 59 {
        return None;
    }
    Some(u64::from(h * 3600 + m * 60 + s))
}

impl D {
    pub fn tag(&self) -> u8 {
        match self {
            D::Raw(t, _) => *t,
            D::X09 { .. } => 0x09,
            D::X0A(_) => 0x0A,
            D::X0E(_) => 0x0E,
            D::X40(_) => 0x40,
            D::X41(_) => 0x41,
            D::X43 { .. } => 0x43,
            D::X44 { .. } => 0x44,
            D::X48 { .. } => 0x48,
            D::X4D { .. } => 0x4D,
            D::X4E { .. } => 0x4E,
            D::X52(_) => 0x52,
            D::X58(_) => 0x58,
            D::X5A { .. } => 0x5A,
            D::X83(_) => 0x83,
        }
    }

    pub fn body(&self) -> Vec<u8> {
        let mut v: Vec<u8> = Vec::new();
        match self {
            D::Raw(_, d) => v.extend_from_slice(d),
            D::X09 { caid, pid, data } => {
                v.p16(*caid as usize).p16(0b111 * 8192 + *pid as usize);
                v.extend_from_slice(data);
            }
            D::X0A(l) => {
                for (c, t) in l {
                    v.extend_from_slice(c);
                    v.push(*t);
                }
            }
            D::X0E(b) => {
                v.p24(0b11 << 22 | *b as usize);
            }
            D::X40(t) => v.extend_from_slice(&t.wire()),
            D::X41(l) => {
                for (i, t) in l {
                    v.p16(*i as usize).p8(*t as usize);
                }
            }
            D::X43 { freq, orb, we, pol, rof, s2, modu, sr, fec } => {
                v.p32(digits(*freq, 8)).p16(digits(u32::from(*orb), 4));
                v.push(we * 128 + pol * 32 + rof * 8 + s2 * 4 + modu);
                // the symbol rate has 7 digits, the last one (100 symbol/s) is not supported
                v.p24(digits(*sr, 6));
                v.push(*fec);
            }
            D::X44 { freq, outer, modu, sr, fec } => {
                v.p32(digits(*freq, 8)).p16(0xFFF0 + *outer as usize);
                v.push(*modu);
                v.p24(digits(*sr, 6));
                v.push(*fec);
            }
            D::X48 { ty, provider, name } => {
                v.push(*ty);
                provider.sized(&mut v);
                name.sized(&mut v);
            }
            D::X4D { lang, name, text } => {
                v.extend_from_slice(lang);
                name.sized(&mut v);
                text.sized(&mut v);
            }
            D::X4E { num, last, lang, items, text } => {
                v.push(num * 16 + last);
                v.extend_from_slice(lang);
                let mut l = Vec::new();
                for (a, b) in items {
                    a.sized(&mut l);
                    b.sized(&mut l);
                }
                v.p8(l.len());
                v.extend_from_slice(&l);
                text.sized(&mut v);
            }
            D::X52(t) => v.push(*t),
            D::X58(l) => {
                for (c, region, pol, off, t, next) in l {
                    v.extend_from_slice(c);
                    v.push(region * 4 + 2 + pol);
                    v.extend_from_slice(&time::hm((*off).into()));
                    v.extend_from_slice(&time::utc(*t));
                    v.extend_from_slice(&time::hm((*next).into()));
                }
            }
            D::X5A { freq, f } => {
                v.p32(*freq as usize);
                v.push(f[0] * 32 + f[1] * 16 + f[2] * 8 + f[3] * 4 + 3);
                v.push(f[4] * 64 + f[5] * 8 + f[6]);
                v.push(f[7] * 32 + f[8] * 8 + f[9] * 2 + f[10]);
                v.p32(0xFFFF_FFFF);
            }
            D::X83(l) => {
                for (i, vis, lcn) in l {
                    v.p16(*i as usize).p16(*vis as usize * 32768 + 0b11111 * 1024 + *lcn as usize);
                }
            }
        }
        v
    }

    /// Whether the texts fit in a body.
    pub fn fits(&self) -> bool {
        let n = |t: &T| 1 + t.wire().len();
        match self {
            D::X40(t) => n(t) <= 256,
            D::X48 { provider, name, .. } => 1 + n(provider) + n(name) <= 255,
            D::X4D { name, text, .. } => 3 + n(name) + n(text) <= 255,
            D::X4E { items, text, .. } => 5 + items.iter().map(|(a, b)| n(a) + n(b)).sum::<usize>() + n(text) <= 255,
            _ => true,
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        let b = self.body();
        let mut v = vec![self.tag()];
        v.p8(b.len());
        v.extend_from_slice(&b);
        v
    }

    /// Reference decoder of one descriptor body. Falls back to raw when the body
    /// does not have the structure of its kind.
    pub fn decode(tag: u8, b: &[u8]) -> D {
        D::typed(tag, b).unwrap_or_else(|| D::Raw(tag, b.to_vec()))
    }

    fn typed(tag: u8, b: &[u8]) -> Option<D> {
        let n = b.len();
        let code = |x: &[u8]| [x[0], x[1], x[2]];
        Some(match tag {
            0x09 if n >= 4 => D::X09 { caid: be(&b[..2]) as u16, pid: be(&b[2..4]) as u16 % 8192, data: b[4..].to_vec() },
            0x0A if n % 4 == 0 => D::X0A(b.chunks(4).map(|c| (code(c), c[3])).collect()),
            0x0E if n == 3 => D::X0E(be(b) as u32 % (1 << 22)),
            0x40 => D::X40(T::read(b)),
            0x41 if n % 3 == 0 => D::X41(b.chunks(3).map(|c| (be(&c[..2]) as u16, c[2])).collect()),
            0x43 if n == 11 => D::X43 {
                freq: undigits(&b[..4])?,
                orb: undigits(&b[4..6])? as u16,
                we: b[6] / 128,
                pol: b[6] / 32 % 4,
                rof: b[6] / 8 % 4,
                s2: b[6] / 4 % 2,
                modu: b[6] % 4,
                sr: undigits(&b[7..10])?,
                fec: b[10] % 16,
            },
            0x44 if n == 11 => {
                let freq = undigits(&b[..4])?;
                if u64::from(freq) * 100 > 0xFFFF_FFFF {
                    return None;
                }
                D::X44 { freq, outer: b[5] % 16, modu: b[6], sr: undigits(&b[7..10])?, fec: b[10] % 16 }
            }
            0x48 => {
                let (p, r) = pascal(b.get(1..)?)?;
                let (s, r) = pascal(r)?;
                if !r.is_empty() {
                    return None;
                }
                D::X48 { ty: b[0], provider: T::read(p), name: T::read(s) }
            }
            0x4D => {
                let (p, r) = pascal(b.get(3..)?)?;
                let (s, r) = pascal(r)?;
                if !r.is_empty() {
                    return None;
                }
                D::X4D { lang: code(b), name: T::read(p), text: T::read(s) }
            }
            0x4E => {
                let (mut l, r) = pascal(b.get(4..)?)?;
                let (s, r) = pascal(r)?;
                if !r.is_empty() {
                    return None;
                }
                let mut items = Vec::new();
                while !l.is_empty() {
                    let (x, r) = pascal(l)?;
                    let (y, r) = pascal(r)?;
                    items.push((T::read(x), T::read(y)));
                    l = r;
                }
                D::X4E { num: b[0] / 16, last: b[0] % 16, lang: code(&b[1..]), items, text: T::read(s) }
            }
            0x52 if n == 1 => D::X52(b[0]),
            0x58 if n % 13 == 0 => {
                let mut l = Vec::new();
                for c in b.chunks(13) {
                    let hm = |x: &[u8]| hms(&[x[0], x[1], 0]).map(|v| (v / 60) as u16);
                    let day = be(&c[6..8]) as u64;
                    if day < 40587 {
                        return None;
                    }
                    let t = (day - 40587) * 86400 + hms(&c[8..11])?;
                    l.push((code(c), c[3] / 4, c[3] % 2, hm(&c[4..6])?, t, hm(&c[11..13])?));
                }
                D::X58(l)
            }
            0x5A if n == 11 => {
                let freq = be(&b[..4]) as u32;
                if u64::from(freq) * 10 > 0xFFFF_FFFF {
                    return None;
                }
                D::X5A {
                    freq,
                    f: [
                        b[4] / 32, b[4] / 16 % 2, b[4] / 8 % 2, b[4] / 4 % 2,
                        b[5] / 64, b[5] / 8 % 8, b[5] % 8,
                        b[6] / 32, b[6] / 8 % 4, b[6] / 2 % 4, b[6] % 2,
                    ],
                }
            }
            0x83 if n % 4 == 0 => D::X83(b.chunks(4).map(|c| (be(&c[..2]) as u16, c[2] / 128, be(&c[2..4]) as u16 % 1024)).collect()),
            _ => return None,
        })
    }

    /// Adds the crate's counterpart to a list.
    pub fn push(&self, l: &mut m::Descriptors) {
        let code = |c: &[u8; 3]| -> StringDVB {
            if c[0] >= 0x20 {
                StringDVB::from(&c[..])
            } else {
                StringDVB::from_str(std::str::from_utf8(c).expect("model: code"), 0)
            }
        };
        match self {
            D::Raw(t, d) => l.push(m::DescRaw { tag: *t, data: d.clone() }),
            D::X09 { caid, pid, data } => l.push(m::Desc09 { caid: *caid, pid: *pid, data: data.clone() }),
            D::X0A(v) => l.push(m::Desc0A { items: v.iter().map(|(c, t)| m::Desc0Ai { code: code(c), audio_type: *t }).collect() }),
            D::X0E(b) => l.push(m::Desc0E { bitrate: *b }),
            D::X40(t) => l.push(m::Desc40 { name: t.real() }),
            D::X41(v) => l.push(m::Desc41 { items: v.iter().map(|(i, t)| m::Desc41i { service_id: *i, service_type: *t }).collect() }),
            D::X43 { freq, orb, we, pol, rof, s2, modu, sr, fec } => l.push(m::Desc43 {
                frequency: *freq * 10,
                orbital_position: *orb * 6,
                west_east_flag: *we,
                polarization: *pol,
                rof: *rof,
                s2: *s2,
                modulation: *modu,
                symbol_rate: *sr,
                fec: *fec,
            }),
            D::X44 { freq, outer, modu, sr, fec } => {
                l.push(m::Desc44 { frequency: *freq * 100, fec_outer: *outer, modulation: *modu, symbol_rate: *sr, fec: *fec })
            }
            D::X48 { ty, provider, name } => l.push(m::Desc48 { service_type: *ty, provider: provider.real(), name: name.real() }),
            D::X4D { lang, name, text } => l.push(m::Desc4D { lang: code(lang), name: name.real(), text: text.real() }),
            D::X4E { num, last, lang, items, text } => l.push(m::Desc4E {
                number: *num,
                last_number: *last,
                lang: code(lang),
                items: items.iter().map(|(a, b)| (a.real(), b.real())).collect(),
                text: text.real(),
            }),
            D::X52(t) => l.push(m::Desc52 { tag: *t }),
            D::X58(v) => l.push(m::Desc58 {
                items: v
                    .iter()
                    .map(|(c, r, p, o, t, n)| m::Desc58i {
                        country_code: code(c),
                        region_id: *r,
                        offset_polarity: *p,
                        offset: *o,
                        time_of_change: *t,
                        next_offset: *n,
                    })
                    .collect(),
            }),
            D::X5A { freq, f } => l.push(m::Desc5A {
                frequency: *freq * 10,
                bandwidth: f[0],
                priority: f[1],
                time_slicing: f[2],
                mpe_fec: f[3],
                modulation: f[4],
                hierarchy: f[5],
                code_rate_hp: f[6],
                code_rate_lp: f[7],
                guard_interval: f[8],
                transmission: f[9],
                other_frequency_flag: f[10],
            }),
            D::X83(v) => l.push(m::Desc83 { items: v.iter().map(|(i, s, n)| m::Desc83i { service_id: *i, visible: *s, lcn: *n }).collect() }),
        }
    }

    /// Whether a descriptor of the crate has exactly this kind and these values.
    pub fn same(&self, d: &m::Descriptor) -> Result<(), String> {
        if d.tag() != self.tag() {
            return Err(format!("tag {:02x}, expected {:02x}", d.tag(), self.tag()));
        }
        let code = |s: &StringDVB, c: &[u8; 3]| s.as_bytes() == &c[..] && s.get_codepage() == 0;
        let ok = match self {
            D::Raw(_, b) => d.downcast_ref::<m::DescRaw>().data == *b,
            D::X09 { caid, pid, data } => {
                let x = d.downcast_ref::<m::Desc09>();
                x.caid == *caid && x.pid == *pid && x.data == *data
            }
            D::X0A(v) => {
                let x = d.downcast_ref::<m::Desc0A>();
                x.items.len() == v.len() && x.items.iter().zip(v).all(|(a, b)| code(&a.code, &b.0) && a.audio_type == b.1)
            }
            D::X0E(b) => d.downcast_ref::<m::Desc0E>().bitrate == *b,
            D::X40(t) => return t.same("network name", &d.downcast_ref::<m::Desc40>().name),
            D::X41(v) => {
                let x = d.downcast_ref::<m::Desc41>();
                x.items.len() == v.len() && x.items.iter().zip(v).all(|(a, b)| a.service_id == b.0 && a.service_type == b.1)
            }
            D::X43 { freq, orb, we, pol, rof, s2, modu, sr, fec } => {
                let x = d.downcast_ref::<m::Desc43>();
                x.frequency == freq * 10
                    && x.orbital_position == orb * 6
                    && x.west_east_flag == *we
                    && x.polarization == *pol
                    && x.rof == *rof
                    && x.s2 == *s2
                    && x.modulation == *modu
                    && x.symbol_rate == *sr
                    && x.fec == *fec
            }
            D::X44 { freq, outer, modu, sr, fec } => {
                let x = d.downcast_ref::<m::Desc44>();
                x.frequency == freq * 100 && x.fec_outer == *outer && x.modulation == *modu && x.symbol_rate == *sr && x.fec == *fec
            }
            D::X48 { ty, provider, name } => {
                let x = d.downcast_ref::<m::Desc48>();
                provider.same("provider", &x.provider)?;
                name.same("service name", &x.name)?;
                x.service_type == *ty
            }
            D::X4D { lang, name, text } => {
                let x = d.downcast_ref::<m::Desc4D>();
                name.same("event name", &x.name)?;
                text.same("event text", &x.text)?;
                code(&x.lang, lang)
            }
            D::X4E { num, last, lang, items, text } => {
                let x = d.downcast_ref::<m::Desc4E>();
                text.same("text", &x.text)?;
                if x.items.len() == items.len() {
                    for (a, b) in x.items.iter().zip(items) {
                        b.0.same("item description", &a.0)?;
                        b.1.same("item text", &a.1)?;
                    }
                }
                x.number == *num && x.last_number == *last && code(&x.lang, lang) && x.items.len() == items.len()
            }
            D::X52(t) => d.downcast_ref::<m::Desc52>().tag == *t,
            D::X58(v) => {
                let x = d.downcast_ref::<m::Desc58>();
                x.items.len() == v.len()
                    && x.items.iter().zip(v).all(|(a, b)| {
                        code(&a.country_code, &b.0)
                            && a.region_id == b.1
                            && a.offset_polarity == b.2
                            && a.offset == b.3
                            && a.time_of_change == b.4
                            && a.next_offset == b.5
                    })
            }
            D::X5A { freq, f } => {
                let x = d.downcast_ref::<m::Desc5A>();
                x.frequency == freq * 10
                    && [
                        x.bandwidth, x.priority, x.time_slicing, x.mpe_fec, x.modulation, x.hierarchy, x.code_rate_hp, x.code_rate_lp,
                        x.guard_interval, x.transmission, x.other_frequency_flag,
                    ] == *f
            }
            D::X83(v) => {
                let x = d.downcast_ref::<m::Desc83>();
                x.items.len() == v.len() && x.items.iter().zip(v).all(|(a, b)| a.service_id == b.0 && a.visible == b.1 && a.lcn == b.2)
            }
        };
        if ok {
            Ok(())
        } else {
            Err(format!("descriptor differs: got {:?}, expected {:?}", d, self))
        }
    }
}

/// Length-prefixed string at the start: (content, rest).
fn pascal(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let n = *b.first()? as usize;
    if b.len() < 1 + n {
        return None;
    }
    Some((&b[1..1 + n], &b[1 + n..]))
}

/// Reference decoder of a descriptor loop: whole descriptors only.
pub fn decode_loop(mut b: &[u8]) -> Vec<D> {
    let mut v = Vec::new();
    while b.len() >= 2 && b.len() >= 2 + b[1] as usize {
        let n = b[1] as usize;
        v.push(D::decode(b[0], &b[2..2 + n]));
        b = &b[2 + n..];
    }
    v
}

pub fn encode_all(l: &[D]) -> Vec<u8> {
    l.iter().flat_map(|d| d.encode()).collect()
}

pub fn real(l: &[D]) -> m::Descriptors {
    let mut r = m::Descriptors::default();
    for d in l {
        d.push(&mut r);
    }
    r
}

pub fn same_list(want: &[D], got: &m::Descriptors) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} descriptors, expected {}: {:?}", got.len(), want.len(), got));
    }
    for (i, (w, g)) in want.iter().zip(got.iter()).enumerate() {
        w.same(g).map_err(|e| format!("descriptor {}: {}", i, e))?;
    }
    Ok(())
}

/// Every kind once, small and typical, plus raw ones.
pub fn zoo() -> Vec<D> {
    vec![
        D::X09 { caid: 0x0963, pid: 0x1501, data: vec![1, 2] },
        D::X0A(vec![(*b"eng", 1), (*b"rus", 3)]),
        D::X0E(77500),
        D::X40(T::new(5, b"Net\xB0")),
        D::X41(vec![(8581, 1), (8582, 25)]),
        D::X43 { freq: 1238000, orb: 130, we: 1, pol: 1, rof: 2, s2: 1, modu: 2, sr: 27500, fec: 3 },
        D::X44 { freq: 3460000, outer: 2, modu: 5, sr: 6875, fec: 15 },
        D::X48 { ty: 22, provider: T::new(0, b"Prov"), name: T::new(21, "Имя".as_bytes()) },
        D::X4D { lang: *b"deu", name: T::new(9, b"Name"), text: T::new(1, b"T") },
        D::X4E { num: 1, last: 2, lang: *b"fra", items: vec![(T::new(0, b"Dir"), T::new(5, b"\xB1\xB2"))], text: T::new(2, b"txt") },
        D::X52(7),
        D::X58(vec![(*b"GBR", 5, 1, 90, 1_332_637_199, 1439)]),
        D::X5A { freq: 50_000_000, f: [1, 1, 0, 1, 2, 5, 3, 4, 1, 2, 1] },
        D::X83(vec![(8581, 1, 25), (8582, 0, 1023)]),
        D::Raw(0x6A, vec![0xC0, 1, 2, 3]),
        D::Raw(0x43, vec![9, 9]),
        D::Raw(0xFE, vec![]),
    ]
}

/// A raw list that takes exactly `n` bytes on the wire (n == 0 or n >= 2).
pub fn filler(n: usize, salt: u8) -> Vec<D> {
    assert!(n != 1, "model: filler");
    let mut v = Vec::new();
    let mut left = n;
    while left > 0 {
        let mut k = left.min(257);
        if left - k == 1 {
            k -= 1;
        }
        v.push(D::Raw(0x80 | (salt & 1), (0..k - 2).map(|i| (i as u8).wrapping_add(salt)).collect()));
        left -= k;
    }
    v
}
