//! Reference models, written from ISO/IEC 13818-1, EN 300 468 and the property
//! statements. Nothing here uses the crate under test except the `real`
//! conversions, which build its values from model values.
pub mod any;
pub mod charset;
pub mod desc;
pub mod io;
pub mod lang;
pub mod table;
pub mod time;
pub mod ts;

/// CRC-32/MPEG-2, bit by bit from the polynomial.
pub fn crc(data: &[u8]) -> u32 {
    let mut r: u32 = 0xFFFF_FFFF;
    for &b in data {
        r = crc_step(r, b);
    }
    r
}

pub fn crc_step(mut r: u32, b: u8) -> u32 {
    for i in (0..8).rev() {
        let top = (r >> 31) as u8 & 1;
        let bit = (b >> i) & 1;
        r <<= 1;
        if top ^ bit == 1 {
            r ^= 0x04C1_1DB7;
        }
    }
    r
}

/// Byte-wise CRC with a table computed from `crc_step`; for long inputs.
pub fn crc_fast(data: &[u8]) -> u32 {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u32>> = OnceLock::new();
    let t = T.get_or_init(|| (0..=255u32).map(|i| crc_step(i << 24, 0)).collect());
    let mut r: u32 = 0xFFFF_FFFF;
    for &b in data {
        r = (r << 8) ^ t[((r >> 24) as u8 ^ b) as usize];
    }
    r
}

/// Appends big-endian values.
pub trait Put {
    fn p8(&mut self, v: usize) -> &mut Self;
    fn p16(&mut self, v: usize) -> &mut Self;
    fn p24(&mut self, v: usize) -> &mut Self;
    fn p32(&mut self, v: usize) -> &mut Self;
}

impl Put for Vec<u8> {
    fn p8(&mut self, v: usize) -> &mut Self {
        assert!(v < 0x100, "model: p8");
        self.push(v as u8);
        self
    }
    fn p16(&mut self, v: usize) -> &mut Self {
        assert!(v < 0x10000, "model: p16");
        self.p8(v / 256).p8(v % 256)
    }
    fn p24(&mut self, v: usize) -> &mut Self {
        assert!(v < 0x100_0000, "model: p24");
        self.p8(v / 65536).p16(v % 65536)
    }
    fn p32(&mut self, v: usize) -> &mut Self {
        assert!(v < 0x1_0000_0000, "model: p32");
        self.p16(v / 65536).p16(v % 65536)
    }
}

/// Reads big-endian values.
pub fn be(b: &[u8]) -> usize {
    b.iter().fold(0, |a, &x| a * 256 + x as usize)
}

/// Completes a section: `head` is the first byte, the flag nibble of the second
/// byte and what follows the length; length and CRC are added.
pub fn section(table_id: u8, flags: u8, rest: &[u8]) -> Vec<u8> {
    let len = rest.len() + 4;
    assert!(len < 4096, "model: section too long");
    let mut v = vec![table_id, (flags << 4) | (len >> 8) as u8, (len & 0xFF) as u8];
    v.extend_from_slice(rest);
    let c = crc_fast(&v);
    v.p32(c as usize);
    v
}

/// A valid section of exactly `len` bytes (8..=4096) with recognisable content.
pub fn any_section(len: usize, salt: u8) -> Vec<u8> {
    let mut rest: Vec<u8> = Vec::with_capacity(len);
    for i in 0..len - 7 {
        rest.push((i as u8).wrapping_mul(29).wrapping_add(salt.wrapping_mul(17)).wrapping_add(i as u8 >> 3));
    }
    // table ids below 0x80, never the stuffing value
    section(0x40 | (salt & 0x3F), 0xB, &rest)
}

/// Whether a byte string is a complete section with matching length and CRC.
pub fn valid_section(s: &[u8]) -> bool {
    s.len() >= 8 && 3 + (be(&s[1..3]) & 0xFFF) == s.len() && be(&s[s.len() - 4..]) as u32 == crc_fast(&s[..s.len() - 4])
}

/// A section as an object of the crate, complete.
pub fn psi_of(s: &[u8]) -> mpegts::psi::Psi {
    let mut p = mpegts::psi::Psi::default();
    p.buffer = s.to_vec();
    p.size = s.len();
    p
}
