//! Transport packets: independent builder and strict reader.

pub type Packet = [u8; 188];

/// Builds a packet. `af` is the adaptation field length, if present; the
/// payload must fill the rest exactly.
pub fn packet(pid: u16, cc: u8, pusi: bool, af: Option<usize>, payload: &[u8]) -> Packet {
    let mut p = [0xFFu8; 188];
    p[0] = 0x47;
    p[1] = (pid >> 8) as u8 | if pusi { 0x40 } else { 0 };
    p[2] = pid as u8;
    p[3] = (cc & 15) | 0x10 | if af.is_some() { 0x20 } else { 0 };
    let mut at = 4;
    if let Some(n) = af {
        p[4] = n as u8;
        if n > 0 {
            p[5] = 0;
        }
        at = 5 + n;
    }
    assert_eq!(188 - at, payload.len(), "model: payload size");
    p[at..].copy_from_slice(payload);
    p
}

/// A packet without payload.
pub fn no_payload(pid: u16, cc: u8) -> Packet {
    let mut p = [0xFFu8; 188];
    p[0] = 0x47;
    p[1] = (pid >> 8) as u8;
    p[2] = pid as u8;
    p[3] = 0x20 | (cc & 15);
    p[4] = 183;
    p[5] = 0;
    p
}

/// Payload capacity of a packet.
pub fn room(af: Option<usize>) -> usize {
    match af {
        None => 184,
        Some(n) => 183 - n,
    }
}

/// Strict reader of the packetiser's output: sections in packets of `pid`, each
/// starting in its own packet, counters running from `cc`. Returns the sections
/// and the next counter.
pub fn depacketise(bytes: &[u8], pid: u16, cc: u8) -> Result<(Vec<Vec<u8>>, u8), String> {
    if bytes.len() % 188 != 0 {
        return Err(format!("output of {} bytes is not whole packets", bytes.len()));
    }
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut want = 0usize; // bytes of the current section still missing
    let mut next = cc;
    for (i, p) in bytes.chunks(188).enumerate() {
        let bad = |w: &str| Err(format!("packet {}: {} (header {:02x?})", i, w, &p[..6]));
        if p[0] != 0x47 {
            return bad("sync byte");
        }
        if p[1] & 0xA0 != 0 {
            return bad("error or priority flag set");
        }
        if (usize::from(p[1] & 0x1F) << 8 | usize::from(p[2])) != pid as usize {
            return bad("PID");
        }
        if p[3] & 0xF0 != 0x10 {
            return bad("control bits");
        }
        if p[3] & 0x0F != next {
            return bad(&format!("counter, expected {}", next));
        }
        next = (next + 1) % 16;
        let start = p[1] & 0x40 != 0;
        if start != (want == 0) {
            return bad("unit start flag");
        }
        let mut at = 4;
        if start {
            if p[4] != 0 {
                return bad("pointer field");
            }
            at = 5;
            let len = 3 + ((usize::from(p[6] & 0x0F) << 8) | usize::from(p[7]));
            want = len;
            out.push(Vec::with_capacity(len));
        }
        let n = want.min(188 - at);
        out.last_mut().unwrap().extend_from_slice(&p[at..at + n]);
        want -= n;
        if p[at + n..].iter().any(|&b| b != 0xFF) {
            return bad("stuffing");
        }
    }
    if want != 0 {
        return Err(format!("last section is {} bytes short", want));
    }
    Ok((out, next))
}

/// Packs sections back to back into packets of one PID. `af(i)` is the
/// adaptation field of packet `i`; `stuff[k]` ends the packet after section `k`.
/// Returns the packets and, per section, its first and last packet.
pub fn pack(pid: u16, cc: u8, sections: &[Vec<u8>], stuff: &[bool], af: impl Fn(usize) -> Option<usize>) -> (Vec<Packet>, Vec<(usize, usize)>) {
    let mut out: Vec<Packet> = Vec::new();
    let mut span = Vec::new();
    let mut k = 0; // current section
    let mut at = 0; // bytes of it already sent
    let mut first = 0;
    while k < sections.len() {
        let i = out.len();
        let mut a = af(i);
        // a packet in which a section starts needs the pointer and a byte
        if room(a) < 2 {
            a = Some(181);
        }
        let cap = room(a);
        let mut pay = Vec::with_capacity(cap);
        let rem = if at == 0 { 0 } else { sections[k].len() - at };
        let starts = at == 0 || (rem + 2 <= cap && k + 1 < sections.len() && !stuff[k]);
        if starts {
            pay.push(rem as u8);
        }
        while pay.len() < cap && k < sections.len() {
            if at == 0 {
                first = i;
            }
            let n = (sections[k].len() - at).min(cap - pay.len());
            pay.extend_from_slice(&sections[k][at..at + n]);
            at += n;
            if at < sections[k].len() {
                break;
            }
            span.push((first, i));
            k += 1;
            at = 0;
            if stuff[k - 1] || !starts {
                break;
            }
        }
        pay.resize(cap, 0xFF);
        out.push(packet(pid, cc.wrapping_add(i as u8) & 15, starts, a, &pay));
    }
    (out, span)
}
