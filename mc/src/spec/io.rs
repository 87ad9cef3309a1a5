//! A byte source that misbehaves at chosen stream positions, so that what it
//! does does not depend on how the code under test sizes its reads.
use std::io::{Error, ErrorKind, Read, Result};

#[derive(Debug, Default, Clone)]
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    /// Sorted positions no single read crosses.
    pub breaks: Vec<usize>,
    /// A read returns at most this much; 0 for no limit.
    pub chunk: usize,
    /// Position and how many times a read there is interrupted first.
    pub interrupts: Vec<(usize, u32)>,
    /// Positions where a read fails once with this kind.
    pub errors: Vec<(usize, ErrorKind)>,
    pub calls: u64,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        for i in self.interrupts.iter_mut() {
            if i.0 == self.pos && i.1 > 0 {
                i.1 -= 1;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
        }
        if let Some(i) = self.errors.iter().position(|e| e.0 == self.pos) {
            let k = self.errors.remove(i).1;
            return Err(Error::new(k, "source error"));
        }
        let mut end = self.data.len().min(self.pos + buf.len());
        if self.chunk > 0 {
            end = end.min(self.pos + self.chunk);
        }
        for stop in self.breaks.iter().copied().chain(self.interrupts.iter().map(|i| i.0)).chain(self.errors.iter().map(|e| e.0)) {
            if stop > self.pos && stop < end {
                end = stop;
            }
        }
        let n = end - self.pos;
        buf[..n].copy_from_slice(&self.data[self.pos..end]);
        self.pos = end;
        Ok(n)
    }
}

/// Reference: offsets of the packets a stream contains.
pub fn packets(data: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    let mut p = 0;
    while p < data.len() {
        if data[p] != 0x47 {
            p += 1;
        } else if p + 188 <= data.len() {
            v.push(p);
            p += 188;
        } else {
            break;
        }
    }
    v
}
