//! Any of the tables: the seven parsers and their models behind one type.
use super::desc::{zoo, D};
use super::table::{tdt_section, Eit, Event, Nit, Pat, Pmt, Sdt, Service, Tot};
use mpegts::psi::{self as m, Psi, PsiDemux};

/// The seven parsers of the crate.
#[derive(Debug)]
pub enum Real {
    Pat(m::Pat),
    Pmt(m::Pmt),
    Sdt(m::Sdt),
    Nit(m::Nit),
    Eit(m::Eit),
    Tdt(m::Tdt),
    Tot(m::Tot),
}

pub const PARSERS: usize = 7;

pub fn fresh(k: usize) -> Real {
    match k {
        0 => Real::Pat(Default::default()),
        1 => Real::Pmt(Default::default()),
        2 => Real::Sdt(Default::default()),
        3 => Real::Nit(Default::default()),
        4 => Real::Eit(Default::default()),
        5 => Real::Tdt(Default::default()),
        _ => Real::Tot(Default::default()),
    }
}

impl Real {
    pub fn demux(&self, pid: u16, cc: &mut u8, out: &mut Vec<u8>) {
        match self {
            Real::Pat(t) => t.demux(pid, cc, out),
            Real::Pmt(t) => t.demux(pid, cc, out),
            Real::Sdt(t) => t.demux(pid, cc, out),
            Real::Nit(t) => t.demux(pid, cc, out),
            Real::Eit(t) => t.demux(pid, cc, out),
            Real::Tdt(t) => t.demux(pid, cc, out),
            Real::Tot(t) => t.demux(pid, cc, out),
        }
    }

    pub fn parse(&mut self, p: &Psi) {
        match self {
            Real::Pat(t) => t.parse(p),
            Real::Pmt(t) => t.parse(p),
            Real::Sdt(t) => t.parse(p),
            Real::Nit(t) => t.parse(p),
            Real::Eit(t) => t.parse(p),
            Real::Tdt(t) => t.parse(p),
            Real::Tot(t) => t.parse(p),
        }
    }
}

pub fn from(k: usize, p: &Psi) -> Real {
    match k {
        0 => Real::Pat(p.into()),
        1 => Real::Pmt(p.into()),
        2 => Real::Sdt(p.into()),
        3 => Real::Nit(p.into()),
        4 => Real::Eit(p.into()),
        5 => Real::Tdt(p.into()),
        _ => Real::Tot(p.into()),
    }
}

/// Reference: what a section contains.
#[derive(Clone, Debug)]
pub enum Model {
    Pat(Pat),
    Pmt(Pmt),
    Sdt(Sdt),
    Nit(Nit),
    Eit(Eit),
    Tdt(u64),
    Tot(Tot),
}

pub fn empty(k: usize) -> Model {
    match k {
        0 => Model::Pat(Default::default()),
        1 => Model::Pmt(Default::default()),
        2 => Model::Sdt(Default::default()),
        3 => Model::Nit(Default::default()),
        4 => Model::Eit(Default::default()),
        5 => Model::Tdt(0),
        _ => Model::Tot(Default::default()),
    }
}

impl Model {
    pub fn kind(&self) -> usize {
        match self {
            Model::Pat(_) => 0,
            Model::Pmt(_) => 1,
            Model::Sdt(_) => 2,
            Model::Nit(_) => 3,
            Model::Eit(_) => 4,
            Model::Tdt(_) => 5,
            Model::Tot(_) => 6,
        }
    }

    pub fn section(&self) -> Vec<u8> {
        match self {
            Model::Pat(t) => t.section(0, 0),
            Model::Pmt(t) => t.section(0, 0),
            Model::Sdt(t) => t.section(0, 0),
            Model::Nit(t) => t.section(0, 0),
            Model::Eit(t) => t.section(0, 0),
            Model::Tdt(t) => tdt_section(*t),
            Model::Tot(t) => t.section(),
        }
    }

    /// The table as an object of the crate.
    pub fn real(&self) -> Real {
        match self {
            Model::Pat(t) => Real::Pat(t.real()),
            Model::Pmt(t) => Real::Pmt(t.real()),
            Model::Sdt(t) => Real::Sdt(t.real()),
            Model::Nit(t) => Real::Nit(t.real()),
            Model::Eit(t) => Real::Eit(t.real()),
            Model::Tdt(t) => {
                let mut x = m::Tdt::default();
                x.time = *t;
                Real::Tdt(x)
            }
            Model::Tot(t) => Real::Tot(t.real()),
        }
    }

    /// Takes in a section of the same kind.
    pub fn add(&mut self, s: &Model) {
        match (self, s) {
            (Model::Pat(a), Model::Pat(b)) => {
                let mut i = std::mem::take(&mut a.items);
                i.extend(b.items.iter().cloned());
                *a = Pat { items: i, ..b.clone() };
            }
            (Model::Pmt(a), Model::Pmt(b)) => {
                let (mut i, mut d) = (std::mem::take(&mut a.items), std::mem::take(&mut a.desc));
                i.extend(b.items.iter().cloned());
                d.extend(b.desc.iter().cloned());
                *a = Pmt { items: i, desc: d, ..b.clone() };
            }
            (Model::Sdt(a), Model::Sdt(b)) => {
                let mut i = std::mem::take(&mut a.items);
                i.extend(b.items.iter().cloned());
                *a = Sdt { items: i, ..b.clone() };
            }
            (Model::Nit(a), Model::Nit(b)) => {
                let (mut i, mut d) = (std::mem::take(&mut a.items), std::mem::take(&mut a.desc));
                i.extend(b.items.iter().cloned());
                d.extend(b.desc.iter().cloned());
                *a = Nit { items: i, desc: d, ..b.clone() };
            }
            (Model::Eit(a), Model::Eit(b)) => {
                let mut i = std::mem::take(&mut a.items);
                i.extend(b.items.iter().cloned());
                *a = Eit { items: i, ..b.clone() };
            }
            (Model::Tdt(a), Model::Tdt(b)) => *a = *b,
            (Model::Tot(a), Model::Tot(b)) => {
                a.time = b.time;
                a.desc.extend(b.desc.iter().cloned());
            }
            _ => panic!("model: kinds"),
        }
    }

    pub fn same(&self, r: &Real) -> Result<(), String> {
        match (self, r) {
            (Model::Pat(a), Real::Pat(b)) => a.same(b),
            (Model::Pmt(a), Real::Pmt(b)) => a.same(b),
            (Model::Sdt(a), Real::Sdt(b)) => a.same(b),
            (Model::Nit(a), Real::Nit(b)) => a.same(b),
            (Model::Eit(a), Real::Eit(b)) => a.same(b, true),
            (Model::Tdt(a), Real::Tdt(b)) => if *a == b.time { Ok(()) } else { Err(format!("time {}, expected {}", b.time, a)) },
            (Model::Tot(a), Real::Tot(b)) => a.same(b),
            _ => panic!("model: kinds"),
        }
    }
}

/// A few tables of every kind.
pub fn models() -> Vec<Model> {
    let z = zoo();
    let d = |i: usize, n: usize| -> Vec<D> { z[i..i + n].to_vec() };
    vec![
        Model::Pat(Pat { version: 1, tsid: 10, items: vec![(1, 100), (2, 200)] }),
        Model::Pat(Pat { version: 31, tsid: 0xFFFF, items: vec![(3, 300)] }),
        Model::Pat(Pat { version: 2, tsid: 11, items: vec![] }),
        Model::Pmt(Pmt { version: 4, pnr: 5, pcr: 6, desc: d(0, 1), items: vec![(2, 0x100, d(1, 2)), (4, 0x101, vec![])] }),
        Model::Pmt(Pmt { version: 9, pnr: 50, pcr: 0x1FFF, desc: vec![], items: vec![(6, 0x102, d(14, 2))] }),
        Model::Pmt(Pmt { version: 0, pnr: 0, pcr: 0, desc: d(2, 1), items: vec![] }),
        Model::Sdt(Sdt { table_id: 0x42, version: 7, tsid: 8, onid: 9, items: vec![Service { pnr: 1, schedule: 1, following: 0, running: 4, ca: 1, desc: d(7, 1) }] }),
        Model::Sdt(Sdt { table_id: 0x46, version: 8, tsid: 80, onid: 90, items: vec![Service { pnr: 2, schedule: 0, following: 1, running: 1, ca: 0, desc: vec![] }, Service { pnr: 3, ..Default::default() }] }),
        Model::Sdt(Sdt { table_id: 0x42, version: 9, tsid: 81, onid: 91, items: vec![] }),
        Model::Nit(Nit { table_id: 0x40, version: 3, nid: 4, desc: d(3, 1), items: vec![(1, 2, d(5, 1)), (3, 4, vec![])] }),
        Model::Nit(Nit { table_id: 0x41, version: 5, nid: 6, desc: vec![], items: vec![(5, 6, d(6, 1))] }),
        Model::Nit(Nit { table_id: 0x40, version: 6, nid: 7, desc: d(4, 1), items: vec![] }),
        Model::Eit(Eit { table_id: 0x4E, version: 1, pnr: 2, tsid: 3, onid: 4, items: vec![Event { id: 1, start: 1_600_000_000, duration: 60, status: 4, ca: 1, desc: d(8, 2) }] }),
        Model::Eit(Eit { table_id: 0x5F, version: 10, pnr: 20, tsid: 30, onid: 40, items: vec![Event { id: 2, start: 86399, duration: 3600, status: 1, ca: 0, desc: vec![] }, Event { id: 3, ..Default::default() }] }),
        Model::Eit(Eit { table_id: 0x6F, version: 11, pnr: 21, tsid: 31, onid: 41, items: vec![] }),
        Model::Tdt(1_600_000_000),
        Model::Tdt(5),
        Model::Tot(Tot { time: 1_600_000_001, desc: d(11, 1) }),
        Model::Tot(Tot { time: 86400, desc: vec![] }),
    ]
}

