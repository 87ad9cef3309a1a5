//! C34: tables edited between parsing and assembling.
use mc::engine::{run, Ctx, R};
use mc::spec::any::{models, Model};
use mc::spec::desc::{filler, real as real_desc, zoo, D};
use mc::spec::psi_of;
use mc::spec::table::{emit, feed, tdt_section, want, Eit, Event, Nit, Pat, Pmt, Sdt, Service, Tot};
use mpegts::psi as m;
use mpegts::psi::Psi;

/// A table of the crate together with its model.
trait Table {
    /// Number of editing operations.
    fn edits(&self) -> usize;
    fn edit(&mut self, op: usize) -> String;
    fn parse(&mut self, p: &Psi, s: &Model);
    fn same(&self) -> R;
    /// Assembles and compares with the standard form.
    fn emitted(&self, cc: u8) -> R;
}

/// Editing of a list: the same change on the real and on the model list.
/// `make` gives the n-th new item as a pair.
fn edit_list<A, B>(real: &mut Vec<A>, model: &mut Vec<B>, op: usize, make: impl Fn(usize) -> (A, B)) -> String {
    let n = model.len();
    match op {
        0 | 1 | 2 => {
            let (a, b) = make(op);
            real.push(a);
            model.push(b);
            format!("add item {}", op)
        }
        3 => {
            let (a, b) = make(3);
            real.insert(0, a);
            model.insert(0, b);
            "put an item in front".into()
        }
        4 => {
            if n > 0 {
                real.remove(0);
                model.remove(0);
            }
            "remove the first item".into()
        }
        5 => {
            real.pop();
            model.pop();
            "remove the last item".into()
        }
        6 => {
            if n > 1 {
                real.swap(0, n - 1);
                model.swap(0, n - 1);
            }
            "exchange the first and the last item".into()
        }
        _ => {
            real.clear();
            model.clear();
            "remove all items".into()
        }
    }
}

const LIST_OPS: usize = 8;

/// Editing of a descriptor list.
fn edit_desc(real: &mut m::Descriptors, model: &mut Vec<D>, op: usize) -> String {
    match op {
        0 => {
            let d = &zoo()[7];
            d.push(real);
            model.push(d.clone());
            "add a descriptor".into()
        }
        1 => {
            *real = real_desc(&filler(120, 3));
            *model = filler(120, 3);
            "other descriptors".into()
        }
        _ => {
            *real = m::Descriptors::default();
            model.clear();
            "no descriptors".into()
        }
    }
}

const DESC_OPS: usize = 3;

/// Lengths of the descriptors of new items.
const SIZE: [usize; 4] = [0, 400, 700, 30];

struct Both<A, B> {
    real: A,
    model: B,
}

macro_rules! table {
    ($real:ty, $model:ty, $kind:ident, $pid:expr, $emitted:ident, |$r:ident, $m:ident| $same:expr,
     make: $make:expr, fields: [$($field:expr),*], desc: [$($desc:expr),*]) => {
        impl Table for Both<$real, $model> {
            fn edits(&self) -> usize {
                let fields: &[fn(&mut $real, &mut $model) -> String] = &[$($field),*];
                let desc: &[fn(&mut $real, &mut $model, usize) -> String] = &[$($desc),*];
                LIST_OPS + fields.len() + desc.len() * DESC_OPS
            }

            fn edit(&mut self, op: usize) -> String {
                let fields: &[fn(&mut $real, &mut $model) -> String] = &[$($field),*];
                let desc: &[fn(&mut $real, &mut $model, usize) -> String] = &[$($desc),*];
                if op < LIST_OPS {
                    edit_list(&mut self.real.items, &mut self.model.items, op, $make)
                } else if op < LIST_OPS + fields.len() {
                    fields[op - LIST_OPS](&mut self.real, &mut self.model)
                } else {
                    let k = op - LIST_OPS - fields.len();
                    desc[k / DESC_OPS](&mut self.real, &mut self.model, k % DESC_OPS)
                }
            }

            fn parse(&mut self, p: &Psi, s: &Model) {
                self.real.parse(p);
                let mut x = Model::$kind(self.model.clone());
                x.add(s);
                if let Model::$kind(y) = x {
                    self.model = y;
                }
            }

            fn same(&self) -> R {
                let ($r, $m) = (&self.real, &self.model);
                $same
            }

            fn emitted(&self, cc: u8) -> R {
                let (s, out) = emit(&self.real, $pid, cc)?;
                self.model.$emitted(&s)?;
                // assembling does not change the table
                self.same().map_err(|e| format!("after assembly: {}", e))?;
                // and it gives the table again
                let mut t = <$real>::default();
                want("sections", feed(&out, |p| t.parse(p)), s.len())?;
                if !s.is_empty() {
                    let ($r, $m) = (&t, &self.model);
                    $same.map_err(|e: String| format!("parsed again: {}", e))?;
                }
                Ok(())
            }
        }
    };
}

table!(m::Pat, Pat, Pat, 0, emitted, |r, m| m.same(r),
    make: |n| {
        let mut a = m::PatItem::default();
        a.pnr = 0x100 * n as u16;
        a.pid = 0x1FFF - n as u16;
        let b = (a.pnr, a.pid);
        (a, b)
    },
    fields: [
        |r, m| { m.version = (m.version + 1) & 31; r.version = m.version; "next version".into() },
        |r, m| { m.tsid ^= 0x8001; r.tsid = m.tsid; "other stream id".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].1 ^= 0x1001; r.items[0].pid = m.items[0].1; } "other PID of the first program".into() },
        // from one section to several
        |r, m| {
            for i in 0..250u16 {
                let mut a = m::PatItem::default();
                a.pnr = i;
                a.pid = 0x20 + i;
                r.items.push(a);
                m.items.push((i, 0x20 + i));
            }
            "add 250 programs".into()
        },
        |r, m| { let n = m.items.len() / 2; m.items.truncate(n); r.items.truncate(n); "keep half of the programs".into() }
    ],
    desc: []
);

table!(m::Pmt, Pmt, Pmt, 0x1FFE, emitted, |r, m| m.same(r),
    make: |n| {
        let mut a = m::PmtItem::default();
        a.stream_type = n as u8 + 2;
        a.pid = 0x1FFF - n as u16;
        let d = filler(SIZE[n], n as u8);
        a.descriptors = real_desc(&d);
        let b = (a.stream_type, a.pid, d);
        (a, b)
    },
    fields: [
        |r, m| { m.version = (m.version + 1) & 31; r.version = m.version; "next version".into() },
        |r, m| { m.pnr ^= 0x8001; r.pnr = m.pnr; "other program number".into() },
        |r, m| { m.pcr ^= 0x1001; r.pcr = m.pcr; "other clock PID".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].0 ^= 0x81; r.items[0].stream_type = m.items[0].0; } "other type of the first stream".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].1 ^= 0x1001; r.items[0].pid = m.items[0].1; } "other PID of the first stream".into() }
    ],
    desc: [
        |r, m, k| edit_desc(&mut r.descriptors, &mut m.desc, k),
        |r, m, k| match (r.items.last_mut(), m.items.last_mut()) {
            (Some(a), Some(b)) => edit_desc(&mut a.descriptors, &mut b.2, k),
            _ => "nothing".into(),
        }
    ]
);

table!(m::Sdt, Sdt, Sdt, 0x11, emitted, |r, m| m.same(r),
    make: |n| {
        let b = Service { pnr: n as u16 + 0x4700, schedule: n as u8 & 1, following: n as u8 >> 1, running: 4 + n as u8, ca: n as u8 & 1, desc: filler(SIZE[n], n as u8) };
        let mut a = m::SdtItem::default();
        a.pnr = b.pnr;
        a.eit_schedule_flag = b.schedule;
        a.eit_present_following_flag = b.following;
        a.running_status = b.running;
        a.free_ca_mode = b.ca;
        a.descriptors = real_desc(&b.desc);
        (a, b)
    },
    fields: [
        |r, m| { m.version = (m.version + 1) & 31; r.version = m.version; "next version".into() },
        |r, m| { m.tsid ^= 0x8001; r.tsid = m.tsid; "other stream id".into() },
        |r, m| { m.onid ^= 0x8001; r.onid = m.onid; "other network id".into() },
        |r, m| { m.table_id ^= 4; r.table_id = m.table_id; "other table id".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].running ^= 5; r.items[0].running_status = m.items[0].running; } "first service stops or starts".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].ca ^= 1; r.items[0].free_ca_mode = m.items[0].ca; } "first service scrambled or not".into() }
    ],
    desc: [
        |r, m, k| match (r.items.last_mut(), m.items.last_mut()) {
            (Some(a), Some(b)) => edit_desc(&mut a.descriptors, &mut b.desc, k),
            _ => "nothing".into(),
        }
    ]
);

table!(m::Nit, Nit, Nit, 0x10, emitted, |r, m| m.same(r),
    make: |n| {
        let mut a = m::NitItem::default();
        a.tsid = n as u16 + 0x4700;
        a.onid = 0xFFFF - n as u16;
        let d = filler(SIZE[n], n as u8);
        a.descriptors = real_desc(&d);
        let b = (a.tsid, a.onid, d);
        (a, b)
    },
    fields: [
        |r, m| { m.version = (m.version + 1) & 31; r.version = m.version; "next version".into() },
        |r, m| { m.nid ^= 0x8001; r.network_id = m.nid; "other network id".into() },
        |r, m| { m.table_id ^= 1; r.table_id = m.table_id; "other table id".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].1 ^= 0x8001; r.items[0].onid = m.items[0].1; } "other network of the first stream".into() }
    ],
    desc: [
        |r, m, k| edit_desc(&mut r.descriptors, &mut m.desc, k),
        |r, m, k| match (r.items.last_mut(), m.items.last_mut()) {
            (Some(a), Some(b)) => edit_desc(&mut a.descriptors, &mut b.2, k),
            _ => "nothing".into(),
        }
    ]
);

table!(m::Eit, Eit, Eit, 0x12, emitted_pf, |r, m| m.same(r, true),
    make: |n| {
        let b = Event { id: n as u16 + 0x4700, start: 1_600_000_000 + 3600 * n as u64, duration: 60 * n as u32, status: 1 + n as u8, ca: n as u8 & 1, desc: filler(SIZE[n], n as u8) };
        (b.real(), b)
    },
    fields: [
        |r, m| { m.version = (m.version + 1) & 31; r.version = m.version; "next version".into() },
        |r, m| { m.pnr ^= 0x8001; r.pnr = m.pnr; "other program number".into() },
        |r, m| { m.tsid ^= 0x8001; r.tsid = m.tsid; "other stream id".into() },
        |r, m| { m.onid ^= 0x8001; r.onid = m.onid; "other network id".into() },
        |r, m| { m.table_id ^= 1; r.table_id = m.table_id; "other table id".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].start += 86400; r.items[0].start = m.items[0].start; } "first event a day later".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].duration += 61; r.items[0].duration = m.items[0].duration; } "first event longer".into() },
        |r, m| { if !m.items.is_empty() { m.items[0].status ^= 1; r.items[0].status = m.items[0].status; } "other status of the first event".into() },
        // the items can be copied
        |r, m| { if !m.items.is_empty() { let a = r.items[0].clone(); r.items.push(a); let b = m.items[0].clone(); m.items.push(b); } "the first event again".into() }
    ],
    desc: [
        |r, m, k| match (r.items.last_mut(), m.items.last_mut()) {
            (Some(a), Some(b)) => edit_desc(&mut a.descriptors, &mut b.desc, k),
            _ => "nothing".into(),
        }
    ]
);

impl Table for Both<m::Tot, Tot> {
    fn edits(&self) -> usize {
        2 + DESC_OPS
    }

    fn edit(&mut self, op: usize) -> String {
        match op {
            0 | 1 => {
                self.model.time += [1, 86399][op];
                self.real.time = self.model.time;
                "later".into()
            }
            _ => edit_desc(&mut self.real.descriptors, &mut self.model.desc, op - 2),
        }
    }

    fn parse(&mut self, p: &Psi, s: &Model) {
        self.real.parse(p);
        let mut x = Model::Tot(self.model.clone());
        x.add(s);
        if let Model::Tot(y) = x {
            self.model = y;
        }
    }

    fn same(&self) -> R {
        self.model.same(&self.real)
    }

    fn emitted(&self, cc: u8) -> R {
        let (s, out) = emit(&self.real, 0x14, cc)?;
        want("sections", &s[..], &[self.model.section()][..])?;
        self.same().map_err(|e| format!("after assembly: {}", e))?;
        let mut t = m::Tot::default();
        want("sections", feed(&out, |p| t.parse(p)), 1)?;
        self.model.same(&t).map_err(|e| format!("parsed again: {}", e))
    }
}

impl Table for Both<m::Tdt, u64> {
    fn edits(&self) -> usize {
        2
    }

    fn edit(&mut self, op: usize) -> String {
        self.model += [1, 86399][op];
        self.real.time = self.model;
        "later".into()
    }

    fn parse(&mut self, p: &Psi, s: &Model) {
        self.real.parse(p);
        if let Model::Tdt(x) = s {
            self.model = *x;
        }
    }

    fn same(&self) -> R {
        want("time", self.real.time, self.model)
    }

    fn emitted(&self, cc: u8) -> R {
        let (s, _) = emit(&self.real, 0x14, cc)?;
        want("sections", &s[..], &[tdt_section(self.model)][..])?;
        self.same().map_err(|e| format!("after assembly: {}", e))
    }
}

/// An empty table of each kind. Tables with several ids get one of them.
fn new(k: usize) -> Box<dyn Table> {
    match k {
        0 => Box::new(Both { real: m::Pat::default(), model: Pat::default() }),
        1 => Box::new(Both { real: m::Pmt::default(), model: Pmt::default() }),
        2 => {
            let mut real = m::Sdt::default();
            real.table_id = 0x42;
            Box::new(Both { real, model: Sdt { table_id: 0x42, ..Sdt::default() } })
        }
        3 => {
            let mut real = m::Nit::default();
            real.table_id = 0x40;
            Box::new(Both { real, model: Nit { table_id: 0x40, ..Nit::default() } })
        }
        4 => {
            let mut real = m::Eit::default();
            real.table_id = 0x4E;
            Box::new(Both { real, model: Eit { table_id: 0x4E, ..Eit::default() } })
        }
        5 => Box::new(Both { real: m::Tot::default(), model: Tot { time: 0, desc: vec![] } }),
        _ => Box::new(Both { real: m::Tdt::default(), model: 0 }),
    }
}

/// Sections of each kind that may arrive.
fn arriving(k: usize) -> Vec<(Psi, Model)> {
    let kind = [0, 1, 2, 3, 4, 6, 5][k];
    models()
        .into_iter()
        .filter(|x| x.kind() == kind)
        // a schedule is assembled in another way
        .filter(|x| if let Model::Eit(e) = x { e.table_id <= 0x4F } else { true })
        .map(|x| (psi_of(&x.section()), x))
        .collect()
}

/// Runs a sequence of operations; `every` compares the assembled form after
/// each step, otherwise only at the end.
fn history(c: &mut Ctx, k: usize, depth: usize, every: bool) -> R {
    let mut t = new(k);
    let came = arriving(k);
    let edits = t.edits();
    let mut ops = Vec::new();
    for step in 0..depth {
        let op = c.pick(edits + came.len());
        ops.push(op);
        let what = if op < edits {
            t.edit(op)
        } else {
            let (p, s) = &came[op - edits];
            t.parse(p, s);
            c.call(1);
            format!("parse section {}", op - edits)
        };
        c.log(|| format!("{}: {}", step, what));
        t.same().map_err(|e| format!("after {}: {}", what, e))?;
        if every || step + 1 == depth {
            t.emitted((step * 5) as u8 & 15).map_err(|e| format!("assembled after {}: {}", what, e))?;
            c.call(2);
        }
    }
    c.state(&(k, every, &ops));
    c.sample(|| format!("table kind {}, operations {:?}", k, ops));
    Ok(())
}

fn main() {
    run("C34", |r| {
        let depth = r.by(4, 5);
        let deep = r.by(8, 10);
        r.explore("every sequence of operations, assembled after each", |c| {
            let k = c.pick(7);
            history(c, k, depth, true)
        });
        r.explore("every sequence of operations, assembled at the end", |c| {
            let k = c.pick(7);
            let n = c.range(1, depth);
            history(c, k, n, false)
        });
        r.explore("long sequences on the time tables", |c| {
            let k = c.range(5, 6);
            history(c, k, if k == 5 { deep - 2 } else { deep }, true)
        });
        // two tables of a kind are independent of each other
        r.explore("two tables edited in turn", |c| {
            let k = c.pick(7);
            let (mut a, mut b) = (new(k), new(k));
            let came = arriving(k);
            let edits = a.edits();
            let mut ops = Vec::new();
            for step in 0..4 {
                let op = c.pick(edits + came.len());
                ops.push(op);
                let t = if step % 2 == 0 { &mut a } else { &mut b };
                if op < edits {
                    t.edit(op);
                } else {
                    t.parse(&came[op - edits].0, &came[op - edits].1);
                }
                if step >= 2 {
                    a.emitted(3).map_err(|e| format!("first table: {}", e))?;
                    b.emitted(9).map_err(|e| format!("second table: {}", e))?;
                    c.call(4);
                }
            }
            c.state(&(k, &ops));
            Ok(())
        });
    })
}
