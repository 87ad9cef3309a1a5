//! C18: descriptor lists as values.
use mc::engine::{eq, run, R};
use mc::spec::desc::{encode_all, real, same_list, zoo, D, T};
use mpegts::psi::{self as m, Descriptors};
use mpegts::textcode::StringDVB;

/// A list of the crate and its model.
#[derive(Default)]
struct Pair {
    real: Descriptors,
    model: Vec<D>,
}

/// Changes fields of a descriptor in place, the same way in both.
fn edit(d: &mut D, x: &mut m::Descriptor) {
    match d {
        D::Raw(_, b) => {
            b.push(0x5A);
            x.downcast_mut::<m::DescRaw>().data.push(0x5A);
        }
        D::X09 { caid, data, .. } => {
            *caid ^= 0x00FF;
            data.push(7);
            let x = x.downcast_mut::<m::Desc09>();
            x.caid ^= 0x00FF;
            x.data.push(7);
        }
        D::X0A(l) => {
            l.push((*b"ukr", 2));
            x.downcast_mut::<m::Desc0A>().items.push(m::Desc0Ai { code: StringDVB::from_str("ukr", 0), audio_type: 2 });
        }
        D::X0E(b) => {
            *b ^= 0x2A_AAAA;
            x.downcast_mut::<m::Desc0E>().bitrate ^= 0x2A_AAAA;
        }
        D::X40(t) => {
            *t = if t.b.len() > 2 { T::new(21, b"n") } else { T::new(0, b"Longer name") };
            x.downcast_mut::<m::Desc40>().name = t.real();
        }
        D::X41(l) => {
            l.remove(0);
            l.push((4, 5));
            l.push((6, 7));
            let x = x.downcast_mut::<m::Desc41>();
            x.items.remove(0);
            x.items.push(m::Desc41i { service_id: 4, service_type: 5 });
            x.items.push(m::Desc41i { service_id: 6, service_type: 7 });
        }
        D::X43 { freq, pol, .. } => {
            *freq += 1;
            *pol ^= 3;
            let x = x.downcast_mut::<m::Desc43>();
            x.frequency += 10;
            x.polarization ^= 3;
        }
        D::X44 { sr, fec, .. } => {
            *sr += 1;
            *fec ^= 15;
            let x = x.downcast_mut::<m::Desc44>();
            x.symbol_rate += 1;
            x.fec ^= 15;
        }
        D::X48 { ty, name, .. } => {
            *ty ^= 1;
            *name = if name.b.len() > 2 { T::new(0, b"x") } else { T::new(5, b"Service \xD0") };
            let x = x.downcast_mut::<m::Desc48>();
            x.service_type ^= 1;
            x.name = name.real();
        }
        D::X4D { lang, text, .. } => {
            lang.reverse();
            *text = if text.b.len() > 2 { T::default() } else { T::new(15, b"other text") };
            let x = x.downcast_mut::<m::Desc4D>();
            x.lang = StringDVB::from(&lang[..]);
            x.text = text.real();
        }
        D::X4E { items, num, .. } => {
            items.push((T::new(0, b"A"), T::new(21, b"B")));
            *num ^= 7;
            let x = x.downcast_mut::<m::Desc4E>();
            x.items.push((T::new(0, b"A").real(), T::new(21, b"B").real()));
            x.number ^= 7;
        }
        D::X52(t) => {
            *t ^= 0x81;
            x.downcast_mut::<m::Desc52>().tag ^= 0x81;
        }
        D::X58(l) => {
            l[0].4 += 86_400;
            l[0].2 ^= 1;
            let x = x.downcast_mut::<m::Desc58>();
            x.items[0].time_of_change += 86_400;
            x.items[0].offset_polarity ^= 1;
        }
        D::X5A { f, .. } => {
            f[0] ^= 7;
            f[10] ^= 1;
            let x = x.downcast_mut::<m::Desc5A>();
            x.bandwidth ^= 7;
            x.other_frequency_flag ^= 1;
        }
        D::X83(l) => {
            l[0].2 ^= 0x3FF;
            l.push((1, 1, 1));
            let x = x.downcast_mut::<m::Desc83>();
            x.items[0].lcn ^= 0x3FF;
            x.items.push(m::Desc83i { service_id: 1, visible: 1, lcn: 1 });
        }
    }
}

impl Pair {
    fn check(&mut self) -> R {
        same_list(&self.model, &self.real)?;
        eq("length", self.real.len(), self.model.len())?;
        eq("emptiness", self.real.is_empty(), self.model.is_empty())?;
        for (i, d) in self.model.iter().enumerate() {
            match self.real.get(i) {
                Some(x) => d.same(x).map_err(|e| format!("access to {}: {}", i, e))?,
                None => return Err(format!("no descriptor at {}", i)),
            }
            match self.real.get_mut(i) {
                Some(x) => d.same(x).map_err(|e| format!("mutable access to {}: {}", i, e))?,
                None => return Err(format!("no descriptor at {}", i)),
            }
        }
        let n = self.model.len();
        if self.real.get(n).is_some() || self.real.get_mut(n).is_some() {
            return Err("access beyond the end gives a descriptor".to_string());
        }
        let want = encode_all(&self.model);
        eq("announced size", self.real.size(), want.len())?;
        let mut out = vec![0x47, 0x40, 0x00];
        for _ in 0..2 {
            let start = out.len();
            let before = out.clone();
            let k = self.real.assemble(&mut out);
            eq("returned size", k, want.len())?;
            if out[..start] != before[..] {
                return Err("encoding changed earlier bytes".to_string());
            }
            eq("appended bytes", &out[start..], &want[..])?;
        }
        same_list(&self.model, &self.real).map_err(|e| format!("after encoding: {}", e))
    }
}

fn main() {
    run("C18", |r| {
        let z = zoo();
        let mut tail = encode_all(&z[9..11]);
        tail.extend_from_slice(&[0x43, 11, 1, 2, 3]);
        let loops: Vec<(Vec<u8>, Vec<D>)> = vec![
            (encode_all(&z[5..8]), z[5..8].to_vec()),
            (tail, z[9..11].to_vec()),
            (vec![0x52], vec![]),
        ];
        let (z, loops) = (&z, &loops);
        let depth = r.by(3, 4);
        r.explore("every sequence of operations on two lists", |c| {
            let mut p = [Pair::default(), Pair::default()];
            let mut key = Vec::new();
            for step in 0..depth + 1 {
                // the first step fills one list, the others are free
                let i = if step == 0 { 0 } else { c.pick(2) };
                let op = c.pick(if step == 0 { z.len() } else { z.len() + loops.len() + 7 });
                key.push((i, op));
                if op < z.len() {
                    z[op].push(&mut p[i].real);
                    p[i].model.push(z[op].clone());
                    c.log(|| format!("list {}: add {:?}", i, z[op]));
                } else if op < z.len() + loops.len() {
                    let (b, l) = &loops[op - z.len()];
                    p[i].real.parse(b);
                    p[i].model.extend(l.iter().cloned());
                    c.log(|| format!("list {}: decode {:02x?}", i, b));
                } else {
                    match op - z.len() - loops.len() {
                        0 => {
                            let j = 1 - i;
                            p[i].real = p[j].real.clone();
                            p[i].model = p[j].model.clone();
                            c.log(|| format!("list {} = clone of list {}", i, j));
                        }
                        1 => {
                            // a clone outlives its source
                            let x = p[i].real.clone();
                            p[i].real = Descriptors::default();
                            p[i].real = x;
                            c.log(|| format!("list {} = clone of itself", i));
                        }
                        2 => {
                            p[i] = Pair::default();
                            c.log(|| format!("list {}: new", i));
                        }
                        k @ 3 | k @ 4 => {
                            let n = p[i].model.len();
                            if n == 0 {
                                return Ok(());
                            }
                            let at = if k == 3 { 0 } else { n - 1 };
                            if k == 4 && n == 1 {
                                return Ok(());
                            }
                            let Pair { real, model } = &mut p[i];
                            edit(&mut model[at], real.get_mut(at).ok_or("no mutable access")?);
                            c.log(|| format!("list {}: edit {}", i, at));
                        }
                        5 => {
                            let n = p[i].model.len();
                            if n == 0 {
                                return Ok(());
                            }
                            *p[i].real.get_mut(n - 1).ok_or("no mutable access")? = m::Desc52 { tag: 0x33 }.into();
                            p[i].model[n - 1] = D::X52(0x33);
                            c.log(|| format!("list {}: replace {}", i, n - 1));
                        }
                        _ => {
                            // a clone of one descriptor is added
                            let n = p[i].model.len();
                            if n == 0 {
                                return Ok(());
                            }
                            let x = p[i].real.get(0).ok_or("no access")?.clone();
                            p[1 - i].real.push(x);
                            let d = p[i].model[0].clone();
                            p[1 - i].model.push(d);
                            c.log(|| format!("clone of the first of list {} added to the other", i));
                        }
                    }
                }
                c.call(1);
                c.state(&format!("{:?} {:?}", p[0].model, p[1].model));
                for (n, q) in p.iter_mut().enumerate() {
                    q.check().map_err(|e| format!("list {}: {}", n, e))?;
                }
                c.call(12);
            }
            Ok(())
        });
        r.explore("clones of raw descriptors of any tag", |c| {
            let tag = c.pick(256) as u8;
            let n = c.pick(256);
            let d = D::Raw(tag, (0..n).map(|i| (i as u8) ^ tag).collect());
            let mut a = Pair { real: real(&[d.clone()]), model: vec![d.clone()] };
            let mut b = Pair { real: a.real.clone(), model: vec![d] };
            c.call(2);
            c.bulk(1);
            a.check()?;
            b.check()?;
            if n < 255 {
                edit(&mut b.model[0], b.real.get_mut(0).ok_or("no mutable access")?);
                a.check().map_err(|e| format!("source after editing the clone: {}", e))?;
                b.check()?;
            }
            Ok(())
        });
        r.explore("every kind: clone, edit one, both stay themselves", |c| {
            let d = &z[c.pick(z.len())];
            let pad = c.pick(4);
            let which = c.pick(2);
            let l: Vec<D> = (0..pad).map(|i| z[i].clone()).chain(Some(d.clone())).chain((0..pad).map(|i| z[16 - i].clone())).collect();
            let mut p = [Pair { real: real(&l), model: l.clone() }, Pair::default()];
            p[1].real = p[0].real.clone();
            p[1].model = l;
            for _ in 0..3 {
                let Pair { real, model } = &mut p[which];
                edit(&mut model[pad], real.get_mut(pad).ok_or("no mutable access")?);
                c.call(2);
                p[0].check()?;
                p[1].check()?;
                c.state(&format!("{:?} {:?}", p[0].model, p[1].model));
            }
            Ok(())
        });
        r.explore("long lists", |c| {
            let n = c.pick(300);
            let l: Vec<D> = match c.pick(2) {
                0 => (0..n).map(|i| z[(i * 5) % z.len()].clone()).collect(),
                // up to more bytes than any length field holds
                _ => (0..n).map(|i| D::Raw(0x80 + i as u8 % 3, vec![i as u8; 255 - i % 7])).collect(),
            };
            let mut a = Pair { real: real(&l), model: l.clone() };
            a.check()?;
            let mut b = Pair { real: a.real.clone(), model: l };
            b.check()?;
            drop(a);
            b.check()?;
            c.call(30);
            c.bulk(1);
            Ok(())
        });
        r.explore("decoding onto a list that ends with any descriptor", |c| {
            let tag = c.pick(256) as u8;
            let bodies: [&[u8]; 7] = [&[], &[0], &[1, 2, 3], &[0, 0, 0, 0], &[0x41; 5], &[0; 13], &[9; 255]];
            let all: Vec<D> = bodies.iter().map(|b| D::decode(tag, b)).collect();
            let b = &all[c.pick(all.len())];
            for a in all.iter().chain(z.iter()) {
                for way in 0..4 {
                    let mut p = Pair::default();
                    let one = |p: &mut Pair, d: &D, push: bool| {
                        if push {
                            d.push(&mut p.real);
                        } else {
                            p.real.parse(&d.encode());
                        }
                        p.model.push(d.clone());
                    };
                    one(&mut p, a, way & 1 == 1);
                    one(&mut p, b, way & 2 == 2);
                    one(&mut p, a, way & 1 == 0);
                    c.call(3);
                    c.bulk(1);
                    p.check()?;
                }
            }
            Ok(())
        });
        r.explore("each kind at any distance from the start", |c| {
            // of what is encoded into and of what is decoded
            let at = match c.pick(4200 + 80) {
                i if i < 4200 => i,
                i => 65536 - 40 + (i - 4200),
            };
            let mut before = Vec::new();
            while before.len() + 2 <= at {
                let n = (at - before.len() - 2).min(255);
                // never a single byte left over
                let n = if at - before.len() - 2 - n == 1 { n - 1 } else { n };
                before.extend(D::Raw(0x90, vec![at as u8; n]).encode());
            }
            let whole = before.len() == at;
            for d in z.iter() {
                let mut v = vec![0xA5; at];
                let mut p = Pair::default();
                d.push(&mut p.real);
                let n = p.real.assemble(&mut v);
                c.call(2);
                c.bulk(1);
                eq("bytes before kept", &v[..at] == &vec![0xA5; at][..], true)?;
                eq("encoded", &v[at..], &d.encode()[..])?;
                eq("bytes appended", n, d.encode().len())?;
                if whole && at < 4200 {
                    let mut real = m::Descriptors::default();
                    real.parse(&[&before[..], &d.encode()[..]].concat());
                    let last = real.len() - 1;
                    let mut one = m::Descriptors::default();
                    one.push(real.get(last).ok_or("no last descriptor")?.clone());
                    p.real = one;
                    p.model.push(d.clone());
                    p.check()?;
                }
            }
            Ok(())
        });
        r.explore("data and entries held in larger memory", |c| {
            let n = c.pick(60);
            let spare = c.of(&[0usize, 1, 60, 300, 5000]);
            fn roomy<X: Clone>(v: Vec<X>, spare: usize) -> Vec<X> {
                let mut r = Vec::with_capacity(v.len() + spare);
                r.extend(v);
                r
            }
            let bytes: Vec<u8> = (0..n as u8 * 4).collect();
            let some = n.min(18);
            let l = vec![
                D::Raw(0x90, bytes.clone()),
                D::X09 { caid: 1, pid: 2, data: bytes.clone() },
                D::X0A(vec![(*b"eng", 1); n]),
                D::X41(vec![(1, 2); n]),
                D::X83(vec![(1, 1, 2); n]),
                D::X58(vec![(*b"GBR", 5, 1, 90, 1_332_637_199, 1439); some]),
                D::X4E { num: 0, last: 0, lang: *b"eng", items: vec![(T::new(0, b"A"), T::new(0, b"B")); n], text: T::default() },
            ];
            for d in l {
                let mut p = Pair::default();
                d.push(&mut p.real);
                let x = p.real.get_mut(0).ok_or("no mutable access")?;
                match &d {
                    D::Raw(..) => {
                        let x = x.downcast_mut::<m::DescRaw>();
                        x.data = roomy(x.data.clone(), spare);
                    }
                    D::X09 { .. } => {
                        let x = x.downcast_mut::<m::Desc09>();
                        x.data = roomy(x.data.clone(), spare);
                    }
                    D::X0A(_) => x.downcast_mut::<m::Desc0A>().items.reserve(spare),
                    D::X41(_) => x.downcast_mut::<m::Desc41>().items.reserve(spare),
                    D::X83(_) => x.downcast_mut::<m::Desc83>().items.reserve(spare),
                    D::X58(_) => x.downcast_mut::<m::Desc58>().items.reserve(spare),
                    _ => x.downcast_mut::<m::Desc4E>().items.reserve(spare),
                }
                p.model.push(d);
                c.call(2);
                c.bulk(1);
                p.check()?;
                let mut q = Pair { real: p.real.clone(), model: p.model.clone() };
                q.check().map_err(|e| format!("clone: {}", e))?;
            }
            Ok(())
        });
    })
}
