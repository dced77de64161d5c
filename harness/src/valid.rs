//! Reference validator: the exact set of problems an image has.
use crate::fs::{DecErr, Fs};
use crate::geom::{Geo, Loc};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    SystemNotAllocated(Loc),
    Misallocated(Loc),
    Misoccupied(Loc, Vec<u8>),
    Overoccupied(Loc, Vec<u8>, Vec<u8>),
    Scan(Vec<u8>),
    Other(String),
}

pub fn expected(geo: &Geo, img: &[u8]) -> Result<Vec<V>, DecErr> {
    let fs = Fs::parse(geo, img)?;
    let dos = cbm::Petscii::from("CBM DOS").as_bytes().to_vec();
    let mut out = vec![];
    let system: BTreeSet<Loc> = geo.system().into_iter().collect();
    let mut owner: BTreeMap<Loc, Vec<u8>> = BTreeMap::new();
    for l in &system {
        owner.insert(*l, dos.clone());
    }
    for (l, _) in &fs.dir {
        owner.insert(*l, dos.clone());
    }
    if let Some(b) = fs.border {
        owner.insert(b, dos.clone());
    }
    for e in &fs.ents {
        match &e.occupied {
            Err(_) => out.push(V::Scan(e.name.clone())),
            Ok(v) => {
                for l in v {
                    match owner.get(l) {
                        Some(o) => out.push(V::Overoccupied(*l, o.clone(), e.name.clone())),
                        None => {
                            owner.insert(*l, e.name.clone());
                        }
                    }
                }
            }
        }
    }
    for t in 1..=geo.bam_tracks() {
        for s in 0..geo.spt(t) {
            let l = (t, s);
            let free = geo.is_free(img, l);
            if free && system.contains(&l) {
                out.push(V::SystemNotAllocated(l));
            } else if free && owner.contains_key(&l) {
                out.push(V::Misoccupied(l, owner[&l].clone()));
            } else if !free && !owner.contains_key(&l) {
                out.push(V::Misallocated(l));
            }
        }
    }
    out.sort();
    Ok(out)
}

pub fn convert(errs: &[cbm::disk::ValidationError]) -> Vec<V> {
    use cbm::disk::ValidationError as E;
    let mut v: Vec<V> = errs
        .iter()
        .map(|e| match e {
            E::SystemSectorNotAllocated(l) => V::SystemNotAllocated((l.0, l.1)),
            E::SectorMisallocated(l) => V::Misallocated((l.0, l.1)),
            E::SectorMisoccupied(l, n) => V::Misoccupied((l.0, l.1), n.as_bytes().to_vec()),
            E::SectorOveroccupied(l, a, b) => V::Overoccupied((l.0, l.1), a.as_bytes().to_vec(), b.as_bytes().to_vec()),
            E::FileScanError(_, n) => V::Scan(n.as_bytes().to_vec()),
            x => V::Other(format!("{:?}", x)),
        })
        .collect();
    v.sort();
    v
}
