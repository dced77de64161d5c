//! Files with structure: REL files and GEOS files.
use super::hist::pick_geo;
use crate::build::{random_image, Builder};
use crate::cx::{Cx, Stop, R};
use crate::engine::scheme_of;
use crate::fs::{self, Content, Ent, FKind, Fs};
use crate::geom::{Geo, Loc};
use crate::hk;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use cbm::disk::directory::Extra;
use cbm::disk::file::{File, FileOps};
use cbm::disk::geos::GEOSInfo;
use cbm::disk::Disk;
use std::io::Read;

fn put(geo: &Geo, img: &mut [u8], l: Loc, o: usize, b: &[u8]) {
    if let Some(p) = geo.offset(l) {
        img[p + o..p + o + b.len()].copy_from_slice(b);
    }
}

fn wild(geo: &Geo, rng: &mut Rng) -> [u8; 2] {
    match rng.below(5) {
        0 => [0, rng.byte()],
        1 => [geo.tracks + 1, 0],
        2 => {
            let t = rng.range(1, geo.tracks as usize) as u8;
            [t, geo.spt(t)]
        }
        3 => [rng.byte(), rng.byte()],
        _ => {
            let t = rng.range(1, geo.tracks as usize) as u8;
            [t, rng.below(geo.spt(t) as usize) as u8]
        }
    }
}

fn open(cx: &mut Cx, d: &dyn Disk, e: &Ent) -> std::io::Result<File> {
    if cx.rng.chance(1, 2) {
        d.open_file(&pet(&e.name))
    } else {
        let x = d.find_directory_entry(&pet(&e.name))?;
        d.open_file_from_entry(&x)
    }
}

/// Everything but the given file must be as before; the file itself is gone,
/// and exactly its sectors became free.
fn judge_delete(cx: &mut Cx, d: &mut dyn Disk, geo: &Geo, e: &Ent, p: &'static str) -> R<()> {
    let before = hk::image(&*d);
    let fb = Fs::parse(geo, &before).map_err(|_| Stop)?;
    let free = d.blocks_free().map_err(|_| Stop)?;
    let mut f = match open(cx, d, e) {
        Ok(f) => f,
        Err(x) => {
            cx.fail(&[p], format!("opening {:02x?} to delete it: {}", e.name, kind(&x)));
            return Ok(());
        }
    };
    let r = f.delete();
    cx.step(format!("delete {:02x?} -> {:?}", e.name, r.as_ref().map_err(kind)));
    if let Err(x) = r {
        cx.fail(&[p], format!("delete of {:02x?}: {}", e.name, kind(&x)));
        return Ok(());
    }
    let after = hk::image(&*d);
    let fa = Fs::parse(geo, &after).map_err(|_| Stop)?;
    cx.count("deletions", 1);
    cx.check(!fa.ents.iter().any(|x| x.slot == e.slot), &[p], || format!("{:02x?} is still listed after its deletion", e.name));
    let rest: Vec<&Ent> = fb.ents.iter().filter(|x| x.slot != e.slot).collect();
    cx.check(fa.ents.len() == rest.len() && fa.ents.iter().zip(&rest).all(|(a, b)| a.slot == b.slot && a.meta() == b.meta() && a.content == b.content), &[p], || {
        format!("deleting {:02x?} changed another file", e.name)
    });
    let occ = e.occupied.clone().unwrap();
    let mut want = before.clone();
    for l in &occ {
        geo.set_free(&mut want, *l, true);
    }
    for t in 1..=geo.bam_tracks() {
        let (a, b) = (geo.bam_map(&after, t), geo.bam_map(&want, t));
        cx.check(a == b && geo.bam_count(&after, t) == geo.bam_count(&want, t), &[p], || {
            format!("after deleting {:02x?} the allocation of track {} is {:x} (count {}), expected {:x} (count {})", e.name, t, a, geo.bam_count(&after, t), b, geo.bam_count(&want, t))
        });
    }
    let data = occ.iter().filter(|l| geo.is_data_track(l.0)).count();
    let now = d.blocks_free().map_err(|_| Stop)?;
    cx.check(now == free + data, &[p], || format!("deleting {:02x?} released {} blocks, it occupied {}", e.name, now as i64 - free as i64, data));
    cx.check(d.find_directory_entry(&pet(&e.name)).is_err(), &[p], || format!("{:02x?} is still found after its deletion", e.name));
    cx.ok()
}

fn judge_rename(cx: &mut Cx, d: &mut dyn Disk, geo: &Geo, e: &Ent, names: &mut Vec<Vec<u8>>, p: &'static str) -> R<Ent> {
    let before = hk::image(&*d);
    let new = loop {
        let n = crate::build::random_name(&mut cx.rng, 16);
        if !names.contains(&n) {
            break n;
        }
    };
    let r = d.rename(&pet(&e.name), &pet(&new));
    cx.step(format!("rename {:02x?} to {:02x?} -> {:?}", e.name, new, r.as_ref().map_err(kind)));
    if let Err(x) = r {
        cx.fail(&[p], format!("rename of {:02x?}: {}", e.name, kind(&x)));
        return Err(Stop);
    }
    names.push(new.clone());
    let after = hk::image(&*d);
    let mut want = before;
    let o = geo.offset(e.slot.0).unwrap() + e.slot.1;
    let mut field = [0xA0u8; 16];
    field[..new.len()].copy_from_slice(&new);
    want[o + 5..o + 21].copy_from_slice(&field);
    if after != want {
        let k = (0..want.len()).find(|i| want[*i] != after[*i]).unwrap();
        cx.fail(&[p], format!("renaming {:02x?} changed byte {:#x} of the image from {:02x} to {:02x}", e.name, k, want[k], after[k]));
        return Err(Stop);
    }
    cx.count("renames", 1);
    let fa = Fs::parse(geo, &after).map_err(|_| Stop)?;
    fa.ents.into_iter().find(|x| x.slot == e.slot).ok_or(Stop)
}

fn same_locs(got: &[Loc], want: &[Loc]) -> bool {
    let mut g = got.to_vec();
    g.sort();
    let n = g.len();
    g.dedup();
    n == g.len() && g == want
}

// ---------------------------------------------------------------- C15

pub fn c15(cx: &mut Cx) {
    let _ = rel_case(cx);
}

fn rel_case(cx: &mut Cx) -> R<()> {
    const P: &str = "C15";
    let geo = pick_geo(cx);
    let mut b = Builder::new(geo, &mut cx.rng);
    for _ in 0..cx.rng.range(1, 4) {
        let rl = match cx.rng.below(8) {
            0 => 254,
            1 => 1,
            2 => 127,
            3 => 128,
            4 => *cx.rng.pick(&[2usize, 126, 253, 252]),
            _ => cx.rng.range(1, 254),
        };
        let n = match cx.rng.below(10) {
            0 => 0,
            1 => 1,
            2 => cx.rng.range(1, 160000 / rl),
            // exactly on a side sector or block boundary, or one record beyond
            3 | 4 => 120 * 254 * cx.rng.range(1, 5) / rl + cx.rng.below(2),
            5 => 254 * cx.rng.range(1, 20) / rl + cx.rng.below(2),
            _ => cx.rng.below(200),
        };
        b.rel(&mut cx.rng, rl, n);
    }
    for _ in 0..cx.rng.below(4) {
        let n = cx.rng.below(1500);
        b.linear(&mut cx.rng, n);
    }
    b.dirty_slots(&mut cx.rng);
    let mut names = b.names.clone();
    let mut img = b.img;
    let mut what = vec![];
    let damaged = cx.rng.chance(1, 3);
    if damaged {
        let f = Fs::parse(&geo, &img).map_err(|_| Stop)?;
        let rels: Vec<Ent> = f.ents.iter().filter(|e| e.kind == FKind::Rel).cloned().collect();
        for e in rels {
            if cx.rng.chance(1, 4) {
                continue;
            }
            let r = match fs::rel_decode(&geo, &img, &e.raw) {
                Ok(r) => r,
                Err(_) => continue,
            };
            let rng = &mut cx.rng;
            let side = *rng.pick(&r.side);
            what.push(match rng.below(15) {
                0 => {
                    put(&geo, &mut img, e.slot.0, e.slot.1 + 0x17, &[0]);
                    "record length 0"
                }
                1 => {
                    let v = rng.byte();
                    put(&geo, &mut img, e.slot.0, e.slot.1 + 0x17, &[v]);
                    "another record length"
                }
                2 => {
                    let v = rng.byte();
                    put(&geo, &mut img, *r.side.last().unwrap(), 1, &[v]);
                    "side sector size"
                }
                3 => {
                    let k = 4 + rng.below(12);
                    let v = rng.byte();
                    put(&geo, &mut img, side, k, &[v]);
                    "side sector list"
                }
                4 => {
                    let v = wild(&geo, rng);
                    put(&geo, &mut img, side, 0, &v);
                    "side sector link"
                }
                5 | 6 if !r.data.is_empty() => {
                    let k = rng.below(r.data.len());
                    let v = wild(&geo, rng);
                    put(&geo, &mut img, r.side[k / 120], 16 + 2 * (k % 120), &v);
                    "data sector list"
                }
                7 if !r.data.is_empty() => {
                    let v = rng.byte();
                    put(&geo, &mut img, *r.data.last().unwrap(), 1, &[v]);
                    "last block size"
                }
                8 if !r.data.is_empty() => {
                    let v = wild(&geo, rng);
                    put(&geo, &mut img, *r.data.last().unwrap(), 0, &v);
                    "last block link"
                }
                10 | 11 if r.data.len() > 1 => {
                    // the chain goes another way than the side sectors say
                    let k = rng.below(r.data.len() - 1);
                    let v = if rng.chance(1, 2) { let l = *rng.pick(&r.data); [l.0, l.1] } else { wild(&geo, rng) };
                    put(&geo, &mut img, r.data[k], 0, &v);
                    "data chain link"
                }
                12 if r.data.len() > 1 => {
                    let (j, k) = (rng.below(r.data.len()), rng.below(r.data.len()));
                    let (x, y) = (r.data[j], r.data[k]);
                    put(&geo, &mut img, r.side[j / 120], 16 + 2 * (j % 120), &[y.0, y.1]);
                    put(&geo, &mut img, r.side[k / 120], 16 + 2 * (k % 120), &[x.0, x.1]);
                    "two data sectors swapped in the side sectors"
                }
                13 if !r.data.is_empty() => {
                    let l = *rng.pick(&r.data);
                    put(&geo, &mut img, e.slot.0, e.slot.1 + 3, &[l.0, l.1]);
                    "first data sector"
                }
                9 => {
                    let v = wild(&geo, rng);
                    put(&geo, &mut img, e.slot.0, e.slot.1 + 0x15, &v);
                    "first side sector"
                }
                _ => {
                    // make the last side sector shorter or longer by some entries
                    let l = *r.side.last().unwrap();
                    let v = 15 + 2 * rng.below(121) as u8;
                    put(&geo, &mut img, l, 1, &[v]);
                    "side sector length"
                }
            });
        }
    }
    cx.step(format!("{} {} files, damage {:?}, image {:016x}", geo.name(), names.len(), what, hash_bytes(&img)));
    let f = Fs::parse(&geo, &img).map_err(|_| Stop)?;
    let file = cx.rng.chance(1, 10);
    let (mut d, _path) = crate::engine::backing(cx, geo, &img, file);
    let rels: Vec<Ent> = f.ents.iter().filter(|e| e.kind == FKind::Rel).cloned().collect();
    cx.nontrivial = !rels.is_empty();
    for e in &rels {
        judge_rel(cx, &*d, &geo, &img, e)?;
    }
    let after = hk::image(&*d);
    cx.check(after == img, &[P], || "reading REL files modified the image".to_string());
    cx.ok()?;
    if !damaged {
        for e in rels {
            let mut e = e;
            if cx.rng.chance(1, 3) {
                e = judge_rename(cx, &mut *d, &geo, &e, &mut names, P)?;
                let now = hk::image(&*d);
                judge_rel(cx, &*d, &geo, &now, &e)?;
            }
            if cx.rng.chance(1, 4) {
                // change an attribute through the directory entry
                let mut x = d.find_directory_entry(&pet(&e.name)).map_err(|_| Stop)?;
                x.file_attributes.locked_flag = !x.file_attributes.locked_flag;
                let r = d.write_directory_entry(&x);
                cx.check(r.is_ok(), &[P], || format!("writing back the entry of {:02x?} failed", e.name));
                let now = hk::image(&*d);
                let o = geo.offset(e.slot.0).unwrap() + e.slot.1;
                let mut want = e.raw;
                want[2] ^= 0x40;
                cx.check(now[o + 2..o + 32] == want[2..], &[P], || format!("locking REL file {:02x?} turned its entry {:02x?} into {:02x?}", e.name, &want[2..], &now[o + 2..o + 32]));
                let f = Fs::parse(&geo, &now).map_err(|_| Stop)?;
                e = f.ents.into_iter().find(|x| x.slot == e.slot).ok_or(Stop)?;
                judge_rel(cx, &*d, &geo, &now, &e)?;
            }
            if cx.rng.chance(1, 2) {
                judge_delete(cx, &mut *d, &geo, &e, P)?;
            }
        }
        let now = hk::image(&*d);
        let f = Fs::parse(&geo, &now).map_err(|_| Stop)?;
        let bad = f.audit(&geo, &now);
        cx.check(bad.is_empty(), &[P], || format!("after working on REL files: {}", bad[0]));
    }
    Ok(())
}

fn judge_rel(cx: &mut Cx, d: &dyn Disk, geo: &Geo, img: &[u8], e: &Ent) -> R<()> {
    const P: &str = "C15";
    let want = fs::rel_decode(geo, img, &e.raw);
    let f = open(cx, d, e);
    let (r, f) = match (want, f) {
        (Err(_), Err(_)) => {
            cx.count("rel_refused", 1);
            return Ok(());
        }
        (Err(x), Ok(f)) => {
            cx.fail(&[P], format!("REL file {:02x?} is damaged ({:?}) but opens with {:?} records", e.name, x, f.record_count().ok()));
            return Err(Stop);
        }
        (Ok(_), Err(x)) => {
            cx.fail(&[P], format!("REL file {:02x?} does not open: {}", e.name, kind(&x)));
            return Err(Stop);
        }
        (Ok(r), Ok(f)) => (r, f),
    };
    cx.check(matches!(f, File::Relative(_)) && scheme_of(f.entry().scheme) == FKind::Rel, &[P], || "a REL file opens as something else".to_string());
    match &f.entry().extra {
        Extra::Relative(x) => {
            cx.check(
                x.record_length as usize == r.reclen && (x.first_side_sector.0, x.first_side_sector.1) == (e.raw[0x15], e.raw[0x16]),
                &[P],
                || format!("record length {} of the entry, expected {}", x.record_length, r.reclen),
            );
        }
        _ => cx.fail(&[P], "the entry of a REL file has no REL information".to_string()),
    }
    let n = f.record_count().unwrap_or(usize::MAX);
    cx.check(n == r.records, &[P], || format!("REL file {:02x?} has {} records, record_count() says {}", e.name, r.records, n));
    cx.ok()?;
    // every record, in ascending, descending or random order
    let mut order: Vec<usize> = (0..r.records).collect();
    match cx.rng.below(3) {
        0 => order.reverse(),
        1 => cx.rng.shuffle(&mut order),
        _ => {}
    }
    let beyond = [r.records, r.records + 1, r.records * 2 + 7, usize::MAX];
    for (k, i) in order.iter().enumerate() {
        if k % 97 == 50 {
            let b = *cx.rng.pick(&beyond[..3]);
            cx.check(f.record(b).is_err(), &[P], || format!("record {} of {} can be read", b, r.records));
        }
        let mut want: Option<Vec<u8>> = Some(vec![]);
        for o in i * r.reclen..(i + 1) * r.reclen {
            let l = r.data[o / 254];
            match (geo.sector(img, l), want.as_mut()) {
                (Some(s), Some(w)) => w.push(s[2 + o % 254]),
                _ => want = None,
            }
        }
        match (want, f.record(*i)) {
            (Some(w), Ok(g)) => {
                cx.check(w == g, &[P], || format!("record {} of {:02x?} (length {}): got {:02x?}, expected {:02x?}", i, e.name, r.reclen, g, w));
            }
            (None, Err(_)) => cx.count("records_refused", 1),
            (Some(_), Err(x)) => cx.fail(&[P], format!("record {} of {} of {:02x?}: {}", i, r.records, e.name, kind(&x))),
            (None, Ok(_)) => cx.fail(&[P], format!("record {} of {:02x?} lies outside the disk but was read", i, e.name)),
        }
        cx.ok()?;
    }
    cx.count("records_compared", r.records as u64);
    cx.count("rel_files", 1);
    if r.side.len() > 1 {
        cx.count("rel_files_with_several_side_sectors", 1);
    }
    for b in beyond {
        match f.record(b) {
            Ok(_) => cx.fail(&[P], format!("record {} of {} can be read", b, r.records)),
            Err(x) => {
                let k = kind(&x);
                cx.check(k == "InvalidRecordIndex", &[P], || format!("record {} of {}: {} instead of InvalidRecordIndex", b, r.records, k));
            }
        }
    }
    let mut all: Vec<Loc> = r.side.iter().chain(r.data.iter()).cloned().collect();
    all.sort();
    all.dedup();
    match f.occupied_sectors() {
        Ok(v) => {
            let v: Vec<Loc> = v.iter().map(|l| (l.0, l.1)).collect();
            cx.check(same_locs(&v, &all), &[P], || format!("occupied sectors of {:02x?}: {} expected {}", e.name, fmt_locs(&v), fmt_locs(&all)));
        }
        Err(x) => cx.fail(&[P], format!("occupied sectors of {:02x?}: {}", e.name, kind(&x))),
    }
    let k = f.reader().err().map(|x| kind(&x));
    cx.check(k.as_deref() == Some("NonLinearFile"), &[P], || format!("reader() of a REL file: {:?}", k));
    let k = f.writer().err().map(|x| kind(&x));
    cx.check(k.as_deref() == Some("NonLinearFile"), &[P], || format!("writer() of a REL file: {:?}", k));
    cx.ok()
}

// ---------------------------------------------------------------- C16

pub fn c16(cx: &mut Cx) {
    let _ = if cx.rng.chance(1, 6) { info_case(cx) } else { geos_case(cx) };
}

fn sector(geo: &Geo, img: &[u8], l: Loc) -> Option<Vec<u8>> {
    geo.sector(img, l).map(|s| s.to_vec())
}

pub enum Stream {
    NoInfo,
    TooLarge,
    Damaged,
    Bytes(Vec<u8>),
}

/// The file in the format of the Convert program.
pub fn convert(geo: &Geo, img: &[u8], e: &Ent) -> Stream {
    let info = match e.info() {
        Some(l) => l,
        None => return Stream::NoInfo,
    };
    let mut out = e.raw[2..].to_vec();
    out.extend_from_slice(if e.kind == FKind::Vlir { b"PRG" } else { b"SEQ" });
    out.extend_from_slice(b" formatted GEOS file V1.0");
    out.resize(254, 0);
    match sector(geo, img, info) {
        Some(s) => out.extend_from_slice(&s[2..]),
        None => return Stream::Damaged,
    }
    if e.kind == FKind::GeosSeq {
        match fs::chain_bytes(geo, img, e.first()) {
            Ok(b) => out.extend_from_slice(&b),
            Err(_) => return Stream::Damaged,
        }
        return Stream::Bytes(out);
    }
    let idx = match fs::vlir_index(geo, img, e.first()) {
        Ok(i) => i,
        Err(_) => return Stream::Damaged,
    };
    let mut index = vec![];
    let mut records: Vec<Vec<u8>> = vec![];
    let mut large = false;
    for r in idx {
        match r {
            None => index.extend_from_slice(&[0, 0xFF]),
            Some(l) => {
                let c = match fs::chain(geo, img, l) {
                    Ok(c) => c,
                    Err(_) => return Stream::Damaged,
                };
                if c.len() > 255 {
                    large = true;
                }
                index.push(c.len() as u8);
                index.push((c.last().unwrap().1 - 1) as u8);
                records.push(fs::chain_bytes(geo, img, l).unwrap());
            }
        }
    }
    if large {
        return Stream::TooLarge;
    }
    index.resize(254, 0);
    out.extend_from_slice(&index);
    let n = records.len();
    for (i, r) in records.into_iter().enumerate() {
        out.extend_from_slice(&r);
        if i + 1 < n {
            while (out.len()) % 254 != 0 {
                out.push(0);
            }
        }
    }
    Stream::Bytes(out)
}

fn geos_case(cx: &mut Cx) -> R<()> {
    const P: &str = "C16";
    let geo = pick_geo(cx);
    let mut b = if cx.rng.chance(1, 4) {
        random_image(geo, &mut cx.rng, 3, true, true)
    } else {
        let mut b = Builder::new(geo, &mut cx.rng);
        if cx.rng.chance(2, 3) {
            b.make_geos(&mut cx.rng);
        }
        b
    };
    b.huge = cx.rng.chance(1, 8);
    for _ in 0..cx.rng.range(1, 5) {
        match cx.rng.below(5) {
            0 | 1 => {
                let len = *cx.rng.pick(&[1usize, 253, 254, 255, 508, 1000, 3333, 9000]);
                b.geos_seq(&mut cx.rng, len);
            }
            2 | 3 => {
                let n = match cx.rng.below(8) {
                    0 => 127,
                    1 => 126,
                    2 => 0,
                    3 => 1,
                    _ => cx.rng.below(24),
                };
                b.vlir(&mut cx.rng, n);
            }
            _ => {
                let n = cx.rng.below(1500);
                b.linear(&mut cx.rng, n);
            }
        }
    }
    b.dirty_slots(&mut cx.rng);
    let mut names = b.names.clone();
    let mut img = b.img;
    let damaged = cx.rng.chance(1, 4);
    let mut what = vec![];
    if damaged {
        let f = Fs::parse(&geo, &img).map_err(|_| Stop)?;
        let rng = &mut cx.rng;
        for e in f.ents.iter().filter(|e| matches!(e.kind, FKind::GeosSeq | FKind::Vlir)) {
            if rng.chance(1, 3) {
                continue;
            }
            let occ = e.occupied.clone().unwrap_or_default();
            what.push(match rng.below(5) {
                0 => {
                    let v = wild(&geo, rng);
                    put(&geo, &mut img, e.slot.0, e.slot.1 + 0x15, &v);
                    "info block location"
                }
                1 if e.kind == FKind::Vlir => {
                    let k = rng.below(8);
                    let v = wild(&geo, rng);
                    put(&geo, &mut img, e.first(), 2 + 2 * k, &v);
                    "index entry"
                }
                2 => {
                    let v = wild(&geo, rng);
                    put(&geo, &mut img, e.slot.0, e.slot.1 + 3, &v);
                    "first sector"
                }
                _ => {
                    let l = *rng.pick(&occ);
                    let v = wild(&geo, rng);
                    put(&geo, &mut img, l, 0, &v);
                    "link"
                }
            });
        }
    }
    cx.step(format!("{} {} files, damage {:?}, image {:016x}", geo.name(), names.len(), what, hash_bytes(&img)));
    let f = Fs::parse(&geo, &img).map_err(|_| Stop)?;
    let file = cx.rng.chance(1, 10);
    let (mut d, _path) = crate::engine::backing(cx, geo, &img, file);
    let ents: Vec<Ent> = f.ents.iter().filter(|e| matches!(e.kind, FKind::GeosSeq | FKind::Vlir)).cloned().collect();
    cx.nontrivial = !ents.is_empty();
    for e in &ents {
        judge_geos(cx, &*d, &geo, &img, e)?;
    }
    for e in f.ents.iter().filter(|e| e.kind == FKind::Linear) {
        if let Ok(x) = open(cx, &*d, e) {
            cx.check(matches!(x.geos_info(), Ok(None)), &[P], || format!("file {:02x?}, which is not a GEOS file, has a GEOS info block", e.name));
        }
    }
    let after = hk::image(&*d);
    cx.check(after == img, &[P], || "reading GEOS files modified the image".to_string());
    cx.ok()?;
    if !damaged {
        for e in ents {
            let mut e = e;
            if cx.rng.chance(1, 3) {
                e = judge_rename(cx, &mut *d, &geo, &e, &mut names, P)?;
                let now = hk::image(&*d);
                judge_geos(cx, &*d, &geo, &now, &e)?;
            }
            if cx.rng.chance(1, 2) {
                if e.border {
                    cx.count("border_deletions", 1);
                }
                judge_delete(cx, &mut *d, &geo, &e, P)?;
            }
        }
        let now = hk::image(&*d);
        let f = Fs::parse(&geo, &now).map_err(|_| Stop)?;
        let bad = f.audit(&geo, &now);
        cx.check(bad.is_empty(), &[P], || format!("after working on GEOS files: {}", bad[0]));
    }
    Ok(())
}

fn judge_geos(cx: &mut Cx, d: &dyn Disk, geo: &Geo, img: &[u8], e: &Ent) -> R<()> {
    const P: &str = "C16";
    let limit = 130 * geo.size();
    let nm = format!("{:?} {:02x?}", e.kind, e.name);
    let f = match open(cx, d, e) {
        Ok(f) => f,
        Err(x) => {
            let damaged = e.kind == FKind::Vlir && geo.offset(e.first()).is_none();
            cx.check(damaged, &[P], || format!("{} does not open: {}", nm, kind(&x)));
            return Ok(());
        }
    };
    let isb = f.entry().is_geos_border();
    cx.check(isb == e.border, &[P], || format!("{} in the {}: is_geos_border() is {}", nm, if e.border { "border sector" } else { "directory" }, isb));
    let g = match &f {
        File::GEOSSequential(g) if e.kind == FKind::GeosSeq => g,
        File::GEOSVLIR(g) if e.kind == FKind::Vlir => g,
        _ => {
            cx.fail(&[P], format!("{} opens as something else", nm));
            return Err(Stop);
        }
    };
    // records
    let starts: Vec<Option<Loc>> = if e.kind == FKind::Vlir {
        fs::vlir_index(geo, img, e.first()).map_err(|_| Stop)?
    } else {
        vec![Some(e.first())]
    };
    let n = f.record_count().unwrap_or(usize::MAX);
    cx.check(n == starts.len(), &[P], || format!("{} has {} records, record_count() says {}", nm, starts.len(), n));
    cx.ok()?;
    let mut order: Vec<usize> = (0..starts.len()).collect();
    if cx.rng.chance(1, 2) {
        cx.rng.shuffle(&mut order);
    }
    for i in order {
        let want = match starts[i] {
            None => Ok(vec![]),
            Some(l) => fs::chain_bytes(geo, img, l),
        };
        match (want, f.record(i)) {
            (Ok(w), Ok(r)) => {
                cx.check(w == r, &[P], || format!("record {} of {}: {} bytes, expected {} bytes (or the bytes differ)", i, nm, r.len(), w.len()));
            }
            (Err(_), Err(_)) => cx.count("records_refused", 1),
            (Ok(_), Err(x)) => cx.fail(&[P], format!("record {} of {}: {}", i, nm, kind(&x))),
            (Err(x), Ok(_)) => cx.fail(&[P], format!("record {} of {} is damaged ({:?}) but was read", i, nm, x)),
        }
        cx.ok()?;
    }
    cx.count("records_compared", starts.len() as u64);
    for b in [starts.len(), starts.len() + 1, 127, 128, usize::MAX] {
        if b >= starts.len() {
            cx.check(f.record(b).is_err(), &[P], || format!("record {} of {} ({} records) can be read", b, nm, starts.len()));
        }
    }
    // sequential access
    if e.kind == FKind::Vlir {
        let k = f.reader().err().map(|x| kind(&x));
        cx.check(k.as_deref() == Some("NonLinearFile"), &[P], || format!("reader() of {}: {:?}", nm, k));
    } else {
        let r = f.reader().and_then(|mut r| read_chunked(&mut *r, &mut cx.rng, limit));
        match (fs::chain_bytes(geo, img, e.first()), r) {
            (Ok(w), Ok(r)) => {
                cx.check(w == r, &[P], || format!("content of {} differs", nm));
            }
            (Err(_), Err(_)) => {}
            (w, r) => cx.fail(&[P], format!("content of {}: {:?}, expected {:?}", nm, r.map(|x| x.len()).map_err(|x| kind(&x)), w.map(|x| x.len()))),
        }
    }
    cx.check(f.writer().is_err(), &[P], || format!("{} can be written", nm));
    // info block
    let raw = e.info().map(|l| sector(geo, img, l));
    match (&raw, f.geos_info()) {
        (None, Ok(None)) => {}
        (Some(None), Err(_)) => {}
        (Some(Some(s)), Ok(Some(i))) => {
            judge_info(cx, s, &i);
            cx.count("info_blocks", 1);
        }
        (w, i) => cx.fail(&[P], format!("info block of {}: present {:?}, got {:?}", nm, w.is_some(), i.map(|x| x.is_some()).map_err(|x| kind(&x)))),
    }
    cx.ok()?;
    // occupied sectors
    match (&e.occupied, f.occupied_sectors()) {
        (Ok(w), Ok(v)) => {
            let v: Vec<Loc> = v.iter().map(|l| (l.0, l.1)).collect();
            cx.check(same_locs(&v, w), &[P], || format!("occupied sectors of {}: {} expected {}", nm, fmt_locs(&v), fmt_locs(w)));
        }
        (Err(_), Err(_)) => {}
        (w, v) => cx.fail(&[P], format!("occupied sectors of {}: {:?}, expected {:?}", nm, v.map(|x| x.len()).map_err(|x| kind(&x)), w.as_ref().map(|x| x.len()))),
    }
    // the Convert stream
    let rounds = if cx.rng.chance(1, 3) { 2 } else { 1 };
    for _ in 0..rounds {
        let got = match g.reader() {
            Ok(mut r) => {
                if cx.rng.chance(1, 3) {
                    let mut v = vec![];
                    r.read_to_end(&mut v).map(|_| v)
                } else {
                    read_chunked(&mut r, &mut cx.rng, limit)
                }
            }
            Err(x) => Err(x),
        };
        match (convert(geo, img, e), got) {
            (Stream::Bytes(w), Ok(s)) => {
                if w != s {
                    let k = (0..w.len().min(s.len())).find(|i| w[*i] != s[*i]);
                    cx.fail(&[P], format!("Convert stream of {}: {} bytes, expected {}; first difference {:?}", nm, s.len(), w.len(), k));
                }
                cx.count("convert_streams", 1);
                cx.count("convert_bytes", w.len() as u64);
            }
            (Stream::Bytes(_), Err(x)) => cx.fail(&[P], format!("Convert stream of {}: {}", nm, kind(&x))),
            (Stream::NoInfo, Err(x)) => {
                let k = kind(&x);
                cx.check(k == "GEOSInfoNotFound", &[P], || format!("Convert stream of {} without an info block: {}", nm, k));
            }
            (Stream::TooLarge, Err(x)) => {
                let k = kind(&x);
                cx.check(k == "RecordTooLarge", &[P], || format!("Convert stream of {} with a record of more than 255 blocks: {}", nm, k));
                cx.count("records_too_large", 1);
            }
            (Stream::Damaged, Err(_)) => cx.count("streams_refused", 1),
            (_, Ok(s)) => cx.fail(&[P], format!("Convert stream of {} should be refused but {} bytes came", nm, s.len())),
        }
        cx.ok()?;
    }
    // what a listing says about it
    if let Content::Vlir(_) = e.content {
        let mut t = vec![];
        if f.details(&mut t, 0).is_ok() {
            let t = String::from_utf8_lossy(&t).into_owned();
            let avail = starts.iter().rposition(|x| x.is_some()).map(|i| i + 1).unwrap_or(starts.len());
            cx.check(t.lines().next() == Some(&format!("VLIR records: {}", avail)[..]), &[P], || format!("details of {} with {} records: {:?}", nm, avail, t.lines().next()));
        }
    }
    cx.count("geos_files", 1);
    if e.border {
        cx.count("border_files", 1);
    }
    cx.ok()
}

pub const TYPES: [&str; 15] = [
    "Non-GEOS", "BASIC", "Assembler", "Data file", "System File", "Desk Accessory", "Application", "Application Data", "Font File", "Printer Driver", "Input Driver", "Disk Driver",
    "System Boot File", "Temporary", "Auto-Execute File",
];

pub fn ascii_field(b: &[u8]) -> String {
    let end = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    let mut s = String::new();
    for c in &b[..end] {
        match *c {
            b'\t' => s.push_str("\\t"),
            b'\n' => s.push_str("\\n"),
            b'\r' => s.push_str("\\r"),
            b'\'' => s.push_str("\\'"),
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7E => s.push(*c as char),
            x => s.push_str(&format!("\\x{:02x}", x)),
        }
    }
    s
}

fn judge_info(cx: &mut Cx, raw: &[u8], i: &GEOSInfo) {
    const P: &str = "C16";
    let w = |o: usize| raw[o] as u16 | (raw[o + 1] as u16) << 8;
    cx.check(i.program_load_address == w(0x47) && i.program_end_address == w(0x49) && i.program_start_address == w(0x4B), &[P], || {
        format!("info block addresses {:04x} {:04x} {:04x}, expected {:04x} {:04x} {:04x}", i.program_load_address, i.program_end_address, i.program_start_address, w(0x47), w(0x49), w(0x4B))
    });
    cx.check(i.file_attributes.to_byte() == raw[0x44], &[P], || format!("info block attributes {:02x}, expected {:02x}", i.file_attributes.to_byte(), raw[0x44]));
    cx.check(i.geos_file_type.to_byte() == raw[0x45] && i.structure.to_byte() == raw[0x46], &[P], || "info block type or structure differs".to_string());
    let mut icon = [0u8; 63];
    i.icon.to_bytes(&mut icon);
    cx.check(icon[..] == raw[5..0x44], &[P], || "info block icon differs".to_string());
    cx.check(i.reserved == raw[0x89..0xA0], &[P], || "info block reserved bytes differ".to_string());
    for (what, s, o, n) in [("class", &i.class, 0x4D, 20), ("author", &i.author, 0x61, 20), ("application", &i.application, 0x75, 20), ("description", &i.description, 0xA0, 96)] {
        let got = s.to_string();
        let want = ascii_field(&raw[o..o + n]);
        cx.check(got == want, &[P], || format!("info block {}: {:?}, expected {:?}", what, got, want));
    }
    let mut out = vec![0xEEu8; 256];
    out[..5].copy_from_slice(&raw[..5]);
    i.to_bytes(&mut out);
    if out != raw {
        let k = (0..256).find(|k| out[*k] != raw[*k]).unwrap();
        cx.fail(&[P], format!("info block does not survive decoding and encoding: byte {:#x} is {:02x}, was {:02x}", k, out[k], raw[k]));
    }
    let text = i.to_string();
    let want = super::text::info_text(raw);
    cx.check(text == want, &[P], || format!("info block shows {:?}, expected {:?}", text, want));
    cx.count("info_blocks_compared", 1);
}

/// Info blocks of arbitrary bytes.
fn info_case(cx: &mut Cx) -> R<()> {
    for _ in 0..20 {
        let raw = cx.rng.content(256);
        cx.fold(hash_bytes(&raw));
        let mut raw = raw;
        for (o, n) in [(0x4D, 20), (0x61, 20), (0x75, 20), (0xA0, 96)] {
            if cx.rng.chance(1, 2) {
                for b in raw[o..o + n].iter_mut() {
                    *b = 0x20 + *b % 95;
                }
            }
            if cx.rng.chance(1, 2) {
                let k = cx.rng.below(n);
                raw[o + k] = 0;
            }
        }
        if cx.rng.chance(1, 2) {
            raw[0x45] = cx.rng.below(16) as u8;
            raw[0x46] = cx.rng.below(3) as u8;
        }
        let i = GEOSInfo::from_bytes(&raw);
        judge_info(cx, &raw, &i);
        cx.ok()?;
    }
    cx.step("20 random info blocks".to_string());
    Ok(())
}
