//! Properties of the disk image as a whole: read-only images, formatting,
//! geometry, encodings.
use super::corrupt::hostile;
use super::hist::pick_geo;
use crate::build::{self, random_image};
use crate::cx::{Cx, Stop, R};
use crate::engine::{scheme_of, Eng};
use crate::fs::{self, strip, FKind, Fs};
use crate::geom::{Geo, Kind, Loc, ALL};
use crate::hk;
use crate::rng::hash_bytes;
use crate::util::*;
use cbm::disk::directory::{Extra, FileAttributes, FileType};
use cbm::disk::file::{FileOps, Scheme};
use cbm::disk::geos::{GEOSFileStructure, GEOSFileType};
use cbm::disk::{Disk, DiskType, Id, D64, D71, D81};
use std::io::Write;

// ---------------------------------------------------------------- C08

pub fn c08(cx: &mut Cx) {
    let _ = read_only(cx);
}

fn read_only(cx: &mut Cx) -> R<()> {
    let geo = pick_geo(cx);
    let files = cx.rng.below(12);
    let geos = cx.rng.chance(1, 3);
    let mut b = random_image(geo, &mut cx.rng, files, geos, true);
    if cx.rng.chance(1, 8) {
        let left = cx.rng.below(3);
        b.fill_until(&mut cx.rng, left);
    }
    let img = b.img;
    cx.step(format!("{} {} files image {:016x}", geo.name(), b.names.len(), hash_bytes(&img)));
    cx.nontrivial = !b.names.is_empty();
    let ext = if cx.rng.chance(1, 4) { "img" } else { geo.ext() };
    let p = cx.file(&format!("ro.{}", ext));
    std::fs::write(&p, &img).unwrap();
    let stamp = std::fs::metadata(&p).unwrap().modified().unwrap();
    let opened = if ext == "img" || cx.rng.chance(1, 2) { cbm::disk::open(&p, false) } else { open_path(geo, &p, false) };
    let mut d = match opened {
        Ok(d) => d,
        Err(e) => {
            cx.fail(&["C08"], format!("cannot open the image read-only: {}", kind(&e)));
            return Ok(());
        }
    };
    let limit = geo.size();
    let reference = load_memory(geo, &img);
    let want = Eng::view(cx, &*reference, limit);
    let before = Eng::view(cx, &*d, limit);
    match (&want, &before) {
        (Ok(a), Ok(b)) => {
            if let Some(x) = a.diff(b) {
                cx.fail(&["C08"], format!("a read-only image shows something else than a writable one: {}", x));
            }
        }
        (Err(e), _) | (_, Err(e)) => cx.fail(&["C08"], format!("reading a read-only image: {}", e)),
    }
    let _ = d.validate();
    let mut sink = vec![];
    let _ = d.dump(&mut sink);
    let names = b.names.clone();
    for _ in 0..cx.rng.range(6, 24) {
        let name = if names.is_empty() { None } else { Some(cx.rng.pick(&names).clone()) };
        let fresh = loop {
            let n = build::random_name(&mut cx.rng, 16);
            if !names.contains(&n) {
                break n;
            }
        };
        let (what, r): (String, std::io::Result<()>) = match cx.rng.below(13) {
            0 | 1 => {
                let t = cx.rng.range(0, 3) as u8;
                ("create_file".into(), d.create_file(&pet(&fresh), ftype(t), Scheme::Linear).map(|_| ()))
            }
            2 => match name {
                Some(n) => ("rename".into(), d.rename(&pet(&n), &pet(&fresh))),
                None => continue,
            },
            3 | 4 => match name {
                Some(n) => {
                    let mut f = match d.open_file(&pet(&n)) {
                        Ok(f) => f,
                        Err(e) => {
                            cx.fail(&["C08"], format!("opening {:02x?}: {}", n, kind(&e)));
                            break;
                        }
                    };
                    ("delete".into(), f.delete())
                }
                None => continue,
            },
            5 | 6 => match name {
                Some(n) => {
                    let f = d.open_file(&pet(&n)).map_err(|_| Stop)?;
                    if scheme_of(f.entry().scheme) != FKind::Linear {
                        continue;
                    }
                    let data = cx.rng.content(600);
                    let r = f.writer().and_then(|mut w| {
                        w.write_all(&data)?;
                        w.flush()
                    });
                    ("append".into(), r)
                }
                None => continue,
            },
            7 => match name {
                Some(n) => {
                    let mut e = d.find_directory_entry(&pet(&n)).map_err(|_| Stop)?;
                    e.file_attributes.locked_flag ^= true;
                    ("write_directory_entry".into(), d.write_directory_entry(&e))
                }
                None => continue,
            },
            8 => {
                let l = *cx.rng.pick(&geo.locs());
                let data = cx.rng.content(256);
                let l = loc!(d, l);
                ("write_sector".into(), d.write_sector(l, &data))
            }
            9 => ("write_format".into(), d.write_format(&pet(&fresh), &Id::from_bytes(b"XX"))),
            10 => ("flush_header".into(), d.flush_header()),
            11 => ("header_mut".into(), d.header_mut().map(|_| ())),
            _ => {
                if geo.err {
                    ("error_table_mut".into(), d.blocks_ref_mut().error_table_mut().map(|_| ()))
                } else {
                    ("flush".into(), d.blocks_ref_mut().flush())
                }
            }
        };
        cx.count("mutations_attempted", 1);
        cx.step(format!("{} -> {:?}", what, r.as_ref().map_err(kind)));
        let full = b.free.is_empty();
        match r {
            Ok(_) => cx.fail(&["C08"], format!("{} succeeded on a read-only image", what)),
            Err(e) => {
                let k = kind(&e);
                if !(full && k == "DiskFull") {
                    cx.check(k == "ReadOnly", &["C08"], || format!("{} on a read-only image failed with {} instead of ReadOnly", what, k));
                }
            }
        }
        cx.ok()?;
    }
    let after = Eng::view(cx, &*d, limit);
    match (&before, &after) {
        (Ok(a), Ok(b)) => {
            if let Some(x) = a.diff(b) {
                cx.fail(&["C08"], format!("refused modifications are visible on the read-only disk: {}", x));
            }
        }
        (_, Err(e)) => cx.fail(&["C08"], format!("after refused modifications: {}", e)),
        _ => {}
    }
    let mid = std::fs::read(&p).unwrap();
    drop(d);
    let now = std::fs::read(&p).unwrap();
    cx.check(mid == img && now == img, &["C08"], || "the file of a read-only image was modified".to_string());
    let stamp2 = std::fs::metadata(&p).unwrap().modified().unwrap();
    cx.check(stamp == stamp2, &["C08"], || "the file of a read-only image was written to".to_string());
    Ok(())
}

// ---------------------------------------------------------------- C11

pub fn c11(cx: &mut Cx) {
    let _ = format_case(cx);
}

fn format_case(cx: &mut Cx) -> R<()> {
    let (geo, mut img) = if cx.rng.chance(1, 2) {
        hostile(cx)
    } else {
        let geo = pick_geo(cx);
        let files = cx.rng.below(14);
        let geos = cx.rng.chance(1, 2);
        let mut b = random_image(geo, &mut cx.rng, files, geos, true);
        if cx.rng.chance(1, 4) {
            b.fill_until(&mut cx.rng, 0);
        }
        (geo, b.img)
    };
    if cx.rng.chance(1, 12) {
        img = vec![0; geo.size()];
    }
    let name: Vec<u8> = match cx.rng.below(8) {
        0 => vec![],
        1 => cx.rng.bytes(16),
        2 => {
            let n = cx.rng.range(17, 40);
            cx.rng.bytes(n)
        }
        _ => build::random_name(&mut cx.rng, 16),
    };
    let id = [cx.rng.byte(), cx.rng.byte()];
    cx.step(format!("{} prior {:016x}, format name {:02x?} id {:02x?}", geo.name(), hash_bytes(&img), name, id));
    let file = cx.rng.chance(1, 8);
    let (mut d, path) = crate::engine::backing(cx, geo, &img, file);
    // a directory handle and an allocation map obtained before the format
    let old_bam = d.bam().ok();
    let r = d.write_format(&pet(&name), &Id::from_bytes(&id));
    let after = match &path {
        Some(p) => std::fs::read(p).unwrap(),
        None => hk::image(&*d),
    };
    if name.len() > 16 {
        cx.count("overlong_names", 1);
        match r {
            Ok(_) => cx.fail(&["C11"], format!("format accepted a name of {} bytes", name.len())),
            Err(e) => {
                cx.check(kind(&e) == "FilenameTooLong", &["C11"], || format!("format with a name of {} bytes failed with {}", name.len(), kind(&e)));
                cx.check(after == img, &["C11"], || "a refused format changed the image".to_string());
            }
        }
        return Ok(());
    }
    if let Err(e) = r {
        cx.fail(&["C11"], format!("format failed: {}", kind(&e)));
        return Ok(());
    }
    cx.count("formats_judged", 1);
    let want = build::blank(geo, &name, id);
    let mut sys = geo.system();
    if geo.kind == Kind::D71 {
        sys.retain(|l| l.0 != 53 || l.1 == 0);
    }
    for l in sys {
        let (a, b) = (geo.sector(&want, l).unwrap(), geo.sector(&after, l).unwrap());
        if let Some(i) = (0..256).find(|i| a[*i] != b[*i] && !unspecified(&geo, l, *i)) {
            cx.fail(&["C11"], format!("after format byte {:02x} of system sector {:?} of {} is {:02x}, a blank disk has {:02x}", i, l, geo.name(), b[i], a[i]));
        }
    }
    // Nothing of the former content is left: the result is that of formatting
    // an empty image, and all other sectors are empty.
    let full = geo.sectors() * 256;
    let mut scratch = memory(geo);
    if scratch.write_format(&pet(&name), &Id::from_bytes(&id)).is_ok() {
        let fresh = hk::image(&*scratch);
        if let Some(i) = (0..full).find(|i| fresh[*i] != after[*i]) {
            cx.fail(&["C11"], format!("byte {:#x} of a formatted {} depends on what was there before: {:02x} instead of {:02x}", i, geo.name(), after[i], fresh[i]));
        }
    }
    for l in geo.locs() {
        if !geo.system().contains(&l) {
            cx.check(geo.sector(&after, l).unwrap().iter().all(|b| *b == 0), &["C11"], || format!("sector {:?} of a formatted {} is not empty", l, geo.name()));
        }
    }
    cx.check(after[full..] == img[full..] || after[full..].iter().all(|b| *b <= 1), &["C11"], || "format damaged the error table".to_string());
    match Fs::parse(&geo, &after) {
        Err(e) => cx.fail(&["C11"], format!("after format the directory cannot be read: {:?}", e)),
        Ok(f) => {
            cx.check(f.ents.is_empty() && !f.geos && f.dir.len() == 1 && f.free_slots.len() == 8, &["C11"], || {
                format!("after format the disk has {} entries, {} directory sectors, geos {}", f.ents.len(), f.dir.len(), f.geos)
            });
            let a = f.audit(&geo, &after);
            cx.check(a.is_empty(), &["C11"], || format!("after format: {}", a[0]));
        }
    }
    cx.ok()?;
    // the live disk object agrees
    let total = geo.total_data_blocks();
    match Eng::view(cx, &*d, geo.size()) {
        Err(e) => cx.fail(&["C11"], format!("after format: {}", e)),
        Ok(v) => {
            cx.check(v.files.is_empty() && v.free == total && v.name == strip(&name) && v.id == id && !v.geos, &["C11"], || {
                format!("after format the disk object shows {} files, {} free of {}, name {:02x?} id {:02x?} geos {}", v.files.len(), v.free, total, v.name, v.id, v.geos)
            });
            let fresh = match &path {
                Some(p) => open_path(geo, p, true).unwrap(),
                None => load_memory(geo, &after),
            };
            match Eng::view(cx, &*fresh, geo.size()) {
                Ok(w) => {
                    if let Some(x) = v.diff(&w) {
                        cx.fail(&["C11"], format!("after format, reopening shows something else: {}", x));
                    }
                }
                Err(e) => cx.fail(&["C11"], format!("after format and reopening: {}", e)),
            }
        }
    }
    match d.validate() {
        Ok(v) => {
            cx.check(v.is_empty(), &["C11"], || format!("after format validation reports {:?}", v[0]));
        }
        Err(e) => cx.fail(&["C11"], format!("after format validation fails: {}", kind(&e))),
    }
    // an allocation map held from before must not bring the old disk back
    if let Some(b) = old_bam {
        let n = b.borrow().blocks_free();
        cx.check(n == total, &["C11"], || format!("an allocation map obtained before the format still says {} blocks free", n));
    }
    cx.ok()?;
    // and it is usable
    if cx.rng.chance(1, 3) {
        let n = cx.rng.below(4000);
        let data = cx.rng.content(n);
        let r = d.create_file(&pet(b"HELLO"), FileType::PRG, Scheme::Linear).and_then(|f| {
            let mut w = f.writer()?;
            w.write_all(&data)?;
            w.flush()
        });
        if let Err(e) = r {
            cx.fail(&["C11"], format!("writing to a formatted disk fails: {}", kind(&e)));
        }
        let img = hk::image(&*d);
        match Fs::parse(&geo, &img) {
            Ok(f) => {
                let ok = f.ents.len() == 1 && f.ents[0].content == fs::Content::Bytes(data) && f.audit(&geo, &img).is_empty();
                cx.check(ok, &["C11"], || "a file written to a formatted disk is not stored properly".to_string());
            }
            Err(e) => cx.fail(&["C11"], format!("{:?}", e)),
        }
    }
    Ok(())
}

/// Bytes of the system sectors whose value on a blank disk the format
/// documents leave open.
fn unspecified(geo: &Geo, l: Loc, i: usize) -> bool {
    match geo.kind {
        Kind::D81 if l == (40, 1) || l == (40, 2) => i < 0x10,
        Kind::D81 if l == (40, 0) => i == 3,
        Kind::D64 if l == (18, 0) => i == 3,
        _ => false,
    }
}

// ---------------------------------------------------------------- C13

pub fn c13(cx: &mut Cx) {
    let r = match cx.idx % 4 {
        0 | 1 => mapping(cx),
        2 => wrong_size(cx),
        _ => creation(cx),
    };
    let _ = r;
}

fn mapping(cx: &mut Cx) -> R<()> {
    let geo = ALL[cx.rng.below(8)];
    let salt = cx.rng.next();
    let mut img = vec![0u8; geo.size()];
    for (i, c) in img.chunks_mut(256).enumerate() {
        for (j, b) in c.chunks_mut(8).enumerate() {
            let v = crate::rng::mix(salt, (i * 32 + j) as u64).to_le_bytes();
            b.copy_from_slice(&v[..b.len()]);
        }
    }
    let h = geo.offset(geo.header()).unwrap();
    if cx.rng.chance(3, 4) {
        img[h + 3] = 0x80;
    }
    cx.step(format!("mapping {} salt {:x}", geo.name(), salt));
    let ext = *cx.rng.pick(&["bin", geo.ext(), "D64x"]);
    let p = cx.file(&format!("map.{}", ext));
    std::fs::write(&p, &img).unwrap();
    let writable = cx.rng.chance(2, 3);
    let generic = cx.rng.chance(1, 2);
    let d = if generic { cbm::disk::open(&p, writable) } else { open_path(geo, &p, writable) };
    let mut d = match d {
        Ok(d) => d,
        Err(e) => {
            cx.fail(&["C13"], format!("opening a {} image failed: {}", geo.name(), kind(&e)));
            return Ok(());
        }
    };
    for t in 0..=255u8 {
        for s in 0..=255u8 {
            if (s as usize) > geo.spt(t) as usize + 1 && s % 16 != 15 {
                continue;
            }
            let l = loc!(d, (t, s));
            let r = d.read_sector(l);
            match (geo.offset((t, s)), r) {
                (Some(o), Ok(v)) => {
                    cx.count("sectors_mapped", 1);
                    cx.check(v == img[o..o + 256], &["C13"], || format!("sector ({},{}) of {} shows other bytes than those at offset {:#x}", t, s, geo.name(), o));
                }
                (None, Err(_)) => cx.count("locations_refused", 1),
                (Some(_), Err(e)) => cx.fail(&["C13"], format!("sector ({},{}) of {} cannot be read: {}", t, s, geo.name(), kind(&e))),
                (None, Ok(_)) => cx.fail(&["C13"], format!("sector ({},{}) does not exist on {} but can be read", t, s, geo.name())),
            }
        }
    }
    cx.ok()?;
    {
        let b = d.blocks_ref();
        let off = geo.sectors() * 256;
        match b.error_table() {
            Ok(Some(t)) => {
                cx.check(geo.err && t == &img[off..], &["C13"], || format!("the error table of {} is not the {} bytes after the sectors", geo.name(), geo.sectors()));
            }
            Ok(None) => {
                cx.check(!geo.err, &["C13"], || format!("no error table on {}", geo.name()));
            }
            Err(e) => cx.fail(&["C13"], format!("error table: {}", kind(&e))),
        }
    }
    if !writable {
        return Ok(());
    }
    let mut want = img.clone();
    let locs = geo.locs();
    for _ in 0..40 {
        match cx.rng.below(6) {
            0 => {
                let n = *cx.rng.pick(&[0usize, 1, 254, 255, 257, 512]);
                let l = *cx.rng.pick(&locs);
                let data = cx.rng.content(n);
                let x = loc!(d, l);
                let r = d.write_sector(x, &data);
                cx.check(r.is_err(), &["C13"], || format!("a sector write of {} bytes was accepted", n));
            }
            1 => {
                let l = (cx.rng.byte(), cx.rng.byte());
                let data = cx.rng.content(256);
                let x = loc!(d, l);
                let r = d.write_sector(x, &data);
                match geo.offset(l) {
                    Some(o) => {
                        want[o..o + 256].copy_from_slice(&data);
                        cx.check(r.is_ok(), &["C13"], || format!("sector {:?} cannot be written", l));
                    }
                    None => {
                        cx.check(r.is_err(), &["C13"], || format!("sector {:?} of {} does not exist but can be written", l, geo.name()));
                    }
                }
            }
            2 if geo.err => {
                let i = cx.rng.below(geo.sectors());
                let v = cx.rng.byte();
                want[geo.sectors() * 256 + i] = v;
                match d.blocks_ref_mut().error_table_mut() {
                    Ok(Some(t)) if t.len() > i => t[i] = v,
                    _ => cx.fail(&["C13"], "the error table is not writable".into()),
                }
            }
            _ => {
                let l = *cx.rng.pick(&locs);
                let data = cx.rng.content(256);
                let o = geo.offset(l).unwrap();
                want[o..o + 256].copy_from_slice(&data);
                let x = loc!(d, l);
                let r = d.write_sector(x, &data);
                cx.check(r.is_ok(), &["C13"], || format!("sector {:?} of {} cannot be written", l, geo.name()));
                cx.count("sectors_written", 1);
            }
        }
    }
    let _ = d.blocks_ref_mut().flush();
    let got = std::fs::read(&p).unwrap();
    if let Some(i) = (0..want.len()).find(|i| got.get(*i) != Some(&want[*i])) {
        cx.fail(&["C13"], format!("after sector writes byte {:#x} of the {} file is {:?} instead of {:02x}", i, geo.name(), got.get(i), want[i]));
    }
    cx.check(got.len() == want.len(), &["C13"], || format!("the file length changed from {} to {}", want.len(), got.len()));
    // the standard geometry of the format description
    let f = d.native_disk_format();
    let n: Vec<Loc> = f.location_iter().map(|l| (l.0, l.1)).collect();
    let std_geo = Geo { tracks: geo.bam_tracks(), ..geo };
    cx.check(n == std_geo.locs(), &["C13"], || format!("location_iter lists {} sectors, the format has {}", n.len(), std_geo.sectors()));
    let sys: Vec<Loc> = f.system_locations().iter().map(|l| (l.0, l.1)).collect();
    let (mut a, mut b) = (sys, geo.system());
    a.sort();
    b.sort();
    cx.check(a == b, &["C13"], || format!("system sectors are {} instead of {}", fmt_locs(&a), fmt_locs(&b)));
    Ok(())
}

fn wrong_size(cx: &mut Cx) -> R<()> {
    let geo = ALL[cx.rng.below(8)];
    let size = geo.size() as i64;
    let delta = *cx.rng.pick(&[-1i64, 1, 256, -256, 683, -683, 768, 5 * 17 * 256 / 2, 1366, 3200, 17 * 256]);
    let n = match cx.rng.below(5) {
        0 => cx.rng.below(900_000) as i64,
        1 => cx.rng.range(1, 600) as i64,
        _ => size + delta,
    } as usize;
    let valid: Vec<Geo> = ALL.iter().filter(|g| g.size() == n).cloned().collect();
    let img = cx.rng.bytes(n);
    let ext = *cx.rng.pick(&["d64", "d71", "d81", "dat"]);
    let p = cx.file(&format!("size.{}", ext));
    std::fs::write(&p, &img).unwrap();
    let writable = cx.rng.chance(1, 2);
    cx.step(format!("size {} .{} writable {}", n, ext, writable));
    let k = [Kind::D64, Kind::D71, Kind::D81];
    for kind_ in k {
        let r = open_path(Geo { kind: kind_, tracks: 0, err: false }, &p, writable);
        let want = valid.iter().any(|g| g.kind == kind_);
        cx.count("opens_judged", 1);
        cx.check(r.is_ok() == want, &["C13"], || format!("opening {} bytes as {:?} gave ok={}", n, kind_, r.is_ok()));
        if let Err(e) = &r {
            cx.check(kind(e) == "InvalidLayout", &["C13"], || format!("opening {} bytes as {:?} failed with {}", n, kind_, kind(e)));
        }
    }
    let r = cbm::disk::open(&p, writable);
    let by_ext = match ext {
        "d64" => Some(Kind::D64),
        "d71" => Some(Kind::D71),
        "d81" => Some(Kind::D81),
        _ => None,
    };
    let want = valid.iter().any(|g| by_ext.map(|k| k == g.kind).unwrap_or(true));
    cx.check(r.is_ok() == want, &["C13"], || format!("opening {} bytes with extension {} gave ok={}", n, ext, r.is_ok()));
    drop(r);
    cx.check(std::fs::read(&p).unwrap() == img, &["C13"], || "opening modified the file".to_string());
    // extension matching is case-insensitive and decides the type
    let mixed: String = ext.chars().map(|c| if cx.rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
    let t = DiskType::from_extension(format!("some/dir.x/File.{}", mixed)).map(|t| format!("{:?}", t));
    let want = by_ext.map(|k| format!("{:?}", k));
    cx.check(t == want, &["C13"], || format!("extension {} taken for {:?}", mixed, t));
    Ok(())
}

fn create(geo: Geo, p: &std::path::Path, new: bool) -> std::io::Result<Box<dyn Disk>> {
    Ok(match (geo.kind, geo.tracks) {
        (Kind::D64, 40) => Box::new(D64::create(p, D64::geometry_40_tracks(geo.err), new)?),
        (Kind::D64, _) => Box::new(D64::create(p, D64::geometry(geo.err), new)?),
        (Kind::D71, _) => Box::new(D71::create(p, D71::geometry(geo.err), new)?),
        (Kind::D81, _) => Box::new(D81::create(p, D81::geometry(geo.err), new)?),
    })
}

fn creation(cx: &mut Cx) -> R<()> {
    let geo = ALL[cx.rng.below(8)];
    let p = cx.file(&format!("new.{}", geo.ext()));
    let _ = std::fs::remove_file(&p);
    let exists = cx.rng.chance(1, 2);
    let old_len = cx.rng.below(1_000_000);
    let old = cx.rng.bytes(old_len);
    if exists {
        std::fs::write(&p, &old).unwrap();
    }
    let new = cx.rng.chance(1, 2);
    cx.step(format!("create {} exists {} ({} bytes) create_new {}", geo.name(), exists, old.len(), new));
    let r = create(geo, &p, new);
    cx.count("creations_judged", 1);
    if exists && new {
        cx.check(r.is_err(), &["C13"], || "create_new overwrote an existing file".to_string());
        drop(r);
        cx.check(std::fs::read(&p).unwrap() == old, &["C13"], || "a refused creation modified the existing file".to_string());
        return Ok(());
    }
    match r {
        Err(e) => cx.fail(&["C13"], format!("creating {} failed: {}", geo.name(), kind(&e))),
        Ok(mut d) => {
            let got = std::fs::read(&p).unwrap();
            cx.check(got.len() == geo.size(), &["C13"], || format!("a new {} image has {} bytes instead of {}", geo.name(), got.len(), geo.size()));
            cx.check(got.iter().all(|b| *b == 0), &["C13"], || "a new image contains old data".to_string());
            let name = build::random_name(&mut cx.rng, 16);
            let r = d.write_format(&pet(&name), &Id::from_bytes(b"ID"));
            cx.check(r.is_ok(), &["C13"], || "a new image cannot be formatted".to_string());
            let free = d.blocks_free().unwrap_or(0);
            cx.check(free == geo.total_data_blocks(), &["C13"], || format!("a new formatted {} has {} blocks free", geo.name(), free));
            drop(d);
            let d = cbm::disk::open(&p, cx.rng.chance(1, 2));
            match d {
                Ok(d) => {
                    let n = d.name().map(|n| strip(n.as_bytes()));
                    cx.check(n == Some(strip(&name)), &["C13"], || format!("the reopened new image is called {:02x?}", n));
                    let has = d.blocks_ref().error_table().map(|t| t.map(|t| t.len())).unwrap_or(None);
                    cx.check(has == if geo.err { Some(geo.sectors()) } else { None }, &["C13"], || format!("the reopened new image has an error table of {:?}", has));
                }
                Err(e) => cx.fail(&["C13"], format!("the new image cannot be reopened: {}", kind(&e))),
            }
        }
    }
    let _ = std::fs::remove_file(&p);
    Ok(())
}

// ---------------------------------------------------------------- C14

pub fn c14(cx: &mut Cx) {
    let r = match cx.rng.below(6) {
        0 | 1 => header_case(cx),
        2 => bam_case(cx),
        _ => entries_case(cx),
    };
    let _ = r;
}

/// The allocation map: whatever it holds is decoded as it is and written back
/// as it is; allocating and freeing change one bit and the count.
fn bam_case(cx: &mut Cx) -> R<()> {
    const P: &[&str] = &["C14"];
    let geo = pick_geo(cx);
    let mut img = build::Builder::new(geo, &mut cx.rng).img;
    let consistent = cx.rng.chance(1, 2);
    for t in 1..=geo.bam_tracks() {
        let (c, o, n) = geo.bam_pos(t);
        if consistent {
            let density = cx.rng.below(5);
            let mut m = 0u64;
            for s in 0..geo.spt(t) {
                if cx.rng.below(4) < density {
                    m |= 1 << s;
                }
            }
            for i in 0..n {
                img[o + i] = (m >> (8 * i)) as u8;
            }
            img[c] = m.count_ones() as u8;
        } else {
            let b = cx.rng.bytes(n);
            img[o..o + n].copy_from_slice(&b);
            img[c] = cx.rng.byte();
        }
    }
    if geo.kind == Kind::D71 {
        // nothing else lives in the second allocation-map block
        let q = geo.offset((53, 0)).unwrap();
        let x = cx.rng.bytes(256 - 105);
        img[q + 105..q + 256].copy_from_slice(&x);
    }
    cx.step(format!("{} allocation map ({}), image {:016x}", geo.name(), if consistent { "consistent" } else { "arbitrary" }, hash_bytes(&img)));
    cx.fold(hash_bytes(&img));
    let d = load_memory(geo, &img);
    let bam = match d.bam() {
        Ok(b) => b,
        Err(e) => {
            cx.fail(P, format!("the allocation map cannot be read: {}", kind(&e)));
            return Ok(());
        }
    };
    let (mut used, mut free) = (vec![], vec![]);
    let mut sum = 0usize;
    for t in 1..=geo.bam_tracks() {
        let (count, map) = (geo.bam_count(&img, t), geo.bam_map(&img, t));
        match bam.borrow().entry(t) {
            Ok(e) => {
                cx.check(e.free_sectors == count && e.sector_map() == map && e.has_availability() == (count > 0), P, || {
                    format!("track {} of {} is decoded as {} free, map {:x}; the image has {}, {:x}", t, geo.name(), e.free_sectors, e.sector_map(), count, map)
                });
            }
            Err(e) => cx.fail(P, format!("track {} of the allocation map: {}", t, kind(&e))),
        }
        for s in 0..geo.spt(t) {
            if map >> s & 1 == 1 { &mut free } else { &mut used }.push((t, s));
        }
        if t != geo.dir_track() {
            sum += count as usize;
        }
    }
    cx.ok()?;
    for t in [0u8, geo.bam_tracks() + 1, 255] {
        cx.check(bam.borrow().entry(t).is_err(), P, || format!("the allocation map has an entry for track {}", t));
    }
    let mut gu: Vec<Loc> = bam.borrow().allocated_sectors().map(|v| v.iter().map(|l| (l.0, l.1)).collect()).unwrap_or_default();
    let mut gf: Vec<Loc> = bam.borrow().free_sectors().map(|v| v.iter().map(|l| (l.0, l.1)).collect()).unwrap_or_default();
    gu.sort();
    gf.sort();
    cx.check(gu == used, P, || format!("{} sectors reported allocated, {} are", gu.len(), used.len()));
    cx.check(gf == free, P, || format!("{} sectors reported free, {} are", gf.len(), free.len()));
    let got = bam.borrow().blocks_free();
    cx.check(got == sum, P, || format!("{} blocks free reported, the counts say {}", got, sum));
    let bf = d.blocks_free().unwrap_or(usize::MAX);
    cx.check(bf == sum, P, || format!("the disk reports {} blocks free, the counts say {}", bf, sum));
    let r = bam.borrow_mut().flush();
    cx.check(r.is_ok(), P, || "writing the allocation map back failed".to_string());
    let again = hk::image(&*d);
    if let Some(i) = (0..img.len()).find(|i| img[*i] != again[*i]) {
        cx.fail(P, format!("writing back the unchanged allocation map of {} changed byte {:#x} of the image from {:02x} to {:02x}", geo.name(), i, img[i], again[i]));
    }
    cx.count("maps_rewritten", 1);
    cx.ok()?;
    if !consistent {
        return Ok(());
    }
    let mut want = img.clone();
    let edits = if cx.rng.chance(1, 4) { 1 } else { cx.rng.range(1, 60) };
    for _ in 0..edits {
        let t = cx.rng.range(1, geo.bam_tracks() as usize) as u8;
        let s = cx.rng.below(geo.spt(t) as usize) as u8;
        let x = loc!(d, (t, s));
        let f = cx.rng.chance(1, 2);
        let r = if cx.rng.chance(1, 2) {
            // through the track's entry
            bam.borrow_mut().entry_mut(t).map(|e| if f { e.free(s) } else { e.allocate(s) })
        } else if f {
            bam.borrow_mut().free(x)
        } else {
            bam.borrow_mut().allocate(x)
        };
        if let Err(e) = r {
            cx.fail(P, format!("{} {:?}: {}", if f { "freeing" } else { "allocating" }, (t, s), kind(&e)));
        }
        geo.set_free(&mut want, (t, s), f);
        cx.count("map_edits", 1);
    }
    let sum: usize = (1..=geo.bam_tracks()).filter(|t| *t != geo.dir_track()).map(|t| geo.bam_count(&want, t) as usize).sum();
    let got = bam.borrow().blocks_free();
    cx.check(got == sum, P, || format!("{} blocks free reported after editing the map, the counts say {}", got, sum));
    let mut gf: Vec<Loc> = bam.borrow().free_sectors().map(|v| v.iter().map(|l| (l.0, l.1)).collect()).unwrap_or_default();
    gf.sort();
    let free: Vec<Loc> = (1..=geo.bam_tracks()).flat_map(|t| (0..geo.spt(t)).map(move |s| (t, s))).filter(|l| geo.is_free(&want, *l)).collect();
    cx.check(gf == free, P, || format!("{} sectors reported free after editing the map, {} are", gf.len(), free.len()));
    let r = bam.borrow_mut().flush();
    cx.check(r.is_ok(), P, || "writing the changed allocation map failed".to_string());
    let after = hk::image(&*d);
    if let Some(i) = (0..img.len()).find(|i| want[*i] != after[*i]) {
        cx.fail(P, format!("after allocating and freeing sectors of {} byte {:#x} is {:02x} instead of {:02x}", geo.name(), i, after[i], want[i]));
    }
    cx.ok()
}

fn geos_structure(b: u8) -> GEOSFileStructure {
    GEOSFileStructure::from_byte(b)
}

fn entries_case(cx: &mut Cx) -> R<()> {
    let geo = pick_geo(cx);
    let mut b = build::Builder::new(geo, &mut cx.rng);
    if cx.rng.chance(1, 3) {
        b.make_geos(&mut cx.rng);
    }
    for _ in 0..cx.rng.below(4) {
        b.extend_dir(&mut cx.rng);
    }
    let mut img = b.img.clone();
    let all: Vec<(Loc, usize)> = b.slots.iter().chain(b.border_slots.iter()).cloned().collect();
    for (l, o) in all {
        let p = geo.offset(l).unwrap() + o;
        let mut raw = cx.rng.bytes(30);
        if cx.rng.chance(1, 2) {
            let n = cx.rng.below(17);
            for x in raw[3 + n..19].iter_mut() {
                *x = 0xA0;
            }
        }
        if cx.rng.chance(1, 2) {
            raw[21] = cx.rng.below(3) as u8;
            raw[22] = cx.rng.below(18) as u8;
        }
        if cx.rng.chance(1, 3) {
            raw[0] = 0x80 | cx.rng.below(5) as u8;
        }
        img[p + 2..p + 32].copy_from_slice(&raw);
        if o > 0 {
            // reserved bytes of the slots other than the first
            let x = cx.rng.bytes(2);
            img[p..p + 2].copy_from_slice(&x);
        }
    }
    cx.step(format!("{} entries, image {:016x}", geo.name(), hash_bytes(&img)));
    let f = Fs::parse(&geo, &img).expect("directory decodes");
    let mut d = load_memory(geo, &img);
    let list = match d.directory() {
        Ok(l) => l,
        Err(e) => {
            cx.fail(&["C14"], format!("listing failed: {}", kind(&e)));
            return Ok(());
        }
    };
    cx.nontrivial = !list.is_empty();
    // the attribute byte and the names of the types
    let b = cx.rng.byte();
    let a = FileAttributes::from_byte(b);
    cx.check(a.to_byte() == b && a.is_scratched() == fs::is_scratched(b), &["C14"], || format!("attribute byte {:02x} is decoded as {:?} and encoded as {:02x}", b, a, a.to_byte()));
    for (n, t) in [("del", FileType::DEL), ("seq", FileType::SEQ), ("prg", FileType::PRG), ("usr", FileType::USR), ("rel", FileType::REL)] {
        let s: String = n.chars().map(|c| if cx.rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
        let got = FileType::from_string(&s);
        cx.check(got == Some(t) && t.to_string() == n, &["C14"], || format!("type {:?} is taken for {:?}", s, got));
        let bad = match cx.rng.below(3) {
            0 => format!("{}x", s),
            1 => s[..2].to_string(),
            _ => format!(" {}", s),
        };
        let got = FileType::from_string(&bad);
        cx.check(got.is_none(), &["C14"], || format!("type {:?} is taken for {:?}", bad, got));
    }
    cx.check(list.len() == f.ents.len(), &["C14"], || format!("{} entries listed, {} on the image", list.len(), f.ents.len()));
    cx.ok()?;
    for (e, w) in list.iter().zip(f.ents.iter()) {
        let r = &w.raw;
        cx.count("entries_decoded", 1);
        let a = &e.file_attributes;
        let ty = match r[2] & 15 {
            0 => FileType::DEL,
            1 => FileType::SEQ,
            2 => FileType::PRG,
            3 => FileType::USR,
            4 => FileType::REL,
            b => FileType::Unknown(b),
        };
        let ok = a.file_type == ty
            && a.closed_flag == (r[2] & 0x80 != 0)
            && a.locked_flag == (r[2] & 0x40 != 0)
            && a.save_with_replace_flag == (r[2] & 0x20 != 0)
            && (e.first_sector.0, e.first_sector.1) == (r[3], r[4])
            && e.filename.as_bytes() == &strip(&r[5..21])[..]
            && e.file_size == w.size()
            && scheme_of(e.scheme) == w.kind;
        cx.check(ok, &["C14"], || format!("entry {:02x?} decoded as {:?} ({:?}, first {:?}, scheme {:?})", r, e, e.file_attributes, (e.first_sector.0, e.first_sector.1), e.scheme));
        let x = &r[21..30];
        let ok = match (&e.extra, w.kind) {
            (Extra::Linear(l), FKind::Linear) => l.unused[..] == x[..],
            (Extra::Relative(q), FKind::Rel) => (q.first_side_sector.0, q.first_side_sector.1) == (x[0], x[1]) && q.record_length == x[2] && q.unused[..] == x[3..],
            (Extra::GEOS(g), FKind::GeosSeq) | (Extra::GEOS(g), FKind::Vlir) => {
                (g.info_block.0, g.info_block.1) == (x[0], x[1])
                    && g.structure == geos_structure(x[2])
                    && g.geos_file_type == GEOSFileType::from_byte(x[3])
                    && [g.year, g.month, g.day, g.hour, g.minute] == x[4..9]
            }
            _ => false,
        };
        cx.check(ok, &["C14"], || format!("the extra bytes of {:02x?} are decoded as {:?}", r, e.extra));
        let raw = entry_raw(e);
        cx.check(raw == r[2..], &["C14"], || format!("entry {:02x?} is encoded as {:02x?}", &r[2..], raw));
        // what a listing shows
        let shown = format!("{}", e);
        let mark = format!("{}{}", if r[2] & 0x80 != 0 { ' ' } else { '*' }, ["del", "seq", "prg", "usr", "rel"].get((r[2] & 15) as usize).unwrap_or(&"unk"));
        cx.check(shown.starts_with(&format!("{} ", w.size())) && shown.contains(&mark) && shown.contains('<') >= (r[2] & 0x40 != 0), &["C14"], || format!("entry {:02x?} is listed as {:?}", r, shown));
        cx.ok()?;
    }
    // info blocks of GEOS files
    for (e, w) in list.iter().zip(f.ents.iter()) {
        if let (Some(l), true) = (w.info(), matches!(w.kind, FKind::GeosSeq | FKind::Vlir)) {
            let raw = match geo.sector(&img, l) {
                Some(s) => s.to_vec(),
                None => continue,
            };
            if let Ok(Some(i)) = d.open_file_from_entry(e).and_then(|f| f.geos_info()) {
                let mut out = raw.clone();
                i.to_bytes(&mut out);
                cx.check(out == raw, &["C14"], || format!("the info block of {:02x?} is not written back as it was read", w.name));
                cx.count("info_blocks_rewritten", 1);
            }
        }
    }
    cx.ok()?;
    // write back unchanged, then with one field changed
    for (e, w) in list.iter().zip(f.ents.iter()) {
        let before = hk::image(&*d);
        if let Err(x) = d.write_directory_entry(e) {
            cx.fail(&["C14"], format!("writing an entry back failed: {}", kind(&x)));
        }
        let after = hk::image(&*d);
        if let Some(i) = (0..before.len()).find(|i| before[*i] != after[*i]) {
            cx.fail(&["C14"], format!("writing back the unchanged entry {:02x?} at {:?} changed byte {:#x} of the image", w.raw, w.slot, i));
        }
        cx.count("entries_rewritten", 1);
        cx.ok()?;
        if cx.rng.chance(1, 2) {
            continue;
        }
        let mut m = e.clone();
        let mut want = w.raw;
        match cx.rng.below(8) {
            0 => {
                m.file_attributes.locked_flag ^= true;
                want[2] ^= 0x40;
            }
            1 => {
                m.file_attributes.closed_flag ^= true;
                want[2] ^= 0x80;
            }
            2 => {
                m.file_attributes.save_with_replace_flag ^= true;
                want[2] ^= 0x20;
            }
            3 => {
                let v = cx.rng.below(65536);
                m.file_size = v as u16;
                want[30] = v as u8;
                want[31] = (v >> 8) as u8;
            }
            4 => {
                let n = build::random_name(&mut cx.rng, 16);
                m.filename = pet(&n);
                for x in want[5..21].iter_mut() {
                    *x = 0xA0;
                }
                want[5..5 + n.len()].copy_from_slice(&n);
            }
            5 => {
                let (t, s) = (cx.rng.byte(), cx.rng.byte());
                m.first_sector.0 = t;
                m.first_sector.1 = s;
                want[3] = t;
                want[4] = s;
            }
            6 => {
                let v = cx.rng.range(1, 3) as u8;
                if w.kind != FKind::Linear {
                    continue;
                }
                m.file_attributes.file_type = ftype(v);
                want[2] = want[2] & 0xF0 | v;
            }
            _ => match m.extra {
                Extra::Linear(ref mut l) => {
                    let i = cx.rng.below(9);
                    l.unused[i] ^= 0x10;
                    want[21 + i] ^= 0x10;
                }
                Extra::Relative(ref mut q) => match cx.rng.below(3) {
                    0 => {
                        q.record_length ^= 3;
                        want[23] ^= 3;
                    }
                    1 => {
                        q.first_side_sector.1 ^= 1;
                        want[22] ^= 1;
                    }
                    _ => {
                        let i = cx.rng.below(6);
                        q.unused[i] ^= 0x21;
                        want[24 + i] ^= 0x21;
                    }
                },
                Extra::GEOS(ref mut g) => {
                    let k = cx.rng.below(7);
                    let f: [&mut u8; 7] = [&mut g.info_block.0, &mut g.info_block.1, &mut g.year, &mut g.month, &mut g.day, &mut g.hour, &mut g.minute];
                    let [a, b, c, d0, e0, f0, g0] = f;
                    let (x, o) = match k {
                        0 => (a, 21),
                        1 => (b, 22),
                        2 => (c, 25),
                        3 => (d0, 26),
                        4 => (e0, 27),
                        5 => (f0, 28),
                        _ => (g0, 29),
                    };
                    *x ^= 0x11;
                    want[o] ^= 0x11;
                }
            },
        }
        if let Err(x) = d.write_directory_entry(&m) {
            cx.fail(&["C14"], format!("writing a changed entry failed: {}", kind(&x)));
        }
        let after2 = hk::image(&*d);
        let o = geo.offset(w.slot.0).unwrap() + w.slot.1;
        let mut expect = after.clone();
        expect[o + 2..o + 32].copy_from_slice(&want[2..]);
        if let Some(i) = (0..expect.len()).find(|i| expect[*i] != after2[*i]) {
            cx.fail(&["C14"], format!("changing one field of entry {:02x?} at {:?}: byte {:#x} is {:02x} instead of {:02x}", w.raw, w.slot, i, after2[i], expect[i]));
        }
        cx.count("field_changes_judged", 1);
        cx.ok()?;
        // restore
        let _ = d.write_directory_entry(e);
    }
    Ok(())
}

fn header_case(cx: &mut Cx) -> R<()> {
    let geo = pick_geo(cx);
    let b = build::Builder::new(geo, &mut cx.rng);
    let mut img = b.img;
    let h = geo.offset(geo.header()).unwrap();
    let (no, io, vo) = (geo.name_offset(), geo.id_offset(), geo.dos_version_offset());
    // arbitrary values where a header may hold anything
    let bam_end = if geo.kind == Kind::D81 { 0 } else { 0x90 };
    for i in 0..256 {
        let keep = (i >= 4 && i < bam_end) || (geo.kind == Kind::D71 && (i == 3 || i >= 0xDD));
        if !keep && cx.rng.chance(2, 3) {
            img[h + i] = cx.rng.byte();
        }
    }
    let geos = cx.rng.chance(1, 3);
    if geos {
        img[h + 0xAD..h + 0xAD + 11].copy_from_slice(b"GEOS format");
    } else {
        img[h + 0xAD] = b'X';
    }
    cx.step(format!("{} header, image {:016x}", geo.name(), hash_bytes(&img)));
    let mut d = load_memory(geo, &img);
    let pads: Vec<usize> = if geo.kind == Kind::D81 { vec![0x14, 0x15, 0x18, 0x1B, 0x1C] } else { vec![0xA0, 0xA1, 0xA4, 0xA7, 0xA8, 0xA9, 0xAA] };
    {
        let x = &img[h..h + 256];
        let r = match d.header() {
            Ok(r) => r,
            Err(e) => {
                cx.fail(&["C14"], format!("header of {} cannot be read: {}", geo.name(), kind(&e)));
                return Ok(());
            }
        };
        let ok = (r.first_directory_sector.0, r.first_directory_sector.1) == (x[0], x[1])
            && r.disk_format_type == x[2]
            && strip(r.disk_name.as_bytes()) == strip(&x[no..no + 16])
            && r.disk_id[0] == x[io]
            && r.disk_id[1] == x[io + 1]
            && r.directory_dos_version == x[vo]
            && r.directory_format_type == x[vo + 1]
            && r.geos.is_some() == geos;
        let border = r.geos.as_ref().map(|g| (g.border.0, g.border.1));
        cx.check(ok && (!geos || border == Some((x[0xAB], x[0xAC]))), &["C14"], || {
            format!("header of {} decoded as {:?} first {:?} type {:02x} border {:?}", geo.name(), r, (r.first_directory_sector.0, r.first_directory_sector.1), r.disk_format_type, border)
        });
        cx.count("headers_decoded", 1);
    }
    cx.ok()?;
    let mut expect = img.clone();
    for p in &pads {
        expect[h + p] = 0xA0;
    }
    let name = build::random_name(&mut cx.rng, 16);
    let id = [cx.rng.byte(), cx.rng.byte()];
    let field = cx.rng.below(7);
    match d.header_mut() {
        Err(e) => {
            cx.fail(&["C14"], format!("header_mut: {}", kind(&e)));
            return Ok(());
        }
        Ok(x) => match field {
            0 => {
                x.disk_name = pet(&name);
                for b in expect[h + no..h + no + 16].iter_mut() {
                    *b = 0xA0;
                }
                expect[h + no..h + no + name.len()].copy_from_slice(&name);
            }
            1 => {
                x.disk_id = Id::from_bytes(&id);
                expect[h + io..h + io + 2].copy_from_slice(&id);
            }
            2 => {
                x.directory_dos_version = id[0];
                expect[h + vo] = id[0];
            }
            3 => {
                x.directory_format_type = id[0];
                expect[h + vo + 1] = id[0];
            }
            4 => {
                x.disk_format_type = id[0];
                expect[h + 2] = id[0];
            }
            5 => {
                x.first_directory_sector.0 = id[0];
                x.first_directory_sector.1 = id[1];
                expect[h..h + 2].copy_from_slice(&id);
            }
            _ => {}
        },
    }
    if let Err(e) = d.flush_header() {
        cx.fail(&["C14"], format!("flush_header: {}", kind(&e)));
    }
    let after = hk::image(&*d);
    if let Some(i) = (0..expect.len()).find(|i| expect[*i] != after[*i]) {
        cx.fail(&["C14"], format!("after changing header field {} of {}: byte {:#x} (header offset {:#x}) is {:02x} instead of {:02x}", field, geo.name(), i, i.wrapping_sub(h), after[i], expect[i]));
    }
    cx.count("header_changes_judged", 1);
    // the allocation map is decoded and encoded without loss
    let bam = d.bam();
    if let Ok(bam) = bam {
        let r = bam.borrow_mut().flush();
        cx.check(r.is_ok(), &["C14"], || "flushing the allocation map failed".to_string());
        let again = hk::image(&*d);
        cx.check(again == after, &["C14"], || {
            let i = (0..after.len()).find(|i| after[*i] != again[*i]).unwrap();
            format!("writing back the unchanged allocation map of {} changed byte {:#x} of the image", geo.name(), i)
        });
    }
    Ok(())
}
