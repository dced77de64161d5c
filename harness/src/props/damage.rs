//! The disk object follows its image (C22), errors name their cause (C23),
//! damage is reported and not papered over (C24).
use super::corrupt::{bad_loc, hostile, injure};
use super::hist::pick_geo;
use crate::alloc::FreeMap;
use crate::build::{self, random_image};
use crate::cx::{Cx, Stop, R};
use crate::engine::{backing, Eng};
use crate::fs::{self, DecErr, FKind};
use crate::geom::{Geo, Kind, Loc};
use crate::hk;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use cbm::disk::directory::FileType;
use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::{Disk, DiskError, Id};
use std::error::Error;
use std::io::{self, Read, Write};

// ---------------------------------------------------------------- C22

pub fn c22(cx: &mut Cx) {
    let _ = follow(cx);
}

fn put_image(d: &mut (dyn Disk + 'static), geo: Geo, img: &[u8]) {
    for l in geo.locs() {
        let o = geo.offset(l).unwrap();
        let x = loc!(d, l);
        d.write_sector(x, &img[o..o + 256]).unwrap();
    }
}

fn put_sector(d: &mut (dyn Disk + 'static), geo: Geo, img: &[u8], l: Loc) {
    let o = geo.offset(l).unwrap();
    let x = loc!(d, l);
    d.write_sector(x, &img[o..o + 256]).unwrap();
}

fn follow(cx: &mut Cx) -> R<()> {
    let geo = pick_geo(cx);
    let some = |rng: &mut Rng| {
        let n = rng.below(7);
        let g = rng.chance(1, 3);
        let mut b = random_image(geo, rng, n, g, true);
        if rng.chance(1, 10) {
            let left = rng.below(3);
            b.fill_until(rng, left);
        }
        b.img
    };
    let first = some(&mut cx.rng);
    let file = cx.rng.chance(1, 4);
    cx.step(format!("{} image {:016x} file {}", geo.name(), hash_bytes(&first), file));
    let (mut d, _path) = backing(cx, geo, &first, file);
    let mut held = d.bam().map_err(|_| Stop)?;
    for _ in 0..cx.rng.range(2, 5) {
        let mut img = hk::image(&*d);
        let what = match cx.rng.below(8) {
            0 | 1 => {
                img = some(&mut cx.rng);
                put_image(&mut *d, geo, &img);
                d.initialize();
                "another disk's sectors written, initialized"
            }
            2 => {
                let name = build::random_name(&mut cx.rng, 16);
                let id = cx.rng.bytes(2);
                if let Err(e) = d.write_format(&pet(&name), &Id::from_bytes(&id)) {
                    cx.fail(&["C22"], format!("formatting failed: {}", kind(&e)));
                }
                "formatted"
            }
            3 | 4 => {
                // somebody else edits the allocation map
                for _ in 0..cx.rng.range(1, 12) {
                    let t = cx.rng.range(1, geo.bam_tracks() as usize) as u8;
                    let s = cx.rng.below(geo.spt(t) as usize) as u8;
                    let f = geo.is_free(&img, (t, s));
                    geo.set_free(&mut img, (t, s), !f);
                }
                for l in geo.system() {
                    put_sector(&mut *d, geo, &img, l);
                }
                d.initialize();
                "allocation map edited, initialized"
            }
            5 => {
                let h = geo.offset(geo.header()).unwrap();
                let n = geo.name_offset();
                for k in 0..16 {
                    img[h + n + k] = cx.rng.byte();
                }
                img[h + geo.id_offset()] = cx.rng.byte();
                img[h + geo.id_offset() + 1] = cx.rng.byte();
                if cx.rng.chance(1, 2) && fs::geos_border(&geo, &img).is_some() {
                    // no longer a GEOS disk
                    img[h + 0xAD] ^= 0xFF;
                }
                put_sector(&mut *d, geo, &img, geo.header());
                d.initialize();
                "header edited, initialized"
            }
            6 if geo.kind == Kind::D71 => {
                unformat(cx, &mut d, geo, &mut img)?;
                held = match d.bam() {
                    Ok(b) => b,
                    Err(e) => {
                        cx.fail(&["C22"], format!("no allocation map after the disk was readable again: {}", kind(&e)));
                        return Err(Stop);
                    }
                };
                "made unreadable and readable again"
            }
            _ => {
                d.initialize();
                "initialized"
            }
        };
        cx.ok()?;
        let img = hk::image(&*d);
        cx.step(format!("{} -> {:016x}", what, hash_bytes(&img)));
        // Everything the long-lived object says and does equals what a fresh
        // object over the same bytes says and does.
        let mut fresh = load_memory(geo, &img);
        let limit = geo.size();
        let a = Eng::view(cx, &*d, limit);
        let b = Eng::view(cx, &*fresh, limit);
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if let Some(x) = a.diff(&b) {
                    cx.fail(&["C22"], format!("after {}: the disk object shows something else than its image: {}", what, x));
                }
            }
            (Err(_), Err(_)) => {}
            (a, b) => cx.fail(&["C22"], format!("after {}: reading: {:?} vs fresh {:?}", what, a.err(), b.err())),
        }
        cx.ok()?;
        let fb = fresh.bam().map_err(|_| Stop)?;
        let db = d.bam().map_err(|_| Stop)?;
        let text = format!("{:?}", fb.borrow());
        cx.check(format!("{:?}", db.borrow()) == text, &["C22"], || format!("after {}: the allocation map is not the image's", what));
        cx.check(format!("{:?}", held.borrow()) == text, &["C22"], || format!("after {}: an allocation map handle from before shows the old map", what));
        for i in 0..4 {
            let p = if i == 0 { None } else { Some(*cx.rng.pick(&geo.data_locs())) };
            let mut r = vec![];
            for b in [&fb, &db, &held] {
                let l = p.map(|p| loc!(d, p));
                r.push(b.borrow().next_free_block(l).map(|l| (l.0, l.1)).map_err(|e| kind(&e)));
            }
            let (u, v, w) = (&r[0], &r[1], &r[2]);
            let fm = FreeMap::from_image(&geo, &img);
            let geos = fs::geos_border(&geo, &img).is_some();
            let plan = match p {
                None => fm.first(geos),
                Some(p) => fm.next(p, geos),
            };
            cx.check(v.as_ref().ok() == plan.as_ref(), &["C22"], || format!("after {}: next free block after {:?} is {:?}, the image (GEOS: {}) asks for {:?}", what, p, v, geos, plan));
            cx.check(u == v && u == w, &["C22"], || format!("after {}: next free block after {:?} is {:?} / {:?} (old handle), a fresh object says {:?}", what, p, v, w, u));
        }
        cx.ok()?;
        // Use it: the old map handle, then a new file.
        if cx.rng.chance(1, 2) {
            let l = *cx.rng.pick(&geo.data_locs());
            let free = geo.is_free(&img, l);
            for b in [&held, &fb] {
                let x = loc!(d, l);
                let mut b = b.borrow_mut();
                let r = if free { b.allocate(x) } else { b.free(x) };
                r.and_then(|_| b.flush()).map_err(|_| Stop)?;
            }
            let mut want = img.to_vec();
            geo.set_free(&mut want, l, !free);
            let got = hk::image(&*d);
            cx.check(got == want && hk::image(&*fresh) == want, &["C22"], || format!("after {}: changing the allocation of {:?} through a handle from before changed something else", what, l));
            let (x, y) = (d.blocks_free().ok(), fresh.blocks_free().ok());
            cx.check(x == y, &["C22"], || format!("after {}: blocks free {:?}, should be {:?}", what, x, y));
            cx.count("old_map_edits", 1);
            cx.ok()?;
        }
        let name = build::random_name(&mut cx.rng, 16);
        let n = cx.rng.below(3000);
        let data = cx.rng.content(n);
        let mut r = vec![];
        for x in [&mut *d, &mut *fresh] {
            r.push(
                x.create_file(&pet(&name), FileType::SEQ, Scheme::Linear)
                    .and_then(|f| {
                        let mut w = f.writer()?;
                        w.write_all(&data)?;
                        w.flush()
                    })
                    .map_err(|e| kind(&e)),
            );
        }
        cx.check(r[0] == r[1], &["C22"], || format!("after {}: creating a file gives {:?}, on a fresh object {:?}", what, r[0], r[1]));
        cx.check(hk::image(&*d) == hk::image(&*fresh), &["C22"], || format!("after {}: creating a file changes the image differently from a fresh object", what));
        cx.count("differential_writes", 1);
        cx.ok()?;
        cx.count("reinitializations", 1);
        cx.nontrivial = true;
        cx.fold(hash_bytes(&hk::image(&*d)));
    }
    Ok(())
}

fn unformat(cx: &mut Cx, d: &mut Box<dyn Disk>, geo: Geo, img: &mut [u8]) -> R<()> {
    let h = geo.offset(geo.header()).unwrap();
    let old = d.bam().map_err(|_| Stop)?;
    let entries = d.directory().map_err(|_| Stop)?;
    let mut handle = entries.first().and_then(|e| d.open_file_from_entry(e).ok());
    img[h + 3] = loop {
        let v = cx.rng.byte();
        if v != 0x80 {
            break v;
        }
    };
    put_sector(&mut **d, geo, img, geo.header());
    d.initialize();
    cx.count("unformatted_states", 1);
    let name = build::random_name(&mut cx.rng, 16);
    let mut r: Vec<(&str, Result<(), io::Error>)> = vec![
        ("header", d.header().map(|_| ())),
        ("disk_format", d.disk_format().map(|_| ())),
        ("bam", d.bam().map(|_| ())),
        ("blocks_free", d.blocks_free().map(|_| ())),
        ("directory", d.directory().map(|_| ())),
        ("validate", d.validate().map(|_| ())),
        ("find_directory_entry", d.find_directory_entry(&pet(&name)).map(|_| ())),
        ("open_file", d.open_file(&pet(&name)).map(|_| ())),
        ("iter", d.iter().next().map(|x| x.map(|_| ())).unwrap_or(Ok(()))),
    ];
    let x = d.header_mut().map(|_| ());
    r.push(("header_mut", x));
    let x = d.disk_format_mut().map(|_| ());
    r.push(("disk_format_mut", x));
    let x = d.flush_header();
    r.push(("flush_header", x));
    let x = d.create_file(&pet(&name), FileType::PRG, Scheme::Linear).map(|_| ());
    r.push(("create_file", x));
    let x = d.rename(&pet(&name), &pet(b"OTHER"));
    r.push(("rename", x));
    for (what, r) in r {
        match r {
            Ok(_) => cx.fail(&["C22"], format!("{} succeeded on a disk whose header is not readable", what)),
            Err(e) => {
                let k = kind(&e);
                cx.check(k == "Unformatted", &["C22"], || format!("{} on an unformatted disk failed with {}", what, k));
            }
        }
    }
    cx.check(d.name().is_none(), &["C22"], || "an unformatted disk has a name".into());
    // Whoever still holds the old map cannot damage the disk with it.
    {
        let mut b = old.borrow_mut();
        let l = *cx.rng.pick(&geo.data_locs());
        let l = loc!(d, l);
        for (what, r) in [
            ("next_free_block", b.next_free_block(None).map(|_| ())),
            ("allocate", b.allocate(l)),
            ("free", b.free(l)),
            ("flush", b.flush()),
        ] {
            match r {
                Ok(_) => cx.fail(&["C22"], format!("{} through an allocation map of a disk that is no longer formatted", what)),
                Err(e) => {
                    let k = kind(&e);
                    cx.check(k == "InvalidBAM", &["C22"], || format!("{} through a dead allocation map failed with {}", what, k));
                }
            }
        }
    }
    if let Some(f) = handle.as_mut() {
        cx.check(f.delete().is_err(), &["C22"], || "an old handle deleted a file of a disk that is no longer formatted".into());
    }
    drop(handle);
    let now = hk::image(&**d);
    if now != img {
        let at = now.iter().zip(img.iter()).position(|(a, b)| a != b).unwrap_or(0);
        cx.fail(&["C22"], format!("a refused operation on an unformatted disk changed byte {} of the image", at));
    }
    cx.ok()?;
    if cx.rng.chance(1, 2) {
        img[h + 3] = 0x80;
        put_sector(&mut **d, geo, img, geo.header());
        d.initialize();
    } else if let Err(e) = d.write_format(&pet(&name), &Id::from_bytes(b"ZZ")) {
        cx.fail(&["C22"], format!("formatting an unformatted disk: {}", kind(&e)));
    }
    cx.ok()
}

// ---------------------------------------------------------------- C23

/// Every error with the kind of `io::Error` it becomes and its message.
fn table() -> Vec<(DiskError, &'static str, io::ErrorKind, &'static str)> {
    use io::ErrorKind as K;
    use DiskError::*;
    vec![
        (Unknown, "Unknown", K::Other, "unknown error"),
        (ReadOnly, "ReadOnly", K::Other, "write access attempted to read-only media"),
        (InvalidLocation, "InvalidLocation", K::InvalidInput, "bad track or sector"),
        (InvalidOffset, "InvalidOffset", K::InvalidInput, "offset out of bounds"),
        (InvalidHeader, "InvalidHeader", K::InvalidData, "invalid header"),
        (InvalidBAM, "InvalidBAM", K::InvalidData, "invalid BAM"),
        (InvalidLayout, "InvalidLayout", K::InvalidData, "invalid layout"),
        (InvalidRecord, "InvalidRecord", K::InvalidInput, "record out of bounds"),
        (ReadOverflow, "ReadOverflow", K::InvalidInput, "read overflow"),
        (ReadUnderrun, "ReadUnderrun", K::InvalidInput, "read underrun"),
        (WriteUnderrun, "WriteUnderrun", K::InvalidInput, "write underrun"),
        (Unformatted, "Unformatted", K::InvalidData, "attempt to use unformatted media"),
        (NotFound, "NotFound", K::NotFound, "file not found"),
        (ChainLoop, "ChainLoop", K::InvalidData, "chain loop detected"),
        (InvalidChainLink, "InvalidChainLink", K::InvalidData, "invalid chain link"),
        (InvalidRelativeFile, "InvalidRelativeFile", K::InvalidData, "invalid relative file layout"),
        (Unpositioned, "Unpositioned", K::InvalidInput, "attempt to write a resource with no embedded position"),
        (FilenameTooLong, "FilenameTooLong", K::InvalidInput, "filename exceeds maximum length"),
        (FileExists, "FileExists", K::InvalidInput, "a file with the specified filename already exists"),
        (DiskFull, "DiskFull", K::Other, "disk is full"),
        (InvalidRecordIndex, "InvalidRecordIndex", K::InvalidInput, "invalid record index"),
        (UnknownFormat, "UnknownFormat", K::InvalidData, "unknown format"),
        (GEOSInfoNotFound, "GEOSInfoNotFound", K::InvalidData, "a required GEOS info block was not found"),
        (RecordTooLarge, "RecordTooLarge", K::InvalidData, "a record exceeded the maximum size"),
        (NonLinearFile, "NonLinearFile", K::InvalidInput, "attempt to linearly access non-linear file"),
    ]
}

pub fn c23(cx: &mut Cx) {
    if cx.idx == 0 {
        conversions(cx);
    } else {
        let _ = provoke(cx);
    }
}

fn conversions(cx: &mut Cx) {
    let t = table();
    for (i, (e, name, k, msg)) in t.iter().enumerate() {
        cx.count("conversions", 1);
        let a: io::Error = e.clone().into();
        let b = e.to_io_error();
        for x in [&a, &b] {
            cx.check(x.kind() == *k, &["C23"], || format!("{} becomes an io::Error of kind {:?}", name, x.kind()));
            cx.check(DiskError::from_io_error(x).as_ref() == Some(e), &["C23"], || format!("{} does not come back from io::Error", name));
            cx.check(x.to_string() == *msg && e.to_string() == *msg, &["C23"], || format!("{} says {:?}", name, x.to_string()));
            for (j, (o, other, _, _)) in t.iter().enumerate() {
                let same = i == j;
                cx.check((*o == *x) == same && (*x == *o) == same && (o == e) == same, &["C23"], || format!("comparing {} with the io::Error of {}", other, name));
            }
        }
        cx.check(format!("{:?}", e) == *name, &["C23"], || format!("{} calls itself {:?}", name, e));
        let c: DiskError = a.into();
        cx.check(c == *e, &["C23"], || format!("{} comes back as {:?}", name, c));
        cx.check(e.source().is_none(), &["C23"], || format!("{} claims a cause", name));
        // Wrapped by somebody else, it is not ours any more.
        let w = io::Error::new(io::ErrorKind::Other, format!("context: {}", e));
        cx.check(DiskError::from_io_error(&w).is_none() && *e != w && w != *e, &["C23"], || format!("a foreign error is taken for {}", name));
    }
    for k in [io::ErrorKind::NotFound, io::ErrorKind::Other, io::ErrorKind::InvalidData, io::ErrorKind::InvalidInput, io::ErrorKind::PermissionDenied, io::ErrorKind::UnexpectedEof] {
        for x in [io::Error::from(k), io::Error::new(k, "foreign"), io::Error::from_raw_os_error(2)] {
            cx.check(DiskError::from_io_error(&x).is_none(), &["C23"], || format!("{:?} is taken for a disk error", x));
            cx.check(t.iter().all(|(e, _, _, _)| *e != x && x != *e), &["C23"], || format!("{:?} equals a disk error", x));
            let s = format!("{:?}", x);
            let c: DiskError = x.into();
            cx.check(c == DiskError::Unknown, &["C23"], || format!("{} becomes {:?}", s, c));
        }
    }
    // What validation reports, as text.
    let d = memory(crate::geom::ALL[0]);
    for _ in 0..200 {
        use cbm::disk::ValidationError as V;
        let l = (cx.rng.byte(), cx.rng.byte());
        let (a, b) = (build::random_name(&mut cx.rng, 16), build::random_name(&mut cx.rng, 16));
        let (p, q) = (pet(&a), pet(&b));
        let at = format!("({},{})", l.0, l.1);
        let (e, _, _, msg) = cx.rng.pick(&t).clone();
        for (v, want) in [
            (V::Unknown, "Unknown error".to_string()),
            (V::SystemSectorNotAllocated(loc!(d, l)), format!("System sector not allocated: {}", at)),
            (V::SectorMisallocated(loc!(d, l)), format!("Sector misallocated: {}", at)),
            (V::SectorMisoccupied(loc!(d, l), p.clone()), format!("Sector {} misoccupied by file: {:?}", at, p)),
            (
                V::SectorOveroccupied(loc!(d, l), p.clone(), q.clone()),
                format!("Sector {} occupied by multiple files, including at least: {:?} {:?}", at, p, q),
            ),
            (V::FileScanError(e.clone(), p.clone()), format!("Error scanning {:?}: {}", p, msg)),
        ] {
            let got = v.to_string();
            cx.check(got == want, &["C23"], || format!("a validation error says {:?}, should be {:?}", got, want));
        }
        cx.count("validation_texts", 6);
    }
    cx.step("conversion tables".into());
    cx.nontrivial = true;
}

fn expect(cx: &mut Cx, what: &str, r: io::Result<()>, want: DiskError) {
    let (_, name, k, msg) = table().into_iter().find(|x| x.0 == want).unwrap();
    cx.count("failures_provoked", 1);
    cx.step(format!("{}: {:?}", what, r.as_ref().map_err(kind)));
    match r {
        Ok(_) => cx.fail(&["C23"], format!("{}: succeeded, should have failed with {}", what, name)),
        Err(e) => {
            let got = kind(&e);
            cx.check(e == want, &["C23"], || format!("{}: failed with {}, should be {}", what, got, name));
            cx.check(e.kind() == k && e.to_string() == msg, &["C23"], || format!("{}: failed with {:?} {:?}", what, e.kind(), e.to_string()));
        }
    }
}

fn provoke(cx: &mut Cx) -> R<()> {
    let geo = pick_geo(cx);
    let files = cx.rng.range(2, 10);
    let geos = cx.rng.chance(1, 2);
    let mut b = random_image(geo, &mut cx.rng, files, geos, true);
    if cx.rng.chance(1, 8) {
        b.fill_until(&mut cx.rng, 0);
    }
    let full = b.free.is_empty();
    let names = b.names.clone();
    let img = b.img;
    cx.step(format!("{} {} files image {:016x}", geo.name(), names.len(), hash_bytes(&img)));
    let file = cx.rng.chance(1, 6);
    let (mut d, _p) = backing(cx, geo, &img, file);
    let fresh = loop {
        let n = build::random_name(&mut cx.rng, 16);
        if !names.contains(&n) {
            break n;
        }
    };
    let n = cx.rng.range(17, 40);
    let long: Vec<u8> = (0..n).map(|_| b'A' + cx.rng.below(26) as u8).collect();
    let limit = geo.sectors();
    for _ in 0..cx.rng.range(8, 20) {
        let name = if names.is_empty() { None } else { Some(cx.rng.pick(&names).clone()) };
        match (cx.rng.below(17), name) {
            (0, _) => expect(cx, "opening an absent file", d.open_file(&pet(&fresh)).map(|_| ()), DiskError::NotFound),
            (1, _) => expect(cx, "looking up an absent file", d.find_directory_entry(&pet(&fresh)).map(|_| ()), DiskError::NotFound),
            (2, _) => expect(cx, "renaming an absent file", d.rename(&pet(&fresh), &pet(b"X")), DiskError::NotFound),
            (3, Some(n)) => expect(cx, "creating an existing file", d.create_file(&pet(&n), FileType::PRG, Scheme::Linear).map(|_| ()), DiskError::FileExists),
            (4, Some(n)) => {
                let o = cx.rng.pick(&names).clone();
                if o != n {
                    expect(cx, "renaming to an existing name", d.rename(&pet(&n), &pet(&o)), DiskError::FileExists);
                }
            }
            (5, _) => expect(cx, "creating a file with a long name", d.create_file(&pet(&long), FileType::SEQ, Scheme::Linear).map(|_| ()), DiskError::FilenameTooLong),
            (6, Some(n)) => {
                expect(cx, "renaming to a long name", d.rename(&pet(&n), &pet(&long)), DiskError::FilenameTooLong);
                let mut e = d.find_directory_entry(&pet(&n)).map_err(|_| Stop)?;
                e.filename = pet(&long);
                expect(cx, "writing an entry with a long name", d.write_directory_entry(&e), DiskError::FilenameTooLong);
            }
            (7, _) => expect(cx, "formatting with a long name", d.write_format(&pet(&long), &Id::from_bytes(b"AB")), DiskError::FilenameTooLong),
            (8, _) => {
                let old = d.header().map_err(|_| Stop)?.disk_name.clone();
                d.header_mut().map_err(|_| Stop)?.disk_name = pet(&long);
                expect(cx, "storing a header with a long name", d.flush_header(), DiskError::FilenameTooLong);
                d.header_mut().map_err(|_| Stop)?.disk_name = old;
            }
            (9, _) => {
                let l = bad_loc(&geo, &mut cx.rng);
                let x = loc!(d, l);
                expect(cx, &format!("reading sector {:?}", l), d.read_sector(x).map(|_| ()), DiskError::InvalidLocation);
                let x = loc!(d, l);
                expect(cx, &format!("writing sector {:?}", l), d.write_sector(x, &[7u8; 256]), DiskError::InvalidLocation);
            }
            (10, _) => {
                let l = *cx.rng.pick(&geo.locs());
                let x = loc!(d, l);
                let n = *cx.rng.pick(&[0usize, 1, 254, 255, 257, 512]);
                expect(cx, &format!("writing a sector of {} bytes", n), d.write_sector(x, &vec![9u8; n]), DiskError::WriteUnderrun);
            }
            (11, Some(n)) => {
                let f = match d.open_file(&pet(&n)) {
                    Ok(f) => f,
                    Err(_) => continue,
                };
                let c = f.record_count().map_err(|_| Stop)?;
                let i = *cx.rng.pick(&[c, c + 1, c + 254, 65536, usize::MAX]);
                if i < c {
                    continue;
                }
                let want = if matches!(f, File::Linear(_)) { DiskError::InvalidRecord } else { DiskError::InvalidRecordIndex };
                if matches!(f, File::GEOSSequential(_)) {
                    // which of the two is not specified
                    cx.check(f.record(i).is_err(), &["C23"], || format!("record {} of {} was read", i, c));
                } else {
                    expect(cx, &format!("record {} of {}", i, c), f.record(i).map(|_| ()), want);
                }
            }
            (12, Some(n)) => {
                let f = match d.open_file(&pet(&n)) {
                    Ok(f) => f,
                    Err(_) => continue,
                };
                if matches!(f, File::Relative(_) | File::GEOSVLIR(_)) {
                    expect(cx, "linear reading of a file of records", f.reader().map(|_| ()), DiskError::NonLinearFile);
                    expect(cx, "linear writing of a file of records", f.writer().map(|_| ()), DiskError::NonLinearFile);
                }
            }
            (13, _) if full => expect(cx, "creating a file on a full disk", d.create_file(&pet(&fresh), FileType::PRG, Scheme::Linear).map(|_| ()), DiskError::DiskFull),
            (14, _) => {
                // a file of a size no disk has
                let delta = *cx.rng.pick(&[1usize, 255, 256, 257, 4096]);
                let size = if cx.rng.chance(1, 2) { geo.size() + delta } else { geo.size() - delta };
                if crate::geom::ALL.iter().any(|g| g.size() == size) {
                    continue;
                }
                let ext = *cx.rng.pick(&["d64", "d71", "d81", "bin", "D64"]);
                let p = cx.file(&format!("odd.{}", ext));
                std::fs::write(&p, vec![0u8; size]).unwrap();
                let w = cx.rng.chance(1, 2);
                expect(cx, &format!("opening an image of {} bytes as .{}", size, ext), cbm::disk::open(&p, w).map(|_| ()), DiskError::InvalidLayout);
                let _ = std::fs::remove_file(&p);
                // a file that is not there is the system's error, not ours
                let w = cx.rng.chance(1, 2);
                match cbm::disk::open(&p, w) {
                    Ok(_) => cx.fail(&["C23"], "opened an image that does not exist".into()),
                    Err(e) => {
                        let k = kind(&e);
                        cx.check(e.kind() == io::ErrorKind::NotFound && DiskError::from_io_error(&e).is_none(), &["C23"], || format!("opening an image that does not exist: {}", k));
                    }
                }
                cx.check(!p.exists(), &["C23"], || "opening an absent image created it".into());
            }
            (15, Some(n)) => {
                // an entry that belongs to no slot
                let mut e = d.find_directory_entry(&pet(&n)).map_err(|_| Stop)?;
                e.position = None;
                expect(cx, "writing an entry without a position", d.write_directory_entry(&e), DiskError::Unpositioned);
            }
            (16, Some(n)) => {
                // damage a file, then use it
                if limit == 0 {
                    continue;
                }
                damaged_ops(cx, &mut d, geo, &n)?;
            }
            _ => continue,
        }
        cx.ok()?;
        cx.nontrivial = true;
    }
    let after = hk::image(&*d);
    cx.check(after == img, &["C23"], || "a failed operation changed the image".into());
    cx.ok()
}

fn err_of(e: DecErr) -> DiskError {
    match e {
        DecErr::BadLoc => DiskError::InvalidLocation,
        DecErr::Loop => DiskError::ChainLoop,
        DecErr::BadLink => DiskError::InvalidChainLink,
        DecErr::BadRel => DiskError::InvalidRelativeFile,
    }
}

/// Damage the chain of a linear file in place, try everything, and undo it.
fn damaged_ops(cx: &mut Cx, d: &mut Box<dyn Disk>, geo: Geo, name: &[u8]) -> R<()> {
    let img = hk::image(&**d);
    let f = fs::Fs::parse(&geo, &img).map_err(|_| Stop)?;
    let e = match f.find(name) {
        Some(e) if e.kind == FKind::Linear => e,
        _ => return Ok(()),
    };
    let chain = fs::chain_locs(&geo, &img, e.first()).map_err(|_| Stop)?;
    let at = cx.rng.below(chain.len());
    let (link, want) = match cx.rng.below(3) {
        0 => ((0, 0), DiskError::InvalidChainLink),
        1 => (bad_loc(&geo, &mut cx.rng), DiskError::InvalidLocation),
        _ => (chain[cx.rng.below(at + 1)], DiskError::ChainLoop),
    };
    let mut bad = img.clone();
    let o = geo.offset(chain[at]).unwrap();
    bad[o] = link.0;
    bad[o + 1] = link.1;
    put_sector(&mut **d, geo, &bad, chain[at]);
    let mut h = d.open_file(&pet(name)).map_err(|_| Stop)?;
    let ctx = format!("file {:02x?} with link {:?} in its sector {}", name, link, at);
    let mut v = vec![];
    let r = h.reader().and_then(|mut r| r.read_to_end(&mut v)).map(|_| ());
    expect(cx, &format!("reading {}", ctx), r, want.clone());
    expect(cx, &format!("the record of {}", ctx), h.record(0).map(|_| ()), want.clone());
    expect(cx, &format!("the sectors of {}", ctx), h.occupied_sectors().map(|_| ()), want.clone());
    expect(cx, &format!("details of {}", ctx), h.details(&mut vec![], 1), want.clone());
    expect(cx, &format!("a dump of {}", ctx), h.dump(&mut vec![]), want.clone());
    expect(cx, &format!("appending to {}", ctx), h.writer().map(|_| ()), want.clone());
    expect(cx, &format!("deleting {}", ctx), h.delete(), want);
    cx.check(hk::image(&**d) == bad, &["C23"], || format!("refused operations on {} changed the image", ctx));
    put_sector(&mut **d, geo, &img, chain[at]);
    cx.ok()
}

// ---------------------------------------------------------------- C24

pub fn c24(cx: &mut Cx) {
    let _ = reported(cx);
}

/// The bytes in front of the damage, and the damage.
fn readable(geo: &Geo, img: &[u8], start: Loc) -> (Vec<u8>, Option<DecErr>) {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut at = start;
    loop {
        if !seen.insert(at) {
            return (out, Some(DecErr::Loop));
        }
        let s = match geo.sector(img, at) {
            Some(s) => s,
            None => return (out, Some(DecErr::BadLoc)),
        };
        if s[0] == 0 {
            if s[1] == 0 {
                return (out, Some(DecErr::BadLink));
            }
            out.extend_from_slice(&s[2..s[1] as usize + 1]);
            return (out, None);
        }
        out.extend_from_slice(&s[2..]);
        at = (s[0], s[1]);
    }
}

/// A GEOS file in the format of the Convert program up to its first damage,
/// and that damage.  A record that is damaged or too large for the format is
/// noticed when the index is converted.
fn stream(geo: &Geo, img: &[u8], raw: &[u8; 32], vlir: bool) -> Option<(Vec<u8>, Option<String>)> {
    let name = |e: DecErr| Some(format!("{:?}", err_of(e)));
    let info = (raw[0x15], raw[0x16]);
    if info == (0, 0) {
        return None;
    }
    let mut out = raw[2..].to_vec();
    out.extend_from_slice(if vlir { b"PRG" } else { b"SEQ" });
    out.extend_from_slice(b" formatted GEOS file V1.0");
    out.resize(254, 0);
    match geo.sector(img, info) {
        Some(s) => out.extend_from_slice(&s[2..]),
        None => return Some((out, name(DecErr::BadLoc))),
    }
    let first = (raw[3], raw[4]);
    if !vlir {
        let (d, e) = readable(geo, img, first);
        out.extend_from_slice(&d);
        return Some((out, e.and_then(name)));
    }
    let idx = match fs::vlir_index(geo, img, first) {
        Ok(x) => x,
        Err(e) => return Some((out, name(e))),
    };
    let mut index = vec![];
    let mut records = vec![];
    for l in idx {
        match l {
            None => index.extend_from_slice(&[0, 0xFF]),
            Some(l) => {
                let c = match fs::chain(geo, img, l) {
                    Ok(c) => c,
                    Err(e) => return Some((out, name(e))),
                };
                if c.len() > 255 {
                    return Some((out, Some("RecordTooLarge".into())));
                }
                index.extend_from_slice(&[c.len() as u8, (c.last().unwrap().1 - 1) as u8]);
                records.push(readable(geo, img, l).0);
            }
        }
    }
    index.resize(254, 0);
    out.extend_from_slice(&index);
    let n = records.len();
    for (i, r) in records.iter().enumerate() {
        out.extend_from_slice(r);
        if i + 1 < n {
            out.resize((out.len() + 253) / 254 * 254, 0);
        }
    }
    Some((out, None))
}

/// What a listing has to show: the slots in front of any damage, then the damage.
fn listing(geo: &Geo, img: &[u8]) -> (Vec<[u8; 32]>, Option<DecErr>) {
    let mut out = vec![];
    let mut add = |s: &[u8]| {
        for c in s.chunks_exact(32) {
            if !fs::is_scratched(c[2]) {
                let mut r = [0u8; 32];
                r.copy_from_slice(c);
                out.push(r);
            }
        }
    };
    let mut seen = std::collections::HashSet::new();
    let mut at = geo.first_dir();
    let mut bad = None;
    loop {
        if !seen.insert(at) {
            bad = Some(DecErr::Loop);
            break;
        }
        let s = match geo.sector(img, at) {
            Some(s) => s,
            None => {
                bad = Some(DecErr::BadLoc);
                break;
            }
        };
        if s[0] == 0 {
            if s[1] == 0 {
                bad = Some(DecErr::BadLink);
            } else {
                add(&s[..s[1] as usize + 1]);
            }
            break;
        }
        add(s);
        at = (s[0], s[1]);
    }
    if bad.is_none() {
        if let Some(b) = fs::geos_border(geo, img) {
            match geo.sector(img, b) {
                Some(s) => add(s),
                None => bad = Some(DecErr::BadLoc),
            }
        }
    }
    (out, bad)
}

fn reported(cx: &mut Cx) -> R<()> {
    let (geo, img) = if cx.rng.chance(1, 3) {
        hostile(cx)
    } else {
        let geo = pick_geo(cx);
        let files = cx.rng.range(1, 10);
        let geos = cx.rng.chance(1, 3);
        let special = cx.rng.chance(1, 2);
        let mut img = random_image(geo, &mut cx.rng, files, geos, special).img;
        for _ in 0..cx.rng.below(6) {
            let dir = cx.rng.chance(1, 4);
            injure(&geo, &mut img, &mut cx.rng, dir);
        }
        (geo, img)
    };
    cx.step(format!("{} image {:016x}", geo.name(), hash_bytes(&img)));
    let file = cx.rng.chance(1, 8);
    let (mut d, _p) = backing(cx, geo, &img, file);
    let h = geo.offset(geo.header()).unwrap();
    if geo.kind == Kind::D71 && img[h + 3] != 0x80 {
        let r = d.directory().map(|_| ()).map_err(|e| kind(&e));
        cx.check(r == Err("Unformatted".into()), &["C24"], || format!("listing a disk without a valid header: {:?}", r));
        cx.check(d.validate().is_err() && d.blocks_free().is_err(), &["C24"], || "an unformatted disk was validated".into());
        cx.nontrivial = true;
        return cx.ok();
    }
    let (want, bad) = listing(&geo, &img);
    let bad = bad.map(|e| format!("{:?}", err_of(e)));
    // the listing
    let mut got = vec![];
    let mut failed = None;
    for e in d.iter() {
        match e {
            Ok(e) => got.push(e),
            Err(e) => {
                failed = Some(kind(&e));
                break;
            }
        }
        if got.len() > 8 * geo.sectors() + 16 {
            break;
        }
    }
    let raws: Vec<Vec<u8>> = got.iter().map(entry_raw).collect();
    cx.check(failed == bad, &["C24"], || format!("listing ends with {:?}, the directory's damage is {:?}", failed, bad));
    cx.check(raws.len() == want.len() && raws.iter().zip(want.iter()).all(|(a, b)| a[..] == b[2..]), &["C24"], || {
        format!("listing shows {} entries, {} are readable in front of the damage", raws.len(), want.len())
    });
    let whole = d.directory().map(|v| v.len()).map_err(|e| kind(&e));
    let expect_whole = match &bad {
        None => Ok(want.len()),
        Some(k) => Err(k.clone()),
    };
    cx.check(whole == expect_whole, &["C24"], || format!("directory() gives {:?}, should be {:?}", whole, expect_whole));
    cx.ok()?;
    cx.count("listings_judged", 1);
    if bad.is_some() {
        cx.count("damaged_directories", 1);
        cx.nontrivial = true;
        // What cannot be seen is neither absent nor free to be overwritten.
        let fresh = build::random_name(&mut cx.rng, 16);
        if !want.iter().any(|r| fs::strip(&r[5..21]) == fresh) {
            let r = d.find_directory_entry(&pet(&fresh)).map(|_| ()).map_err(|e| kind(&e));
            cx.check(r == Err(bad.clone().unwrap()), &["C24"], || format!("looking up a name in a damaged directory gives {:?}, should be {:?}", r, bad));
            let r = d.create_file(&pet(&fresh), FileType::PRG, Scheme::Linear).map(|_| ()).map_err(|e| kind(&e));
            cx.check(r.is_err(), &["C24"], || "a file was created in a directory that cannot be read".to_string());
            if let Some(r) = want.first() {
                let old = fs::strip(&r[5..21]);
                let r = d.rename(&pet(&old), &pet(&fresh)).map_err(|e| kind(&e));
                cx.check(r.is_err(), &["C24"], || "a file was renamed though the new name may exist in the unreadable part of the directory".to_string());
            }
            cx.check(d.validate().is_err(), &["C24"], || "validate() passes a directory that cannot be read".to_string());
            cx.check(hk::image(&*d) == img, &["C24"], || "refused operations changed the image".to_string());
        }
        cx.ok()?;
    }
    // the files
    let limit = 130 * geo.size();
    for e in got.iter().take(30) {
        let raw = entry_raw(e);
        let mut full = [0u8; 32];
        full[2..].copy_from_slice(&raw);
        let k = fs::kind_of(&full);
        if k == FKind::GeosSeq || k == FKind::Vlir {
            if let Ok(f) = d.open_file_from_entry(e) {
                let g = match &f {
                    File::GEOSSequential(g) | File::GEOSVLIR(g) => g,
                    _ => continue,
                };
                if let (Ok(mut r), Some((data, damage))) = (g.reader(), stream(&geo, &img, &full, k == FKind::Vlir)) {
                    let (bytes, end) = drain(&mut r, &mut cx.rng, 2 * limit);
                    cx.check(end == damage, &["C24"], || format!("the Convert stream of {:?} ends with {:?} after {} bytes, the damage is {:?} after {} bytes", e, end, bytes.len(), damage, data.len()));
                    cx.check(bytes == data, &["C24"], || format!("the Convert stream of {:?} gives {} bytes, not the {} bytes in front of the damage", e, bytes.len(), data.len()));
                    cx.count("convert_streams_judged", 1);
                    cx.count("damaged_convert_streams", damage.is_some() as u64);
                    cx.ok()?;
                }
            }
        }
        if k != FKind::Linear && k != FKind::GeosSeq {
            continue;
        }
        let f = match d.open_file_from_entry(e) {
            Ok(f) => f,
            Err(_) if k == FKind::GeosSeq => continue,
            Err(x) => {
                cx.fail(&["C24"], format!("opening {:?}: {}", e, kind(&x)));
                break;
            }
        };
        let (data, damage) = readable(&geo, &img, (full[3], full[4]));
        let damage = damage.map(|e| format!("{:?}", err_of(e)));
        let mut r = match f.reader() {
            Ok(r) => r,
            Err(x) => {
                let x = kind(&x);
                cx.check(damage.as_ref() == Some(&x), &["C24"], || format!("opening a reader on {:?}: {}", e, x));
                continue;
            }
        };
        let (bytes, end) = drain(&mut *r, &mut cx.rng, limit);
        cx.check(end == damage, &["C24"], || format!("reading {:?} ends with {:?} after {} bytes, the damage is {:?} after {} bytes", e, end, bytes.len(), damage, data.len()));
        cx.check(bytes == data, &["C24"], || format!("reading {:?} gives {} bytes, not the {} bytes in front of the damage", e, bytes.len(), data.len()));
        let rec = f.record(0).map_err(|e| kind(&e));
        let wrec = match &damage {
            None => Ok(data.clone()),
            Some(k) => Err(k.clone()),
        };
        cx.check(rec == wrec, &["C24"], || format!("the record of {:?} is {:?}, should be {:?}", e, rec.as_ref().map(|x| x.len()), wrec.as_ref().map(|x| x.len())));
        cx.count("files_judged", 1);
        cx.nontrivial = true;
        if damage.is_some() {
            cx.count("damaged_files", 1);
            if cx.rng.chance(1, 2) && k == FKind::Linear {
                let r = if cx.rng.chance(1, 2) { f.writer().map(|_| ()) } else { d.open_file_from_entry(e).and_then(|mut f| f.delete()) };
                cx.check(r.is_err(), &["C24"], || format!("{:?} is damaged but was opened for writing or deleted", e));
                cx.check(hk::image(&*d) == img, &["C24"], || "a refused operation on a damaged file changed the image".to_string());
            }
        }
        cx.ok()?;
    }
    Ok(())
}

/// Read until the reader says it is at the end (a read of 0 bytes) or fails.
fn drain(r: &mut dyn Read, rng: &mut Rng, limit: usize) -> (Vec<u8>, Option<String>) {
    let mut out = vec![];
    let mode = rng.below(4);
    loop {
        let n = match mode {
            0 => 4096,
            1 => rng.range(1, 600),
            2 => *rng.pick(&[1usize, 127, 254, 254, 508, 762, 256]),
            _ => 127,
        };
        let mut buf = vec![0xEE; n];
        match r.read(&mut buf) {
            Ok(0) => return (out, None),
            Ok(k) => out.extend_from_slice(&buf[..k.min(n)]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
            Err(e) => return (out, Some(kind(&e))),
        }
        if out.len() > limit {
            return (out, Some("endless".into()));
        }
    }
}
