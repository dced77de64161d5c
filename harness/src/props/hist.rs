//! Properties decided over operation histories.
use crate::alloc::FreeMap;
use crate::build::{self, random_image};
use crate::cx::{Cx, R};
use crate::engine::{Eng, Op, Profile, MIXED};
use crate::fs::Fs;
use crate::geom::{Geo, ALL};
use crate::util::*;
use cbm::disk::file::FileOps;

pub fn pick_geo(cx: &mut Cx) -> Geo {
    // D64 most often (fast), every geometry regularly.
    match cx.rng.below(10) {
        0..=3 => ALL[0],
        4 => ALL[1],
        5 => ALL[2],
        6 => ALL[3],
        7 => ALL[4 + cx.rng.below(2)],
        8 => ALL[4],
        _ => ALL[6 + cx.rng.below(2)],
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Init {
    Formatted,
    Image,
    NearlyFull,
    DirFull,
    Full,
}

fn start(cx: &mut Cx, init: Init, special: bool, file: bool) -> R<Eng> {
    let geo = pick_geo(cx);
    let files = cx.rng.below(12);
    match init {
        Init::Formatted => Eng::formatted(cx, geo, file),
        _ => {
            let geos = cx.rng.chance(1, 3);
            let mut b = random_image(geo, &mut cx.rng, files, geos, special);
            if special && cx.rng.chance(1, 3) {
                let n = cx.rng.range(1, 8);
                b.art(&mut cx.rng, n);
            }
            match init {
                Init::NearlyFull => {
                    let left = cx.rng.below(30);
                    b.fill_until(&mut cx.rng, left);
                }
                Init::Full => b.fill_until(&mut cx.rng, 0),
                Init::DirFull => {
                    let leave = cx.rng.below(5);
                    while b.names.len() + leave < geo.max_dir_entries() {
                        let l = cx.rng.below(300);
                        let dirs = b.slots.len() + (geo.spt(geo.dir_track()) as usize - b.used_dir.len()) * 8;
                        if dirs <= leave || b.linear(&mut cx.rng, l).is_none() {
                            break;
                        }
                    }
                }
                _ => {}
            }
            let what = format!(
                "image {} files={} free={} geos={} {}",
                geo.name(),
                b.names.len(),
                b.free.len(),
                b.border.is_some(),
                if file { "file" } else { "memory" }
            );
            cx.step(what);
            let f = Fs::parse_art(&geo, &b.img).expect("built image decodes");
            if !f.audit(&geo, &b.img).is_empty() {
                // The builder ran out of slots; not a useful image.
                cx.count("builder_rejects", 1);
                cx.nontrivial = false;
                return Err(crate::cx::Stop);
            }
            Eng::from_image(cx, geo, &b.img, file)
        }
    }
}

fn pick_init(cx: &mut Cx) -> Init {
    match cx.rng.below(12) {
        0..=4 => Init::Formatted,
        5..=8 => Init::Image,
        9 | 10 => Init::NearlyFull,
        _ => Init::DirFull,
    }
}

fn history(cx: &mut Cx, init: Init, special: bool, file: bool, profile: Profile, steps: usize) -> R<()> {
    let mut e = start(cx, init, special, file)?;
    for _ in 0..steps {
        e.step(cx, profile)?;
    }
    e.finish(cx)
}

fn steps(cx: &mut Cx) -> usize {
    if cx.thorough && cx.rng.chance(1, 20) {
        400
    } else {
        cx.rng.range(15, 60)
    }
}

const WRITEHEAVY: Profile = &[
    (Op::Create, 12),
    (Op::Write, 36),
    (Op::Flush, 6),
    (Op::Close, 10),
    (Op::OpenWriter, 14),
    (Op::Read, 14),
    (Op::Rename, 2),
    (Op::Delete, 5),
    (Op::Reopen, 4),
    (Op::Orphan, 2),
];

pub fn c01(cx: &mut Cx) {
    let init = pick_init(cx);
    let n = steps(cx);
    let file = cx.rng.chance(1, 5);
    if cx.idx % 37 == 5 {
        let _ = sizes(cx);
    } else if cx.idx % 101 == 7 {
        let _ = big(cx);
    } else {
        let special = cx.rng.chance(1, 3);
        let _ = history(cx, init, special, file, WRITEHEAVY, n);
    }
    cx.nontrivial &= cx.counters.get("bytes_written").copied().unwrap_or(0) > 0 && cx.counters.get("files_read_back").copied().unwrap_or(0) > 0;
}

/// Systematic sweep over sizes around block boundaries, split in two writes.
fn sizes(cx: &mut Cx) -> R<()> {
    let geo = pick_geo(cx);
    let mut e = Eng::formatted(cx, geo, false)?;
    let base = 254 * cx.rng.range(0, 6);
    for d in 0..12usize {
        let len = (base + d).saturating_sub(5);
        let cut = cx.rng.below(len + 1);
        let name = format!("S{}", d).into_bytes();
        e.create(cx, &name, 2, true)?;
        let i = e.writers.len() - 1;
        e.write(cx, i, cut)?;
        if cx.rng.chance(1, 2) {
            e.close(cx, i)?;
            e.open_writer(cx, &name)?;
        } else if cx.rng.chance(1, 2) {
            e.flush(cx, i)?;
        }
        let i = e.writers.len() - 1;
        e.write(cx, i, len - cut)?;
        e.close(cx, i)?;
        e.read(cx, &name)?;
    }
    e.finish(cx)
}

/// One file that takes most of the disk, written and appended to in few calls.
fn big(cx: &mut Cx) -> R<()> {
    let geo = if cx.rng.chance(1, 2) { *cx.rng.pick(&ALL[6..]) } else { pick_geo(cx) };
    let mut e = Eng::formatted(cx, geo, false)?;
    let room = e.free * 254;
    e.create(cx, b"BIG", 2, true)?;
    let mut left = room * cx.rng.range(60, 101) / 100;
    let parts = cx.rng.range(1, 4);
    for k in 0..parts {
        let n = if k + 1 == parts { left } else { cx.rng.below(left + 1) };
        left -= n;
        let i = match e.writers.len() {
            0 => {
                e.open_writer(cx, b"BIG")?;
                0
            }
            n => n - 1,
        };
        e.write(cx, i, n)?;
        if cx.rng.chance(2, 3) {
            e.close(cx, i)?;
            e.read(cx, b"BIG")?;
        }
    }
    if let Some(i) = e.writers.len().checked_sub(1) {
        e.close(cx, i)?;
    }
    e.open_writer(cx, b"BIG")?;
    e.write(cx, 0, 300)?;
    e.close(cx, 0)?;
    e.read(cx, b"BIG")?;
    e.create(cx, b"NEXT", 1, false)?;
    e.delete(cx, b"BIG")?;
    e.finish(cx)
}

pub fn c02(cx: &mut Cx) {
    let init = pick_init(cx);
    let n = steps(cx);
    let file = cx.rng.chance(1, 8);
    let _ = history(cx, init, true, file, MIXED, n);
    cx.nontrivial &= cx.counters.get("bystander_files_compared").copied().unwrap_or(0) > 0;
}

const FILL: Profile = &[
    (Op::Create, 20),
    (Op::Write, 40),
    (Op::Flush, 3),
    (Op::Close, 12),
    (Op::OpenWriter, 14),
    (Op::Delete, 9),
    (Op::Rename, 1),
    (Op::BadName, 3),
    (Op::Reopen, 3),
    (Op::Orphan, 1),
];

pub fn c03(cx: &mut Cx) {
    if cx.idx % 40 == 7 {
        let _ = brim(cx);
    } else if cx.idx % 16 == 3 {
        let _ = map_edits(cx);
        return;
    } else {
        let init = match cx.rng.below(10) {
            0..=2 => Init::Formatted,
            3 | 4 => Init::Image,
            5..=7 => Init::NearlyFull,
            8 => Init::Full,
            _ => Init::DirFull,
        };
        let n = steps(cx);
        let file = cx.rng.chance(1, 8);
        let _ = history(cx, init, true, file, FILL, n);
    }
    cx.nontrivial &= cx.counters.get("files_created").copied().unwrap_or(0) + cx.counters.get("files_deleted").copied().unwrap_or(0) > 0;
}

/// Allocate and free sectors by hand: the number of free blocks follows at once, and so does allocation.
fn map_edits(cx: &mut Cx) -> R<()> {
    let geo = ALL[cx.rng.below(8)];
    let mut b = build::Builder::new(geo, &mut cx.rng);
    let geos = cx.rng.chance(1, 4);
    if geos {
        b.make_geos(&mut cx.rng);
    }
    for _ in 0..cx.rng.below(6) {
        let n = cx.rng.below(4000);
        b.linear(&mut cx.rng, n);
    }
    let mut img = b.img.clone();
    let mut d = load_memory(geo, &img);
    let bam = match d.bam() {
        Ok(b) => b,
        Err(e) => {
            cx.fail(&["C03"], format!("no allocation map: {}", kind(&e)));
            return Ok(());
        }
    };
    cx.step(format!("{} geos={} map edited by hand, image {:016x}", geo.name(), geos, crate::rng::hash_bytes(&img)));
    cx.nontrivial = true;
    let total = |img: &[u8]| -> usize { (1..=geo.bam_tracks()).filter(|t| *t != geo.dir_track()).map(|t| geo.bam_count(img, t) as usize).sum() };
    for _ in 0..cx.rng.range(1, 40) {
        if cx.rng.chance(1, 2) {
            let got = d.blocks_free().unwrap_or(usize::MAX);
            let want = total(&img);
            cx.check(got == want, &["C03"], || format!("{} blocks free reported, {} sectors can be allocated", got, want));
            cx.ok()?;
        }
        let t = cx.rng.range(1, geo.bam_tracks() as usize) as u8;
        let f = cx.rng.chance(1, 2);
        let by = cx.rng.below(3);
        let sectors: Vec<u8> = if cx.rng.chance(1, 4) { (0..geo.spt(t)).collect() } else { vec![cx.rng.below(geo.spt(t) as usize) as u8] };
        if geo.system().iter().any(|l| l.0 == t) {
            continue;
        }
        cx.step(format!("{} {} sectors of track {}, first {} (way {})", if f { "free" } else { "allocate" }, sectors.len(), t, sectors[0], by));
        for s in sectors {
            let x = loc!(d, (t, s));
            let r = match (by, f) {
                (0, f) => bam.borrow_mut().entry_mut(t).map(|e| if f { e.free(s) } else { e.allocate(s) }),
                (_, true) => bam.borrow_mut().free(x),
                (_, false) => bam.borrow_mut().allocate(x),
            };
            cx.check(r.is_ok(), &["C03"], || format!("editing {:?} failed", (t, s)));
            geo.set_free(&mut img, (t, s), f);
        }
        cx.count("maps_edited", 1);
        let got = bam.borrow().blocks_free();
        let want = total(&img);
        cx.check(got == want, &["C03"], || format!("{} blocks free reported, {} sectors can be allocated", got, want));
        let first = bam.borrow().next_free_block(None).map(|l| (l.0, l.1)).ok();
        cx.check(first.is_some() == (want > 0), &["C03"], || format!("{} sectors can be allocated, the next free block is {:?}", want, first));
        let fm = FreeMap::from_image(&geo, &img);
        let strategy = fm.first(geos);
        cx.check(first == strategy, &["C12"], || format!("first block {:?}, the strategy says {:?}", first, strategy));
        cx.ok()?;
    }
    let r = bam.borrow_mut().flush();
    cx.check(r.is_ok(), &["C03"], || "writing the map failed".to_string());
    d.initialize();
    let got = d.blocks_free().unwrap_or(usize::MAX);
    let want = total(&img);
    cx.check(got == want, &["C03"], || format!("{} blocks free reported after reading the map again, {} sectors can be allocated", got, want));
    cx.ok()
}

/// Fill a freshly formatted disk to the last block, then empty it again.
fn brim(cx: &mut Cx) -> R<()> {
    let geo = ALL[cx.rng.below(8)];
    let mut e = Eng::formatted(cx, geo, false)?;
    let total = geo.total_data_blocks();
    let free = e.free;
    cx.check(free == total, &["C03"], || format!("a fresh {} has {} free blocks instead of {}", geo.name(), free, total));
    let fmt_total = e.d().disk_format().map(|f| f.total_data_blocks()).unwrap_or(0);
    cx.check(fmt_total == total, &["C03"], || format!("total data blocks is {} instead of {}", fmt_total, total));
    let mut k = 0;
    while e.free > 0 {
        let name = format!("F{}", k).into_bytes();
        k += 1;
        if !e.create(cx, &name, 2, true)? {
            break;
        }
        let i = e.writers.len() - 1;
        let n = match cx.rng.below(3) {
            0 => geo.size(),
            1 => cx.rng.below(60000),
            _ => cx.rng.below(6000) + 20000,
        };
        e.write(cx, i, n)?;
        e.close(cx, i)?;
        cx.ok()?;
    }
    cx.count("disks_filled", 1);
    let name = b"ONE MORE".to_vec();
    e.create(cx, &name, 2, false)?;
    let names: Vec<Vec<u8>> = e.model.keys().cloned().collect();
    for n in names {
        e.delete(cx, &n)?;
    }
    let free = e.free;
    cx.check(free == total, &["C03"], || format!("after deleting everything {} blocks are free instead of {}", free, total));
    e.finish(cx)
}

pub fn c04(cx: &mut Cx) {
    let init = pick_init(cx);
    let n = steps(cx);
    let file = cx.rng.chance(1, 8);
    let _ = history(cx, init, true, file, MIXED, n);
    cx.nontrivial &= cx.counters.get("full_audits").copied().unwrap_or(0) > 0;
}

const PERSIST: Profile = &[
    (Op::Create, 14),
    (Op::Write, 26),
    (Op::Flush, 8),
    (Op::Close, 6),
    (Op::OpenWriter, 12),
    (Op::Rename, 6),
    (Op::Delete, 8),
    (Op::BadName, 2),
    (Op::Reopen, 8),
    (Op::Attr, 4),
    (Op::Header, 4),
    (Op::Orphan, 8),
];

pub fn c05(cx: &mut Cx) {
    let init = pick_init(cx);
    let n = steps(cx);
    let file = cx.rng.chance(3, 4);
    let _ = history(cx, init, true, file, PERSIST, n);
    cx.nontrivial &= cx.counters.get("reopen_views_compared").copied().unwrap_or(0) > 0;
}

const FAILING: Profile = &[
    (Op::Create, 22),
    (Op::Write, 26),
    (Op::Close, 10),
    (Op::OpenWriter, 10),
    (Op::Delete, 5),
    (Op::Rename, 3),
    (Op::BadName, 40),
    (Op::Reopen, 2),
];

pub fn c09(cx: &mut Cx) {
    if cx.rng.chance(1, 3) {
        let _ = super::corrupt::failing_on_damage(cx);
    } else {
        let init = match cx.rng.below(8) {
            0 => Init::Formatted,
            1 | 2 => Init::Image,
            3 | 4 => Init::NearlyFull,
            5 => Init::Full,
            _ => Init::DirFull,
        };
        let n = steps(cx);
        let file = cx.rng.chance(1, 8);
        let _ = history(cx, init, true, file, FAILING, n);
    }
    cx.nontrivial &= cx.counters.get("failures_judged").copied().unwrap_or(0) > 0;
}

const DIRECTORY: Profile = &[
    (Op::Create, 34),
    (Op::Write, 8),
    (Op::Close, 6),
    (Op::OpenWriter, 6),
    (Op::Rename, 14),
    (Op::Delete, 14),
    (Op::Lookup, 6),
    (Op::BadName, 14),
    (Op::Reopen, 3),
    (Op::Attr, 8),
];

pub fn c10(cx: &mut Cx) {
    if cx.idx % 60 == 11 {
        let _ = dir_capacity(cx);
    } else if cx.idx % 25 == 23 {
        let _ = twins(cx);
    } else if cx.idx % 25 == 13 {
        let _ = walk(cx);
    } else {
        let init = match cx.rng.below(9) {
            0..=2 => Init::Formatted,
            3..=5 => Init::Image,
            6 => Init::NearlyFull,
            _ => Init::DirFull,
        };
        let n = steps(cx);
        let file = cx.rng.chance(1, 10);
        let _ = history(cx, init, true, file, DIRECTORY, n);
    }
    cx.nontrivial &= cx.counters.get("listings_compared").copied().unwrap_or(0) > 0;
}

/// Several files of one name (damage, or a DOS that allowed it): each is
/// listed, the first listed one answers to the name, and every operation
/// touches exactly one of them.
fn twins(cx: &mut Cx) -> R<()> {
    const P: &[&str] = &["C10"];
    let geo = pick_geo(cx);
    let n = cx.rng.range(3, 14);
    let geos = cx.rng.chance(1, 3);
    let mut b = random_image(geo, &mut cx.rng, n, geos, true);
    let f = Fs::parse(&geo, &b.img).map_err(|_| crate::cx::Stop)?;
    if !f.audit(&geo, &b.img).is_empty() || f.ents.len() < 2 {
        cx.nontrivial = false;
        return Ok(());
    }
    let name = cx.rng.pick(&f.ents).name.clone();
    let mut field = [0xA0u8; 16];
    field[..name.len()].copy_from_slice(&name);
    for e in &f.ents {
        if cx.rng.chance(1, 2) {
            let o = geo.offset(e.slot.0).unwrap() + e.slot.1;
            b.img[o + 5..o + 21].copy_from_slice(&field);
        }
    }
    let mut disk = load_memory(geo, &b.img);
    cx.step(format!("twins {} {:016x}", geo.name(), crate::rng::hash_bytes(&b.img)));
    let key = |e: &crate::fs::Ent| (e.slot, e.raw[2..].to_vec());
    for round in 0..cx.rng.range(3, 12) {
        let before = crate::hk::image(&*disk);
        let f = Fs::parse(&geo, &before).map_err(|_| crate::cx::Stop)?;
        let mut want: Vec<_> = f.ents.iter().map(key).collect();
        let listed: Vec<Vec<u8>> = match disk.iter().collect::<std::io::Result<Vec<_>>>() {
            Ok(v) => v.iter().map(entry_raw).collect(),
            Err(e) => {
                cx.fail(P, format!("listing a disk with two files of one name: {}", e));
                return Ok(());
            }
        };
        cx.check(listed == want.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), P, || "files of the same name are not all listed in order".to_string());
        cx.count("listings_compared", 1);
        let first = match f.find(&name) {
            Some(e) => e.clone(),
            None => break,
        };
        match disk.find_directory_entry(&pet(&name)) {
            Ok(x) => {
                cx.check(entry_raw(&x) == first.raw[2..].to_vec(), P, || "lookup of a name several files have is not the first listed".to_string());
            }
            Err(e) => cx.fail(P, format!("lookup of a name several files have: {}", e)),
        }
        cx.ok()?;
        let same: Vec<usize> = (0..f.ents.len()).filter(|i| f.ents[*i].name == name).collect();
        let i = *cx.rng.pick(&same);
        let by_entry = cx.rng.chance(1, 2);
        let i = if by_entry { i } else { same[0] };
        let e = f.ents[i].clone();
        let what;
        if cx.rng.chance(1, 3) && !by_entry {
            what = format!("rename of the first of {}", same.len());
            let new = format!("NEW{}", round).into_bytes();
            if f.find(&new).is_some() {
                continue;
            }
            let r = disk.rename(&pet(&name), &pet(&new));
            cx.check(r.is_ok(), P, || format!("{}: {:?}", what, r));
            for (k, b) in want[i].1[3..19].iter_mut().enumerate() {
                *b = new.get(k).copied().unwrap_or(0xA0);
            }
        } else {
            let file = if by_entry {
                let x = match disk.iter().nth(i) {
                    Some(Ok(x)) => x,
                    _ => return Ok(()),
                };
                disk.open_file_from_entry(&x)
            } else {
                disk.open_file(&pet(&name))
            };
            let mut file = match file {
                Ok(x) => x,
                Err(x) => {
                    cx.fail(P, format!("opening one of {} files of a name: {}", same.len(), x));
                    return Ok(());
                }
            };
            let got: Vec<_> = match file.occupied_sectors() {
                Ok(v) => v.iter().map(|l| (l.0, l.1)).collect(),
                Err(x) => {
                    cx.fail(P, format!("sectors of one of {} files of a name: {}", same.len(), x));
                    return Ok(());
                }
            };
            if let Ok(o) = &e.occupied {
                let sort = |v: &[crate::geom::Loc]| {
                    let mut v = v.to_vec();
                    v.sort();
                    v
                };
                cx.check(sort(&got) == sort(o), P, || format!("opening one of {} files of a name gave another's sectors (by entry {})", same.len(), by_entry));
            }
            if cx.rng.chance(1, 2) {
                what = format!("deletion of number {} of {} (by entry {})", i, same.len(), by_entry);
                let r = file.delete();
                cx.check(r.is_ok(), P, || format!("{}: {:?}", what, r));
                want.remove(i);
            } else {
                what = "opening".to_string();
            }
        }
        cx.step(what.clone());
        cx.ok()?;
        let after = crate::hk::image(&*disk);
        let fa = match Fs::parse(&geo, &after) {
            Ok(x) => x,
            Err(x) => {
                cx.fail(P, format!("{} left a directory that cannot be read: {:?}", what, x));
                return Ok(());
            }
        };
        let got: Vec<_> = fa.ents.iter().map(key).collect();
        cx.check(got == want, P, || format!("{} changed another file's entry as well, or the wrong one", what));
        cx.ok()?;
        cx.count("twin_operations", 1);
    }
    Ok(())
}

/// Changing files while walking the directory: every file that was there at
/// the start is listed exactly once, in order, and what the walk did to each
/// is what the disk holds afterwards.
fn walk(cx: &mut Cx) -> R<()> {
    const P: &[&str] = &["C10"];
    let geo = pick_geo(cx);
    let n = cx.rng.range(3, 40);
    let geos = cx.rng.chance(1, 3);
    let b = random_image(geo, &mut cx.rng, n, geos, true);
    let f = Fs::parse(&geo, &b.img).map_err(|_| crate::cx::Stop)?;
    if !f.audit(&geo, &b.img).is_empty() || f.ents.is_empty() {
        cx.nontrivial = false;
        return Ok(());
    }
    let mut disk = load_memory(geo, &b.img);
    cx.step(format!("walk {} files={} {:016x}", geo.name(), f.ents.len(), crate::rng::hash_bytes(&b.img)));
    // Half of the walks delete everything.
    let all = cx.rng.chance(1, 2);
    let mut want: Vec<(crate::fs::Ent, Option<Vec<u8>>)> = Vec::new();
    let mut seen = 0;
    let it = disk.iter();
    for (k, x) in it.enumerate() {
        let x = match x {
            Ok(x) => x,
            Err(e) => {
                cx.fail(P, format!("walking a directory while changing it: {}", e));
                return Ok(());
            }
        };
        let e = match f.ents.get(k) {
            Some(e) => e.clone(),
            None => {
                cx.fail(P, format!("a walk over {} files lists more", f.ents.len()));
                return Ok(());
            }
        };
        cx.check(entry_raw(&x) == e.raw[2..].to_vec(), P, || format!("file {} of a walk that changes files is not the one the directory had there", k));
        cx.ok()?;
        seen += 1;
        match if all { 0 } else { cx.rng.below(4) } {
            0 => {
                cx.step(format!("delete {}", k));
                let r = disk.open_file_from_entry(&x).and_then(|mut f| f.delete());
                cx.check(r.is_ok(), P, || format!("deleting file {} of a walk: {:?}", k, r));
            }
            1 => {
                let new = format!("WALK{}", k).into_bytes();
                if f.find(&new).is_some() || f.find(&e.name).map(|z| z.slot) != Some(e.slot) {
                    want.push((e, None));
                    continue;
                }
                cx.step(format!("rename {}", k));
                let r = disk.rename(&pet(&e.name), &pet(&new));
                cx.check(r.is_ok(), P, || format!("renaming file {} of a walk: {:?}", k, r));
                want.push((e, Some(new)));
            }
            2 => {
                // reading must not disturb the walk
                if let Ok(h) = disk.open_file_from_entry(&x) {
                    let _ = h.occupied_sectors();
                }
                want.push((e, None));
            }
            _ => want.push((e, None)),
        }
        cx.ok()?;
    }
    cx.check(seen == f.ents.len(), P, || format!("a walk that changes files lists {} of {} files", seen, f.ents.len()));
    let after = crate::hk::image(&*disk);
    let fa = match Fs::parse(&geo, &after) {
        Ok(x) => x,
        Err(x) => {
            cx.fail(P, format!("a walk left a directory that cannot be read: {:?}", x));
            return Ok(());
        }
    };
    let got: Vec<_> = fa.ents.iter().map(|e| (e.slot, e.raw[2..].to_vec())).collect();
    let want: Vec<_> = want
        .into_iter()
        .map(|(e, new)| {
            let mut raw = e.raw[2..].to_vec();
            if let Some(new) = new {
                for (k, b) in raw[3..19].iter_mut().enumerate() {
                    *b = new.get(k).copied().unwrap_or(0xA0);
                }
            }
            (e.slot, raw)
        })
        .collect();
    cx.check(got == want, P, || "the directory after a walk is not what the walk made of it".to_string());
    if all {
        let listed = disk.iter().count();
        cx.check(listed == 0, P, || format!("{} files listed after a walk deleted all of them", listed));
    }
    cx.count("listings_compared", 1);
    cx.count("walked_files", seen as u64);
    Ok(())
}

/// The directory holds exactly as many files as the format allows.
fn dir_capacity(cx: &mut Cx) -> R<()> {
    let geo = pick_geo(cx);
    let mut e = Eng::formatted(cx, geo, false)?;
    let max = geo.max_dir_entries();
    let said = e.d().disk_format().map(|f| f.max_directory_entries()).unwrap_or(0);
    cx.check(said == max, &["C10"], || format!("max_directory_entries is {} instead of {}", said, max));
    for k in 0..max {
        let ok = e.create(cx, format!("FILE{}", k).as_bytes(), 1 + (k % 3) as u8, false)?;
        if !ok {
            cx.fail(&["C10"], format!("only {} of {} directory entries could be created on {}", k, max, geo.name()));
            return Ok(());
        }
    }
    let ok = e.create(cx, b"TOO MANY", 2, false)?;
    cx.check(!ok, &["C10"], || format!("more than {} entries fit on {}", max, geo.name()));
    // A freed slot is usable again, whichever it is.
    for _ in 0..4 {
        let k = cx.rng.below(max);
        let n = format!("FILE{}", k).into_bytes();
        if e.model.contains_key(&n) {
            e.delete(cx, &n)?;
            let m = format!("AGAIN{}", k).into_bytes();
            let ok = e.create(cx, &m, 2, false)?;
            cx.check(ok, &["C10"], || "a freed directory slot could not be used again".to_string());
        }
    }
    cx.count("directories_filled", 1);
    e.finish(cx)
}

pub fn c12(cx: &mut Cx) {
    if cx.rng.chance(1, 2) {
        let _ = alloc_direct(cx);
    } else {
        let init = match cx.rng.below(6) {
            0 => Init::Formatted,
            1..=3 => Init::Image,
            4 => Init::NearlyFull,
            _ => Init::DirFull,
        };
        let n = steps(cx);
        let _ = history(cx, init, true, false, FILL, n);
    }
    cx.nontrivial &= cx.counters.get("allocations_judged").copied().unwrap_or(0) > 0;
}

fn alloc_direct(cx: &mut Cx) -> R<()> {
    let geo = ALL[cx.rng.below(8)];
    let geos = cx.rng.chance(1, 2);
    let mut b = build::Builder::new(geo, &mut cx.rng);
    if geos {
        b.make_geos(&mut cx.rng);
    }
    // A random allocation map: from empty to full, whole tracks or scattered.
    let mode = cx.rng.below(8);
    let density = cx.rng.below(101);
    // Modes 6 and 7: only a few free sectors, often at the far ends.
    let mut spare = vec![];
    for _ in 0..cx.rng.range(1, 3) {
        let far = [1, 2, geo.dir_track() - 1, geo.dir_track() + 1, geo.bam_tracks() - 1, geo.bam_tracks()];
        let t = if mode == 6 { *cx.rng.pick(&far) } else { cx.rng.range(1, geo.bam_tracks() as usize) as u8 };
        let n = geo.spt(t);
        let s = match cx.rng.below(3) {
            0 => 0,
            1 => n - 1,
            _ => cx.rng.below(n as usize) as u8,
        };
        spare.push((t, s));
    }
    let mut used = vec![];
    for t in 1..=geo.bam_tracks() {
        let track_full = cx.rng.chance(density, 100);
        for s in 0..geo.spt(t) {
            let l = (t, s);
            if geo.system().contains(&l) || b.border == Some(l) {
                continue;
            }
            let take = match mode {
                0 => cx.rng.chance(density, 100),
                1 => track_full,
                2 => track_full || cx.rng.chance(1, 2),
                3 => t > geo.dir_track(),
                4 => t < geo.dir_track() || cx.rng.chance(density, 100),
                5 => cx.rng.chance(95, 100),
                _ => !spare.contains(&l),
            };
            if take {
                geo.set_free(&mut b.img, l, false);
                used.push(l);
            }
        }
    }
    cx.step(format!("map {} geos={} mode={} used={} hash={:x}", geo.name(), geos, mode, used.len(), crate::rng::hash_bytes(&b.img[..geo.size().min(400000)])));
    let d = load_memory(geo, &b.img);
    let fm = FreeMap::from_image(&geo, &b.img);
    let bam = match d.bam() {
        Ok(b) => b,
        Err(e) => {
            cx.fail(&["C12"], format!("no allocation map: {}", kind(&e)));
            return Ok(());
        }
    };
    let mut fm = fm;
    let r = bam.borrow().next_free_block(None).map(|l| (l.0, l.1)).ok();
    let want = fm.first(geos);
    cx.count("allocations_judged", 1);
    cx.check(r == want, &["C12"], || format!("first block {:?}, the strategy says {:?} ({} geos={})", r, want, geo.name(), geos));
    for _ in 0..60 {
        let t = loop {
            let t = cx.rng.range(1, geo.bam_tracks() as usize) as u8;
            if geo.is_data_track(t) || t == geo.dir_track() {
                break t;
            }
        };
        let p = (t, cx.rng.below(geo.spt(t) as usize) as u8);
        let l = loc!(d, p);
        if cx.rng.chance(1, 4) {
            // the map changes in between, where the choice is made or elsewhere
            let t = if cx.rng.chance(1, 2) { p.0 } else { cx.rng.range(1, geo.bam_tracks() as usize) as u8 };
            let x = (t, cx.rng.below(geo.spt(t) as usize) as u8);
            if !geo.system().contains(&x) {
                let f = cx.rng.chance(1, 2);
                let y = loc!(d, x);
                let r = if f { bam.borrow_mut().free(y) } else { bam.borrow_mut().allocate(y) };
                cx.check(r.is_ok(), &["C12"], || format!("editing {:?} failed", x));
                geo.set_free(&mut b.img, x, f);
                fm = FreeMap::from_image(&geo, &b.img);
            }
        }
        let r = bam.borrow().next_free_block(Some(l)).map(|l| (l.0, l.1)).ok();
        let want = fm.next(p, geos);
        cx.count("allocations_judged", 1);
        cx.check(r == want, &["C12"], || format!("block after {:?} is {:?}, the strategy says {:?} ({} geos={})", p, r, want, geo.name(), geos));
    }
    Ok(())
}

const CRASHY: Profile = &[
    (Op::Create, 20),
    (Op::Write, 30),
    (Op::Flush, 6),
    (Op::Close, 10),
    (Op::OpenWriter, 14),
    (Op::Rename, 8),
    (Op::Delete, 12),
    (Op::BadName, 4),
    (Op::Attr, 3),
    (Op::Reopen, 1),
];

pub fn c19(cx: &mut Cx) {
    let init = pick_init(cx);
    let n = steps(cx).min(40);
    let _ = history(cx, init, true, false, CRASHY, n);
    cx.nontrivial &= cx.counters.get("crash_points").copied().unwrap_or(0) > 0;
}

/// A healthy history for the sanitizer build.
pub fn sanitize(cx: &mut Cx) {
    let init = pick_init(cx);
    let n = cx.rng.range(10, 30);
    let _ = history(cx, init, true, false, MIXED, n);
}

