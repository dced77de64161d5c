//! Properties over damaged and arbitrary images.
use super::hist::{self, pick_geo};
use crate::build::random_image;
use crate::cx::{Cx, R};
use crate::engine::{backing, read_file};
use crate::fs::{self, Content, FKind, Fs};
use crate::geom::{Geo, Kind, Loc};
use crate::hk;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use crate::valid;
use cbm::disk::directory::Extra;
use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::{Disk, Id};
use std::io::{Read, Write};

fn any_loc(geo: &Geo, rng: &mut Rng) -> Loc {
    let t = rng.range(1, geo.tracks as usize) as u8;
    (t, rng.below(geo.spt(t) as usize) as u8)
}

pub fn bad_loc(geo: &Geo, rng: &mut Rng) -> Loc {
    match rng.below(5) {
        0 => (geo.tracks + 1, 0),
        4 => (geo.tracks, geo.spt(geo.tracks)),
        1 => (rng.range(geo.tracks as usize + 1, 255) as u8, rng.byte()),
        2 => {
            let t = rng.range(1, geo.tracks as usize) as u8;
            (t, geo.spt(t))
        }
        _ => {
            let t = rng.range(1, geo.tracks as usize) as u8;
            (t, rng.range(geo.spt(t) as usize, 255) as u8)
        }
    }
}

fn some_loc(geo: &Geo, rng: &mut Rng, used: &[Loc]) -> Loc {
    match rng.below(4) {
        0 => bad_loc(geo, rng),
        1 if !used.is_empty() => *rng.pick(used),
        2 => (0, rng.byte()),
        _ => any_loc(geo, rng),
    }
}

/// One random structural injury. `dir`: the directory chain itself and the
/// allocation map may be hit as well.
pub fn injure(geo: &Geo, img: &mut Vec<u8>, rng: &mut Rng, dir: bool) -> &'static str {
    let f = match Fs::parse(geo, img) {
        Ok(f) => f,
        Err(_) => return "none",
    };
    let used: Vec<Loc> = f.ents.iter().flat_map(|e| e.occupied.clone().unwrap_or_default()).filter(|l| geo.offset(*l).is_some()).collect();
    let ent = |rng: &mut Rng| -> Option<fs::Ent> {
        if f.ents.is_empty() {
            None
        } else {
            Some(rng.pick(&f.ents).clone())
        }
    };
    let put = |img: &mut Vec<u8>, l: Loc, o: usize, v: Loc| {
        if let Some(p) = geo.offset(l) {
            img[p + o] = v.0;
            img[p + o + 1] = v.1;
        }
    };
    match rng.below(if dir { 17 } else { 10 }) {
        0 | 1 => {
            // a link of some file goes elsewhere
            if used.is_empty() {
                return "none";
            }
            let l = *rng.pick(&used);
            let v = some_loc(geo, rng, &used);
            put(img, l, 0, v);
            "link"
        }
        2 => {
            // the file's chain loops back on itself
            if let Some(e) = ent(rng) {
                if let Ok(v) = fs::chain_locs(geo, img, e.first()) {
                    let l = *v.last().unwrap();
                    let t = *rng.pick(&v);
                    put(img, l, 0, t);
                }
            }
            "loop"
        }
        3 => {
            // chain end marker without length
            if let Some(e) = ent(rng) {
                if let Ok(v) = fs::chain_locs(geo, img, e.first()) {
                    put(img, *v.last().unwrap(), 0, (0, *rng.pick(&[0u8, 0, 1, 2, 255])));
                }
            }
            "tail"
        }
        4 => {
            if let Some(e) = ent(rng) {
                let v = some_loc(geo, rng, &used);
                put(img, e.slot.0, e.slot.1 + 3, v);
            }
            "first sector"
        }
        5 => {
            if let Some(e) = ent(rng) {
                let p = geo.offset(e.slot.0).unwrap() + e.slot.1;
                let k = rng.range(2, 31);
                // never scratch an entry here; that is just a deleted file
                let v = rng.byte();
                img[p + k] = if k == 2 { v | 0x80 } else { v };
            }
            "entry byte"
        }
        6 => {
            // REL structures
            let rel: Vec<&fs::Ent> = f.ents.iter().filter(|e| e.kind == FKind::Rel).collect();
            if rel.is_empty() {
                return "none";
            }
            let e = *rng.pick(&rel);
            let p = geo.offset(e.slot.0).unwrap() + e.slot.1;
            match rng.below(4) {
                0 => img[p + 0x17] = *rng.pick(&[0u8, 1, 7, 254, 255]),
                1 => {
                    let v = some_loc(geo, rng, &used);
                    put(img, e.slot.0, e.slot.1 + 0x15, v);
                }
                _ => {
                    if let Ok(r) = fs::rel_decode(geo, img, &e.raw) {
                        let l = *rng.pick(&r.side);
                        let o = geo.offset(l).unwrap();
                        match rng.below(4) {
                            0 => img[o + 1] = rng.byte(),
                            1 => {
                                let k = rng.below(7);
                                let v = some_loc(geo, rng, &used);
                                put(img, l, 2 + 2 * k, v);
                            }
                            2 => {
                                let k = rng.below(120);
                                let v = some_loc(geo, rng, &used);
                                put(img, l, 16 + 2 * k, v);
                            }
                            _ => {
                                if let Some(d) = r.data.last() {
                                    let v = rng.byte();
                                    put(img, *d, 0, (0, v));
                                }
                            }
                        }
                    }
                }
            }
            "REL"
        }
        7 => {
            let g: Vec<&fs::Ent> = f.ents.iter().filter(|e| matches!(e.kind, FKind::Vlir | FKind::GeosSeq)).collect();
            if g.is_empty() {
                return "none";
            }
            let e = *rng.pick(&g);
            if rng.chance(1, 2) || e.kind == FKind::GeosSeq {
                let v = some_loc(geo, rng, &used);
                put(img, e.slot.0, e.slot.1 + 0x15, v);
            } else {
                let k = rng.below(20);
                let v = some_loc(geo, rng, &used);
                put(img, e.first(), 2 + 2 * k, v);
            }
            "GEOS"
        }
        8 => {
            // a second entry for the same data
            if let (Some(e), true) = (ent(rng), !f.free_slots.is_empty()) {
                let (l, o) = *rng.pick(&f.free_slots);
                let p = geo.offset(l).unwrap() + o;
                img[p + 2..p + 32].copy_from_slice(&e.raw[2..]);
                img[p + 5] ^= 1;
            }
            "twin entry"
        }
        9 => {
            if let Some(e) = ent(rng) {
                let p = geo.offset(e.slot.0).unwrap() + e.slot.1;
                img[p + 2] = 0x80 | rng.below(16) as u8 | (rng.byte() & 0x70);
            }
            "file type"
        }
        10 | 11 => {
            for _ in 0..rng.range(1, 5) {
                let t = rng.range(1, geo.bam_tracks() as usize) as u8;
                let s = rng.below(geo.spt(t) as usize) as u8;
                let free = geo.is_free(img, (t, s));
                geo.set_free(img, (t, s), !free);
            }
            "allocation"
        }
        12 => {
            let sys = geo.system();
            let l = *rng.pick(&sys);
            geo.set_free(img, l, true);
            "system sector freed"
        }
        13 => {
            // allocation bits without the counts
            let t = rng.range(1, geo.bam_tracks() as usize) as u8;
            let (_, o, n) = geo.bam_pos(t);
            img[o + rng.below(n)] ^= 1 << rng.below(8);
            "allocation bit"
        }
        14 => {
            let l = rng.pick(&f.dir).0;
            let v = some_loc(geo, rng, &used);
            put(img, l, 0, v);
            "directory link"
        }
        15 => {
            let h = geo.offset(geo.header()).unwrap();
            if f.geos {
                let v = some_loc(geo, rng, &used);
                img[h + 0xAB] = v.0;
                img[h + 0xAC] = v.1;
                "border"
            } else {
                "none"
            }
        }
        _ => {
            // a free sector gets allocated, or the other way round
            if !used.is_empty() {
                let l = *rng.pick(&used);
                if l.0 <= geo.bam_tracks() {
                    geo.set_free(img, l, true);
                }
            }
            "file sector freed"
        }
    }
}

pub fn c06(cx: &mut Cx) {
    let geo = pick_geo(cx);
    let files = cx.rng.below(10);
    let geos = cx.rng.chance(1, 3);
    let b = random_image(geo, &mut cx.rng, files, geos, true);
    let mut img = b.img;
    let mut what = vec![];
    for _ in 0..cx.rng.below(7) {
        what.push(injure(&geo, &mut img, &mut cx.rng, true));
    }
    cx.step(format!("{} {} files, injuries {:?}, image {:016x}", geo.name(), files, what, hash_bytes(&img)));
    let want = valid::expected(&geo, &img);
    let file = cx.rng.chance(1, 10);
    let (d, path) = backing(cx, geo, &img, file);
    let got = d.validate();
    let after = match &path {
        Some(p) => std::fs::read(p).unwrap(),
        None => hk::image(&*d),
    };
    cx.check(after == img, &["C06"], || "validate() modified the image".to_string());
    match (&want, &got) {
        (Err(_), Err(_)) => cx.count("unreadable_directories", 1),
        (Err(e), Ok(v)) => cx.fail(&["C06"], format!("the directory cannot be traversed ({:?}) but validate() returned {} problems", e, v.len())),
        (Ok(_), Err(e)) => cx.fail(&["C06"], format!("validate() failed with {} on a readable directory", kind(e))),
        (Ok(w), Ok(g)) => {
            let g = valid::convert(g);
            cx.count("problems_expected", w.len() as u64);
            cx.count(if w.is_empty() { "clean_images" } else { "dirty_images" }, 1);
            if w.is_empty() && files == 0 {
                cx.nontrivial = false;
            }
            if *w != g {
                let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(3).collect();
                let miss: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(3).collect();
                cx.fail(&["C06"], format!("validate() reports {} problems, there are {}; not real: {:02x?}; missed: {:02x?}", g.len(), w.len(), extra, miss));
            }
        }
    }
    // The same verdict again, and through a fresh open.
    if cx.rng.chance(1, 4) {
        let again = d.validate();
        let fresh = load_memory(geo, &img).validate();
        if let (Ok(a), Ok(b), Ok(c)) = (&got, &again, &fresh) {
            let (a, b, c) = (valid::convert(a), valid::convert(b), valid::convert(c));
            cx.check(a == b && a == c, &["C06"], || "validate() is not repeatable".to_string());
        }
    }
}

/// An arbitrary image.
pub fn hostile(cx: &mut Cx) -> (Geo, Vec<u8>) {
    let geo = pick_geo(cx);
    let rng = &mut cx.rng;
    match rng.below(8) {
        0 => {
            let n = geo.size();
            let mut img = rng.bytes(n);
            if rng.chance(3, 4) && geo.kind == Kind::D71 {
                let h = geo.offset(geo.header()).unwrap();
                img[h + 3] |= 0x80;
            }
            (geo, img)
        }
        1 => {
            // every sector links to some other existing sector
            let mut b = random_image(geo, rng, 6, rng.clone().chance(1, 2), true).img;
            for l in geo.locs() {
                if l == geo.header() || rng.chance(1, 2) {
                    continue;
                }
                let v = any_loc(&geo, rng);
                let o = geo.offset(l).unwrap();
                b[o] = v.0;
                b[o + 1] = v.1;
            }
            (geo, b)
        }
        2 => {
            // a directory of random entries
            let mut b = random_image(geo, rng, 3, rng.clone().chance(1, 2), true).img;
            let dir = Fs::parse(&geo, &b).map(|f| f.dir).unwrap_or_default();
            for (l, _) in dir {
                let o = geo.offset(l).unwrap();
                for k in 0..8 {
                    let g = rng.bytes(30);
                    b[o + k * 32 + 2..o + k * 32 + 32].copy_from_slice(&g);
                    if rng.chance(1, 2) {
                        b[o + k * 32 + 2] = 0x80 | (rng.below(5) as u8);
                    }
                    if rng.chance(2, 3) {
                        let v = any_loc(&geo, rng);
                        b[o + k * 32 + 3] = v.0;
                        b[o + k * 32 + 4] = v.1;
                        let v = any_loc(&geo, rng);
                        b[o + k * 32 + 0x15] = v.0;
                        b[o + k * 32 + 0x16] = v.1;
                        b[o + k * 32 + 0x17] = *rng.pick(&[0u8, 0, 1, 1, 2, 254]);
                    }
                }
            }
            (geo, b)
        }
        _ => {
            let files = rng.below(12);
            let geos = rng.chance(1, 3);
            let mut img = random_image(geo, rng, files, geos, true).img;
            for _ in 0..rng.range(1, 12) {
                injure(&geo, &mut img, rng, true);
            }
            if rng.chance(1, 3) {
                // random bytes anywhere near the metadata
                for _ in 0..rng.range(1, 40) {
                    let s = rng.below(geo.spt(geo.dir_track()) as usize) as u8;
                    let o = geo.offset((geo.dir_track(), s)).unwrap();
                    let k = rng.below(256);
                    img[o + k] = rng.byte();
                }
            }
            (geo, img)
        }
    }
}

fn poke_file(cx: &mut Cx, f: &File, limit: usize) {
    cx.count("files_poked", 1);
    let _ = f.occupied_sectors();
    let _ = f.name();
    let n = f.record_count();
    if let Ok(n) = n {
        for i in [0, 1, n / 2, n.wrapping_sub(1), n, n + 1, 127, usize::MAX] {
            let _ = f.record(i);
        }
    }
    if let Err(e) = read_file(cx, f, limit) {
        cx.count("reads_refused", 1);
        if e.contains("more data than") || e.contains("more than the buffer") || e.contains("data after end") {
            cx.fail(&["C07"], format!("reading {:?}: {}", f.entry(), e));
        }
    }
    let _ = f.geos_info();
    for v in 0..3 {
        let mut out = vec![];
        let _ = f.details(&mut out, v);
    }
    let mut out = vec![];
    let _ = f.dump(&mut out);
    if let File::GEOSSequential(g) | File::GEOSVLIR(g) = f {
        if let Ok(mut r) = g.reader() {
            let mut buf = vec![0u8; cx.rng.range(1, 700)];
            let mut total = 0;
            loop {
                match r.read(&mut buf) {
                    Ok(0) => break,
                    Ok(n) => {
                        total += n;
                        if total > 130 * limit {
                            cx.fail(&["C07"], format!("the Convert stream of {:?} does not end", f.entry()));
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        }
        if let Ok(Some(i)) = g.info() {
            let mut b = [0u8; 256];
            i.to_bytes(&mut b);
            let _ = i.icon.to_unicode();
        }
    }
}

fn poke_read(cx: &mut Cx, d: &mut (dyn Disk + 'static), geo: &Geo) {
    let limit = geo.size();
    let _ = format!("{} {:?}", &*d, &*d);
    let _ = d.name().map(|n| n.to_string());
    let _ = d.header().map(|h| format!("{:?}", h));
    if let Ok(b) = d.bam() {
        let b = b.borrow();
        let _ = format!("{:?}", b);
        let _ = b.blocks_free();
        let _ = b.allocated_sectors();
        let _ = b.free_sectors();
        for _ in 0..20 {
            let l = any_loc(geo, &mut cx.rng);
            let l = loc!(d, l);
            let _ = b.next_free_block(Some(l));
            let _ = b.entry(cx.rng.byte());
        }
        let _ = b.next_free_block(None);
    }
    let _ = d.blocks_free();
    match d.validate() {
        Ok(v) => {
            for e in v.iter().take(50) {
                let _ = format!("{} {:?}", e, e);
            }
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
            cx.count("refused", 1);
        }
    }
    let mut n = 0;
    let mut entries = vec![];
    for e in d.iter() {
        n += 1;
        if n > 8 * geo.sectors() + 16 {
            cx.fail(&["C07"], "the directory listing does not end".into());
            break;
        }
        match e {
            Ok(e) => entries.push(e),
            Err(_) => break,
        }
    }
    cx.count("entries_visited", entries.len() as u64);
    for e in entries.iter().take(24) {
        let _ = format!("{} {:?}", e, e);
        let mut b = [0u8; 32];
        e.to_bytes(&mut b);
        let _ = d.find_directory_entry(&e.filename);
        match d.open_file_from_entry(e) {
            Ok(f) => poke_file(cx, &f, limit),
            Err(_) => cx.count("opens_refused", 1),
        }
    }
    let mut out = vec![];
    let _ = d.dump(&mut out);
    // Sector addresses around every boundary, and anywhere.
    let mut at: Vec<Loc> = vec![(0, 0), (0, 1), (0, 255), (geo.tracks + 1, 0), (geo.tracks + 1, 1), (255, 0), (255, 255), (geo.tracks, 255)];
    for t in 1..=geo.tracks {
        at.push((t, geo.spt(t)));
    }
    at.push((1, 0));
    at.push((geo.tracks, geo.spt(geo.tracks) - 1));
    for _ in 0..6 {
        at.push((cx.rng.byte(), cx.rng.byte()));
    }
    for l in at {
        cx.count("addresses_probed", 1);
        let l = loc!(d, l);
        let r = d.read_sector(l);
        let want = geo.offset((l.0, l.1)).is_some();
        cx.check(r.is_ok() == want, &["C07"], || format!("read_sector({:?}) gave ok={} for {}", (l.0, l.1), r.is_ok(), geo.name()));
        if let Ok(v) = r {
            cx.check(v.len() == 256, &["C07"], || format!("read_sector({:?}) returned {} bytes", (l.0, l.1), v.len()));
        }
    }
}

fn poke_write(cx: &mut Cx, d: &mut dyn Disk, geo: &Geo) {
    for _ in 0..cx.rng.range(3, 14) {
        let entries: Vec<_> = d.iter().take(200).filter_map(|e| e.ok()).collect();
        let pick = if entries.is_empty() { None } else { Some(cx.rng.pick(&entries).clone()) };
        let name = crate::build::random_name(&mut cx.rng, 18);
        cx.count("mutations_attempted", 1);
        match cx.rng.below(12) {
            11 => {
                // sectors that do not exist, and blocks of the wrong size
                let l = if cx.rng.chance(1, 2) { bad_loc(geo, &mut cx.rng) } else { any_loc(geo, &mut cx.rng) };
                let n = *cx.rng.pick(&[256usize, 256, 0, 1, 100, 255, 257, 512]);
                let data = cx.rng.content(n);
                let x = loc!(d, l);
                let ok = d.write_sector(x, &data).is_ok();
                let want = n == 256 && geo.offset(l).is_some();
                cx.check(ok == want, &["C07"], || format!("write_sector({:?}) of {} bytes gave ok={} for {}", l, n, ok, geo.name()));
            }
            0 | 1 => {
                if let Some(e) = pick {
                    if let Ok(mut f) = d.open_file_from_entry(&e) {
                        let _ = f.delete();
                    }
                }
            }
            2 | 3 => {
                if let Some(e) = pick {
                    if let Ok(f) = d.open_file_from_entry(&e) {
                        if let Ok(mut w) = f.writer() {
                            let n = cx.rng.below(3000);
                            let data = cx.rng.content(n);
                            let _ = w.write_all(&data);
                            let _ = w.flush();
                        }
                    }
                }
            }
            4 | 5 => {
                let t = *cx.rng.pick(&[0u8, 1, 2, 3]);
                if let Ok(f) = d.create_file(&pet(&name), ftype(t), Scheme::Linear) {
                    if let Ok(mut w) = f.writer() {
                        let n = if cx.rng.chance(1, 10) { geo.size() } else { cx.rng.below(3000) };
                        let data = cx.rng.content(n);
                        let _ = w.write_all(&data);
                    }
                }
            }
            6 => {
                if let Some(e) = pick {
                    let _ = d.rename(&e.filename, &pet(&name));
                }
            }
            7 => {
                if let Some(mut e) = pick {
                    e.file_attributes.locked_flag ^= true;
                    if let Extra::Linear(ref mut x) = e.extra {
                        x.unused[0] ^= 1;
                    }
                    if cx.rng.chance(1, 3) {
                        let n = cx.rng.below(40);
                        e.filename = pet(&cx.rng.bytes(n));
                    }
                    let _ = d.write_directory_entry(&e);
                }
            }
            8 => {
                if let Ok(h) = d.header_mut() {
                    let cut = name.len().min(16);
                    h.disk_name = pet(&name[..cut]);
                }
                let _ = d.flush_header();
            }
            9 => {
                let e = d.next_free_directory_entry();
                if let Ok(e) = e {
                    let _ = format!("{:?}", e);
                }
            }
            _ => {
                if let Ok(b) = d.bam() {
                    let mut b = b.borrow_mut();
                    let l = loc!(d, (cx.rng.byte(), cx.rng.byte()));
                    let _ = b.allocate(l);
                    let _ = b.free(l);
                    let l = any_loc(geo, &mut cx.rng);
                    let l = loc!(d, l);
                    let _ = b.free(l);
                    let _ = b.flush();
                }
            }
        }
    }
    if cx.rng.chance(1, 6) {
        let name = crate::build::random_name(&mut cx.rng, 18);
        let _ = d.write_format(&pet(&name), &Id::from_bytes(&name));
    }
}

pub fn c07(cx: &mut Cx) {
    let (geo, img) = hostile(cx);
    cx.step(format!("{} image {:016x}", geo.name(), hash_bytes(&img)));
    let file = cx.rng.chance(1, 12);
    let (mut d, _) = backing(cx, geo, &img, file);
    hk::reset(5_000_000);
    poke_read(cx, &mut *d, &geo);
    poke_write(cx, &mut *d, &geo);
    poke_read(cx, &mut *d, &geo);
    d.initialize();
    let _ = d.validate();
    let c = |k: &str| cx.counters.get(k).copied().unwrap_or(0);
    cx.nontrivial = c("entries_visited") + c("refused") > 0;
}

pub fn c21(cx: &mut Cx) {
    if cx.idx % 2 == 0 {
        hist::sanitize(cx);
    } else {
        let (geo, img) = hostile(cx);
        cx.step(format!("{} image {:016x}", geo.name(), hash_bytes(&img)));
        let mut d = load_memory(geo, &img);
        poke_read(cx, &mut *d, &geo);
        poke_write(cx, &mut *d, &geo);
        poke_read(cx, &mut *d, &geo);
    }
    let c = |k: &str| cx.counters.get(k).copied().unwrap_or(0);
    cx.nontrivial = c("entries_visited") + c("ops") > 0;
}

/// C09 on damaged files: an operation that fails must change nothing.
pub fn failing_on_damage(cx: &mut Cx) -> R<()> {
    let geo = pick_geo(cx);
    let files = cx.rng.range(1, 12);
    let geos = cx.rng.chance(1, 3);
    let mut b = random_image(geo, &mut cx.rng, files, geos, true);
    if cx.rng.chance(1, 4) {
        let left = cx.rng.below(6);
        b.fill_until(&mut cx.rng, left);
    }
    let mut img = b.img;
    let mut what = vec![];
    for _ in 0..cx.rng.range(1, 6) {
        what.push(injure(&geo, &mut img, &mut cx.rng, false));
    }
    cx.step(format!("{} injuries {:?} image {:016x}", geo.name(), what, hash_bytes(&img)));
    let mut d = load_memory(geo, &img);
    for _ in 0..cx.rng.range(4, 14) {
        let before = hk::image(&*d);
        let fb = match Fs::parse(&geo, &before) {
            Ok(f) => f,
            Err(_) => return Ok(()),
        };
        if fb.ents.is_empty() {
            break;
        }
        let free = d.blocks_free().ok();
        let e = cx.rng.pick(&fb.ents).clone();
        let entry = match d.find_directory_entry(&pet(&e.name)) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let op = cx.rng.below(4);
        let name = crate::build::random_name(&mut cx.rng, 16);
        let (what, r) = match op {
            0 | 1 => ("delete", d.open_file_from_entry(&entry).and_then(|mut f| f.delete())),
            2 => (
                "append",
                d.open_file_from_entry(&entry).and_then(|f| {
                    let _w = f.writer()?;
                    Ok(())
                }),
            ),
            _ => ("create", d.create_file(&pet(&name), ftype(2), Scheme::Linear).map(|_| ())),
        };
        cx.step(format!("{} {:02x?} -> {:?}", what, e.name, r.as_ref().map_err(kind)));
        let after = hk::image(&*d);
        if let Err(x) = r {
            let k = kind(&x);
            cx.count("failures_judged", 1);
            cx.count("failures_on_damage", 1);
            let fa = match Fs::parse(&geo, &after) {
                Ok(f) => f,
                Err(_) => {
                    cx.fail(&["C09"], format!("{} failed with {} and broke the directory", what, k));
                    return Ok(());
                }
            };
            let same = fa.ents.len() == fb.ents.len() && fa.ents.iter().zip(fb.ents.iter()).all(|(a, b)| a.slot == b.slot && a.raw[2..] == b.raw[2..] && same_content(&a.content, &b.content));
            cx.check(same, &["C09"], || format!("{} of {:02x?} failed with {} but files changed", what, e.name, k));
            cx.check(fa.dir == fb.dir, &["C09"], || format!("{} failed with {} but the directory chain changed", what, k));
            for t in 1..=geo.bam_tracks() {
                let (a, b) = (geo.bam_map(&before, t), geo.bam_map(&after, t));
                cx.check(a == b, &["C09"], || format!("{} of {:02x?} failed with {} but the allocation of track {} went from {:x} to {:x}", what, e.name, k, t, a, b));
            }
            let now = d.blocks_free().ok();
            cx.check(now == free, &["C09"], || format!("{} of {:02x?} failed with {} but blocks free went from {:?} to {:?}", what, e.name, k, free, now));
            cx.ok()?;
        }
    }
    Ok(())
}

fn same_content(a: &Content, b: &Content) -> bool {
    match (a, b) {
        (Content::Bad(_), Content::Bad(_)) => true,
        _ => a == b,
    }
}
