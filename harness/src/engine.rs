//! Drives the crate through random histories of operations while monitors
//! compare, after every operation, the raw image (decoded independently) and
//! the crate's own view with a model of what a user expects.
use crate::alloc::FreeMap;
use crate::build;
use crate::cx::{Cx, Stop, R};
use crate::fs::{self, strip, Content, Ent, FKind, Fs};
use crate::geom::{Geo, Kind, Loc};
use crate::hk;
use crate::util::*;
use cbm::disk::directory::Extra;
use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::{Disk, Id, ValidationError};
use cbm::Petscii;
use std::collections::{BTreeMap, BTreeSet};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::rc::Rc;
use std::path::PathBuf;

pub struct MFile {
    pub kind: FKind,
    pub content: Content,
    pub blocks: usize,
    /// The raw directory entry (bytes 2..32) as the model expects it.
    pub meta: Vec<u8>,
    /// The size field is meaningful (the crate maintained it from the start).
    pub sized: bool,
}

pub struct Wr {
    pub name: Vec<u8>,
    pub w: Box<dyn Write>,
    pub dirty: bool,
    /// bytes known to have reached the image
    pub settled: usize,
}

/// A reader that is used a little at a time while other things happen.
pub struct Slow {
    pub name: Vec<u8>,
    pub r: Box<dyn Read>,
    pub got: Vec<u8>,
    /// what was on the image when the reader was opened
    pub min: usize,
}

pub struct Eng {
    pub geo: Geo,
    pub disk: Option<Box<dyn Disk>>,
    pub path: Option<PathBuf>,
    pub model: BTreeMap<Vec<u8>, MFile>,
    pub writers: Vec<Wr>,
    pub handles: Vec<(Vec<u8>, File)>,
    pub slow: Vec<Slow>,
    pub img: Vec<u8>,
    pub fs: Fs,
    pub free: usize,
    pub geos: bool,
    pub disk_name: Vec<u8>,
    pub disk_id: [u8; 2],
    pub crash: Option<Rc<RefCell<Crash>>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Create,
    Write,
    Flush,
    Close,
    OpenWriter,
    Read,
    Rename,
    Delete,
    List,
    BadName,
    Reopen,
    Attr,
    Header,
    Validate,
    Orphan,
    Lookup,
}

pub type Profile = &'static [(Op, usize)];

pub const MIXED: Profile = &[
    (Op::Create, 14),
    (Op::Write, 30),
    (Op::Flush, 5),
    (Op::Close, 8),
    (Op::OpenWriter, 12),
    (Op::Read, 10),
    (Op::Rename, 5),
    (Op::Delete, 8),
    (Op::List, 3),
    (Op::BadName, 5),
    (Op::Reopen, 3),
    (Op::Attr, 2),
    (Op::Header, 1),
    (Op::Validate, 2),
    (Op::Orphan, 2),
    (Op::Lookup, 2),
];

/// What the target of an operation may look like if the process dies at any
/// block write of that operation.
pub enum Rule {
    /// nothing visible may change
    Nothing,
    Create(Vec<u8>),
    /// old content plus a prefix of what was handed over since
    Grow(Vec<u8>, Vec<u8>),
    Rename(Vec<u8>, Vec<u8>),
    Delete(Vec<u8>),
    /// the entry's attributes may change, nothing else
    Attr(Vec<u8>),
}

pub struct Crash {
    geo: Geo,
    before: Fs,
    /// sectors that were in use, and marked so, when the operation began
    /// (those of a file being deleted excepted)
    used: Vec<Loc>,
    disk_name: Vec<u8>,
    rule: Rule,
    pub points: u64,
    pub fails: Vec<String>,
    pub keep: Vec<Vec<u8>>,
}

impl Crash {
    fn judge(&mut self, at: Option<(u8, u8)>, img: &[u8]) {
        self.points += 1;
        if !self.fails.is_empty() {
            return;
        }
        let n = self.points;
        let bad = |m: String| format!("crash before block write #{} (sector {:?}): {}", n, at, m);
        let fs = match Fs::parse_art(&self.geo, img) {
            Ok(f) => f,
            Err(e) => {
                self.fails.push(bad(format!("the directory cannot be traversed: {:?}", e)));
                return;
            }
        };
        let h = self.geo.sector(img, self.geo.header()).unwrap();
        if h[self.geo.name_offset()..self.geo.name_offset() + 16] != self.disk_name[..] {
            self.fails.push(bad("the disk name is damaged".into()));
            return;
        }
        let (old, new): (Option<&[u8]>, Option<&[u8]>) = match &self.rule {
            Rule::Nothing => (None, None),
            Rule::Create(n) => (None, Some(n)),
            Rule::Grow(n, _) | Rule::Delete(n) | Rule::Attr(n) => (Some(n), None),
            Rule::Rename(a, b) => (Some(a), Some(b)),
        };
        for e in &self.before.ents {
            if Some(&e.name[..]) == old {
                continue;
            }
            match fs.ents.iter().find(|x| x.slot == e.slot) {
                Some(x) if x.raw[2..] == e.raw[2..] && x.content == e.content => {}
                Some(x) => self.fails.push(bad(format!("uninvolved file {:02x?} changed: {:?} -> {:?}", e.name, e.content, x.content))),
                None => self.fails.push(bad(format!("uninvolved file {:02x?} disappeared", e.name))),
            }
        }
        for x in &fs.ents {
            if Some(&x.name[..]) != old && Some(&x.name[..]) != new && !self.before.ents.iter().any(|e| e.slot == x.slot) {
                self.fails.push(bad(format!("a file {:02x?} appeared from nowhere", x.name)));
            }
        }
        for (l, o) in fs.owners(&self.geo) {
            if o.len() > 1 {
                self.fails.push(bad(format!("sector {:?} has several owners: {:?}", l, o)));
                break;
            }
        }
        // what was safe from being overwritten stays so
        if let Some(l) = self.used.iter().find(|l| self.geo.is_free(img, **l)) {
            self.fails.push(bad(format!("sector {:?} is in use but marked free", l)));
        }
        if let Some((l, _)) = fs.dir.iter().find(|d| self.geo.is_free(img, d.0) && !self.before.dir.iter().any(|b| b.0 == d.0)) {
            self.fails.push(bad(format!("the directory goes on in sector {:?}, which is marked free", l)));
        }
        if let Rule::Create(n) = &self.rule {
            if let Some(l) = fs.find(n).and_then(|e| e.occupied.iter().flatten().find(|l| self.geo.is_free(img, **l))) {
                self.fails.push(bad(format!("the new file has sector {:?}, which is marked free", l)));
            }
        }
        let was = old.and_then(|n| self.before.find(n));
        let msg = match &self.rule {
            Rule::Nothing => None,
            Rule::Create(n) => match fs.find(n) {
                None => None,
                Some(x) if x.content == Content::Bytes(vec![]) => None,
                Some(x) => Some(format!("the new file appears with content {:?}", x.content)),
            },
            Rule::Grow(n, full) => match (was, fs.find(n)) {
                (Some(w), Some(x)) => {
                    let min = match &w.content {
                        Content::Bytes(b) => b.len(),
                        _ => 0,
                    };
                    match &x.content {
                        Content::Bytes(b) if full.starts_with(b) && b.len() >= min && x.raw[2..30] == w.raw[2..30] => None,
                        c => Some(format!("the file being written holds {:?}; it had {} bytes before", c, min)),
                    }
                }
                (_, None) => Some("the file being written is gone".into()),
                (None, _) => None,
            },
            Rule::Rename(a, b) => {
                let hits: Vec<&Ent> = fs.ents.iter().filter(|e| e.name == *a || e.name == *b).collect();
                match (was, hits.len()) {
                    (Some(w), 1) if hits[0].content == w.content && hits[0].raw[2..5] == w.raw[2..5] && hits[0].raw[21..] == w.raw[21..] => None,
                    (Some(_), k) => Some(format!("the renamed file is there {} times or damaged", k)),
                    (None, _) => None,
                }
            }
            Rule::Delete(n) => match (was, fs.find(n)) {
                (_, None) => None,
                (Some(w), Some(x)) if x.content == w.content => None,
                (_, Some(x)) => Some(format!("the file being deleted is listed with content {:?}", x.content)),
            },
            Rule::Attr(n) => match (was, fs.find(n)) {
                (Some(w), Some(x)) if x.content == w.content && x.raw[3..21] == w.raw[3..21] => None,
                (_, x) => Some(format!("the file is damaged: {:?}", x.map(|x| &x.content))),
            },
        };
        if let Some(m) = msg {
            self.fails.push(bad(m));
        }
        if self.keep.len() < 2 && n % 7 == 3 {
            self.keep.push(img.to_vec());
        }
    }
}

/// What an operation was allowed to change.
struct Info<'a> {
    what: &'a str,
    targets: Vec<Vec<u8>>,
    /// Err(kind) if the operation failed
    res: Result<(), String>,
    header: bool,
}

const ENGINE: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C09", "C10", "C12", "C19"];

pub fn backing(cx: &mut Cx, geo: Geo, img: &[u8], file: bool) -> (Box<dyn Disk>, Option<PathBuf>) {
    if file {
        let p = cx.file(&format!("case.{}", geo.ext()));
        std::fs::write(&p, img).unwrap();
        (open_path(geo, &p, true).unwrap(), Some(p))
    } else {
        (load_memory(geo, img), None)
    }
}

impl Eng {
    /// A disk freshly formatted by the crate.
    pub fn formatted(cx: &mut Cx, geo: Geo, file: bool) -> R<Eng> {
        let mut name = build::random_name(&mut cx.rng, 16);
        if cx.rng.chance(1, 10) {
            name.clear();
        }
        let id = [cx.rng.byte(), cx.rng.byte()];
        let (mut disk, path) = if file {
            let p = cx.file(&format!("case.{}", geo.ext()));
            let _ = std::fs::remove_file(&p);
            let d: Box<dyn Disk> = match (geo.kind, geo.tracks) {
                (Kind::D64, 40) => Box::new(cbm::disk::D64::create(&p, cbm::disk::D64::geometry_40_tracks(geo.err), true).unwrap()),
                (Kind::D64, _) => Box::new(cbm::disk::D64::create(&p, cbm::disk::D64::geometry(geo.err), true).unwrap()),
                (Kind::D71, _) => Box::new(cbm::disk::D71::create(&p, cbm::disk::D71::geometry(geo.err), true).unwrap()),
                (Kind::D81, _) => Box::new(cbm::disk::D81::create(&p, cbm::disk::D81::geometry(geo.err), true).unwrap()),
            };
            (d, Some(p))
        } else {
            (memory(geo), None)
        };
        cx.step(format!("format {} name={:02x?} id={:02x?}", geo.name(), name, id));
        if let Err(e) = disk.write_format(&pet(&name), &Id::from_bytes(&id)) {
            cx.fail(ENGINE, format!("formatting a {} image failed: {}", geo.name(), kind(&e)));
            return Err(Stop);
        }
        Eng::start(cx, geo, disk, path)
    }

    pub fn from_image(cx: &mut Cx, geo: Geo, img: &[u8], file: bool) -> R<Eng> {
        let (disk, path) = backing(cx, geo, img, file);
        Eng::start(cx, geo, disk, path)
    }

    fn start(cx: &mut Cx, geo: Geo, disk: Box<dyn Disk>, path: Option<PathBuf>) -> R<Eng> {
        let img = match &path {
            Some(p) => std::fs::read(p).unwrap(),
            None => hk::image(&*disk),
        };
        hk::with(|s| s.medium = if path.is_some() && cx.is("C05") { Some(img.clone()) } else { None });
        let fs = match Fs::parse_art(&geo, &img) {
            Ok(f) => f,
            Err(e) => {
                cx.fail(ENGINE, format!("initial image cannot be decoded: {:?}", e));
                return Err(Stop);
            }
        };
        let audit = fs.audit(&geo, &img);
        if !audit.is_empty() {
            cx.count("initial_image_rejected", 1);
            cx.fail(&["C03", "C04"], format!("freshly formatted or built image is inconsistent: {}", audit[0]));
            return Err(Stop);
        }
        let mut model = BTreeMap::new();
        for e in &fs.ents {
            let blocks = e.occupied.as_ref().map(|v| v.len()).unwrap_or(0);
            model.insert(
                e.name.clone(),
                MFile { kind: e.kind, content: e.content.clone(), blocks, meta: e.meta().to_vec(), sized: e.kind == FKind::Linear && e.size() as usize == blocks },
            );
        }
        let h = geo.sector(&img, geo.header()).unwrap();
        let disk_name = h[geo.name_offset()..geo.name_offset() + 16].to_vec();
        let disk_id = [h[geo.id_offset()], h[geo.id_offset() + 1]];
        let free = fs::free_data_blocks(&geo, &img);
        let geos = fs.geos;
        Ok(Eng { geo, disk: Some(disk), path, model, writers: vec![], handles: vec![], slow: vec![], img, fs, free, geos, disk_name, disk_id, crash: None })
    }

    pub fn d(&mut self) -> &mut dyn Disk {
        &mut **self.disk.as_mut().unwrap()
    }

    pub fn image(&self) -> Vec<u8> {
        match &self.path {
            Some(p) => std::fs::read(p).unwrap(),
            None => hk::image(&**self.disk.as_ref().unwrap()),
        }
    }

    fn writer_of(&self, name: &[u8]) -> Option<usize> {
        self.writers.iter().position(|w| w.name == name)
    }

    fn settled(&self) -> bool {
        self.writers.iter().all(|w| !w.dirty)
    }

    fn len_of(&self, name: &[u8]) -> usize {
        match &self.model[name].content {
            Content::Bytes(b) => b.len(),
            _ => 0,
        }
    }

    fn owned_map(&self) -> FreeMap<'_> {
        let owners = self.fs.owners(&self.geo);
        let mut maps = vec![0u64];
        for t in 1..=self.geo.bam_tracks() {
            let mut m = (1u64 << self.geo.spt(t)) - 1;
            for s in 0..self.geo.spt(t) {
                if owners.contains_key(&(t, s)) {
                    m &= !(1 << s);
                }
            }
            maps.push(m);
        }
        FreeMap { geo: &self.geo, maps }
    }

    fn bam_bytes(&self, l: Loc) -> Vec<(usize, usize)> {
        match (self.geo.kind, l) {
            (Kind::D64, (18, 0)) => vec![(4, 0x90)],
            (Kind::D71, (18, 0)) => vec![(4, 0x90), (0xDD, 0x100)],
            (Kind::D71, (53, 0)) => vec![(0, 105)],
            (Kind::D81, (40, 1)) | (Kind::D81, (40, 2)) => vec![(0x10, 0x100)],
            _ => vec![],
        }
    }

    /// Watch every block write of the coming operation as a crash point.
    fn arm(&mut self, cx: &Cx, rule: Rule) {
        if !cx.is("C19") {
            return;
        }
        let going = match &rule {
            Rule::Delete(n) => self.fs.find(n).map(|e| e.slot),
            _ => None,
        };
        let mut used: Vec<Loc> = self.geo.system();
        used.extend(self.fs.dir.iter().map(|d| d.0));
        used.extend(self.fs.border);
        for e in self.fs.ents.iter().filter(|e| Some(e.slot) != going) {
            used.extend(e.occupied.iter().flatten());
        }
        used.retain(|l| self.geo.is_free(&self.img, *l) == false);
        let c = Rc::new(RefCell::new(Crash {
            geo: self.geo,
            before: self.fs.clone(),
            used,
            disk_name: self.disk_name.clone(),
            rule,
            points: 0,
            fails: vec![],
            keep: vec![],
        }));
        self.crash = Some(c.clone());
        hk::with(|s| s.on_write = Some(Box::new(move |l, img| c.borrow_mut().judge(Some(l), img))));
    }

    fn disarm(&mut self, cx: &mut Cx, what: &str, after: &[u8]) {
        hk::with(|s| s.on_write = None);
        if let Some(c) = self.crash.take() {
            let mut c = c.borrow_mut();
            c.judge(None, after);
            cx.count("crash_points", c.points);
            if let Some(f) = c.fails.first() {
                cx.fail(&["C19"], format!("{}: {}", what, f));
            }
            let keep = std::mem::take(&mut c.keep);
            drop(c);
            for img in keep {
                self.recover(cx, what, &img);
            }
        }
    }

    /// The crate itself must be able to use what a crash left behind.
    fn recover(&self, cx: &mut Cx, what: &str, img: &[u8]) {
        cx.count("crash_images_reopened", 1);
        let d = load_memory(self.geo, img);
        match (Self::view(cx, &*d, self.geo.size()), Fs::parse_art(&self.geo, img)) {
            (Ok(v), Ok(f)) => {
                let a: Vec<(&[u8], &Content)> = v.files.iter().map(|x| (&x.0[..], &x.2)).collect();
                let b: Vec<(&[u8], &Content)> = f.ents.iter().map(|e| (&e.name[..], &e.content)).collect();
                cx.check(a == b, &["C19"], || format!("after a crash during {}: reopening shows {:?}, the image holds {:?}", what, a, b));
            }
            (Err(e), _) => cx.fail(&["C19"], format!("after a crash during {}: {}", what, e)),
            _ => {}
        }
    }

    /// Monitors that run after every operation.
    fn post(&mut self, cx: &mut Cx, info: Info) -> R<()> {
        cx.count("ops", 1);
        let after = self.image();
        self.disarm(cx, info.what, &after);
        let geo = self.geo;
        let fsa = match Fs::parse_art(&geo, &after) {
            Ok(f) => f,
            Err(e) => {
                cx.fail(&["C02", "C04", "C10"], format!("after {}: the directory cannot be traversed any more ({:?})", info.what, e));
                return Err(Stop);
            }
        };
        // --- C02: nothing but the target changed -------------------------
        if cx.is("C02") {
            self.monitor_interference(cx, &info, &after, &fsa);
        }
        // --- C09: a failed operation changed nothing ---------------------
        if let Err(k) = &info.res {
            cx.count("failed_ops", 1);
            if cx.is("C09") {
                self.monitor_atomic(cx, &info, k, &after, &fsa);
            }
        }
        // --- C03: accounting --------------------------------------------
        if cx.is("C03") {
            let free = self.free;
            match self.disk.as_ref().map(|d| d.blocks_free()) {
                Some(Ok(n)) => {
                    cx.count("free_count_comparisons", 1);
                    cx.check(n == free, &["C03"], || format!("after {}: blocks free is {} but {} are unused", info.what, n, free));
                }
                Some(Err(e)) => cx.fail(&["C03"], format!("after {}: blocks_free failed: {}", info.what, kind(&e))),
                None => {}
            }
            if self.settled() {
                let n = fs::free_data_blocks(&geo, &after);
                cx.check(n == free, &["C03"], || format!("after {}: the image's allocation map has {} free data blocks but {} are unused", info.what, n, free));
                let c: usize = (1..=geo.bam_tracks()).filter(|t| geo.is_data_track(*t)).map(|t| geo.bam_count(&after, t) as usize).sum();
                cx.check(c == free, &["C03"], || format!("after {}: the image's free counts sum to {} but {} are unused", info.what, c, free));
            }
            // The block count of every file, as listed, is what it occupies.
            for e in &fsa.ents {
                if let Some(m) = self.model.get(&e.name).filter(|m| m.sized) {
                    cx.count("block_counts_compared", 1);
                    let want = m.blocks;
                    cx.check(e.size() as usize == want, &["C03"], || format!("after {}: file {:02x?} is listed with {} blocks but has {}", info.what, e.name, e.size(), want));
                }
            }
        }
        // --- C04: ownership ----------------------------------------------
        if cx.is("C04") {
            // Exclusive ownership must hold at all times ...
            let owners = fsa.owners(&geo);
            if let Some((l, o)) = owners.iter().find(|(_, o)| o.len() > 1) {
                cx.fail(&["C04"], format!("after {}: sector {:?} has several owners: {:?}", info.what, l, o));
            }
            for e in &fsa.ents {
                match &e.occupied {
                    Err(x) => cx.fail(&["C04"], format!("after {}: file {:02x?} cannot be traversed: {:?}", info.what, e.name, x)),
                    Ok(v) => {
                        if let Some(m) = self.model.get(&e.name) {
                            let n = v.len();
                            let want = m.blocks;
                            if self.writer_of(&e.name).map(|i| !self.writers[i].dirty).unwrap_or(true) {
                                cx.check(n == want, &["C04"], || format!("after {}: file {:02x?} occupies {} sectors, its content needs {}", info.what, e.name, n, want));
                                if m.sized {
                                    cx.check(e.size() as usize == n, &["C04"], || format!("after {}: file {:02x?} records {} blocks but occupies {}", info.what, e.name, e.size(), n));
                                }
                            }
                        }
                    }
                }
            }
            // ... and the allocation map must agree whenever nothing is buffered.
            if self.settled() {
                cx.count("full_audits", 1);
                let a = fsa.audit(&geo, &after);
                if !a.is_empty() {
                    cx.fail(&["C04"], format!("after {}: {} ({} problems)", info.what, a[0], a.len()));
                }
            }
        }
        // --- C10: the listing --------------------------------------------
        if cx.is("C10") {
            self.monitor_directory(cx, &info, &fsa);
        }
        cx.count("sectors_compared", geo.sectors() as u64);
        self.img = after;
        self.fs = fsa;
        cx.ok()
    }

    fn monitor_interference(&self, cx: &mut Cx, info: &Info, after: &[u8], fsa: &Fs) {
        let geo = self.geo;
        let before = &self.img;
        let is_target = |n: &Vec<u8>| info.targets.contains(n);
        let mut others: BTreeMap<Loc, &Ent> = BTreeMap::new();
        let mut mine: BTreeSet<Loc> = BTreeSet::new();
        for e in &self.fs.ents {
            if let Ok(v) = &e.occupied {
                for l in v {
                    if is_target(&e.name) {
                        mine.insert(*l);
                    } else {
                        others.insert(*l, e);
                    }
                }
            }
        }
        let mut slots: Vec<(Loc, usize)> = vec![];
        for e in self.fs.ents.iter().chain(fsa.ents.iter()) {
            if is_target(&e.name) {
                slots.push(e.slot);
            }
        }
        let grew = fsa.dir.len() > self.fs.dir.len();
        let system: BTreeSet<Loc> = geo.system().into_iter().collect();
        for l in geo.locs() {
            let o = geo.offset(l).unwrap();
            let (a, b) = (&before[o..o + 256], &after[o..o + 256]);
            if a == b {
                continue;
            }
            cx.count("changed_sectors_judged", 1);
            if let Some(e) = others.get(&l) {
                cx.fail(&["C02"], format!("{} changed sector {:?} of file {:02x?}", info.what, l, e.name));
                return;
            }
            let in_dir = self.fs.dir.iter().any(|d| d.0 == l) || self.fs.border == Some(l);
            let is_sys = system.contains(&l);
            if l.0 > geo.bam_tracks() {
                cx.fail(&["C02"], format!("{} changed sector {:?}, which the allocation map does not manage", info.what, l));
                return;
            }
            if !in_dir && !is_sys {
                continue; // own or unused sector
            }
            let ranges = self.bam_bytes(l);
            for i in 0..256 {
                if a[i] == b[i] {
                    continue;
                }
                if ranges.iter().any(|r| i >= r.0 && i < r.1) {
                    continue;
                }
                if info.header && l == geo.header() {
                    continue;
                }
                if slots.iter().any(|s| s.0 == l && i >= s.1 + 2 && i < s.1 + 32) {
                    continue;
                }
                if i < 2 && grew && self.fs.dir.last().map(|d| d.0) == Some(l) {
                    continue;
                }
                cx.fail(&["C02"], format!("{} changed byte {} of system sector {:?}", info.what, i, l));
                return;
            }
        }
        let off = geo.sectors() * 256;
        if before[off..] != after[off..] {
            cx.fail(&["C02"], format!("{} changed the error table", info.what));
        }
        for e in &self.fs.ents {
            if is_target(&e.name) {
                continue;
            }
            cx.count("bystander_files_compared", 1);
            match fsa.ents.iter().find(|x| x.slot == e.slot) {
                Some(x) if x.raw[2..] == e.raw[2..] && x.content == e.content => {}
                Some(x) => cx.fail(&["C02"], format!("{} changed file {:02x?}: {:?} -> {:?}", info.what, e.name, e.content, x.content)),
                None => cx.fail(&["C02"], format!("{} made file {:02x?} disappear", info.what, e.name)),
            }
        }
    }

    fn monitor_atomic(&self, cx: &mut Cx, info: &Info, k: &str, after: &[u8], fsa: &Fs) {
        let geo = self.geo;
        cx.count("failures_judged", 1);
        let writing = info.what.starts_with("write");
        // A failing write may have pushed earlier accepted data to the image.
        if fsa.ents.len() != self.fs.ents.len() {
            cx.fail(&["C09"], format!("{} failed with {} but the number of files went from {} to {}", info.what, k, self.fs.ents.len(), fsa.ents.len()));
            return;
        }
        for (a, b) in self.fs.ents.iter().zip(fsa.ents.iter()) {
            if writing && info.targets.contains(&a.name) {
                let (ma, mb) = (&self.model[&a.name].content, &b.content);
                if let (Content::Bytes(m), Content::Bytes(x)) = (ma, mb) {
                    if !m.starts_with(x) {
                        cx.fail(&["C09"], format!("{} failed with {} and left {:02x?} with content that was never written", info.what, k, a.name));
                    }
                } else {
                    cx.fail(&["C09"], format!("{} failed with {} and left {:02x?} as {:?}", info.what, k, a.name, b.content));
                }
                cx.check(a.slot == b.slot && a.raw[2..] == b.raw[2..], &["C09"], || format!("{} failed with {} but changed the entry {:02x?} to {:02x?}", info.what, k, a.raw, b.raw));
                continue;
            }
            if a.slot != b.slot || a.raw[2..] != b.raw[2..] || a.content != b.content {
                cx.fail(&["C09"], format!("{} failed with {} but changed file {:02x?}: {:?} -> {:?}", info.what, k, a.name, a.content, b.content));
                return;
            }
        }
        let settled = self.settled();
        let owners = if settled { BTreeMap::new() } else { self.fs.owners(&geo) };
        if settled || !writing {
            for t in 1..=geo.bam_tracks() {
                let (a, b) = (geo.bam_map(&self.img, t), geo.bam_map(after, t));
                // Buffered allocations of an open writer may reach the image.
                let mut want = a;
                if !settled {
                    for s in 0..geo.spt(t) {
                        if owners.contains_key(&(t, s)) {
                            want &= !(1 << s);
                        }
                    }
                }
                if b != a && b != want {
                    cx.fail(&["C09"], format!("{} failed with {} but the allocation of track {} went from {:x} to {:x}", info.what, k, t, a, b));
                    return;
                }
            }
        }
        if self.fs.dir != fsa.dir {
            cx.fail(&["C09"], format!("{} failed with {} but the directory chain changed", info.what, k));
        }
        let free = self.free;
        if let Some(Ok(n)) = self.disk.as_ref().map(|d| d.blocks_free()) {
            cx.check(n == free, &["C09"], || format!("{} failed with {} but blocks free went from {} to {}", info.what, k, free, n));
        }
    }

    fn monitor_directory(&self, cx: &mut Cx, info: &Info, fsa: &Fs) {
        // The image must list exactly the files of the model, once each.
        let mut names = fsa.names();
        names.sort();
        let want: Vec<Vec<u8>> = self.model.keys().cloned().collect();
        if names != want {
            let extra: Vec<_> = names.iter().filter(|n| !want.contains(n)).collect();
            let miss: Vec<_> = want.iter().filter(|n| !names.contains(n)).collect();
            cx.fail(&["C10"], format!("after {}: the directory does not list exactly the existing files (unexpected {:02x?}, missing {:02x?}, {} listed, {} exist)", info.what, extra, miss, names.len(), want.len()));
            return;
        }
        for e in &fsa.ents {
            let m = &self.model[&e.name];
            let n = if m.sized { 30 } else { 28 };
            let (a, b) = (&m.meta[..n], &e.meta()[..n]);
            cx.check(a == b, &["C10"], || format!("after {}: the entry of {:02x?} is {:02x?}, expected {:02x?}", info.what, e.name, b, a));
        }
        if fsa.dir.len() > self.fs.dir.len() {
            cx.count("directory_extensions", 1);
            cx.check(self.fs.free_slots.is_empty() && info.what.starts_with("create"), &["C10"], || {
                format!("{} extended the directory although {} slots were free", info.what, self.fs.free_slots.len())
            });
        }
        // Surviving files keep their slots.
        for e in &self.fs.ents {
            if !info.targets.contains(&e.name) {
                cx.check(fsa.ents.iter().any(|x| x.slot == e.slot && x.name == e.name), &["C10"], || {
                    format!("{} moved the entry of {:02x?}", info.what, e.name)
                });
            }
        }
        // The crate's own listing.
        if let Some(d) = self.disk.as_ref() {
            let listed = if cx.rng.chance(1, 2) { d.directory() } else { (&**d).into_iter().collect() };
            match listed {
                Err(x) => cx.fail(&["C10"], format!("after {}: listing failed: {}", info.what, kind(&x))),
                Ok(list) => {
                    cx.count("listings_compared", 1);
                    if list.len() != fsa.ents.len() {
                        cx.fail(&["C10"], format!("after {}: the listing has {} entries, the image {}", info.what, list.len(), fsa.ents.len()));
                        return;
                    }
                    for (a, b) in list.iter().zip(fsa.ents.iter()) {
                        let raw = entry_raw(a);
                        let pos = a.position.map(|p| ((p.location.0, p.location.1), p.offset as usize));
                        let scheme = scheme_of(a.scheme);
                        cx.check(
                            raw == b.meta() && pos == Some(b.slot) && scheme == b.kind && a.is_geos_border() == b.border && a.filename.as_bytes() == &b.name[..],
                            &["C10"],
                            || format!("after {}: listed entry {:?} does not match the stored one {:02x?} at {:?}", info.what, a, b.raw, b.slot),
                        );
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------
    /// A file that can be used.
    fn existing(&self, cx: &mut Cx) -> Option<Vec<u8>> {
        for _ in 0..8 {
            match self.named(cx) {
                Some(n) if matches!(self.model[&n].content, Content::Bad(_)) => {}
                x => return x,
            }
        }
        None
    }

    /// Any entry of the directory, those that point nowhere included.
    fn named(&self, cx: &mut Cx) -> Option<Vec<u8>> {
        if self.model.is_empty() {
            return None;
        }
        let i = cx.rng.below(self.model.len());
        self.model.keys().nth(i).cloned()
    }

    fn new_name(&self, cx: &mut Cx) -> Vec<u8> {
        loop {
            let mut n = build::random_name(&mut cx.rng, 16);
            // often one that is easily mistaken for an existing one
            if !self.model.is_empty() && cx.rng.chance(1, 4) {
                n = self.named(cx).unwrap();
                let k = cx.rng.below(n.len().max(1));
                match cx.rng.below(6) {
                    0 if !n.is_empty() => n[k] ^= 0x80,
                    1 if !n.is_empty() => n[k] ^= 0x20,
                    2 if n.len() > 1 => {
                        n.pop();
                    }
                    3 if n.len() < 16 => n.push(cx.rng.byte()),
                    4 if !n.is_empty() => *n.last_mut().unwrap() = cx.rng.byte(),
                    _ => n.reverse(),
                }
                n = strip(&n);
            } else if cx.rng.chance(1, 80) {
                n.clear();
            }
            if !self.model.contains_key(&n) {
                return n;
            }
        }
    }

    /// A handle of the file: a new one, or one obtained earlier.
    fn handle(&mut self, cx: &mut Cx, name: &[u8]) -> std::io::Result<File> {
        let old: Vec<usize> = (0..self.handles.len()).filter(|i| self.handles[*i].0 == name).collect();
        if !old.is_empty() && cx.rng.chance(1, 2) {
            cx.count("old_handles_used", 1);
            let i = *cx.rng.pick(&old);
            return Ok(self.handles.remove(i).1);
        }
        if cx.rng.chance(1, 3) {
            let e = self.d().find_directory_entry(&pet(name))?;
            self.d().open_file_from_entry(&e)
        } else {
            self.d().open_file(&pet(name))
        }
    }

    fn keep(&mut self, cx: &mut Cx, name: &[u8], f: File) {
        if self.handles.len() < 12 && cx.rng.chance(1, 2) {
            self.handles.push((name.to_vec(), f));
        }
    }

    /// Open a reader, or read a little more from one opened earlier.
    fn slow_read(&mut self, cx: &mut Cx) -> R<()> {
        if self.slow.len() < 4 && cx.rng.chance(1, 3) {
            if let Some(n) = self.existing(cx) {
                if let (FKind::Linear, Some(Content::Bytes(b))) = (self.model[&n].kind, self.fs.find(&n).map(|e| e.content.clone())) {
                    cx.step(format!("open reader {:02x?}", n));
                    let r = match self.handle(cx, &n).and_then(|f| f.reader()) {
                        Ok(r) => r,
                        Err(e) => {
                            cx.fail(&["C01"], format!("opening a reader of {:02x?} failed: {}", n, kind(&e)));
                            return Err(Stop);
                        }
                    };
                    self.slow.push(Slow { name: n, r, got: vec![], min: b.len() });
                }
            }
        } else if !self.slow.is_empty() {
            let i = cx.rng.below(self.slow.len());
            let n = match cx.rng.below(4) {
                0 => 1,
                1 => 254,
                2 => cx.rng.range(1, 3000),
                _ => cx.rng.range(1, 400),
            };
            let mut buf = vec![0u8; n];
            let what = format!("read on, {} bytes of {:02x?} from {}", n, self.slow[i].name, self.slow[i].got.len());
            cx.step(what.clone());
            let k = match self.slow[i].r.read(&mut buf) {
                Ok(k) => k,
                Err(e) => {
                    cx.fail(&["C01"], format!("{} failed: {}", what, kind(&e)));
                    return Err(Stop);
                }
            };
            cx.count("slow_reads", 1);
            self.slow[i].got.extend_from_slice(&buf[..k]);
            let x = &self.slow[i];
            if let Content::Bytes(m) = &self.model[&x.name].content {
                cx.check(m.starts_with(&x.got), &["C01"], || format!("{}: what was read so far is not what the file holds", what));
                cx.check(k > 0 || x.got.len() >= x.min, &["C01"], || format!("{}: ended after {} of {} bytes", what, x.got.len(), x.min));
            }
            if k == 0 {
                self.slow.remove(i);
            }
        }
        cx.ok()
    }

    /// Is there room for another directory entry?
    fn dir_room(&self) -> bool {
        !self.fs.free_slots.is_empty() || {
            let t = self.geo.dir_track();
            let owners = self.fs.owners(&self.geo);
            (0..self.geo.spt(t)).any(|s| !owners.contains_key(&(t, s)))
        }
    }

    pub fn create(&mut self, cx: &mut Cx, name: &[u8], t: u8, open: bool) -> R<bool> {
        let expect_ok = self.free > 0 && self.dir_room();
        let what = format!("create {:02x?} type {}", name, t);
        cx.step(what.clone());
        let model_name = strip(name);
        let geos = self.geos;
        let (exp_first, exp_dir) = {
            let mut m = self.owned_map();
            let d = if self.fs.free_slots.is_empty() { m.next(self.fs.dir.last().unwrap().0, geos) } else { None };
            if let Some(l) = d {
                m.take(l);
            }
            (m.first(geos), d)
        };
        self.arm(cx, Rule::Create(model_name.clone()));
        let r = self.d().create_file(&pet(name), ftype(t), Scheme::Linear);
        match r {
            Ok(f) => {
                cx.count("files_created", 1);
                if !expect_ok {
                    cx.fail(&["C03"], format!("{} succeeded although there is no room ({} blocks free)", what, self.free));
                }
                let first = (f.entry().first_sector.0, f.entry().first_sector.1);
                let mut meta = vec![0u8; 30];
                meta[0] = 0x80 | t;
                meta[1] = first.0;
                meta[2] = first.1;
                for b in meta[3..19].iter_mut() {
                    *b = 0xA0;
                }
                meta[3..3 + model_name.len()].copy_from_slice(&model_name);
                meta[28] = 1;
                self.model.insert(model_name.clone(), MFile { kind: FKind::Linear, content: Content::Bytes(vec![]), blocks: 1, meta, sized: true });
                self.free = self.free.wrapping_sub(1);
                if cx.is("C12") {
                    cx.count("allocations_judged", 1);
                    cx.check(Some(first) == exp_first, &["C12"], || format!("{}: first block at {:?}, the strategy says {:?}", what, first, exp_first));
                }
                let ndir = self.fs.dir.len();
                self.post(cx, Info { what: &what, targets: vec![model_name.clone()], res: Ok(()), header: false })?;
                if cx.is("C12") {
                    if let (Some(l), true) = (exp_dir, self.fs.dir.len() > ndir) {
                        cx.count("directory_allocations_judged", 1);
                        let got = self.fs.dir[ndir].0;
                        cx.check(got == l, &["C12"], || format!("{}: directory extended at {:?}, the strategy says {:?}", what, got, l));
                    }
                }
                if cx.any(&["C01", "C10"]) {
                    match self.fs.find(&model_name) {
                        Some(e) if e.content == Content::Bytes(vec![]) => {}
                        x => cx.fail(&["C01"], format!("{}: a new file should be empty, found {:?}", what, x.map(|e| &e.content))),
                    }
                }
                if cx.is("C10") {
                    // The handle describes the file that is now listed.
                    if let Some(e) = self.fs.find(&model_name).cloned() {
                        let raw = entry_raw(f.entry());
                        cx.check(raw == e.raw[2..], &["C10"], || format!("{}: the handle says {:02x?}, the directory {:02x?}", what, raw, &e.raw[2..]));
                        cx.check(f.entry().is_geos_border() == e.border, &["C10"], || format!("{}: the handle places the file on the GEOS border", what));
                        let again = self.d().open_file_from_entry(f.entry()).and_then(|f| f.occupied_sectors().map(|v| v.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>())).map_err(|e| kind(&e));
                        cx.check(again == Ok(vec![first]), &["C10"], || format!("{}: opening it through the handle's entry gives {:?}", what, again));
                        let p = f.entry().position.map(|p| ((p.location.0, p.location.1), p.offset as usize));
                        cx.check(p == Some(e.slot), &["C10"], || format!("{}: the handle says slot {:?}, the entry is at {:?}", what, p, e.slot));
                    }
                }
                if open {
                    match f.writer() {
                        Ok(w) => self.writers.push(Wr { name: model_name, w, dirty: true, settled: 0 }),
                        Err(e) => cx.fail(&["C01"], format!("cannot write to the file just created: {}", kind(&e))),
                    }
                } else if cx.rng.chance(1, 4) {
                    self.handles.push((model_name, f));
                }
                cx.ok()?;
                Ok(true)
            }
            Err(e) => {
                let k = kind(&e);
                if expect_ok {
                    cx.fail(&["C01", "C03", "C10"], format!("{} failed with {} although {} blocks and a directory slot are free", what, k, self.free));
                } else {
                    cx.count("disk_full_creates", 1);
                    cx.check(k == "DiskFull", &["C03"], || format!("{} on a full disk failed with {} instead of DiskFull", what, k));
                }
                self.post(cx, Info { what: &what, targets: vec![model_name], res: Err(k), header: false })?;
                Ok(false)
            }
        }
    }

    pub fn open_writer(&mut self, cx: &mut Cx, name: &[u8]) -> R<()> {
        let what = format!("open writer {:02x?}", name);
        cx.step(what.clone());
        let linear = self.model[name].kind == FKind::Linear;
        self.arm(cx, Rule::Nothing);
        let f = match self.handle(cx, name) {
            Ok(f) => f,
            Err(e) => {
                cx.fail(&["C01", "C10"], format!("opening {:02x?} failed: {}", name, kind(&e)));
                return Err(Stop);
            }
        };
        let w = f.writer();
        self.keep(cx, name, f);
        match w {
            Ok(w) => {
                if !linear {
                    cx.fail(&["C15", "C16"], format!("{} succeeded on a non-linear file", what));
                    return Err(Stop);
                }
                cx.count("appends_opened", 1);
                let len = self.len_of(name);
                self.writers.push(Wr { name: name.to_vec(), w, dirty: true, settled: len });
            }
            Err(e) => {
                if linear {
                    cx.fail(&["C01"], format!("{} failed: {}", what, kind(&e)));
                    return Err(Stop);
                }
            }
        }
        self.post(cx, Info { what: &what, targets: vec![name.to_vec()], res: Ok(()), header: false })
    }

    pub fn chunk(&self, cx: &mut Cx) -> usize {
        match cx.rng.below(12) {
            0 => 0,
            1 => 1,
            2 => 253,
            3 => 254,
            4 => 255,
            5 => 256,
            6 => 508,
            7 => cx.rng.below(20),
            8 => cx.rng.below(20000),
            9 if cx.rng.chance(1, 6) => cx.rng.below(140_000),
            _ => cx.rng.below(1500),
        }
    }

    pub fn write(&mut self, cx: &mut Cx, i: usize, n: usize) -> R<()> {
        self.write_as(cx, i, n, false)
    }

    /// `content`: the caller takes a short count as it is and never retries.
    fn write_as(&mut self, cx: &mut Cx, i: usize, n: usize, content: bool) -> R<()> {
        let name = self.writers[i].name.clone();
        let what = format!("write {:02x?} {} bytes", name, n);
        cx.step(what.clone());
        let data = cx.rng.content(n);
        let old = self.len_of(&name);
        let blocks = self.model[&name].blocks;
        let room = blocks * 254 - old;
        let cap = room + self.free * 254;
        let want = n.min(cap);
        self.writers[i].dirty = true;
        if let Content::Bytes(b) = &self.model[&name].content {
            let full = [&b[..], &data[..]].concat();
            self.arm(cx, Rule::Grow(name.clone(), full));
        }
        let mut done = 0;
        let mut err = None;
        // One call may accept only part of the data; go on until it is all in
        // or an error is reported.
        let mut calls = 0;
        let mut gave_up = false;
        loop {
            calls += 1;
            match self.writers[i].w.write(&data[done..]) {
                Ok(k) => {
                    if k > n - done {
                        cx.fail(&["C01"], format!("{}: write returned {} for a buffer of {}", what, k, n - done));
                        return Err(Stop);
                    }
                    done += k;
                    if done == n || k == 0 {
                        break;
                    }
                    if content {
                        gave_up = true;
                        cx.count("short_writes_accepted", 1);
                        break;
                    }
                }
                Err(e) => {
                    err = Some(kind(&e));
                    break;
                }
            }
            if calls > 5000 {
                break;
            }
        }
        cx.count("bytes_written", done as u64);
        if done != want && !(gave_up && done < want) {
            cx.fail(&["C03"], format!("{}: {} bytes accepted, there was room for {} (tail {} + {} blocks free); error {:?}", what, done, cap, room, self.free, err));
            if done < want {
                cx.fail(&["C01"], format!("{}: only {} bytes accepted although there was room for {}; error {:?}", what, done, cap, err));
            }
        }
        if want < n {
            cx.count("disk_full_writes", 1);
            if done == want && !gave_up {
                cx.check(err.as_deref() == Some("DiskFull"), &["C03"], || format!("{}: a write to a full disk ended with {:?} instead of DiskFull", what, err));
            }
        }
        let m = self.model.get_mut(&name).unwrap();
        if let Content::Bytes(b) = &mut m.content {
            b.extend_from_slice(&data[..done]);
        }
        let nb = if old + done == 0 { blocks } else { blocks.max((old + done + 253) / 254) };
        let used = nb - blocks;
        m.blocks = nb;
        if m.sized {
            m.meta[28] = nb as u8;
            m.meta[29] = (nb >> 8) as u8;
        }
        self.free = self.free.wrapping_sub(used);
        // Where did the new blocks go?
        let before_chain = if cx.is("C12") {
            let l = self.fs.find(&name).map(|e| e.first());
            l.and_then(|l| fs::chain_locs(&self.geo, &self.img, l).ok())
        } else {
            None
        };
        let exp = before_chain.as_ref().map(|c| {
            let mut fm = self.owned_map();
            let mut prev = *c.last().unwrap();
            let mut v = vec![];
            for _ in 0..used {
                match fm.next_data(prev, self.geos) {
                    Some(l) => {
                        fm.take(l);
                        v.push(l);
                        prev = l;
                    }
                    None => break,
                }
            }
            v
        });
        let complete = done == n;
        self.post(cx, Info { what: &what, targets: vec![name.clone()], res: if complete || done > 0 { Ok(()) } else { Err(err.clone().unwrap_or_else(|| "write returned 0".into())) }, header: false })?;
        if let (Some(c), Some(exp)) = (before_chain, exp) {
            if let Some(e) = self.fs.find(&name) {
                if let Ok(now) = fs::chain_locs(&self.geo, &self.img, e.first()) {
                    if now.len() >= c.len() {
                        let got = now[c.len()..].to_vec();
                        cx.count("allocations_judged", got.len() as u64);
                        cx.check(now[..c.len()] == c[..], &["C12"], || format!("{}: the existing chain was rearranged", what));
                        cx.check(got == exp, &["C12"], || format!("{}: blocks went to {}, the strategy says {}", what, fmt_locs(&got), fmt_locs(&exp)));
                    }
                }
            }
        }
        // What is on the image is a prefix of what was written so far.
        if cx.is("C01") {
            self.check_prefix(cx, &name, &what);
        }
        cx.ok()?;
        if gave_up && cx.rng.chance(1, 2) {
            return self.close(cx, i);
        }
        Ok(())
    }

    fn check_prefix(&self, cx: &mut Cx, name: &[u8], what: &str) {
        let settled = self.writer_of(name).map(|i| self.writers[i].settled).unwrap_or(0);
        if let (Some(e), Content::Bytes(m)) = (self.fs.find(name), &self.model[name].content) {
            match &e.content {
                Content::Bytes(x) => {
                    cx.check(m.starts_with(x) && x.len() >= settled, &["C01"], || {
                        format!("after {}: {} bytes on the image are not a prefix of the {} written (at least {} must be there)", what, x.len(), m.len(), settled)
                    });
                }
                x => cx.fail(&["C01"], format!("after {}: content is {:?}", what, x)),
            }
        }
    }

    fn arm_grow(&mut self, cx: &Cx, name: &[u8]) {
        if let Content::Bytes(b) = &self.model[name].content {
            let full = b.clone();
            self.arm(cx, Rule::Grow(name.to_vec(), full));
        }
    }

    pub fn flush(&mut self, cx: &mut Cx, i: usize) -> R<()> {
        let name = self.writers[i].name.clone();
        let what = format!("flush {:02x?}", name);
        cx.step(what.clone());
        hk::with(|s| {
            s.capture = true;
            s.captured = None;
        });
        let was_dirty = self.writers[i].dirty;
        if cx.is("C05") && self.path.is_some() && was_dirty && cx.rng.chance(1, 6) {
            // the storage refuses: the flush has to say so, and the next one has to try again
            hk::with(|s| s.refuse_sync = true);
            let r = self.writers[i].w.flush();
            hk::with(|s| s.refuse_sync = false);
            cx.count("refused_syncs", 1);
            cx.check(r.is_err(), &["C05"], || format!("{} reports success although the storage refused the data", what));
        }
        self.arm_grow(cx, &name);
        let r = self.writers[i].w.flush();
        let cap = hk::with(|s| {
            s.capture = false;
            s.captured.take()
        });
        if let Err(e) = r {
            cx.fail(&["C01", "C05"], format!("{} failed: {}", what, kind(&e)));
            return Err(Stop);
        }
        let len = self.len_of(&name);
        self.writers[i].dirty = false;
        self.writers[i].settled = len;
        self.post(cx, Info { what: &what, targets: vec![name.clone()], res: Ok(()), header: false })?;
        if cx.is("C05") && was_dirty {
            cx.count("medium_flushes_judged", 1);
            let img = &self.img;
            match cap {
                None => cx.fail(&["C05"], format!("{} did not push the data to the medium", what)),
                Some(c) => {
                    cx.check(&c == img, &["C05"], || format!("{}: data was still modified after the medium was flushed", what));
                }
            }
            if let Some(m) = hk::with(|s| s.medium.clone()) {
                cx.count("storage_syncs_judged", 1);
                if m != *img {
                    let k = (0..img.len()).find(|k| m[*k] != img[*k]).unwrap();
                    cx.fail(&["C05"], format!("{}: byte {:#x} of the image was not pushed to the file's storage", what, k));
                }
            }
        }
        self.verify_stored(cx, &name, &what)
    }

    pub fn close(&mut self, cx: &mut Cx, i: usize) -> R<()> {
        let w = self.writers.remove(i);
        let name = w.name.clone();
        let what = format!("close {:02x?}", name);
        cx.step(what.clone());
        self.arm_grow(cx, &name);
        drop(w);
        self.post(cx, Info { what: &what, targets: vec![name.clone()], res: Ok(()), header: false })?;
        self.verify_stored(cx, &name, &what)
    }

    fn verify_stored(&self, cx: &mut Cx, name: &[u8], what: &str) -> R<()> {
        if cx.any(&["C01", "C05"]) {
            let want = &self.model[name].content;
            match self.fs.find(name) {
                Some(e) if e.content == *want => {}
                x => cx.fail(&["C01", "C05"], format!("after {}: the image holds {:?}, written was {:?}", what, x.map(|e| &e.content), want)),
            }
        }
        cx.ok()
    }

    /// Read a file through the crate and compare with the model.
    pub fn read(&mut self, cx: &mut Cx, name: &[u8]) -> R<()> {
        let what = format!("read {:02x?}", name);
        cx.step(what.clone());
        if self.writer_of(name).map(|i| self.writers[i].dirty).unwrap_or(false) {
            return Ok(());
        }
        if let Content::Bad(_) = self.model[name].content {
            return Ok(());
        }
        let limit = self.geo.size();
        let f = match self.handle(cx, name) {
            Ok(f) => f,
            Err(e) => {
                cx.fail(&["C01", "C02", "C10"], format!("opening {:02x?} failed: {}", name, kind(&e)));
                return Err(Stop);
            }
        };
        let want = self.model[name].content.clone();
        compare_file(cx, &f, &want, &what, limit, &["C01"]);
        self.keep(cx, name, f);
        cx.count("files_read_back", 1);
        self.post(cx, Info { what: &what, targets: vec![name.to_vec()], res: Ok(()), header: false })
    }

    pub fn rename(&mut self, cx: &mut Cx, old: &[u8], new: &[u8]) -> R<()> {
        let what = format!("rename {:02x?} to {:02x?}", old, new);
        cx.step(what.clone());
        self.arm(cx, Rule::Rename(old.to_vec(), strip(new)));
        let r = self.d().rename(&pet(old), &pet(new));
        let new = strip(new);
        if let Err(e) = r {
            cx.fail(&["C10"], format!("{} failed: {}", what, kind(&e)));
            return Err(Stop);
        }
        let mut m = self.model.remove(old).unwrap();
        for b in m.meta[3..19].iter_mut() {
            *b = 0xA0;
        }
        m.meta[3..3 + new.len()].copy_from_slice(&new);
        // Everything but the name stays.
        let raw_before = self.fs.find(old).map(|e| e.raw);
        self.model.insert(new.clone(), m);
        for w in self.writers.iter_mut() {
            if w.name == old {
                w.name = new.clone();
            }
        }
        for h in self.handles.iter_mut().filter(|h| h.0 == old) {
            h.0 = new.clone();
        }
        for h in self.slow.iter_mut().filter(|h| h.name == old) {
            h.name = new.clone();
        }
        self.post(cx, Info { what: &what, targets: vec![old.to_vec(), new.clone()], res: Ok(()), header: false })?;
        if let (Some(a), Some(e)) = (raw_before, self.fs.find(&new)) {
            cx.check(a[2..5] == e.raw[2..5] && a[21..] == e.raw[21..], &["C10"], || format!("{} changed more than the name: {:02x?} -> {:02x?}", what, a, e.raw));
        }
        cx.ok()
    }

    pub fn delete(&mut self, cx: &mut Cx, name: &[u8]) -> R<()> {
        let what = format!("delete {:02x?}", name);
        cx.step(what.clone());
        let mut f = match self.handle(cx, name) {
            Ok(f) => f,
            Err(e) => {
                cx.fail(&["C02", "C10"], format!("opening {:02x?} failed: {}", name, kind(&e)));
                return Err(Stop);
            }
        };
        self.arm(cx, Rule::Delete(name.to_vec()));
        match f.delete() {
            Ok(()) => {}
            Err(e) => {
                cx.fail(&["C03", "C10"], format!("{} failed: {}", what, kind(&e)));
                return Err(Stop);
            }
        }
        cx.count("files_deleted", 1);
        let m = self.model.remove(name).unwrap();
        self.handles.retain(|h| h.0 != name);
        self.slow.retain(|h| h.name != name);
        // data blocks come back; sectors elsewhere do not count
        let back = self
            .fs
            .find(name)
            .and_then(|e| e.occupied.as_ref().ok())
            .map(|v| v.iter().filter(|l| self.geo.is_data_track(l.0)).count())
            .unwrap_or(m.blocks);
        self.free += back;
        self.post(cx, Info { what: &what, targets: vec![name.to_vec()], res: Ok(()), header: false })?;
        if cx.is("C10") {
            match self.d().find_directory_entry(&pet(name)) {
                Err(e) => {
                    cx.check(kind(&e) == "NotFound", &["C10"], || format!("after {}: lookup gives {}", what, kind(&e)));
                }
                Ok(_) => cx.fail(&["C10"], format!("after {}: the file is still found", what)),
            }
        }
        cx.ok()
    }

    /// Operations that must be refused.
    pub fn bad_name(&mut self, cx: &mut Cx) -> R<()> {
        let ex = self.existing(cx);
        let long = {
            let n = if cx.rng.chance(1, 2) { 17 } else { cx.rng.range(17, 40) };
            let mut v = (0..n).map(|_| 0x41 + cx.rng.below(26) as u8).collect::<Vec<u8>>();
            if let (Some(e), true) = (&ex, cx.rng.chance(1, 3)) {
                v[..e.len()].copy_from_slice(e);
            }
            v
        };
        let absent = self.new_name(cx);
        let absent2 = self.new_name(cx);
        self.arm(cx, Rule::Nothing);
        let (what, res, want): (String, Result<(), String>, &str) = match (cx.rng.below(9), ex) {
            (0, _) => {
                let w = format!("create (too long) {:02x?}", long);
                cx.step(w.clone());
                (w, self.d().create_file(&pet(&long), ftype(2), Scheme::Linear).map(|_| ()).map_err(|e| kind(&e)), "FilenameTooLong")
            }
            (1, Some(n)) => {
                let w = format!("create (exists) {:02x?}", n);
                cx.step(w.clone());
                (w, self.d().create_file(&pet(&n), ftype(2), Scheme::Linear).map(|_| ()).map_err(|e| kind(&e)), "FileExists")
            }
            (2, Some(n)) => {
                let w = format!("rename {:02x?} to (too long) {:02x?}", n, long);
                cx.step(w.clone());
                (w, self.d().rename(&pet(&n), &pet(&long)).map_err(|e| kind(&e)), "FilenameTooLong")
            }
            (3, Some(n)) => {
                let other = self.named(cx).unwrap();
                let w = format!("rename {:02x?} to (exists) {:02x?}", n, other);
                cx.step(w.clone());
                (w, self.d().rename(&pet(&n), &pet(&other)).map_err(|e| kind(&e)), if n == other { "" } else { "FileExists" })
            }
            (4, _) => {
                let w = format!("rename (absent) {:02x?}", absent);
                cx.step(w.clone());
                (w, self.d().rename(&pet(&absent), &pet(&absent2)).map_err(|e| kind(&e)), "NotFound")
            }
            (5, Some(n)) if n.len() < 16 => {
                // trailing padding does not make a different name
                let mut p = n.clone();
                p.push(0xA0);
                let w = format!("create (exists, padded) {:02x?}", p);
                cx.step(w.clone());
                (w, self.d().create_file(&pet(&p), ftype(2), Scheme::Linear).map(|_| ()).map_err(|e| kind(&e)), "FileExists")
            }
            (6, Some(n)) => {
                let w = format!("rename (absent) {:02x?} to (exists) {:02x?}", absent, n);
                cx.step(w.clone());
                (w, self.d().rename(&pet(&absent), &pet(&n)).map_err(|e| kind(&e)), "")
            }
            (7, _) => {
                let w = format!("format with too long a name {:02x?}", long);
                cx.step(w.clone());
                (w, self.d().write_format(&pet(&long), &Id::from_bytes(b"ZZ")).map_err(|e| kind(&e)), "")
            }
            (8, _) => {
                let bad = match cx.rng.below(4) {
                    0 => (0u8, 0u8),
                    1 => (self.geo.tracks + 1, 0),
                    2 => {
                        let t = cx.rng.range(1, self.geo.tracks as usize) as u8;
                        (t, self.geo.spt(t))
                    }
                    _ => (cx.rng.byte() | 0x80, cx.rng.byte()),
                };
                let short = cx.rng.chance(1, 2);
                let w = format!("write sector {:?} with {} bytes", bad, if short { 100 } else { 256 });
                cx.step(w.clone());
                let data = vec![0x55u8; if short { 100 } else { 256 }];
                let at = if short { (1, 0) } else { bad };
                let l = loc!(self.d(), at);
                (w, self.d().write_sector(l, &data).map_err(|e| kind(&e)), "")
            }
            _ => {
                let w = format!("open (absent) {:02x?}", absent);
                cx.step(w.clone());
                (w, self.d().open_file(&pet(&absent)).map(|_| ()).map_err(|e| kind(&e)), "NotFound")
            }
        };
        cx.count("refusals_judged", 1);
        match &res {
            Ok(()) => {
                cx.fail(&["C10"], format!("{} was not refused", what));
                return Err(Stop);
            }
            Err(k) => {
                if !want.is_empty() {
                    cx.check(k == want, &["C10"], || format!("{} was refused with {} instead of {}", what, k, want));
                }
            }
        }
        self.post(cx, Info { what: &what, targets: vec![], res, header: false })
    }

    fn attr(&mut self, cx: &mut Cx, name: &[u8]) -> R<()> {
        let what = format!("change attributes of {:02x?}", name);
        cx.step(what.clone());
        let mut e = match self.d().find_directory_entry(&pet(name)) {
            Ok(e) => e,
            Err(e) => {
                cx.fail(&["C10"], format!("lookup of {:02x?} failed: {}", name, kind(&e)));
                return Err(Stop);
            }
        };
        let mut flip = 0x40;
        e.file_attributes.locked_flag = !e.file_attributes.locked_flag;
        let linear = self.model[name].kind == FKind::Linear;
        let t = self.model[name].meta[0] & 0x07;
        if linear && (1..4).contains(&t) && self.model[name].meta[0] & 0x28 == 0 && cx.rng.chance(1, 3) {
            let new = cx.rng.range(1, 3) as u8;
            e.file_attributes.file_type = ftype(new);
            flip |= t ^ new;
        }
        if linear && t != 0 && cx.rng.chance(1, 4) {
            e.file_attributes.closed_flag = !e.file_attributes.closed_flag;
            flip |= 0x80;
        }
        if let Extra::Linear(ref mut x) = e.extra {
            if x.unused[2] == 0 && x.unused[3] == 0 {
                x.unused[8] ^= 0x5A;
            }
        }
        self.arm(cx, Rule::Attr(name.to_vec()));
        if let Err(x) = self.d().write_directory_entry(&e) {
            cx.fail(&["C10"], format!("{} failed: {}", what, kind(&x)));
            return Err(Stop);
        }
        let m = self.model.get_mut(name).unwrap();
        m.meta[0] ^= flip;
        if m.kind == FKind::Linear && m.meta[21] == 0 && m.meta[22] == 0 {
            m.meta[27] ^= 0x5A;
        }
        self.post(cx, Info { what: &what, targets: vec![name.to_vec()], res: Ok(()), header: false })
    }

    fn header(&mut self, cx: &mut Cx) -> R<()> {
        let n = build::random_name(&mut cx.rng, 16);
        let id = if cx.rng.chance(1, 3) { Some([cx.rng.byte(), cx.rng.byte()]) } else { None };
        let what = format!("rename disk to {:02x?} {:02x?}", n, id);
        cx.step(what.clone());
        let d = self.d();
        match d.header_mut() {
            Ok(h) => {
                h.disk_name = pet(&n);
                if let Some(i) = id {
                    h.disk_id = Id::from_bytes(&i);
                }
            }
            Err(e) => {
                cx.fail(&["C14"], format!("{} failed: {}", what, kind(&e)));
                return Err(Stop);
            }
        }
        if let Err(e) = d.flush_header() {
            cx.fail(&["C05", "C14"], format!("{} failed: {}", what, kind(&e)));
            return Err(Stop);
        }
        self.disk_name = vec![0xA0; 16];
        self.disk_name[..n.len()].copy_from_slice(&n);
        if let Some(i) = id {
            self.disk_id = i;
        }
        self.post(cx, Info { what: &what, targets: vec![], res: Ok(()), header: true })
    }

    /// The complete state as a user sees it through the crate.
    pub fn view(cx: &mut Cx, d: &dyn Disk, limit: usize) -> Result<View, String> {
        let mut files = vec![];
        for e in d.iter() {
            let e = e.map_err(|e| format!("listing: {}", kind(&e)))?;
            if e.first_sector.0 == 0 && scheme_of(e.scheme) == FKind::Linear {
                files.push((e.filename.as_bytes().to_vec(), entry_raw(&e), Content::Bad(fs::DecErr::BadLoc)));
                continue;
            }
            let f = d.open_file_from_entry(&e).map_err(|x| format!("open {:?}: {}", e, kind(&x)))?;
            let c = read_file(cx, &f, limit).map_err(|x| format!("read {:?}: {}", e, x))?;
            files.push((e.filename.as_bytes().to_vec(), entry_raw(&e), c));
        }
        let free = d.blocks_free().map_err(|e| format!("blocks_free: {}", kind(&e)))?;
        let name = strip(d.name().map(|n| n.as_bytes().to_vec()).unwrap_or_default().as_slice());
        let id = d.header().map(|h| [h.disk_id[0], h.disk_id[1]]).map_err(|e| kind(&e))?;
        let geos = d.disk_format().map(|f| f.geos).unwrap_or(false);
        Ok(View { files, free, name, id, geos })
    }

    /// Close everything, drop the disk and open the image again.
    pub fn reopen(&mut self, cx: &mut Cx) -> R<()> {
        while !self.writers.is_empty() {
            let i = self.writers.len() - 1;
            self.close(cx, i)?;
        }
        self.handles.clear();
        self.slow.clear();
        let what = "reopen".to_string();
        cx.step(what.clone());
        let limit = self.geo.size();
        let live = if cx.is("C05") { Some(Self::view(cx, &**self.disk.as_ref().unwrap(), limit)) } else { None };
        let img = self.image();
        match &self.path {
            Some(p) => {
                let p = p.clone();
                self.disk = None;
                let d = if cx.rng.chance(1, 3) { cbm::disk::open(&p, true) } else { open_path(self.geo, &p, true) };
                match d {
                    Ok(d) => self.disk = Some(d),
                    Err(e) => {
                        cx.fail(&["C05"], format!("reopening the image failed: {}", kind(&e)));
                        return Err(Stop);
                    }
                }
            }
            None => {
                self.disk = None;
                self.disk = Some(load_memory(self.geo, &img));
            }
        }
        if let Some(live) = live {
            let fresh = Self::view(cx, &**self.disk.as_ref().unwrap(), limit);
            cx.count("reopen_views_compared", 1);
            match (live, fresh) {
                (Ok(a), Ok(b)) => {
                    if let Some(d) = a.diff(&b) {
                        cx.fail(&["C05"], format!("after reopening the image a user sees something else: {}", d));
                    }
                    let want: Vec<(Vec<u8>, Content)> = self.model.iter().map(|(n, m)| (n.clone(), m.content.clone())).collect();
                    let mut got: Vec<(Vec<u8>, Content)> = b.files.iter().map(|f| (f.0.clone(), f.2.clone())).collect();
                    got.sort_by(|x, y| x.0.cmp(&y.0));
                    for (x, y) in want.iter().zip(got.iter()) {
                        cx.check(x == y, &["C05"], || format!("after reopening, {:02x?} {:?} instead of {:02x?} {:?}", y.0, y.1, x.0, x.1));
                    }
                    cx.check(want.len() == got.len(), &["C05"], || format!("after reopening there are {} files instead of {}", got.len(), want.len()));
                    cx.check(b.free == self.free, &["C05"], || format!("after reopening {} blocks are free instead of {}", b.free, self.free));
                    cx.check(b.name == strip(&self.disk_name) && b.id == self.disk_id, &["C05"], || format!("after reopening the disk is {:02x?} {:02x?} instead of {:02x?} {:02x?}", b.name, b.id, self.disk_name, self.disk_id));
                }
                (Err(e), _) => cx.fail(&["C05"], format!("before reopening: {}", e)),
                (_, Err(e)) => cx.fail(&["C05"], format!("after reopening: {}", e)),
            }
        }
        self.post(cx, Info { what: &what, targets: vec![], res: Ok(()), header: false })
    }

    /// Drop the Disk object while a writer is still in use.
    fn orphan(&mut self, cx: &mut Cx) -> R<()> {
        if self.path.is_none() || self.writers.is_empty() {
            return Ok(());
        }
        let what = "drop the disk while writers are in use".to_string();
        cx.step(what.clone());
        self.disk = None;
        self.handles.clear();
        self.slow.clear();
        cx.count("orphaned_writers", self.writers.len() as u64);
        for _ in 0..cx.rng.range(1, 4) {
            let i = cx.rng.below(self.writers.len());
            let n = self.chunk(cx);
            self.write(cx, i, n)?;
            if cx.rng.chance(1, 3) {
                self.flush(cx, i)?;
            }
        }
        while !self.writers.is_empty() {
            let i = cx.rng.below(self.writers.len());
            self.close(cx, i)?;
        }
        let p = self.path.clone().unwrap();
        self.disk = Some(match open_path(self.geo, &p, true) {
            Ok(d) => d,
            Err(e) => {
                cx.fail(&["C05"], format!("reopening failed: {}", kind(&e)));
                return Err(Stop);
            }
        });
        self.post(cx, Info { what: &what, targets: vec![], res: Ok(()), header: false })
    }

    fn lookup(&mut self, cx: &mut Cx) -> R<()> {
        let absent = self.new_name(cx);
        cx.step(format!("lookup, {:02x?} absent", absent));
        let names: Vec<Vec<u8>> = self.model.keys().cloned().collect();
        if cx.is("C10") {
            for n in names.iter().take(40) {
                match self.d().find_directory_entry(&pet(n)) {
                    Ok(e) => {
                        cx.check(e.filename.as_bytes() == &n[..], &["C10"], || format!("lookup of {:02x?} found {:?}", n, e));
                    }
                    Err(e) => cx.fail(&["C10"], format!("lookup of existing {:02x?} gives {}", n, kind(&e))),
                }
                let a = self.d().check_filename_availability(&pet(n));
                cx.check(a.is_err(), &["C10"], || format!("{:02x?} exists but is reported available", n));
                cx.count("lookups_judged", 1);
            }
            match self.d().find_directory_entry(&pet(&absent)) {
                Err(e) => {
                    cx.check(kind(&e) == "NotFound", &["C10"], || format!("lookup of absent {:02x?} gives {}", absent, kind(&e)));
                }
                Ok(e) => cx.fail(&["C10"], format!("lookup of absent {:02x?} found {:?}", absent, e)),
            }
            let a = self.d().check_filename_availability(&pet(&absent));
            cx.check(a.is_ok(), &["C10"], || format!("absent {:02x?} is reported unavailable", absent));
        }
        cx.ok()
    }

    pub fn step(&mut self, cx: &mut Cx, profile: Profile) -> R<()> {
        if cx.is("C01") && cx.rng.chance(1, 3) {
            self.slow_read(cx)?;
        }
        let total: usize = profile.iter().map(|x| x.1).sum();
        let mut r = cx.rng.below(total);
        let mut op = Op::Create;
        for (o, w) in profile {
            if r < *w {
                op = *o;
                break;
            }
            r -= w;
        }
        match op {
            Op::Create => {
                let mut n = self.new_name(cx);
                if n.len() < 15 && cx.rng.chance(1, 20) {
                    n.push(0xA0); // padding is not part of the name
                }
                let t = *cx.rng.pick(&[1u8, 2, 2, 2, 3, 0]);
                let open = cx.rng.chance(2, 3);
                self.create(cx, &n, t, open)?;
            }
            Op::Write => {
                if !self.writers.is_empty() {
                    let i = cx.rng.below(self.writers.len());
                    let n = self.chunk(cx);
                    let content = cx.rng.chance(1, 3);
                    self.write_as(cx, i, n, content)?;
                }
            }
            Op::Flush => {
                if !self.writers.is_empty() {
                    let i = cx.rng.below(self.writers.len());
                    self.flush(cx, i)?;
                }
            }
            Op::Close => {
                if !self.writers.is_empty() {
                    let i = cx.rng.below(self.writers.len());
                    self.close(cx, i)?;
                }
            }
            Op::OpenWriter => {
                if let Some(n) = self.existing(cx) {
                    if self.writer_of(&n).is_none() && self.writers.len() < 6 {
                        self.open_writer(cx, &n)?;
                    }
                }
            }
            Op::Read => {
                if let Some(n) = self.existing(cx) {
                    self.read(cx, &n)?;
                }
            }
            Op::Rename => {
                if let Some(n) = self.named(cx) {
                    let new = self.new_name(cx);
                    self.rename(cx, &n, &new)?;
                }
            }
            Op::Delete => {
                if let Some(n) = self.existing(cx) {
                    if self.writer_of(&n).is_none() {
                        self.delete(cx, &n)?;
                    }
                }
            }
            Op::List | Op::Lookup => self.lookup(cx)?,
            Op::BadName => self.bad_name(cx)?,
            Op::Reopen => self.reopen(cx)?,
            Op::Attr => {
                if let Some(n) = self.existing(cx) {
                    self.attr(cx, &n)?;
                }
            }
            Op::Header => self.header(cx)?,
            Op::Validate => {
                cx.step("validate".into());
                let settled = self.settled();
                match self.d().validate() {
                    Ok(v) => {
                        let art = |n: &Petscii| matches!(self.model.get(n.as_bytes()), Some(m) if matches!(m.content, Content::Bad(_)));
                        let v: Vec<&ValidationError> = v.iter().filter(|x| !matches!(x, ValidationError::FileScanError(_, n) if art(n))).collect();
                        if settled && !v.is_empty() {
                            cx.fail(&["C04", "C06"], format!("validation of a consistent disk reports {:?}", v[0]));
                        }
                    }
                    Err(e) => cx.fail(&["C06"], format!("validation failed: {}", kind(&e))),
                }
                self.post(cx, Info { what: "validate", targets: vec![], res: Ok(()), header: false })?;
            }
            Op::Orphan => self.orphan(cx)?,
        }
        Ok(())
    }

    /// End of a history: close everything, reopen, and read everything back.
    pub fn finish(&mut self, cx: &mut Cx) -> R<()> {
        self.reopen(cx)?;
        let names: Vec<Vec<u8>> = self.model.keys().cloned().collect();
        for n in names {
            if cx.any(&["C01", "C02", "C10"]) {
                self.read(cx, &n)?;
            }
        }
        cx.fold(crate::rng::hash_bytes(&self.img[..self.img.len().min(4096)]));
        Ok(())
    }
}

pub struct View {
    pub files: Vec<(Vec<u8>, Vec<u8>, Content)>,
    pub free: usize,
    pub name: Vec<u8>,
    pub id: [u8; 2],
    pub geos: bool,
}

impl View {
    pub fn diff(&self, o: &View) -> Option<String> {
        if self.free != o.free {
            return Some(format!("blocks free {} vs {}", self.free, o.free));
        }
        if self.name != o.name || self.id != o.id || self.geos != o.geos {
            return Some(format!("disk {:02x?} {:02x?} vs {:02x?} {:02x?}", self.name, self.id, o.name, o.id));
        }
        if self.files.len() != o.files.len() {
            return Some(format!("{} files vs {}", self.files.len(), o.files.len()));
        }
        for (a, b) in self.files.iter().zip(o.files.iter()) {
            if a != b {
                return Some(format!("{:02x?} {:02x?} {:?} vs {:02x?} {:02x?} {:?}", a.0, a.1, a.2, b.0, b.1, b.2));
            }
        }
        None
    }
}

pub fn scheme_of(s: Scheme) -> FKind {
    match s {
        Scheme::Linear => FKind::Linear,
        Scheme::Relative => FKind::Rel,
        Scheme::GEOSSequential => FKind::GeosSeq,
        Scheme::GEOSVLIR => FKind::Vlir,
    }
}

/// Read a file completely through the crate.
pub fn read_file(cx: &mut Cx, f: &File, limit: usize) -> Result<Content, String> {
    match f {
        File::Linear(_) | File::GEOSSequential(_) => {
            let mut r = f.reader().map_err(|e| kind(&e))?;
            Ok(Content::Bytes(read_chunked(&mut *r, &mut cx.rng, limit).map_err(|e| kind(&e))?))
        }
        File::Relative(_) => {
            let n = f.record_count().map_err(|e| kind(&e))?;
            let mut v = vec![];
            for i in 0..n {
                v.push(f.record(i).map_err(|e| kind(&e))?);
            }
            Ok(Content::Records(v))
        }
        File::GEOSVLIR(_) => {
            let n = f.record_count().map_err(|e| kind(&e))?;
            let mut v = vec![];
            for i in 0..n {
                let r = f.record(i).map_err(|e| kind(&e))?;
                // the crate presents an unavailable record as an empty one
                v.push(if r.is_empty() { None } else { Some(r) });
            }
            Ok(Content::Vlir(v))
        }
        _ => Err("unknown kind of file".into()),
    }
}

pub fn compare_file(cx: &mut Cx, f: &File, want: &Content, what: &str, limit: usize, props: &[&str]) {
    match read_file(cx, f, limit) {
        Ok(got) => {
            cx.check(got == *want, props, || format!("{}: got {:?}, expected {:?}", what, got, want));
            if let (Content::Bytes(w), Ok(r)) = (want, f.record(0)) {
                cx.check(r == *w, props, || format!("{}: record 0 differs from the content", what));
            }
        }
        Err(e) => cx.fail(props, format!("{}: {}", what, e)),
    }
}
