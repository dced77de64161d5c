//! Builds well-formed images of every supported kind directly as bytes,
//! without the crate, including files the crate cannot create itself (REL,
//! GEOS sequential and VLIR, border entries).
use crate::geom::{Geo, Kind, Loc};
use crate::rng::Rng;
use std::collections::BTreeSet;

pub struct Builder {
    pub geo: Geo,
    pub img: Vec<u8>,
    pub free: Vec<Loc>,
    pub dir: Vec<Loc>,
    pub slots: Vec<(Loc, usize)>,
    pub border: Option<Loc>,
    pub border_slots: Vec<(Loc, usize)>,
    pub used_dir: BTreeSet<u8>,
    pub names: Vec<Vec<u8>>,
    /// allow VLIR records around the 255 block limit of the Convert format
    pub huge: bool,
}

/// The blank image of a geometry, as laid out by the DOS.
pub fn blank(geo: Geo, name: &[u8], id: [u8; 2]) -> Vec<u8> {
    let mut img = vec![0u8; geo.size()];
    for t in 1..=geo.bam_tracks() {
        let (c, o, n) = geo.bam_pos(t);
        let map = (1u64 << geo.spt(t)) - 1;
        img[c] = geo.spt(t);
        for i in 0..n {
            img[o + i] = (map >> (8 * i)) as u8;
        }
    }
    for l in geo.system() {
        geo.set_free(&mut img, l, false);
    }
    let (no, io, vo) = (geo.name_offset(), geo.id_offset(), geo.dos_version_offset());
    let fd = geo.first_dir();
    {
        let h = geo.sector_mut(&mut img, geo.header());
        h[0] = fd.0;
        h[1] = fd.1;
        let (fmt, ver) = if geo.kind == Kind::D81 { (b'D', b'3') } else { (b'A', b'2') };
        h[2] = fmt;
        if geo.kind == Kind::D71 {
            h[3] = 0x80;
        }
        let end = if geo.kind == Kind::D81 { 0x1D } else { 0xAB };
        for b in h[no..end].iter_mut() {
            *b = 0xA0;
        }
        h[no..no + name.len()].copy_from_slice(name);
        h[io] = id[0];
        h[io + 1] = id[1];
        h[vo] = ver;
        h[vo + 1] = fmt;
    }
    geo.sector_mut(&mut img, fd)[1] = 0xFF;
    img
}

pub fn random_name(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => max,
        1 => 1,
        _ => rng.range(1, max),
    };
    let mut v: Vec<u8> = (0..n)
        .map(|_| match rng.below(6) {
            0 => rng.byte(),
            1 => 0x30 + rng.below(10) as u8,
            _ => 0x41 + rng.below(26) as u8,
        })
        .collect();
    while v.last() == Some(&0xA0) {
        v.pop();
    }
    if v.is_empty() {
        v.push(0x58);
    }
    v
}

/// The type byte with some of the attribute bits changed.
fn attributes(rng: &mut Rng, t: u8) -> u8 {
    match rng.below(6) {
        0 => t | 0x40,
        1 => t | (rng.byte() & 0x70),
        2 if t & 7 != 0 => t & 0x7F,
        _ => t,
    }
}

/// The block count in the entry, which nothing may depend on.
fn recorded(rng: &mut Rng, blocks: usize) -> usize {
    match rng.below(40) {
        0 => rng.below(65536),
        1 => 65535 - rng.below(3),
        _ => blocks,
    }
}

impl Builder {
    pub fn new(geo: Geo, rng: &mut Rng) -> Builder {
        let dn = random_name(rng, 16);
        let id = [0x30 + rng.below(40) as u8, 0x41 + rng.below(26) as u8];
        let img = blank(geo, &dn, id);
        let mut b = Builder {
            geo,
            img,
            free: geo.data_locs(),
            dir: vec![geo.first_dir()],
            slots: vec![],
            border: None,
            border_slots: vec![],
            used_dir: geo.system().iter().filter(|l| l.0 == geo.dir_track()).map(|l| l.1).collect(),
            names: vec![],
            huge: false,
        };
        rng.shuffle(&mut b.free);
        b.slots = (0..8).map(|k| (geo.first_dir(), k * 32)).collect();
        if geo.err {
            let off = geo.sectors() * 256;
            for x in b.img[off..].iter_mut() {
                *x = if rng.chance(1, 10) { rng.byte() } else { 1 };
            }
        }
        // Sectors beyond the allocation map carry data nobody may touch.
        if geo.tracks > geo.bam_tracks() {
            for l in geo.locs() {
                if l.0 > geo.bam_tracks() {
                    let d = rng.content(256);
                    geo.sector_mut(&mut b.img, l).copy_from_slice(&d);
                }
            }
        }
        b
    }
    pub fn take(&mut self) -> Option<Loc> {
        let l = self.free.pop()?;
        self.geo.set_free(&mut self.img, l, false);
        Some(l)
    }
    /// Pop free sectors preferring a few tracks, for compact files.
    pub fn take_n(&mut self, n: usize) -> Option<Vec<Loc>> {
        if self.free.len() < n {
            return None;
        }
        Some((0..n).map(|_| self.take().unwrap()).collect())
    }
    pub fn extend_dir(&mut self, rng: &mut Rng) -> bool {
        let t = self.geo.dir_track();
        let cand: Vec<u8> = (0..self.geo.spt(t)).filter(|s| !self.used_dir.contains(s)).collect();
        if cand.is_empty() {
            return false;
        }
        let s = *rng.pick(&cand);
        self.used_dir.insert(s);
        let l = (t, s);
        self.geo.set_free(&mut self.img, l, false);
        let last = *self.dir.last().unwrap();
        let x = self.geo.sector_mut(&mut self.img, last);
        x[0] = l.0;
        x[1] = l.1;
        let x = self.geo.sector_mut(&mut self.img, l);
        x.fill(0);
        x[1] = 0xFF;
        self.dir.push(l);
        for k in 0..8 {
            self.slots.push((l, k * 32));
        }
        true
    }
    pub fn make_geos(&mut self, rng: &mut Rng) {
        // The border sector may be any sector; GEOS puts it off the directory track.
        let b = if rng.chance(1, 2) {
            let t = self.geo.dir_track();
            let cand: Vec<u8> = (0..self.geo.spt(t)).filter(|s| !self.used_dir.contains(s)).collect();
            let s = *rng.pick(&cand);
            self.used_dir.insert(s);
            self.geo.set_free(&mut self.img, (t, s), false);
            (t, s)
        } else {
            self.take().unwrap()
        };
        let h = self.geo.sector_mut(&mut self.img, self.geo.header());
        h[0xAB] = b.0;
        h[0xAC] = b.1;
        h[0xAD..0xAD + 16].copy_from_slice(b"GEOS format V1.0");
        let x = self.geo.sector_mut(&mut self.img, b);
        x[0] = 0;
        x[1] = 0xFF;
        self.border = Some(b);
        self.border_slots = (0..8).map(|k| (b, k * 32)).collect();
    }
    fn slot(&mut self, rng: &mut Rng) -> Option<(Loc, usize)> {
        if self.border.is_some() && !self.border_slots.is_empty() && rng.chance(1, 6) {
            let i = rng.below(self.border_slots.len());
            return Some(self.border_slots.swap_remove(i));
        }
        if self.slots.is_empty() && !self.extend_dir(rng) {
            return None;
        }
        let i = rng.below(self.slots.len());
        Some(self.slots.swap_remove(i))
    }
    pub fn fresh_name(&mut self, rng: &mut Rng) -> Vec<u8> {
        loop {
            let n = random_name(rng, 16);
            if !self.names.contains(&n) {
                self.names.push(n.clone());
                return n;
            }
        }
    }
    fn entry(&mut self, rng: &mut Rng, tbyte: u8, first: Loc, name: &[u8], extra: [u8; 9], size: usize) -> Option<()> {
        let (l, o) = self.slot(rng)?;
        let x = self.geo.sector_mut(&mut self.img, l);
        let e = &mut x[o..o + 32];
        e[2] = tbyte;
        e[3] = first.0;
        e[4] = first.1;
        for b in e[5..21].iter_mut() {
            *b = 0xA0;
        }
        e[5..5 + name.len()].copy_from_slice(name);
        e[21..30].copy_from_slice(&extra);
        e[30] = size as u8;
        e[31] = (size >> 8) as u8;
        Some(())
    }
    pub fn write_chain(&mut self, locs: &[Loc], content: &[u8], rng: &mut Rng) {
        let n = locs.len();
        for (i, l) in locs.iter().enumerate() {
            let lo = (i * 254).min(content.len());
            let hi = ((i + 1) * 254).min(content.len());
            let junk = rng.content(256);
            let x = self.geo.sector_mut(&mut self.img, *l);
            x.copy_from_slice(&junk);
            x[2..2 + hi - lo].copy_from_slice(&content[lo..hi]);
            if i + 1 < n {
                x[0] = locs[i + 1].0;
                x[1] = locs[i + 1].1;
            } else {
                x[0] = 0;
                x[1] = (hi - lo + 1) as u8;
            }
        }
    }
    pub fn chain_for(&mut self, content: &[u8], rng: &mut Rng) -> Option<Vec<Loc>> {
        let n = ((content.len() + 253) / 254).max(1);
        let locs = self.take_n(n)?;
        self.write_chain(&locs, content, rng);
        Some(locs)
    }
    pub fn linear(&mut self, rng: &mut Rng, len: usize) -> Option<Vec<u8>> {
        if self.free.len() < len / 254 + 2 {
            return None;
        }
        let name = self.fresh_name(rng);
        let content = rng.content(len);
        let locs = self.chain_for(&content, rng)?;
        let t = match rng.below(8) {
            0 => 0x80,
            1 => 0x01,
            2 => 0xC2,
            3 => 0xA1,
            4 => 0x83,
            5 => 0x81 | (rng.byte() & 0x70),
            _ => 0x82,
        };
        let mut extra = [0u8; 9];
        if rng.chance(1, 4) {
            // arbitrary leftovers which do not make it a GEOS file
            for b in extra.iter_mut() {
                *b = rng.byte();
            }
            extra[2] |= 0x80;
        }
        let size = recorded(rng, locs.len());
        self.entry(rng, t, locs[0], &name, extra, size)?;
        Some(name)
    }
    pub fn rel(&mut self, rng: &mut Rng, reclen: usize, mut records: usize) -> Option<Vec<u8>> {
        let cap = self.free.len().saturating_sub(10).min(700);
        while records > 0 && (records * reclen + 253) / 254 > cap {
            records /= 2;
        }
        let content = rng.content(reclen * records);
        let nd = (content.len() + 253) / 254;
        let ns = ((nd + 119) / 120).max(1);
        if self.free.len() < nd + ns + 1 {
            return None;
        }
        let name = self.fresh_name(rng);
        let data = self.take_n(nd)?;
        if nd > 0 {
            self.write_chain(&data, &content, rng);
        }
        let side = self.take_n(ns)?;
        for (i, l) in side.iter().enumerate() {
            let part: Vec<Loc> = data[(i * 120).min(nd)..((i + 1) * 120).min(nd)].to_vec();
            let side2 = side.clone();
            let x = self.geo.sector_mut(&mut self.img, *l);
            for b in x.iter_mut() {
                *b = 0;
            }
            if i + 1 < ns {
                x[0] = side2[i + 1].0;
                x[1] = side2[i + 1].1;
            } else {
                x[0] = 0;
                x[1] = (15 + 2 * part.len()) as u8;
            }
            x[2] = i as u8;
            x[3] = reclen as u8;
            for (k, s) in side2.iter().enumerate() {
                x[4 + 2 * k] = s.0;
                x[5 + 2 * k] = s.1;
            }
            for (k, d) in part.iter().enumerate() {
                x[16 + 2 * k] = d.0;
                x[17 + 2 * k] = d.1;
            }
        }
        let mut extra = [0u8; 9];
        extra[0] = side[0].0;
        extra[1] = side[0].1;
        extra[2] = reclen as u8;
        if rng.chance(1, 3) {
            for b in extra[3..].iter_mut() {
                *b = rng.byte();
            }
        }
        let first = if nd > 0 { data[0] } else { side[0] };
        let t = attributes(rng, 0x84);
        let size = recorded(rng, nd + ns);
        self.entry(rng, t, first, &name, extra, size)?;
        Some(name)
    }
    fn info_block(&mut self, rng: &mut Rng, structure: u8, gtype: u8, tbyte: u8) -> Option<Loc> {
        let l = self.take()?;
        let mut d = rng.content(256);
        d[0] = 0;
        d[1] = 0xFF;
        d[2..5].copy_from_slice(&[3, 21, 0xBF]);
        if rng.chance(7, 8) {
            d[0x44] = tbyte;
            d[0x45] = gtype;
            d[0x46] = structure;
        }
        self.geo.sector_mut(&mut self.img, l).copy_from_slice(&d);
        Some(l)
    }
    pub fn geos_seq(&mut self, rng: &mut Rng, len: usize) -> Option<Vec<u8>> {
        if self.free.len() < len / 254 + 4 {
            return None;
        }
        let name = self.fresh_name(rng);
        let gtype = if rng.chance(1, 12) { rng.range(1, 255) as u8 } else { rng.range(1, 14) as u8 };
        let t = if rng.chance(1, 4) { 0x80 + rng.below(3) as u8 } else { 0x83 };
        let t = attributes(rng, t);
        let info = if rng.chance(1, 8) { (0, 0) } else { self.info_block(rng, 0, gtype, t)? };
        let content = rng.content(len);
        let locs = self.chain_for(&content, rng)?;
        let extra = [info.0, info.1, 0, gtype, rng.byte(), rng.range(1, 12) as u8, rng.range(1, 31) as u8, rng.below(24) as u8, rng.below(60) as u8];
        let size = recorded(rng, locs.len() + 1);
        self.entry(rng, t, locs[0], &name, extra, size)?;
        Some(name)
    }
    pub fn vlir(&mut self, rng: &mut Rng, records: usize) -> Option<Vec<u8>> {
        if self.free.len() < 4 {
            return None;
        }
        let name = self.fresh_name(rng);
        let gtype = if rng.chance(1, 12) { rng.byte() } else { rng.below(15) as u8 };
        let t = if rng.chance(1, 8) { 0x80 + rng.below(3) as u8 } else { 0x83 };
        let t = attributes(rng, t);
        let info = if rng.chance(1, 10) { (0, 0) } else { self.info_block(rng, 1, gtype, t)? };
        let idx = self.take()?;
        let mut d = vec![0u8; 256];
        d[1] = 0xFF;
        let mut blocks = 2;
        let mut k = 0;
        for _ in 0..records.min(127) {
            if rng.chance(1, 4) {
                d[2 + 2 * k] = 0;
                d[3 + 2 * k] = 0xFF;
            } else {
                let len = match rng.below(6) {
                    _ if self.huge && rng.chance(1, 12) => *rng.pick(&[64769usize, 64770, 64771, 65025, 65100]),
                    0 => 254,
                    1 => 508,
                    2 => 1,
                    3 => rng.range(1, 3000),
                    _ => rng.range(1, 600),
                };
                if self.free.len() < len / 254 + 3 {
                    break;
                }
                let content = rng.content(len);
                let locs = self.chain_for(&content, rng)?;
                blocks += locs.len();
                d[2 + 2 * k] = locs[0].0;
                d[3 + 2 * k] = locs[0].1;
            }
            k += 1;
        }
        if k < 127 && rng.chance(1, 4) {
            // padded with "unavailable" markers, as some GEOS programs do
            for i in k..127 {
                d[3 + 2 * i] = 0xFF;
            }
        } else if k < 126 && rng.chance(1, 4) {
            // leftovers behind the end of the table
            for b in d[4 + 2 * k..].iter_mut() {
                *b = rng.byte();
            }
        }
        self.geo.sector_mut(&mut self.img, idx).copy_from_slice(&d);
        let extra = [info.0, info.1, 1, gtype, rng.byte(), rng.range(1, 12) as u8, rng.range(1, 31) as u8, rng.below(24) as u8, rng.below(60) as u8];
        let size = recorded(rng, blocks);
        self.entry(rng, t, idx, &name, extra, size)?;
        Some(name)
    }
    /// Entries that are only there to be seen in a listing: they point nowhere.
    pub fn art(&mut self, rng: &mut Rng, n: usize) {
        for _ in 0..n {
            let c = *rng.pick(&[b'-', b'=', b'*', 0xC0, 0x60, b' ', 0xA4]);
            let mut name = vec![c; rng.range(1, 16)];
            if rng.chance(1, 3) {
                name = random_name(rng, 16);
            }
            if self.names.iter().any(|x| *x == name) {
                continue;
            }
            let t = *rng.pick(&[0x80, 0x80, 0x80, 0xC0, 0x81, 0x82, 0x83, 0xA0, 0x02]);
            let size = if rng.chance(3, 4) { 0 } else { rng.below(1000) };
            let first = (0, if rng.chance(1, 3) { rng.byte() } else { 0 });
            if self.entry(rng, t, first, &name, [0; 9], size).is_none() {
                return;
            }
            self.names.push(name);
        }
    }
    /// Leave garbage in the unused (scratched) slots, as deleted files do.
    pub fn dirty_slots(&mut self, rng: &mut Rng) {
        for (l, o) in self.slots.clone() {
            if rng.chance(1, 3) {
                let mut g = rng.bytes(30);
                g[0] &= 0x70;
                let x = self.geo.sector_mut(&mut self.img, l);
                x[o + 2..o + 32].copy_from_slice(&g);
            }
        }
    }
    /// Leave old data in the free sectors, those of the directory track included.
    pub fn dirty_free(&mut self, rng: &mut Rng) {
        let t = self.geo.dir_track();
        let mut v = self.free.clone();
        v.extend((0..self.geo.spt(t)).filter(|s| !self.used_dir.contains(s)).map(|s| (t, s)));
        let n = v.len();
        for l in v {
            if l.0 == t || n < 100 || rng.chance(1, 3) {
                let d = rng.content(256);
                self.geo.sector_mut(&mut self.img, l).copy_from_slice(&d);
            }
        }
    }
    /// Let the last directory sector end before its last entry.
    pub fn short_dir(&mut self, rng: &mut Rng) {
        let l = *self.dir.last().unwrap();
        let used = (0..8).rev().find(|k| !self.slots.contains(&(l, k * 32))).map(|k| k + 1).unwrap_or(0);
        let n = rng.range((used * 32).max(2), 256);
        let x = self.geo.sector_mut(&mut self.img, l);
        x[1] = (n - 1) as u8;
        for b in x[(n / 32 * 32).max(2)..].iter_mut() {
            *b = 0;
        }
        self.slots.retain(|s| s.0 != l || s.1 + 32 <= n);
    }
    /// Occupy data sectors with one big filler file until `left` are free.
    pub fn fill_until(&mut self, rng: &mut Rng, left: usize) {
        while self.free.len() > left {
            let n = (self.free.len() - left).min(rng.range(60, 700));
            let before = self.free.len();
            let len = n * 254 - rng.below(200).min(n * 254 - (n - 1) * 254 - 1);
            let name = self.fresh_name(rng);
            let content = rng.content(len);
            let locs = match self.chain_for(&content, rng) {
                Some(l) => l,
                None => return,
            };
            if self.entry(rng, 0x82, locs[0], &name, [0; 9], locs.len()).is_none() || self.free.len() == before {
                return;
            }
        }
    }
}

/// A random well-formed image. `geos`: make it a GEOS disk.
pub fn random_image(geo: Geo, rng: &mut Rng, files: usize, geos: bool, with_special: bool) -> Builder {
    let mut b = Builder::new(geo, rng);
    if geos {
        b.make_geos(rng);
    }
    for _ in 0..rng.below(4) {
        b.extend_dir(rng);
    }
    for _ in 0..files {
        let len = match rng.below(8) {
            0 => 0,
            1 => 254,
            2 => 253,
            3 => 255,
            4 => 508,
            5 => rng.below(12000),
            _ => rng.below(2000),
        };
        let r = if with_special {
            match rng.below(if geos { 5 } else { 6 }) {
                0 => {
                    let rl = match rng.below(5) {
                        0 => 254,
                        1 => 1,
                        2 => 127,
                        _ => rng.range(1, 254),
                    };
                    let n = match rng.below(5) {
                        0 => 0,
                        1 => 1,
                        2 => rng.below(600),
                        _ => rng.below(60),
                    };
                    b.rel(rng, rl, n)
                }
                1 => b.geos_seq(rng, len.max(1)),
                2 => {
                    let n = if rng.chance(1, 10) { 127 } else { rng.below(20) };
                    b.vlir(rng, n)
                }
                _ => b.linear(rng, len),
            }
        } else {
            b.linear(rng, len)
        };
        if r.is_none() {
            break;
        }
    }
    b.dirty_slots(rng);
    if rng.chance(1, 3) {
        b.dirty_free(rng);
    }
    if rng.chance(1, 10) {
        b.short_dir(rng);
    }
    b
}
