//! Independent description of the D64/D71/D81 layouts, written from the format
//! documents (not from the crate's tables): sectors per track, image offsets,
//! where the header, the BAM and the directory are.

pub type Loc = (u8, u8);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    D64,
    D71,
    D81,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Geo {
    pub kind: Kind,
    pub tracks: u8,
    pub err: bool,
}

pub const ALL: [Geo; 8] = [
    Geo { kind: Kind::D64, tracks: 35, err: false },
    Geo { kind: Kind::D64, tracks: 35, err: true },
    Geo { kind: Kind::D64, tracks: 40, err: false },
    Geo { kind: Kind::D64, tracks: 40, err: true },
    Geo { kind: Kind::D71, tracks: 70, err: false },
    Geo { kind: Kind::D71, tracks: 70, err: true },
    Geo { kind: Kind::D81, tracks: 80, err: false },
    Geo { kind: Kind::D81, tracks: 80, err: true },
];

fn zone(track: u8) -> u8 {
    if track <= 17 {
        21
    } else if track <= 24 {
        19
    } else if track <= 30 {
        18
    } else {
        17
    }
}

impl Geo {
    pub fn name(&self) -> String {
        format!("{:?}/{}{}", self.kind, self.tracks, if self.err { "+err" } else { "" })
    }
    pub fn spt(&self, track: u8) -> u8 {
        if track == 0 || track > self.tracks {
            return 0;
        }
        match self.kind {
            Kind::D64 => zone(track),
            Kind::D71 => zone(if track > 35 { track - 35 } else { track }),
            Kind::D81 => 40,
        }
    }
    pub fn offset(&self, l: Loc) -> Option<usize> {
        if l.1 >= self.spt(l.0) {
            return None;
        }
        let mut n = 0usize;
        for t in 1..l.0 {
            n += self.spt(t) as usize;
        }
        Some((n + l.1 as usize) * 256)
    }
    pub fn sectors(&self) -> usize {
        (1..=self.tracks).map(|t| self.spt(t) as usize).sum()
    }
    pub fn size(&self) -> usize {
        self.sectors() * 256 + if self.err { self.sectors() } else { 0 }
    }
    pub fn ext(&self) -> &'static str {
        match self.kind {
            Kind::D64 => "d64",
            Kind::D71 => "d71",
            Kind::D81 => "d81",
        }
    }
    pub fn dir_track(&self) -> u8 {
        if self.kind == Kind::D81 { 40 } else { 18 }
    }
    pub fn first_dir(&self) -> Loc {
        if self.kind == Kind::D81 { (40, 3) } else { (18, 1) }
    }
    pub fn header(&self) -> Loc {
        (self.dir_track(), 0)
    }
    /// Tracks covered by the BAM.
    pub fn bam_tracks(&self) -> u8 {
        match self.kind {
            Kind::D64 => 35,
            Kind::D71 => 70,
            Kind::D81 => 80,
        }
    }
    /// Sectors that CBM DOS reserves on a blank disk.
    pub fn system(&self) -> Vec<Loc> {
        match self.kind {
            Kind::D64 => vec![(18, 0), (18, 1)],
            Kind::D71 => {
                let mut v = vec![(18, 0), (18, 1)];
                for s in 0..self.spt(53) {
                    v.push((53, s));
                }
                v
            }
            Kind::D81 => vec![(40, 0), (40, 1), (40, 2), (40, 3)],
        }
    }
    /// May file data be allocated on this track?
    pub fn is_data_track(&self, t: u8) -> bool {
        t >= 1
            && t <= self.bam_tracks()
            && t != self.dir_track()
            && !(self.kind == Kind::D71 && t == 53)
    }
    pub fn total_data_blocks(&self) -> usize {
        (1..=self.bam_tracks())
            .filter(|t| self.is_data_track(*t))
            .map(|t| self.spt(t) as usize)
            .sum()
    }
    pub fn max_dir_entries(&self) -> usize {
        match self.kind {
            Kind::D64 | Kind::D71 => 18 * 8,
            Kind::D81 => 37 * 8,
        }
    }
    pub fn locs(&self) -> Vec<Loc> {
        let mut v = vec![];
        for t in 1..=self.tracks {
            for s in 0..self.spt(t) {
                v.push((t, s));
            }
        }
        v
    }
    pub fn data_locs(&self) -> Vec<Loc> {
        self.locs().into_iter().filter(|l| self.is_data_track(l.0)).collect()
    }
    /// Byte offset in the image of the free count, and of the bitmap, of a
    /// track; and the number of bitmap bytes.
    pub fn bam_pos(&self, t: u8) -> (usize, usize, usize) {
        let at = |l: Loc, o: usize| self.offset(l).unwrap() + o;
        let i = t as usize;
        match self.kind {
            Kind::D64 => (at((18, 0), 4 * i), at((18, 0), 4 * i + 1), 3),
            Kind::D71 => {
                if t <= 35 {
                    (at((18, 0), 4 * i), at((18, 0), 4 * i + 1), 3)
                } else {
                    (at((18, 0), 0xDD + (i - 36)), at((53, 0), 3 * (i - 36)), 3)
                }
            }
            Kind::D81 => {
                if t <= 40 {
                    (at((40, 1), 0x10 + 6 * (i - 1)), at((40, 1), 0x11 + 6 * (i - 1)), 5)
                } else {
                    (at((40, 2), 0x10 + 6 * (i - 41)), at((40, 2), 0x11 + 6 * (i - 41)), 5)
                }
            }
        }
    }
    pub fn bam_count(&self, img: &[u8], t: u8) -> u8 {
        img[self.bam_pos(t).0]
    }
    pub fn bam_map(&self, img: &[u8], t: u8) -> u64 {
        let (_, o, n) = self.bam_pos(t);
        (0..n).fold(0u64, |m, i| m | (img[o + i] as u64) << (8 * i))
    }
    pub fn is_free(&self, img: &[u8], l: Loc) -> bool {
        self.bam_map(img, l.0) >> l.1 & 1 == 1
    }
    pub fn set_free(&self, img: &mut [u8], l: Loc, free: bool) {
        let (c, o, _) = self.bam_pos(l.0);
        let byte = o + (l.1 / 8) as usize;
        let bit = 1u8 << (l.1 % 8);
        let was = img[byte] & bit != 0;
        if free != was {
            if free {
                img[byte] |= bit;
                img[c] = img[c].wrapping_add(1);
            } else {
                img[byte] &= !bit;
                img[c] = img[c].wrapping_sub(1);
            }
        }
    }
    pub fn name_offset(&self) -> usize {
        if self.kind == Kind::D81 { 0x04 } else { 0x90 }
    }
    pub fn id_offset(&self) -> usize {
        if self.kind == Kind::D81 { 0x16 } else { 0xA2 }
    }
    pub fn dos_version_offset(&self) -> usize {
        if self.kind == Kind::D81 { 0x19 } else { 0xA5 }
    }
    pub fn interleave(&self) -> u8 {
        match self.kind {
            Kind::D64 => 10,
            Kind::D71 => 6,
            Kind::D81 => 1,
        }
    }
    pub fn dir_interleave(&self) -> u8 {
        if self.kind == Kind::D81 { 1 } else { 3 }
    }
    pub fn sector<'a>(&self, img: &'a [u8], l: Loc) -> Option<&'a [u8]> {
        self.offset(l).map(|o| &img[o..o + 256])
    }
    pub fn sector_mut<'a>(&self, img: &'a mut [u8], l: Loc) -> &'a mut [u8] {
        let o = self.offset(l).unwrap();
        &mut img[o..o + 256]
    }
}
