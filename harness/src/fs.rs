//! Independent decoder of CBM file systems, working on raw image bytes only.
use crate::geom::{Geo, Loc};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecErr {
    BadLoc,
    Loop,
    BadLink,
    BadRel,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FKind {
    Linear,
    Rel,
    GeosSeq,
    Vlir,
}

/// What a user can read from a file.
#[derive(Clone, PartialEq, Eq)]
pub enum Content {
    Bytes(Vec<u8>),
    Records(Vec<Vec<u8>>),
    Vlir(Vec<Option<Vec<u8>>>),
    Bad(DecErr),
}

impl std::fmt::Debug for Content {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Content::Bytes(b) => write!(f, "Bytes(len {} hash {:016x})", b.len(), crate::rng::hash_bytes(b)),
            Content::Records(r) => write!(f, "Records({})", r.len()),
            Content::Vlir(r) => write!(f, "Vlir({})", r.len()),
            Content::Bad(e) => write!(f, "Bad({:?})", e),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub slot: (Loc, usize),
    pub raw: [u8; 32],
    pub border: bool,
    pub name: Vec<u8>,
    pub kind: FKind,
    pub occupied: Result<Vec<Loc>, DecErr>,
    pub content: Content,
}

impl Ent {
    pub fn tbyte(&self) -> u8 {
        self.raw[2]
    }
    pub fn first(&self) -> Loc {
        (self.raw[3], self.raw[4])
    }
    pub fn size(&self) -> u16 {
        self.raw[30] as u16 | (self.raw[31] as u16) << 8
    }
    pub fn meta(&self) -> &[u8] {
        &self.raw[2..]
    }
    pub fn info(&self) -> Option<Loc> {
        let l = (self.raw[0x15], self.raw[0x16]);
        if l == (0, 0) { None } else { Some(l) }
    }
}

#[derive(Clone)]
pub struct Fs {
    pub dir: Vec<(Loc, usize)>,
    pub border: Option<Loc>,
    pub geos: bool,
    pub ents: Vec<Ent>,
    /// scratched slots in the (non-border) directory chain
    pub free_slots: Vec<(Loc, usize)>,
}

pub fn strip(b: &[u8]) -> Vec<u8> {
    let mut e = b.len();
    while e > 0 && b[e - 1] == 0xA0 {
        e -= 1;
    }
    b[..e].to_vec()
}

/// Follow a chain; yields each location with the number of used bytes.
pub fn chain(geo: &Geo, img: &[u8], start: Loc) -> Result<Vec<(Loc, usize)>, DecErr> {
    let mut v = vec![];
    let mut seen = HashSet::new();
    let mut at = start;
    loop {
        if !seen.insert(at) {
            return Err(DecErr::Loop);
        }
        let s = geo.sector(img, at).ok_or(DecErr::BadLoc)?;
        if s[0] == 0 {
            if s[1] == 0 {
                return Err(DecErr::BadLink);
            }
            v.push((at, s[1] as usize + 1));
            return Ok(v);
        }
        v.push((at, 256));
        at = (s[0], s[1]);
    }
}

pub fn chain_locs(geo: &Geo, img: &[u8], start: Loc) -> Result<Vec<Loc>, DecErr> {
    Ok(chain(geo, img, start)?.into_iter().map(|x| x.0).collect())
}

pub fn chain_bytes(geo: &Geo, img: &[u8], start: Loc) -> Result<Vec<u8>, DecErr> {
    let mut out = vec![];
    for (l, n) in chain(geo, img, start)? {
        out.extend_from_slice(&geo.sector(img, l).unwrap()[2..n]);
    }
    Ok(out)
}

pub fn kind_of(raw: &[u8]) -> FKind {
    if raw[2] & 0x0F == 4 {
        return FKind::Rel;
    }
    let (structure, gtype) = (raw[0x17], raw[0x18]);
    if raw[2] & 7 < 4 && (structure != 0 || gtype != 0) && structure <= 1 {
        if structure == 1 {
            FKind::Vlir
        } else {
            FKind::GeosSeq
        }
    } else {
        FKind::Linear
    }
}

pub fn is_scratched(tbyte: u8) -> bool {
    tbyte & 0x0F == 0 && tbyte & 0x80 == 0
}

pub struct RelDec {
    pub side: Vec<Loc>,
    pub data: Vec<Loc>,
    pub reclen: usize,
    pub records: usize,
}

pub fn rel_decode(geo: &Geo, img: &[u8], raw: &[u8]) -> Result<RelDec, DecErr> {
    let reclen = raw[0x17] as usize;
    if reclen == 0 {
        return Err(DecErr::BadRel);
    }
    let side = chain(geo, img, (raw[0x15], raw[0x16]))?;
    if side.len() > 6 {
        return Err(DecErr::BadRel);
    }
    let side_locs: Vec<Loc> = side.iter().map(|x| x.0).collect();
    let mut data = vec![];
    for (l, n) in &side {
        let s = geo.sector(img, *l).unwrap();
        if *n < 16 || n % 2 == 1 {
            return Err(DecErr::BadRel);
        }
        let list: Vec<Loc> = (0..6).map(|i| (s[4 + 2 * i], s[5 + 2 * i])).filter(|l| l.0 != 0).collect();
        if list != side_locs {
            return Err(DecErr::BadRel);
        }
        for c in s[16..*n].chunks(2) {
            data.push((c[0], c[1]));
        }
    }
    // the side sectors list the sectors of the file's chain, in order
    if !data.is_empty() && chain_locs(geo, img, (raw[3], raw[4]))? != data {
        return Err(DecErr::BadRel);
    }
    let mut bytes = 0;
    if let Some(last) = data.last() {
        let s = geo.sector(img, *last).ok_or(DecErr::BadLoc)?;
        if s[0] != 0 {
            return Err(DecErr::BadRel);
        }
        if s[1] == 0 {
            return Err(DecErr::BadLink);
        }
        bytes = (data.len() - 1) * 254 + s[1] as usize - 1;
    }
    if bytes % reclen != 0 {
        return Err(DecErr::BadRel);
    }
    Ok(RelDec { side: side_locs, data, reclen, records: bytes / reclen })
}

pub fn vlir_index(geo: &Geo, img: &[u8], first: Loc) -> Result<Vec<Option<Loc>>, DecErr> {
    let s = geo.sector(img, first).ok_or(DecErr::BadLoc)?;
    let mut v = vec![];
    for c in s[2..].chunks(2) {
        if c == [0, 0] {
            break;
        }
        v.push(if c == [0, 0xFF] { None } else { Some((c[0], c[1])) });
    }
    Ok(v)
}

fn decode_file(geo: &Geo, img: &[u8], raw: &[u8]) -> (Result<Vec<Loc>, DecErr>, Content) {
    let first = (raw[3], raw[4]);
    match kind_of(raw) {
        FKind::Linear => (
            chain_locs(geo, img, first).map(uniq),
            chain_bytes(geo, img, first).map(Content::Bytes).unwrap_or_else(Content::Bad),
        ),
        FKind::Rel => match rel_decode(geo, img, raw) {
            Err(e) => (Err(e), Content::Bad(e)),
            Ok(r) => {
                let mut occ = r.side.clone();
                occ.extend(&r.data);
                let mut bytes = vec![];
                for l in &r.data {
                    match geo.sector(img, *l) {
                        Some(s) => bytes.extend_from_slice(&s[2..]),
                        None => return (Ok(uniq(occ)), Content::Bad(DecErr::BadLoc)),
                    }
                }
                let recs = (0..r.records).map(|i| bytes[i * r.reclen..(i + 1) * r.reclen].to_vec()).collect();
                (Ok(uniq(occ)), Content::Records(recs))
            }
        },
        k => {
            let info = (raw[0x15], raw[0x16]);
            let main = chain_locs(geo, img, first);
            let mut occ = match main {
                Ok(v) => v,
                Err(e) => {
                    // A VLIR index may be readable all the same.
                    return (Err(e), Content::Bad(e));
                }
            };
            if info != (0, 0) {
                occ.push(info);
            }
            if k == FKind::GeosSeq {
                return (Ok(uniq(occ)), Content::Bytes(chain_bytes(geo, img, first).unwrap()));
            }
            let idx = vlir_index(geo, img, first).unwrap();
            let mut recs = vec![];
            let mut bad = None;
            for r in idx {
                match r {
                    None => recs.push(None),
                    Some(l) => match chain_locs(geo, img, l) {
                        Ok(v) => {
                            occ.extend(v);
                            recs.push(Some(chain_bytes(geo, img, l).unwrap()));
                        }
                        Err(e) => {
                            bad = Some(e);
                            break;
                        }
                    },
                }
            }
            match bad {
                Some(e) => (Err(e), Content::Bad(e)),
                None => (Ok(uniq(occ)), Content::Vlir(recs)),
            }
        }
    }
}

fn uniq(mut v: Vec<Loc>) -> Vec<Loc> {
    v.sort();
    v.dedup();
    v
}

pub fn geos_border(geo: &Geo, img: &[u8]) -> Option<Loc> {
    let h = geo.sector(img, geo.header()).unwrap();
    if &h[0xAD..0xAD + 11] == b"GEOS format" {
        Some((h[0xAB], h[0xAC]))
    } else {
        None
    }
}

impl Fs {
    pub fn parse(geo: &Geo, img: &[u8]) -> Result<Fs, DecErr> {
        let dir = chain(geo, img, geo.first_dir())?;
        let border = geos_border(geo, img);
        let mut ents = vec![];
        let mut free_slots = vec![];
        let mut blocks: Vec<(Loc, usize, bool)> = dir.iter().map(|x| (x.0, x.1, border == Some(x.0))).collect();
        if let Some(b) = border {
            blocks.push((b, 256, true));
        }
        let ndir = dir.len();
        for (i, (l, n, isb)) in blocks.into_iter().enumerate() {
            let s = geo.sector(img, l).ok_or(DecErr::BadLoc)?;
            for k in 0..n / 32 {
                let mut raw = [0u8; 32];
                raw.copy_from_slice(&s[k * 32..k * 32 + 32]);
                if is_scratched(raw[2]) {
                    if i < ndir {
                        free_slots.push((l, k * 32));
                    }
                    continue;
                }
                let (occupied, content) = decode_file(geo, img, &raw);
                ents.push(Ent {
                    slot: (l, k * 32),
                    raw,
                    border: isb,
                    name: strip(&raw[5..21]),
                    kind: kind_of(&raw),
                    occupied,
                    content,
                });
            }
        }
        Ok(Fs { dir, border, geos: border.is_some(), ents, free_slots })
    }
    /// As `parse`, but an entry that points nowhere (track 0: the separator
    /// lines and pictures people draw in directories) owns no sectors.
    pub fn parse_art(geo: &Geo, img: &[u8]) -> Result<Fs, DecErr> {
        let mut f = Fs::parse(geo, img)?;
        for e in f.ents.iter_mut() {
            if e.kind == FKind::Linear && e.first().0 == 0 {
                e.occupied = Ok(vec![]);
            }
        }
        Ok(f)
    }
    pub fn find(&self, name: &[u8]) -> Option<&Ent> {
        let name = strip(name);
        self.ents.iter().find(|e| e.name == name)
    }
    pub fn owners(&self, geo: &Geo) -> BTreeMap<Loc, Vec<String>> {
        let mut m: BTreeMap<Loc, Vec<String>> = BTreeMap::new();
        for l in geo.system() {
            m.entry(l).or_default().push("system".into());
        }
        for (l, _) in &self.dir {
            let e = m.entry(*l).or_default();
            if e.is_empty() {
                e.push("directory".into());
            }
        }
        if let Some(b) = self.border {
            m.entry(b).or_default().push("border".into());
        }
        for e in &self.ents {
            if let Ok(v) = &e.occupied {
                for l in v {
                    m.entry(*l).or_default().push(format!("file {:02x?}", e.name));
                }
            }
        }
        m
    }
    /// Full structural audit: every sector has at most one owner, the
    /// allocation map says "allocated" exactly for the owned sectors, and its
    /// counts are right. Returns the discrepancies.
    pub fn audit(&self, geo: &Geo, img: &[u8]) -> Vec<String> {
        let mut bad = vec![];
        let owners = self.owners(geo);
        for e in &self.ents {
            if let Err(x) = e.occupied {
                bad.push(format!("file {:02x?} cannot be traversed: {:?}", e.name, x));
            }
        }
        for (l, o) in &owners {
            if o.len() > 1 {
                bad.push(format!("sector {:?} has several owners: {:?}", l, o));
            }
        }
        for t in 1..=geo.bam_tracks() {
            let map = geo.bam_map(img, t);
            if map.count_ones() as u8 != geo.bam_count(img, t) {
                bad.push(format!("track {} free count {} but bitmap has {}", t, geo.bam_count(img, t), map.count_ones()));
            }
            if map >> geo.spt(t) != 0 {
                bad.push(format!("track {} bitmap marks sectors that do not exist: {:x}", t, map));
            }
            for s in 0..geo.spt(t) {
                let owned = owners.contains_key(&(t, s));
                let free = map >> s & 1 == 1;
                if owned && free {
                    bad.push(format!("sector ({},{}) is in use by {:?} but marked free", t, s, owners[&(t, s)]));
                }
                if !owned && !free {
                    bad.push(format!("sector ({},{}) is marked allocated but nothing uses it", t, s));
                }
            }
        }
        bad
    }
    pub fn names(&self) -> Vec<Vec<u8>> {
        self.ents.iter().map(|e| e.name.clone()).collect()
    }
}

pub fn free_data_blocks(geo: &Geo, img: &[u8]) -> usize {
    (1..=geo.bam_tracks())
        .filter(|t| geo.is_data_track(*t))
        .map(|t| (geo.bam_map(img, t) & ((1u64 << geo.spt(t)) - 1)).count_ones() as usize)
        .sum()
}

pub fn free_dir_sectors(geo: &Geo, img: &[u8]) -> usize {
    let t = geo.dir_track();
    (geo.bam_map(img, t) & ((1u64 << geo.spt(t)) - 1)).count_ones() as usize
}
