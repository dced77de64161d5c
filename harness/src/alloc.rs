//! Reference of the documented block allocation strategy (DISK.TXT, with the
//! exceptions the crate documents): where a new chain starts, and where the
//! next block of a chain goes.
use crate::geom::{Geo, Loc};

pub struct FreeMap<'a> {
    pub geo: &'a Geo,
    pub maps: Vec<u64>, // index = track
}

impl<'a> FreeMap<'a> {
    pub fn from_image(geo: &'a Geo, img: &[u8]) -> FreeMap<'a> {
        let mut maps = vec![0u64];
        for t in 1..=geo.bam_tracks() {
            maps.push(geo.bam_map(img, t));
        }
        FreeMap { geo, maps }
    }
    fn avail(&self, t: u8) -> bool {
        self.maps[t as usize] != 0
    }
    pub fn take(&mut self, l: Loc) {
        self.maps[l.0 as usize] &= !(1u64 << l.1);
    }
    fn scan(&self, t: u8, from: u8) -> Option<Loc> {
        let n = self.geo.spt(t);
        (0..n).map(|i| (from + i) % n).find(|s| self.maps[t as usize] >> s & 1 == 1).map(|s| (t, s))
    }
    /// First block of a new file.
    pub fn first(&self, geos: bool) -> Option<Loc> {
        if geos {
            return self.next((1, 0), true);
        }
        let d = self.geo.dir_track() as i32;
        for dist in 1..self.geo.bam_tracks() as i32 {
            for t in [d - dist, d + dist] {
                if t >= 1 && t <= self.geo.bam_tracks() as i32 && self.avail(t as u8) {
                    return self.scan(t as u8, 0);
                }
            }
        }
        None
    }
    /// Block following `prev` in a chain.
    pub fn next(&self, prev: Loc, geos: bool) -> Option<Loc> {
        let g = self.geo;
        let dir = g.dir_track();
        let last = g.bam_tracks();
        let usable = |t: &u8| g.is_data_track(*t);
        // (track, jumped)
        let mut order: Vec<(u8, bool)> = vec![(prev.0, false)];
        if prev.0 == dir {
            // Directory blocks stay on the directory track.
        } else if geos {
            order.extend((prev.0 + 1..=last).filter(usable).map(|t| (t, false)));
            if prev.0 != 1 {
                order.extend((1..=last).filter(usable).map(|t| (t, true)));
            }
        } else {
            let low: Vec<u8> = (1..dir).rev().filter(usable).collect();
            let high: Vec<u8> = (dir + 1..=last).filter(usable).collect();
            if prev.0 < dir {
                order.extend((1..prev.0).rev().filter(usable).map(|t| (t, false)));
                order.extend(high.iter().map(|t| (*t, true)));
                order.extend(low.iter().map(|t| (*t, true)));
            } else {
                order.extend((prev.0 + 1..=last).filter(usable).map(|t| (t, false)));
                order.extend(low.iter().map(|t| (*t, true)));
                order.extend(high.iter().map(|t| (*t, true)));
            }
        }
        let (t, jumped) = *order.iter().find(|(t, _)| self.avail(*t))?;
        let n = g.spt(t) as i32;
        let il = if t == dir { g.dir_interleave() } else { g.interleave() } as i32;
        let mut s: i32;
        if jumped {
            s = 0;
        } else if geos && t != prev.0 {
            s = (t as i32 - prev.0 as i32) * 2 + 4 + il;
        } else {
            s = prev.1 as i32 + il;
            if geos && t >= 25 {
                s -= 1;
            }
        }
        while s >= n {
            s -= n;
            if s > 0 && !geos {
                s -= 1;
            }
        }
        self.scan(t, s as u8)
    }
    /// Where the writer goes on from the tail block of a file.
    pub fn next_data(&self, prev: Loc, geos: bool) -> Option<Loc> {
        if self.geo.is_data_track(prev.0) {
            self.next(prev, geos)
        } else {
            self.first(geos)
        }
    }
}
