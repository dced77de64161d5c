use crate::geom::{Geo, Kind, Loc};
use cbm::disk::directory::{DirectoryEntry, FileType};
use cbm::disk::{Disk, DiskError, D64, D71, D81};
use cbm::Petscii;
use std::io;

/// A crate `Location` (the type cannot be named from outside).
#[macro_export]
macro_rules! loc {
    ($disk:expr, $l:expr) => {{
        let mut x = $disk.native_disk_format().first_directory_location();
        x.0 = $l.0;
        x.1 = $l.1;
        x
    }};
}

pub fn pet(b: &[u8]) -> Petscii {
    Petscii::from_bytes(b)
}

pub fn kind(e: &io::Error) -> String {
    match DiskError::from_io_error(e) {
        Some(d) => format!("{:?}", d),
        None => format!("io:{:?}", e.kind()),
    }
}

pub fn memory(geo: Geo) -> Box<dyn Disk> {
    match (geo.kind, geo.tracks) {
        (Kind::D64, 40) => Box::new(D64::open_memory(D64::geometry_40_tracks(geo.err)).unwrap()),
        (Kind::D64, _) => Box::new(D64::open_memory(D64::geometry(geo.err)).unwrap()),
        (Kind::D71, _) => Box::new(D71::open_memory(D71::geometry(geo.err)).unwrap()),
        (Kind::D81, _) => Box::new(D81::open_memory(D81::geometry(geo.err)).unwrap()),
    }
}

/// Put raw image bytes into a memory-backed disk.
pub fn load_memory(geo: Geo, img: &[u8]) -> Box<dyn Disk> {
    let mut d = memory(geo);
    for l in geo.locs() {
        let o = geo.offset(l).unwrap();
        let x = loc!(d, l);
        d.write_sector(x, &img[o..o + 256]).unwrap();
    }
    if geo.err {
        let off = geo.sectors() * 256;
        d.blocks_ref_mut().error_table_mut().unwrap().unwrap().copy_from_slice(&img[off..]);
    }
    d.initialize();
    d
}

pub fn open_path(geo: Geo, path: &std::path::Path, writable: bool) -> io::Result<Box<dyn Disk>> {
    Ok(match geo.kind {
        Kind::D64 => Box::new(D64::open(path, writable)?),
        Kind::D71 => Box::new(D71::open(path, writable)?),
        Kind::D81 => Box::new(D81::open(path, writable)?),
    })
}

pub fn ftype(t: u8) -> FileType {
    match t {
        0 => FileType::DEL,
        1 => FileType::SEQ,
        2 => FileType::PRG,
        3 => FileType::USR,
        4 => FileType::REL,
        b => FileType::Unknown(b),
    }
}

pub fn entry_raw(e: &DirectoryEntry) -> Vec<u8> {
    let mut b = [0u8; 32];
    e.to_bytes(&mut b);
    b[2..].to_vec()
}

/// Read everything with a random sequence of buffer sizes.
pub fn read_chunked(r: &mut dyn io::Read, rng: &mut crate::rng::Rng, limit: usize) -> io::Result<Vec<u8>> {
    let mut out = vec![];
    let mode = rng.below(4);
    let mut zero = 0;
    loop {
        let n = match mode {
            0 => 4096,
            1 => rng.range(1, 300),
            2 => *rng.pick(&[1usize, 2, 253, 254, 255, 256, 508, 509]),
            _ => rng.range(1, 20),
        };
        let mut buf = vec![0xEEu8; n];
        let got = match r.read(&mut buf) {
            Err(_) if zero > 0 => {
                // Most callers never read past the end, so what they have is
                // the truncated data.  The extra byte makes sure that an
                // intact file whose end is followed by an error is noticed.
                out.push(0xEE);
                return Ok(out);
            }
            x => x?,
        };
        if got > n {
            return Err(io::Error::new(io::ErrorKind::Other, "read returned more than the buffer holds"));
        }
        if got == 0 {
            // end of file must be stable
            zero += 1;
            if zero == 2 {
                return Ok(out);
            }
            continue;
        }
        if zero > 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "data after end of file"));
        }
        out.extend_from_slice(&buf[..got]);
        if out.len() > limit {
            return Err(io::Error::new(io::ErrorKind::Other, "more data than the disk can hold"));
        }
    }
}

pub fn fmt_locs(v: &[Loc]) -> String {
    let s: Vec<String> = v.iter().take(6).map(|l| format!("({},{})", l.0, l.1)).collect();
    format!("{}{}", s.join(""), if v.len() > 6 { ".." } else { "" })
}
