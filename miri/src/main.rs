//! Runs disk images through the crate under Miri, which stops at the first
//! undefined behaviour.  usage: cbmiri SEED SECONDS IMAGE...
//! Prints one line per step ("@ ...") and a summary ("= ...") after each image.
use cbm::disk::directory::{Extra, FileType};
use cbm::disk::file::{File, FileOps, Scheme};
use cbm::disk::{Disk, Id, D64, D71, D81};
use cbm::{Petscii, Sprite};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        // eight at a time: every step is slow here
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

macro_rules! loc {
    ($d:expr, $t:expr, $s:expr) => {{
        let mut x = $d.native_disk_format().first_directory_location();
        x.0 = $t;
        x.1 = $s;
        x
    }};
}

fn load(img: &[u8]) -> Option<Box<dyn Disk>> {
    let mut d: Box<dyn Disk> = match img.len() {
        174848 => Box::new(D64::open_memory(D64::geometry(false)).ok()?),
        175531 => Box::new(D64::open_memory(D64::geometry(true)).ok()?),
        196608 => Box::new(D64::open_memory(D64::geometry_40_tracks(false)).ok()?),
        197376 => Box::new(D64::open_memory(D64::geometry_40_tracks(true)).ok()?),
        349696 => Box::new(D71::open_memory(D71::geometry(false)).ok()?),
        351062 => Box::new(D71::open_memory(D71::geometry(true)).ok()?),
        819200 => Box::new(D81::open_memory(D81::geometry(false)).ok()?),
        822400 => Box::new(D81::open_memory(D81::geometry(true)).ok()?),
        _ => return None,
    };
    let mut at = 0;
    let mut t = 1;
    'all: while t < 255 {
        let mut s = 0;
        loop {
            let l = loc!(d, t, s);
            if at + 256 > img.len() {
                break 'all;
            }
            // memory is zero already
            if img[at..at + 256] != [0u8; 256][..] {
                if d.write_sector(l, &img[at..at + 256]).is_err() {
                    break;
                }
            } else if d.blocks_ref().sector(l).is_err() {
                break;
            }
            at += 256;
            s += 1;
        }
        if s == 0 {
            break;
        }
        t += 1;
    }
    d.initialize();
    Some(d)
}

/// Looks at every byte, so that uninitialised ones show.
fn look(b: &[u8]) {
    static ZERO: [u8; 4096] = [0; 4096];
    for c in b.chunks(4096) {
        std::hint::black_box(c == &ZERO[..c.len()]);
    }
}

struct Run {
    ops: u64,
    panics: u64,
    files: u64,
    bytes: u64,
    rng: Rng,
    until: Instant,
    limit: u64,
}

impl Run {
    fn over(&self) -> bool {
        self.until.elapsed().as_secs() >= self.limit
    }

    fn op(&mut self, what: &str, f: &mut dyn FnMut(&mut Run)) {
        if self.over() {
            return;
        }
        println!("@ {}", what);
        self.ops += 1;
        if catch_unwind(AssertUnwindSafe(|| f(self))).is_err() {
            // whether panics are acceptable is not the question here
            self.panics += 1;
        }
    }

    fn read(&mut self, r: &mut dyn Read, cap: usize) {
        let n = 1 + self.rng.below(600);
        let mut buf = vec![0u8; n];
        let mut total = 0;
        while total < cap {
            match r.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(k) => {
                    look(&buf[..k]);
                    total += k;
                }
            }
        }
        self.bytes += total as u64;
    }

    fn file(&mut self, f: &File) {
        self.files += 1;
        let n = f.record_count().unwrap_or(0);
        for i in [self.rng.below(n.max(1)), n.wrapping_sub(1), n] {
            if let Ok(r) = f.record(i) {
                self.bytes += r.len() as u64;
                look(&r);
            }
        }
        if let Ok(mut r) = f.reader() {
            self.read(&mut *r, 4000);
        }
        let _ = f.occupied_sectors().map(|l| l.len());
        let mut out = vec![];
        let _ = f.details(&mut out, self.rng.below(3));
        if f.entry().file_size < 3 && n < 3 && self.rng.below(4) == 0 {
            let mut out = vec![];
            let _ = f.dump(&mut out);
        }
        if let File::GEOSSequential(g) | File::GEOSVLIR(g) = f {
            if let Ok(mut r) = g.reader() {
                self.read(&mut r, 6000);
            }
            if let Ok(Some(i)) = g.info() {
                let mut b = [0u8; 256];
                i.to_bytes(&mut b);
                let _ = format!("{} {}", i, i.icon.to_unicode());
            }
        }
    }

    fn image(&mut self, d: &mut Box<dyn Disk>) {
        let mut entries = vec![];
        let names: Vec<Petscii> = (0..3).map(|_| { let n = self.rng.below(17); Petscii::from_bytes(&self.rng.bytes(n)) }).collect();
        self.op("list", &mut |_| {
            entries = d.iter().take(40).filter_map(|e| e.ok()).collect::<Vec<_>>();
            let _ = format!("{} {:?}", d, d.header().map(|h| format!("{:?}", h)).is_ok());
        });
        self.op("map", &mut |_| {
            if let Ok(b) = d.bam() {
                let b = b.borrow();
                let _ = format!("{:?}", b);
                let _ = (b.blocks_free(), b.allocated_sectors().map(|v| v.len()), b.free_sectors().map(|v| v.len()));
                let _ = b.next_free_block(None);
                for t in [0u8, 1, 17, 35, 36, 40, 41, 53, 70, 71, 80, 81, 255] {
                    let _ = b.entry(t).map(|e| e.has_availability());
                    let _ = b.next_free_block(Some(loc!(d, t, 3)));
                }
            }
        });
        self.op("addresses", &mut |r| {
            for (t, s) in [(0, 0), (1, 0), (1, 20), (1, 21), (1, 40), (1, 255), (18, 19), (35, 16), (35, 17), (36, 0), (40, 16), (40, 17), (40, 40), (41, 0), (70, 16), (70, 17), (71, 0), (80, 39), (80, 40), (81, 0), (255, 255)] {
                let l = loc!(d, t, s);
                if let Ok(v) = d.read_sector(l) {
                    look(&v);
                    r.bytes += 256;
                }
                let _ = d.blocks_ref().sector(l).map(|b| std::hint::black_box(b[255]));
            }
            let n = [0usize, 1, 255, 257, 512][r.rng.below(5)];
            let l = loc!(d, 1, 0);
            let _ = d.write_sector(l, &vec![1; n]);
            if let Ok(Some(e)) = d.blocks_ref().error_table() {
                look(e);
            }
        });
        for e in entries.iter().take(6) {
            self.op("file", &mut |r| {
                let _ = format!("{} {:#} {:?}", e, e, e);
                let mut b = [0u8; 32];
                e.to_bytes(&mut b);
                if let Ok(f) = d.open_file_from_entry(e) {
                    r.file(&f);
                }
            });
        }
        let validate = self.rng.below(4) == 0;
        self.op("validate", &mut |_| {
            if !validate {
                return;
            }
            if let Ok(v) = d.validate() {
                for e in v.iter().take(5) {
                    let _ = format!("{} {:?}", e, e);
                }
            }
        });
        let name = names[0].clone();
        self.op("create and write", &mut |r| {
            if let Ok(f) = d.create_file(&name, FileType::SEQ, Scheme::Linear) {
                if let Ok(mut w) = f.writer() {
                    for n in [1, 253, 254, 300] {
                        let data = r.rng.bytes(n);
                        let _ = w.write(&data);
                    }
                    let _ = w.flush();
                    let data = r.rng.bytes(5);
                    let _ = w.write(&data);
                }
                r.file(&f);
            }
        });
        let other = names[1].clone();
        self.op("rename", &mut |_| {
            let _ = d.rename(&name, &other);
        });
        for e in entries.iter().skip(2).take(2) {
            self.op("append", &mut |r| {
                if let Ok(f) = d.open_file_from_entry(e) {
                    if let Ok(mut w) = f.writer() {
                        let data = r.rng.bytes(520);
                        let _ = w.write_all(&data);
                    }
                }
            });
            self.op("attributes", &mut |r| {
                let mut e = e.clone();
                e.file_attributes.locked_flag ^= true;
                if let Extra::Linear(ref mut x) = e.extra {
                    x.unused[0] ^= 1;
                }
                if r.rng.below(3) == 0 {
                    e.filename = Petscii::from_bytes(&[0x41; 17]);
                }
                let _ = d.write_directory_entry(&e);
            });
        }
        for e in entries.iter().skip(1).take(3) {
            self.op("delete", &mut |_| {
                if let Ok(mut f) = d.open_file_from_entry(e) {
                    let _ = f.delete();
                }
            });
        }
        self.op("header", &mut |r| {
            let n = r.rng.below(17);
            let text = Petscii::from_bytes(&r.rng.bytes(n));
            if let Ok(h) = d.header_mut() {
                h.disk_name = text;
            }
            let _ = d.flush_header();
            d.initialize();
        });
        self.op("text", &mut |r| {
            let n = r.rng.below(40);
            let b = r.rng.bytes(n);
            let p = Petscii::from_bytes(&b);
            let s = p.to_string();
            let q = Petscii::from_str_lossy(&s);
            let mut out = [0u8; 20];
            let _ = q.write_bytes_with_padding(&mut out, 0xA0);
            let _ = Petscii::from_padded_bytes(&out, 0xA0).len();
            let _ = format!("{:?} {:?}", q, Id::from_bytes(&b));
            let k = [0, 3, 63, 64][r.rng.below(4)];
            if k == 63 {
                let _ = Sprite::from_bytes(&r.rng.bytes(63)).to_unicode();
            }
        });
        // handles that outlive the disk object
        self.op("outlive", &mut |r| {
            let f = entries.first().and_then(|e| d.open_file_from_entry(e).ok());
            let w = d.create_file(&names[2], FileType::PRG, Scheme::Linear).ok().and_then(|f| f.writer().ok());
            let old = std::mem::replace(d, Box::new(D64::open_memory(D64::geometry(false)).unwrap()));
            drop(old);
            if let Some(mut w) = w {
                let data = r.rng.bytes(300);
                let _ = w.write_all(&data);
            }
            if let Some(f) = f {
                r.file(&f);
            }
        });
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = Run { ops: 0, panics: 0, files: 0, bytes: 0, rng: Rng(a[0].parse().unwrap()), until: Instant::now(), limit: a[1].parse().unwrap() };
    let mut images = 0;
    for p in &a[2..] {
        println!("@ image {}", p);
        let img = std::fs::read(p).unwrap();
        if let Some(mut d) = load(&img) {
            r.image(&mut d);
            if r.over() {
                break;
            }
            images += 1;
            println!("= images {} ops {} files {} bytes {} panics {}", images, r.ops, r.files, r.bytes, r.panics);
        }
    }
    if !r.over() && r.rng.below(4) == 0 {
        r.op("format", &mut |_| {
            let mut d = D64::open_memory(D64::geometry(false)).unwrap();
            let _ = d.write_format(&"disk".into(), &"id".into());
        });
    }
    println!("= images {} ops {} files {} bytes {} panics {}", images, r.ops, r.files, r.bytes, r.panics);
}
