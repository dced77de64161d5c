//! The command line program, driven as a process in a scratch folder.
use super::files::{convert, Stream};
use super::text::{bam_text, encode, header_line, listing_line, verbose_line, details_text, parse_file_dump, parse_image, table};
use crate::build::{blank, random_image};
use crate::cx::{Cx, Stop, R};
use crate::fs::{self, strip, Content, Ent, FKind, Fs};
use crate::geom::{Geo, Kind, ALL};
use crate::rng::hash_bytes;
use crate::valid;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const P: &[&str] = &["C18"];

pub fn c18(cx: &mut Cx) {
    let dir = cx.file("cli");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let _ = session(cx, &dir);
    let _ = std::fs::remove_dir_all(&dir);
}

struct Out {
    code: i32,
    stdout: Vec<u8>,
    stderr: String,
}

fn program() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("cdisk")
}

/// A command whose output cannot be written has not done its work.
fn run_full(cx: &mut Cx, dir: &Path, args: &[&str]) -> R<()> {
    let full = match std::fs::OpenOptions::new().write(true).open("/dev/full") {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let r = Command::new(program())
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("LC_ALL", "C.UTF-8")
        .stdin(Stdio::null())
        .stdout(Stdio::from(full))
        .stderr(Stdio::piped())
        .output()
        .expect("harness: cannot start cdisk");
    let e = String::from_utf8_lossy(&r.stderr).into_owned();
    cx.step(format!("cdisk {:?} > /dev/full -> {:?} {}", args, r.status.code(), e.lines().next().unwrap_or("")));
    cx.count("full_outputs", 1);
    cx.check(!r.status.success() && !e.is_empty(), P, || format!("cdisk {:?} reports success though its output could not be written ({:?})", args, e));
    cx.ok()
}

/// A source that opens but cannot be read.
fn unreadable(cx: &mut Cx, dir: &Path) -> &'static str {
    match cx.rng.below(3) {
        0 => "/proc/self/mem",
        _ => {
            let _ = std::fs::create_dir(dir.join("src.dir"));
            "src.dir"
        }
    }
}

fn run(cx: &mut Cx, dir: &Path, args: &[&str], stdin: Option<&[u8]>) -> R<Out> {
    let mut c = Command::new(program())
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("LC_ALL", "C.UTF-8")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("harness: cannot start cdisk");
    let mut si = c.stdin.take().unwrap();
    let data = stdin.unwrap_or(b"").to_vec();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let mut so = c.stdout.take().unwrap();
    let o = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = so.read_to_end(&mut v);
        v
    });
    let mut se = c.stderr.take().unwrap();
    let e = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = se.read_to_end(&mut v);
        v
    });
    let t0 = Instant::now();
    let mut nap = 200u64;
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > Duration::from_secs(120) {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(20_000);
    };
    let _ = w.join();
    let stdout = o.join().unwrap();
    let stderr = String::from_utf8_lossy(&e.join().unwrap()).into_owned();
    let code = st.and_then(|s| s.code()).unwrap_or(-1);
    let shown: Vec<String> = args.iter().map(|a| format!("{:?}", a)).collect();
    cx.step(format!("cdisk {} -> {} {}", shown.join(" "), code, stderr.lines().next().unwrap_or("")));
    cx.count("commands", 1);
    if st.is_none() {
        cx.fail(P, format!("cdisk {} does not end", shown.join(" ")));
    }
    cx.check(code == 0 || code == 1, P, || format!("cdisk {} ended with status {}: {}", shown.join(" "), code, stderr));
    if code == 1 {
        cx.count("refused_commands", 1);
        cx.check(stderr.to_lowercase().starts_with("error:"), P, || format!("cdisk {} failed without saying why: {:?}", shown.join(" "), stderr));
    } else {
        cx.check(stderr.is_empty(), P, || format!("cdisk {} succeeded but complained: {}", shown.join(" "), stderr));
    }
    cx.ok()?;
    Ok(Out { code, stdout, stderr })
}

fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default());
    }
    m
}

/// A name as typed, and as stored.
fn name(cx: &mut Cx, t: &[char; 256], max: usize) -> (String, Vec<u8>) {
    const SET: &str = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.!#,+ \u{A3}\u{2191}\u{3B1}\u{1F600}";
    let set: Vec<char> = SET.chars().collect();
    let n = cx.rng.range(1, max);
    let mut s: String = (0..n).map(|_| if cx.rng.chance(1, 5) { *cx.rng.pick(&set) } else { (b'a' + cx.rng.below(4) as u8) as char }).collect();
    if s.starts_with('.') || s.starts_with('+') {
        s.replace_range(0..1, "q");
    }
    let b = s.chars().map(|c| encode(t, c)).collect();
    (s, b)
}

struct S {
    dir: PathBuf,
    geo: Geo,
    img: String,
    t: [char; 256],
    /// names that can be typed, as typed
    typed: BTreeMap<Vec<u8>, String>,
}

impl S {
    fn bytes(&self) -> Vec<u8> {
        std::fs::read(self.dir.join(&self.img)).unwrap()
    }
}

fn readable(geo: &Geo, img: &[u8]) -> Option<Fs> {
    if geo.kind == Kind::D71 && img[geo.offset(geo.header()).unwrap() + 3] & 0x80 == 0 {
        return None;
    }
    Fs::parse(geo, img).ok()
}

fn session(cx: &mut Cx, dir: &Path) -> R<()> {
    let t = table();
    let fresh = cx.rng.chance(1, 2);
    let mut geo = if fresh { *cx.rng.pick(&[ALL[0], ALL[4], ALL[6]]) } else { *cx.rng.pick(&ALL) };
    let ext = match cx.rng.below(5) {
        0 => geo.ext().to_uppercase(),
        1 if !fresh => "img".into(),
        1 => {
            geo = ALL[0];
            "xyz".into()
        }
        _ => geo.ext().to_string(),
    };
    let mut s = S { dir: dir.to_path_buf(), geo, img: format!("disk.{}", ext), t, typed: BTreeMap::new() };
    if fresh {
        cx.step(format!("create {}", geo.name()));
        let img = s.img.clone();
        let o = run(cx, dir, &[&img, "create"], None)?;
        cx.check(o.code == 0, P, || format!("create: {}", o.stderr));
        cx.ok()?;
        cx.check(s.bytes() == vec![0u8; geo.size()], P, || format!("create made {} bytes, expected {} zero bytes", s.bytes().len(), geo.size()));
        if cx.rng.chance(4, 5) {
            format(cx, &mut s)?;
        }
    } else {
        let g = cx.rng.chance(1, 2);
        let n = cx.rng.below(8);
        let mut b = random_image(geo, &mut cx.rng, n, g, true);
        if cx.rng.chance(1, 4) {
            let left = cx.rng.below(20);
            b.fill_until(&mut cx.rng, left);
        }
        let f = Fs::parse(&geo, &b.img).map_err(|_| Stop)?;
        if !f.audit(&geo, &b.img).is_empty() {
            cx.nontrivial = false;
            return Ok(());
        }
        let twins = cx.rng.chance(1, 3);
        for e in &f.ents {
            if twins && !s.typed.is_empty() && cx.rng.chance(1, 4) {
                // the name of another file
                let names: Vec<&Vec<u8>> = s.typed.keys().collect();
                let raw = (*cx.rng.pick(&names)).clone();
                let o = geo.offset(e.slot.0).unwrap() + e.slot.1;
                let mut field = [0xA0u8; 16];
                field[..raw.len()].copy_from_slice(&raw);
                b.img[o + 5..o + 21].copy_from_slice(&field);
                cx.count("shared_names", 1);
                continue;
            }
            // give most files a name that can be typed
            if cx.rng.chance(4, 5) {
                let (n, raw) = name(cx, &t, 16);
                if strip(&raw) != raw || s.typed.contains_key(&raw) || f.names().contains(&raw) {
                    continue;
                }
                let o = geo.offset(e.slot.0).unwrap() + e.slot.1;
                let mut field = [0xA0u8; 16];
                field[..raw.len()].copy_from_slice(&raw);
                b.img[o + 5..o + 21].copy_from_slice(&field);
                s.typed.insert(raw, n);
            }
        }
        cx.step(format!("{} image {:016x}", geo.name(), hash_bytes(&b.img)));
        std::fs::write(dir.join(&s.img), &b.img).unwrap();
    }
    for k in 0..cx.rng.below(3) {
        std::fs::write(dir.join(format!("other{}.d64", k)), b"not an image").unwrap();
    }
    for _ in 0..cx.rng.range(8, 24) {
        step(cx, &mut s)?;
    }
    Ok(())
}

fn format(cx: &mut Cx, s: &mut S) -> R<()> {
    let (n, raw) = name(cx, &s.t.clone(), 18);
    let id = *cx.rng.pick(&["01", "zz", "9", "abc", "a1"]);
    let before = s.bytes();
    let img = s.img.clone();
    let o = run(cx, &s.dir.clone(), &[&img, "format", &n, id], None)?;
    let after = s.bytes();
    if raw.len() > 16 {
        cx.check(o.code == 1, P, || format!("format with the name {:?} succeeded", n));
        cx.check(after == before, P, || "a refused format changed the image".to_string());
        return cx.ok();
    }
    cx.check(o.code == 0, P, || format!("format: {}", o.stderr));
    cx.ok()?;
    let mut idb = [0u8; 2];
    for (i, c) in id.chars().take(2).enumerate() {
        idb[i] = encode(&s.t, c);
    }
    let want = blank(s.geo, &raw, idb);
    let got = header_line(&s.geo, &after);
    let exp = header_line(&s.geo, &want);
    cx.check(got == exp, P, || format!("after format the header says {:?}, expected {:?}", got, exp));
    match readable(&s.geo, &after) {
        Some(f) => {
            cx.check(f.ents.is_empty(), P, || "files after format".to_string());
            let bad = f.audit(&s.geo, &after);
            cx.check(bad.is_empty(), P, || format!("after format: {}", bad[0]));
        }
        None => cx.fail(P, "unreadable after format".to_string()),
    }
    s.typed.clear();
    cx.ok()
}

fn some_file(cx: &mut Cx, s: &S, f: &Fs) -> Option<(String, Ent)> {
    let v: Vec<(&Vec<u8>, &String)> = s.typed.iter().filter(|(b, _)| f.find(b).is_some()).collect();
    if v.is_empty() {
        return None;
    }
    let (b, n) = *cx.rng.pick(&v);
    Some((n.clone(), f.find(b).unwrap().clone()))
}

fn absent(cx: &mut Cx, s: &S, f: &Fs, max: usize) -> (String, Vec<u8>) {
    loop {
        let (n, b) = name(cx, &s.t, max);
        if f.find(&b).is_none() && strip(&b) == b && !s.dir.join(&n).exists() {
            return (n, b);
        }
    }
}

/// All files but those in the given slot are what they were.
fn others(cx: &mut Cx, a: &Fs, b: &Fs, slot: Option<(crate::geom::Loc, usize)>, what: &str) {
    let x: Vec<&Ent> = a.ents.iter().filter(|e| Some(e.slot) != slot).collect();
    let y: Vec<&Ent> = b.ents.iter().filter(|e| Some(e.slot) != slot).collect();
    cx.check(x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.slot == q.slot && p.meta() == q.meta() && p.content == q.content), P, || format!("{} changed another file", what));
}

fn validate(cx: &mut Cx, s: &S) -> R<()> {
    let o = run(cx, &s.dir, &[&s.img, "validate"], None)?;
    let want = match valid::expected(&s.geo, &s.bytes()) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    cx.check((o.code == 0) == want.is_empty(), P, || format!("validate ended with {}, there are {} problems", o.code, want.len()));
    if want.is_empty() {
        cx.check(text == "Disk validates successfully.\n", P, || format!("validate says {:?}", text));
    } else {
        cx.check(text.lines().count() == want.len(), P, || format!("validate lists {} problems, there are {}", text.lines().count(), want.len()));
        cx.count("damaged_validations", 1);
    }
    cx.count("validations", 1);
    cx.ok()
}

fn bam_show(cx: &mut Cx, s: &S) -> R<()> {
    let o = run(cx, &s.dir, &[&s.img, "bam", "show"], None)?;
    cx.check(o.code == 0, P, || format!("bam show: {}", o.stderr));
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let got: Vec<&str> = text.lines().collect();
    let want = bam_text(&s.geo, &s.bytes());
    cx.check(got == want, P, || "bam show differs from the allocation map".to_string());
    cx.ok()
}

fn step(cx: &mut Cx, s: &mut S) -> R<()> {
    let dir = s.dir.clone();
    let img = s.img.clone();
    let geo = s.geo;
    let before = s.bytes();
    let snap = snapshot(&dir);
    let f = readable(&geo, &before);
    let clean = f.as_ref().map(|f| f.audit(&geo, &before).is_empty()).unwrap_or(false);
    let mut touched: Option<String> = None;
    let mut readonly = true;
    let op = cx.rng.below(30);
    match (op, f) {
        (0, f) => {
            // the image exists, or it does not
            let fresh = cx.rng.chance(1, 2);
            if fresh {
                let n = "new.d81".to_string();
                if !dir.join(&n).exists() {
                    let o = run(cx, &dir, &[&n, "create"], None)?;
                    cx.check(o.code == 0 && std::fs::read(dir.join(&n)).unwrap_or_default() == vec![0u8; 819200], P, || "create of new.d81".to_string());
                    touched = Some(n);
                }
            } else {
                let o = run(cx, &dir, &[&img, "create"], None)?;
                cx.check(o.code == 1, P, || "create overwrote an existing file".to_string());
                // neither does it use a file that is empty or smaller
                let n = format!("small{}.d64", cx.rng.below(1000));
                let n_old = cx.rng.below(4);
                let old = cx.rng.bytes(n_old);
                std::fs::write(dir.join(&n), &old).unwrap();
                let o = run(cx, &dir, &[&n, "create"], None)?;
                let now = std::fs::read(dir.join(&n)).unwrap_or_default();
                cx.check(o.code == 1 && now == old, P, || format!("create on an existing file of {} bytes exits {} and leaves {} bytes", old.len(), o.code, now.len()));
                let _ = std::fs::remove_file(dir.join(&n));
            }
            let _ = f;
        }
        (1, _) => {
            if cx.rng.chance(1, 4) {
                readonly = false;
                format(cx, s)?;
            }
        }
        (2, _) => {
            let cmds: [&[&str]; 8] = [&["dir"], &["read", "a", "out"], &["delete", "a"], &["rename", "a", "b"], &["bam", "show"], &["dump"], &["validate"], &["format", "x", "y"]];
            let c = cmds[cx.rng.below(8)];
            let mut a = vec!["absent.d64"];
            a.extend_from_slice(c);
            let o = run(cx, &dir, &a, None)?;
            cx.check(o.code == 1, P, || format!("{:?} on an image that does not exist succeeded", c));
        }
        (3, _) => {
            let o = run(cx, &dir, &[&img, "dump"], None)?;
            cx.check(o.code == 0, P, || format!("dump: {}", o.stderr));
            match parse_image(&geo, &String::from_utf8_lossy(&o.stdout)) {
                Ok(b) => {
                    cx.check(b == before, P, || "dump shows other bytes than the image's".to_string());
                }
                Err(e) => cx.fail(P, format!("dump: {}", e)),
            }
        }
        (_, None) => {
            // an unformatted image: everything that needs a file system fails
            let cmds: [&[&str]; 7] = [&["dir"], &["read", "a", "out"], &["delete", "a"], &["rename", "a", "b"], &["append", &img, "a"], &["dump", "a"], &["validate"]];
            let c = cmds[cx.rng.below(7)];
            let mut a: Vec<&str> = vec![&img];
            a.extend_from_slice(c);
            let o = run(cx, &dir, &a, None)?;
            cx.check(o.code == 1, P, || format!("{:?} on an unformatted image succeeded", c));
            if cx.rng.chance(1, 4) {
                readonly = false;
                format(cx, s)?;
            }
        }
        (4..=9, Some(f)) => {
            // write a file
            readonly = false;
            let (n, raw) = match cx.rng.below(8) {
                0 => match some_file(cx, s, &f) {
                    Some((n, e)) => (n, e.name),
                    None => absent(cx, s, &f, 16),
                },
                1 => absent(cx, s, &f, 20),
                _ => absent(cx, s, &f, 16),
            };
            let free = fs::free_data_blocks(&geo, &before);
            let len = match cx.rng.below(8) {
                0 => 0,
                1 => 254 * cx.rng.below(6),
                2 => free * 254 - cx.rng.below(300).min(free * 254),
                3 if free < 200 => free * 254 + cx.rng.range(1, 600),
                4 => cx.rng.below(20000),
                _ => cx.rng.below(2000),
            };
            let data = cx.rng.content(len);
            let (targ, tbyte): (&[&str], u8) = *cx.rng.pick(&[(&["-t", "prg"] as &[&str], 0x82u8), (&["-t", "seq"], 0x81), (&["--type", "usr"], 0x83), (&[], 0x81)]);
            let mut a: Vec<&str> = vec![&img, "write"];
            a.extend_from_slice(targ);
            let how = cx.rng.below(4);
            let missing = how == 3 && cx.rng.chance(1, 2);
            let stdin = match how {
                0 => {
                    a.push("-");
                    a.push(&n);
                    Some(&data[..])
                }
                1 if !dir.join(&n).exists() => {
                    // the name on the disk defaults to the source's
                    std::fs::write(dir.join(&n), &data).unwrap();
                    a.push(&n);
                    None
                }
                _ if missing => {
                    a.push(match cx.rng.below(3) {
                        0 => "nosuchfile",
                        _ => unreadable(cx, &dir),
                    });
                    a.push(&n);
                    None
                }
                _ => {
                    std::fs::write(dir.join("src.bin"), &data).unwrap();
                    a.push("src.bin");
                    a.push(&n);
                    None
                }
            };
            let o = run(cx, &dir, &a, stdin)?;
            let _ = std::fs::remove_file(dir.join("src.bin"));
            let _ = std::fs::remove_dir(dir.join("src.dir"));
            if how == 1 && n != img {
                let _ = std::fs::remove_file(dir.join(&n));
            }
            let need = ((len + 253) / 254).max(1);
            let slot = !f.free_slots.is_empty() || fs::free_dir_sectors(&geo, &before) > 0;
            let possible = !missing && raw.len() <= 16 && f.find(&raw).is_none() && slot && free >= 1;
            let fits = possible && need <= free;
            let after = s.bytes();
            let fa = match readable(&geo, &after) {
                Some(f) => f,
                None => {
                    cx.fail(P, "write left an unreadable image".to_string());
                    return Err(Stop);
                }
            };
            cx.check((o.code == 0) == fits, P, || format!("write of {} bytes ended with {} {:?}; {} blocks free, name {:02x?}", len, o.code, o.stderr, free, raw));
            cx.ok()?;
            let new = if possible { fa.find(&raw).cloned() } else { None };
            others(cx, &f, &fa, new.as_ref().map(|e| e.slot), "write");
            if fits {
                match new {
                    Some(e) => {
                        cx.check(e.content == Content::Bytes(data), P, || format!("write stored {:?}, expected {} bytes", e.content, len));
                        cx.check(e.tbyte() == tbyte, P, || format!("write stored type {:02x}, expected {:02x}", e.tbyte(), tbyte));
                        cx.check(e.size() as usize == need, P, || format!("write stored size {}, expected {}", e.size(), need));
                        s.typed.insert(raw, n);
                        cx.count("files_written", 1);
                        cx.count("bytes_written", len as u64);
                    }
                    None => cx.fail(P, "write succeeded but the file is not there".to_string()),
                }
            } else if !possible {
                let same = fa.ents.len() == f.ents.len();
                cx.check(same, P, || "a refused write left a file".to_string());
                cx.check(before == after, P, || "a refused write changed the image".to_string());
            } else {
                // ran out of space on the way
                if let Some(e) = new {
                    if let Content::Bytes(b) = &e.content {
                        cx.check(data.starts_with(b), P, || "a write that ran out of space stored other bytes".to_string());
                    }
                    s.typed.insert(raw, n);
                }
                cx.count("disk_full", 1);
            }
            if clean {
                let bad = fa.audit(&geo, &after);
                cx.check(bad.is_empty(), P, || format!("after write: {}", bad[0]));
            }
        }
        (10..=13, Some(f)) => {
            let (n, e) = match some_file(cx, s, &f) {
                Some((n, e)) if cx.rng.chance(7, 8) => (n, Some(e)),
                _ => (absent(cx, s, &f, 20).0, None),
            };
            if n == img {
                return Ok(());
            }
            let geos = cx.rng.chance(1, 3);
            let cmd = if geos { "geosread" } else { "read" };
            let how = cx.rng.below(3);
            let o = match how {
                0 => run(cx, &dir, &[&img, cmd, &n, "-"], None)?,
                1 => run(cx, &dir, &[&img, cmd, &n], None)?,
                _ => run(cx, &dir, &[&img, cmd, &n, "out.bin"], None)?,
            };
            let dest = match how {
                0 => None,
                1 => Some(n.clone()),
                _ => Some("out.bin".to_string()),
            };
            let want: Option<Vec<u8>> = match &e {
                None => None,
                Some(e) if geos => match e.kind {
                    FKind::GeosSeq | FKind::Vlir => match convert(&geo, &before, e) {
                        Stream::Bytes(b) => Some(b),
                        _ => None,
                    },
                    _ => None,
                },
                Some(e) => match &e.content {
                    Content::Bytes(b) => Some(b.clone()),
                    _ => None,
                },
            };
            let got = match &dest {
                None => Some(o.stdout.clone()),
                Some(d) => std::fs::read(dir.join(d)).ok(),
            };
            if let Some(d) = &dest {
                let _ = std::fs::remove_file(dir.join(d));
            }
            cx.check((o.code == 0) == want.is_some(), P, || format!("{} of {:?} ended with {} {:?}", cmd, n, o.code, o.stderr));
            match want {
                Some(w) => {
                    cx.check(got.as_deref() == Some(&w[..]), P, || format!("{} of {:?} gave {:?} bytes, expected {} (or other bytes)", cmd, n, got.as_ref().map(|x| x.len()), w.len()));
                    cx.count("files_read", 1);
                    if !w.is_empty() && cx.rng.chance(1, 6) {
                        let to = if cx.rng.chance(1, 2) { "-" } else { "/dev/full" };
                        run_full(cx, &dir, &[&img, cmd, &n, to])?;
                    }
                }
                None => {
                    cx.check(o.stdout.is_empty(), P, || format!("a refused {} printed something", cmd));
                }
            }
        }
        (14 | 15, Some(f)) => {
            readonly = false;
            let (n, e) = match some_file(cx, s, &f) {
                Some((n, e)) if cx.rng.chance(7, 8) => (n, Some(e)),
                _ => (absent(cx, s, &f, 20).0, None),
            };
            let free = fs::free_data_blocks(&geo, &before);
            let len = match cx.rng.below(6) {
                0 => 0,
                1 if free < 100 => free * 254 + cx.rng.below(900),
                _ => cx.rng.below(3000),
            };
            let data = cx.rng.content(len);
            if cx.rng.chance(1, 8) {
                let src = unreadable(cx, &dir);
                let o = run(cx, &dir, &[&img, "append", src, &n], None)?;
                let _ = std::fs::remove_dir(dir.join("src.dir"));
                cx.check(o.code == 1, P, || format!("append of an unreadable source ended with {}", o.code));
                cx.check(s.bytes() == before, P, || "append of an unreadable source changed the image".to_string());
                return cx.ok();
            }
            let o = if cx.rng.chance(1, 2) {
                run(cx, &dir, &[&img, "append", "-", &n], Some(&data))?
            } else {
                std::fs::write(dir.join("src.bin"), &data).unwrap();
                let o = run(cx, &dir, &[&img, "append", "src.bin", &n], None)?;
                let _ = std::fs::remove_file(dir.join("src.bin"));
                o
            };
            let after = s.bytes();
            let fa = readable(&geo, &after).ok_or(Stop).map_err(|x| {
                cx.fail(P, "append left an unreadable image".to_string());
                x
            })?;
            let old = match &e {
                Some(e) if e.kind == FKind::Linear => match (&e.content, &e.occupied) {
                    (Content::Bytes(b), Ok(o)) => Some((b.clone(), o.len())),
                    _ => None,
                },
                _ => None,
            };
            let fits = match &old {
                Some((b, blocks)) => ((b.len() + len + 253) / 254).max(*blocks) - blocks <= free,
                None => false,
            };
            cx.check((o.code == 0) == fits, P, || format!("append of {} bytes to {:?} ended with {} {:?}; {} blocks free", len, n, o.code, o.stderr, free));
            others(cx, &f, &fa, e.as_ref().map(|e| e.slot), "append");
            if let (Some(e), Some((b, _))) = (&e, old) {
                let mut w = b.clone();
                w.extend_from_slice(&data);
                match fa.find(&e.name).map(|x| x.content.clone()) {
                    Some(Content::Bytes(g)) => {
                        cx.check(if fits { g == w } else { w.starts_with(&g) && g.starts_with(&b) }, P, || format!("append to {:?}: {} bytes, expected {}", n, g.len(), w.len()));
                        cx.count("appends", 1);
                    }
                    x => cx.fail(P, format!("append to {:?}: {:?}", n, x)),
                }
            } else {
                cx.check(before == after, P, || "a refused append changed the image".to_string());
            }
            if clean {
                let bad = fa.audit(&geo, &after);
                cx.check(bad.is_empty(), P, || format!("after append: {}", bad[0]));
            }
        }
        (16 | 17, Some(f)) => {
            readonly = false;
            let (n, e) = match some_file(cx, s, &f) {
                Some((n, e)) if cx.rng.chance(5, 6) => (n, Some(e)),
                _ => (absent(cx, s, &f, 20).0, None),
            };
            let (n2, raw2) = match cx.rng.below(6) {
                0 => match some_file(cx, s, &f) {
                    Some((n, e)) => (n, e.name),
                    None => absent(cx, s, &f, 16),
                },
                1 => absent(cx, s, &f, 20),
                _ => absent(cx, s, &f, 16),
            };
            if n == n2 {
                // renaming a file to its own name: not judged
                return Ok(());
            }
            let o = run(cx, &dir, &[&img, "rename", &n, &n2], None)?;
            let after = s.bytes();
            let ok = e.is_some() && raw2.len() <= 16 && f.find(&raw2).is_none();
            cx.check((o.code == 0) == ok, P, || format!("rename {:?} {:?} ended with {} {:?}", n, n2, o.code, o.stderr));
            if ok {
                let e = e.unwrap();
                let mut w = before.clone();
                let at = geo.offset(e.slot.0).unwrap() + e.slot.1 + 5;
                for (i, b) in w[at..at + 16].iter_mut().enumerate() {
                    *b = raw2.get(i).copied().unwrap_or(0xA0);
                }
                cx.check(after == w, P, || format!("rename {:?} {:?} changed more or less than the name", n, n2));
                if f.ents.iter().filter(|x| x.name == e.name).count() == 1 {
                    s.typed.remove(&e.name);
                }
                s.typed.insert(raw2, n2);
                cx.count("renames", 1);
            } else {
                cx.check(after == before, P, || "a refused rename changed the image".to_string());
            }
        }
        (18 | 19, Some(f)) => {
            readonly = false;
            let (n, e) = match some_file(cx, s, &f) {
                Some((n, e)) if cx.rng.chance(5, 6) => (n, Some(e)),
                _ => (absent(cx, s, &f, 20).0, None),
            };
            let o = run(cx, &dir, &[&img, "delete", &n], None)?;
            let after = s.bytes();
            cx.check((o.code == 0) == e.is_some(), P, || format!("delete {:?} ended with {} {:?}", n, o.code, o.stderr));
            match e {
                None => {
                    cx.check(after == before, P, || "a refused delete changed the image".to_string());
                }
                Some(e) => {
                    let fa = readable(&geo, &after).ok_or(Stop)?;
                    others(cx, &f, &fa, Some(e.slot), "delete");
                    cx.check(fa.ents.iter().all(|x| x.slot != e.slot), P, || format!("{:?} is still there after its deletion", n));
                    if clean {
                        let bad = fa.audit(&geo, &after);
                        cx.check(bad.is_empty(), P, || format!("after delete: {}", bad[0]));
                    }
                    if fa.find(&e.name).is_none() {
                        s.typed.remove(&e.name);
                    }
                    cx.count("deletes", 1);
                }
            }
        }
        (20..=22, Some(f)) => {
            let more = cx.rng.below(6);
            let v = cx.rng.below(6);
            let o = match v {
                3 if more > 0 => run(cx, &dir, &[&img, "dir", &format!("-{}", "v".repeat(3 + more))], None)?,
                1 => run(cx, &dir, &[&img, "dir", "-v"], None)?,
                2 => run(cx, &dir, &[&img, "dir", "-vv"], None)?,
                3 => run(cx, &dir, &[&img, "dir", "-vvv"], None)?,
                _ => run(cx, &dir, &[&img, "dir"], None)?,
            };
            cx.check(o.code == 0, P, || format!("dir: {}", o.stderr));
            let text = String::from_utf8_lossy(&o.stdout).into_owned();
            let lines: Vec<&str> = text.lines().collect();
            let free: usize = (1..=geo.bam_tracks()).filter(|t| *t != geo.dir_track()).map(|t| geo.bam_count(&before, t) as usize).sum();
            cx.check(lines.first() == Some(&&header_line(&geo, &before)[..]), P, || format!("dir starts with {:?}, expected {:?}", lines.first(), header_line(&geo, &before)));
            cx.check(lines.last() == Some(&&format!("{} blocks free.", free)[..]), P, || format!("dir ends with {:?}, expected {} blocks free", lines.last(), free));
            let mut want = format!("{}\n", header_line(&geo, &before));
            for e in &f.ents {
                if v == 0 || v > 3 {
                    want += &listing_line(e);
                } else {
                    want += &verbose_line(e);
                }
                want += "\n";
                if v == 2 || v == 3 {
                    match details_text(&geo, &before, e, v == 3) {
                        Some(t) => want += &t,
                        None => return Ok(()),
                    }
                    want += "\n";
                    cx.count("details_shown", 1);
                }
            }
            want += &format!("{} blocks free.\n", free);
            cx.check(text == want, P, || {
                let d = text.lines().zip(want.lines()).find(|(a, b)| a != b);
                let cut = |s: &str| s.chars().take(200).collect::<String>();
                format!("dir (mode {}) shows {} lines, expected {}; first difference {:?}", v, text.lines().count(), want.lines().count(), d.map(|(a, b)| (cut(a), cut(b))))
            });
            cx.count("listings", 1);
            if cx.rng.chance(1, 12) {
                let cmd: &[&str] = *cx.rng.pick(&[&["dir"] as &[&str], &["dump"], &["bam", "show"]]);
                let mut a: Vec<&str> = vec![&img];
                a.extend_from_slice(cmd);
                run_full(cx, &dir, &a)?;
            }
        }
        (23, Some(f)) => {
            let (n, e) = match some_file(cx, s, &f) {
                Some((n, e)) if cx.rng.chance(5, 6) => (n, Some(e)),
                _ => (absent(cx, s, &f, 20).0, None),
            };
            let o = run(cx, &dir, &[&img, "dump", &n], None)?;
            cx.check((o.code == 0) == e.is_some(), P, || format!("dump {:?} ended with {} {:?}", n, o.code, o.stderr));
            if let Some(e) = e {
                let want: Vec<Vec<u8>> = match e.content {
                    Content::Bytes(b) => vec![b],
                    Content::Records(r) => r,
                    Content::Vlir(r) => r.into_iter().map(|x| x.unwrap_or_default()).collect(),
                    Content::Bad(_) => return Ok(()),
                };
                match parse_file_dump(&String::from_utf8_lossy(&o.stdout)) {
                    Ok((_, r)) => {
                        cx.check(r == want, P, || format!("dump {:?} shows other bytes than the file's", n));
                    }
                    Err(x) => cx.fail(P, format!("dump {:?}: {}", n, x)),
                }
            }
        }
        (24 | 25, Some(_)) => validate(cx, s)?,
        (26 | 27, Some(_)) => bam_show(cx, s)?,
        (28, Some(f)) => {
            let (n, _) = absent(cx, s, &f, 16);
            let bad: [&[&str]; 6] = [&["bam", "allocate", "0", "0"], &["bam", "free", "41", "0"], &["bam", "allocate", "1", "21"], &["bam", "free", "x", "1"], &["write", "-t", "rel", "src", &n], &["nosuch"]];
            let c = bad[cx.rng.below(6)];
            let mut a: Vec<&str> = vec![&img];
            a.extend_from_slice(c);
            let o = run(cx, &dir, &a, None)?;
            cx.check(o.code == 1, P, || format!("{:?} was accepted", c));
        }
        (_, Some(_)) => {
            if cx.rng.chance(1, 2) {
                readonly = false;
                let alloc = cx.rng.chance(1, 2);
                let track = if cx.rng.chance(1, 6) { None } else { Some(cx.rng.range(1, 40) as u8) };
                let sector = if cx.rng.chance(1, 4) { None } else { Some(cx.rng.below(21) as u8) };
                let (ts, ss) = (track.map(|t| t.to_string()).unwrap_or("all".into()), sector.map(|t| t.to_string()).unwrap_or("all".into()));
                let o = run(cx, &dir, &[&img, "bam", if alloc { "allocate" } else { "free" }, &ts, &ss], None)?;
                let after = s.bytes();
                let mut w = before.clone();
                let mut ok = true;
                let tracks: Vec<u8> = match track {
                    Some(t) => vec![t],
                    None => (1..=geo.bam_tracks()).collect(),
                };
                for t in tracks {
                    if t > geo.bam_tracks() {
                        ok = false;
                        continue;
                    }
                    for k in 0..geo.spt(t) {
                        if sector.is_none() || sector == Some(k) {
                            geo.set_free(&mut w, (t, k), !alloc);
                        }
                    }
                    if let (Some(_), Some(x)) = (track, sector) {
                        ok = ok && x < geo.spt(t);
                    }
                }
                cx.check((o.code == 0) == ok, P, || format!("bam edit of {} {} ended with {} {:?}", ts, ss, o.code, o.stderr));
                cx.check(after == if ok { w } else { before.clone() }, P, || format!("bam edit of {} {} changed something else", ts, ss));
                cx.count("bam_edits", 1);
                cx.ok()?;
                bam_show(cx, s)?;
                validate(cx, s)?;
                // What follows is judged on a consistent disk.
                std::fs::write(dir.join(&img), &before).unwrap();
            }
        }
    }
    // Nothing but the target changes.
    let now = snapshot(&dir);
    for (k, v) in &snap {
        if *k == img && !readonly {
            continue;
        }
        cx.check(now.get(k) == Some(v), P, || format!("{} was changed or removed", k));
    }
    for k in now.keys() {
        cx.check(snap.contains_key(k) || touched.as_deref() == Some(k), P, || format!("{} appeared", k));
    }
    cx.ok()
}
