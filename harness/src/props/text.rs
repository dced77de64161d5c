//! Text: PETSCII conversions, dumps and listings.
use super::hist::pick_geo;
use crate::build::random_image;
use crate::cx::{Cx, Stop, R};
use crate::fs::{self, Content, FKind, Fs};
use crate::geom::{Geo, Loc};
use crate::hk;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use cbm::disk::file::FileOps;
use cbm::disk::Id;
use cbm::{Petscii, Sprite};

const NONE: char = '\u{FFFD}';

/// The published mapping (style64.org/petscii), unshifted-lowercase set, by
/// code ranges.
pub fn table() -> [char; 256] {
    let mut t = [NONE; 256];
    let mut put = |at: usize, s: &str| {
        for (i, c) in s.chars().enumerate() {
            t[at + i] = c;
        }
    };
    put(0x20, " !\"#$%&'()*+,-./0123456789:;<=>?@abcdefghijklmnopqrstuvwxyz[");
    put(0x5C, "\u{A3}]\u{2191}\u{2190}");
    let upper = "\u{2501}ABCDEFGHIJKLMNOPQRSTUVWXYZ\u{254B}\u{FFFD}\u{2503}\u{2592}\u{FFFD}";
    let blocks = "\u{A0}\u{258C}\u{2584}\u{2594}\u{2581}\u{258E}\u{2592}\u{2595}\u{FFFD}\u{FFFD}\u{2595}\u{2523}\u{2597}\u{2517}\u{2513}\u{2582}\
                  \u{250F}\u{253B}\u{2533}\u{252B}\u{258E}\u{258D}\u{2595}\u{2594}\u{2594}\u{2583}\u{2713}\u{2596}\u{259D}\u{2518}\u{2598}";
    put(0x60, upper);
    put(0xA0, blocks);
    put(0xBF, "\u{259A}");
    put(0xC0, upper);
    put(0xE0, blocks);
    put(0xFF, "\u{2592}");
    t
}

pub fn show(b: &[u8]) -> String {
    let t = table();
    b.iter().map(|x| t[*x as usize]).collect()
}

pub fn encode(t: &[char; 256], c: char) -> u8 {
    if c == NONE {
        return 0x7F;
    }
    t.iter().position(|x| *x == c).map(|i| i as u8).unwrap_or(0x7F)
}

// ---------------------------------------------------------------- C17

pub fn c17(cx: &mut Cx) {
    let _ = if cx.idx == 0 { enumerate(cx) } else { strings(cx) };
}

fn enumerate(cx: &mut Cx) -> R<()> {
    let t = table();
    cx.step("all 256 codes and all Unicode scalar values".to_string());
    for c in 0..=255u8 {
        let s = Petscii::from_bytes(&[c]).to_string();
        cx.check(s == t[c as usize].to_string(), &["C17"], || format!("code {:02x} is shown as {:?}, expected {:?}", c, s, t[c as usize]));
    }
    cx.ok()?;
    // Every character, many at a time; on a difference, one by one.
    let all: Vec<char> = (0..=0x10FFFFu32).filter_map(char::from_u32).collect();
    for part in all.chunks(4096) {
        let s: String = part.iter().collect();
        let want: Vec<u8> = part.iter().map(|c| encode(&t, *c)).collect();
        let got = Petscii::from_str_lossy(&s);
        if got.as_bytes() != &want[..] {
            for (i, c) in part.iter().enumerate() {
                let g = Petscii::from_str_lossy(&c.to_string());
                cx.check(g.as_bytes() == [want[i]], &["C17"], || format!("U+{:04X} becomes {:02x?}, expected {:02x}", *c as u32, g.as_bytes(), want[i]));
            }
            cx.fail(&["C17"], "a long string is converted differently from its characters".to_string());
        }
        cx.ok()?;
    }
    cx.count("characters_enumerated", all.len() as u64);
    // What has a Unicode equivalent survives a trip through text.
    for c in 0..=255u8 {
        let s = Petscii::from_bytes(&[c]).to_string();
        if s.starts_with(NONE) {
            continue;
        }
        let back = Petscii::from_str_lossy(&s).to_string();
        cx.check(back == s, &["C17"], || format!("the text of code {:02x} changes from {:?} to {:?}", c, s, back));
    }
    Ok(())
}

fn strings(cx: &mut Cx) -> R<()> {
    let t = table();
    for _ in 0..8 {
        // bytes
        let n = match cx.rng.below(4) {
            0 => 16,
            1 => 0,
            _ => cx.rng.below(40),
        };
        let pad = *cx.rng.pick(&[0xA0u8, 0x00, 0x20, 0xFF]);
        let mut b = cx.rng.content(n);
        for x in b.iter_mut() {
            if cx.rng.chance(1, 3) {
                *x = pad;
            }
        }
        cx.fold(hash_bytes(&b));
        let p = Petscii::from_bytes(&b);
        let s: String = b.iter().map(|x| t[*x as usize]).collect();
        cx.check(p.as_bytes() == &b[..] && p.len() == b.len() && p.is_empty() == b.is_empty(), &["C17"], || format!("from_bytes({:02x?}) holds {:02x?}", b, p.as_bytes()));
        cx.check(p.to_string() == s && String::from(p.clone()) == s, &["C17"], || format!("{:02x?} is shown as {:?}, expected {:?}", b, p.to_string(), s));
        let dbg = format!("{:?}", p);
        let want = format!("\"{}\"", s.replace('"', "\\\""));
        cx.check(dbg == want, &["C17"], || format!("{:02x?} is quoted as {}, expected {}", b, dbg, want));
        for (i, x) in b.iter().enumerate() {
            cx.check(p[i] == *x, &["C17"], || format!("index {} of {:02x?}", i, b));
        }
        let it: Vec<u8> = (&p).into_iter().cloned().collect();
        let it2: Vec<u8> = p.clone().into_iter().collect();
        let r: &[u8] = p.as_ref();
        cx.check(it == b && it2 == b && r == &b[..], &["C17"], || format!("iterating over {:02x?}", b));
        let mut other = b.clone();
        cx.check(p == Petscii::from_bytes(&other), &["C17"], || "equality".to_string());
        if !other.is_empty() {
            let k = cx.rng.below(other.len());
            other[k] ^= 1 << cx.rng.below(8);
            cx.check(p != Petscii::from_bytes(&other), &["C17"], || format!("{:02x?} equals {:02x?}", b, other));
        }
        // padding
        let stripped = {
            let mut e = b.len();
            while e > 0 && b[e - 1] == pad {
                e -= 1;
            }
            b[..e].to_vec()
        };
        let q = Petscii::from_padded_bytes(&b, pad);
        cx.check(q.as_bytes() == &stripped[..], &["C17"], || format!("{:02x?} without padding {:02x}: {:02x?}", b, pad, q.as_bytes()));
        let dn = match cx.rng.below(4) {
            0 => stripped.len(),
            1 => stripped.len().saturating_sub(1),
            2 => stripped.len() + 1,
            _ => cx.rng.below(48),
        };
        let fill = cx.rng.byte();
        let mut dst = vec![fill; dn];
        let r = q.write_bytes_with_padding(&mut dst, pad);
        if dn < stripped.len() {
            cx.check(r.is_err(), &["C17"], || format!("{} bytes written into {}", stripped.len(), dn));
            cx.check(dst.iter().all(|x| *x == fill), &["C17"], || "a refused write changed the destination".to_string());
        } else {
            let mut w = stripped.clone();
            w.resize(dn, pad);
            cx.check(r.is_ok() && dst == w, &["C17"], || format!("{:02x?} padded to {}: {:02x?}", stripped, dn, dst));
            let back = Petscii::from_padded_bytes(&dst, pad);
            cx.check(back == q, &["C17"], || format!("{:02x?} does not survive padding", stripped));
        }
        // text
        let n = cx.rng.below(30);
        let text: String = (0..n)
            .map(|_| match cx.rng.below(8) {
                0 => std::char::from_u32(cx.rng.below(0x11_0000) as u32).unwrap_or('\u{FFFD}'),
                1 => t[cx.rng.below(256)],
                2 => cx.rng.byte() as char,
                _ => (0x20 + cx.rng.below(95) as u8) as char,
            })
            .collect();
        let want: Vec<u8> = text.chars().map(|c| encode(&t, c)).collect();
        let forms = [Petscii::from_str_lossy(&text), Petscii::from(&text[..]), Petscii::from(text.clone()), Petscii::from(&text)];
        for f in &forms {
            cx.check(f.as_bytes() == &want[..], &["C17"], || format!("{:?} becomes {:02x?}, expected {:02x?}", text, f.as_bytes(), want));
        }
        // a disk id is the first two characters
        let id2 = |b: &[u8]| [b.first().cloned().unwrap_or(0), b.get(1).cloned().unwrap_or(0)];
        let w = id2(&want);
        let v = id2(&b);
        for (i, w) in [
            (Id::from(&text[..]), w),
            (Id::from(text.clone()), w),
            (Id::from(&text), w),
            (Id::from(forms[0].clone()), w),
            (Id::from_bytes(&b), v),
            (Id::from(&b[..]), v),
        ] {
            let r: &[u8] = i.as_ref();
            let back: Petscii = i.into();
            let line: String = i.into();
            let shown: String = w.iter().map(|x| t[*x as usize]).collect();
            let ok = r == w && i[0] == w[0] && i[1] == w[1] && back.as_bytes() == w && line == shown && i.to_string() == shown && i == Id::from_bytes(&w);
            cx.check(ok, &["C17"], || format!("the disk id of {:?} / {:02x?} is {:02x?} {:?}, expected {:02x?}", text, b, r, line, w));
            let mut j = i;
            let k = cx.rng.below(2);
            j[k] ^= 0x55;
            let r: &[u8] = j.as_ref();
            cx.check(r[k] == w[k] ^ 0x55 && r[1 - k] == w[1 - k] && i != j, &["C17"], || "changing one character of a disk id".to_string());
        }
        let shown = forms[0].to_string();
        let again = Petscii::from_str_lossy(&shown).to_string();
        cx.check(again == shown || shown.contains(NONE), &["C17"], || format!("{:?} is not stable under conversion: {:?}", shown, again));
        cx.count("strings", 1);
        cx.ok()?;
    }
    cx.step("8 random strings".to_string());
    Ok(())
}

// ---------------------------------------------------------------- C20

pub fn c20(cx: &mut Cx) {
    let _ = dumps(cx);
}

/// Parse a hex dump; returns the bytes, and the rest of the lines.
pub fn parse_hex<'a>(lines: &mut std::iter::Peekable<std::str::Lines<'a>>) -> Result<Vec<u8>, String> {
    let mut out: Vec<u8> = vec![];
    let mut first = true;
    loop {
        let line = match lines.peek() {
            Some(l) => *l,
            None => break,
        };
        let (off, rest) = match line.split_once(": ") {
            Some(x) if !x.0.is_empty() && x.0.len() >= 4 && x.0.bytes().all(|b| b.is_ascii_hexdigit()) => x,
            _ => break,
        };
        let o = usize::from_str_radix(off, 16).map_err(|e| e.to_string())?;
        if o == 0 && !first {
            break;
        }
        if o != out.len() {
            return Err(format!("offset {:x} but {:x} bytes so far", o, out.len()));
        }
        if !first && out.len() % 16 != 0 {
            return Err("a short line in the middle".into());
        }
        first = false;
        let mut row = vec![];
        let b = rest.as_bytes();
        let mut k = 0;
        while k < 16 && k * 3 + 2 < b.len() + 1 {
            let cell = b.get(k * 3..k * 3 + 3);
            match cell {
                Some([x, y, b' ']) if x.is_ascii_hexdigit() && y.is_ascii_hexdigit() => row.push(u8::from_str_radix(std::str::from_utf8(&[*x, *y]).unwrap(), 16).unwrap()),
                _ => break,
            }
            k += 1;
        }
        if !rest.is_empty() {
            let ascii: String = rest.chars().skip(48).collect();
            let want: String = row.iter().map(|c| if (0x20..=0x7E).contains(c) { *c as char } else { '.' }).collect();
            if ascii != want {
                return Err(format!("text column {:?}, expected {:?}", ascii, want));
            }
        }
        out.extend(row);
        lines.next();
        if out.len() % 16 != 0 {
            break;
        }
    }
    if first {
        return Err(format!("no hex dump at {:?}", lines.peek()));
    }
    Ok(out)
}

pub fn parse_image(geo: &Geo, text: &str) -> Result<Vec<u8>, String> {
    let mut img = vec![0u8; geo.size()];
    let mut seen = 0;
    let mut lines = text.lines().peekable();
    let mut err_seen = 0;
    while let Some(l) = lines.next() {
        if l.is_empty() {
            continue;
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() == 4 && w[0] == "track" && w[2] == "sector" {
            let at: Loc = (w[1].parse().map_err(|_| "track")?, w[3].parse().map_err(|_| "sector")?);
            let o = geo.offset(at).ok_or_else(|| format!("sector {:?} does not exist", at))?;
            let b = parse_hex(&mut lines).map_err(|e| format!("sector {:?}: {}", at, e))?;
            if b.len() != 256 {
                return Err(format!("sector {:?} has {} bytes", at, b.len()));
            }
            img[o..o + 256].copy_from_slice(&b);
            seen += 1;
        } else if l == "Error table:" {
            let mut at = geo.sectors() * 256;
            for t in 1..=geo.tracks {
                let l = lines.next().ok_or("error table ends early")?;
                let rest = l.strip_prefix(&format!("track {:02}:", t)).ok_or_else(|| format!("error table line {:?}", l))?;
                let v: Vec<&str> = rest.split_whitespace().collect();
                if v.len() != geo.spt(t) as usize || at + v.len() > img.len() {
                    return Err(format!("error table of track {}: {} entries", t, v.len()));
                }
                for x in v {
                    img[at] = u8::from_str_radix(x, 16).map_err(|e| e.to_string())?;
                    at += 1;
                    err_seen += 1;
                }
            }
        } else {
            return Err(format!("unexpected line {:?}", l));
        }
    }
    if seen != geo.sectors() {
        return Err(format!("{} sectors dumped of {}", seen, geo.sectors()));
    }
    if geo.err != (err_seen > 0) {
        return Err("error table dumped or not".into());
    }
    Ok(img)
}

pub fn parse_file_dump(text: &str) -> Result<(String, Vec<Vec<u8>>), String> {
    let name = {
        let l = text.lines().next().ok_or("empty dump")?;
        l.strip_prefix("Filename: \"").and_then(|x| x.strip_suffix('"')).ok_or_else(|| format!("first line {:?}", l))?.to_string()
    };
    let mut lines = text.lines().peekable();
    lines.next();
    let mut recs = vec![];
    while let Some(l) = lines.next() {
        let want = format!("Record: {}", recs.len());
        if l != want {
            return Err(format!("line {:?}, expected {:?}", l, want));
        }
        recs.push(parse_hex(&mut lines)?);
    }
    Ok((name, recs))
}

/// An image, and whether it is well-formed.
fn fill(cx: &mut Cx, geo: Geo) -> (Vec<u8>, bool) {
    match cx.rng.below(3) {
        0 => {
            let n = geo.size();
            (cx.rng.content(n), false)
        }
        _ => {
            let n = cx.rng.range(1, 8);
            let g = cx.rng.chance(1, 3);
            (random_image(geo, &mut cx.rng, n, g, true).img, true)
        }
    }
}

/// The allocation map as "bam show" prints it.
pub fn bam_text(geo: &Geo, img: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let mut free = 0usize;
    for t in 1..=geo.bam_tracks() {
        let map = geo.bam_map(img, t);
        let bits: String = (0..geo.spt(t)).map(|s| if map >> s & 1 == 1 { '.' } else { 'x' }).collect();
        v.push(format!("t{:02}: [{:02}/{:02}] {}", t, geo.bam_count(img, t), geo.spt(t), bits));
        // by definition the sum of the counts of all but the directory track
        if t != geo.dir_track() {
            free += geo.bam_count(img, t) as usize;
        }
    }
    v.push(format!("{} blocks free.", free));
    v
}

/// One line of a directory listing.
pub fn listing_line(e: &fs::Ent) -> String {
    let t = e.tbyte();
    let ty = match t & 0x0F {
        0 => "del",
        1 => "seq",
        2 => "prg",
        3 => "usr",
        4 => "rel",
        _ => "unk",
    };
    let flags = match (t & 0x40 != 0, t & 0x20 != 0) {
        (true, false) => "<",
        (false, true) => "@",
        (true, true) => "<@",
        _ => " ",
    };
    let name = format!("\"{}\"", show(&e.name));
    format!("{:<4} {:18}{}{}{}", e.size(), name, if t & 0x80 != 0 { ' ' } else { '*' }, ty, flags) + if e.border { " (GEOS border)" } else { "" }
}

fn geos_names(structure: u8, gtype: u8) -> (String, String) {
    let t = super::files::TYPES.get(gtype as usize).map(|s| s.to_string()).unwrap_or_else(|| format!("Unknown(0x{:02x})", gtype));
    let s = match structure {
        0 => "Sequential".to_string(),
        1 => "VLIR".to_string(),
        x => format!("Unknown(0x{:02x})", x),
    };
    (s, t)
}

/// One line of a verbose directory listing.
pub fn verbose_line(e: &fs::Ent) -> String {
    let x = &e.raw[0x15..];
    let extra = match e.kind {
        FKind::Linear => "REGULAR".to_string(),
        FKind::Rel => format!("REL(side=({},{}) rec_len={})", x[0], x[1], x[2]),
        _ => {
            let (s, t) = geos_names(x[2], x[3]);
            format!("GEOS({}, {}, {:04}-{:02}-{:02}-{:02}:{:02})", s, t, 1900 + x[4] as usize, x[5], x[6], x[7], x[8])
        }
    };
    let l = listing_line(e);
    match l.strip_suffix(" (GEOS border)") {
        Some(l) if e.border => format!("{} {} (GEOS border)", l, extra),
        _ => format!("{} {}", l, extra),
    }
}

fn sprite_line(raw: &[u8], row: usize) -> String {
    let px = |x: usize, y: usize| (y < 21 && raw[y * 3 + x / 8] >> (7 - x % 8) & 1 == 1) as usize;
    (0..12).map(|c| GLYPHS.chars().nth(px(2 * c, 2 * row) << 3 | px(2 * c + 1, 2 * row) << 2 | px(2 * c, 2 * row + 1) << 1 | px(2 * c + 1, 2 * row + 1)).unwrap()).collect()
}

/// A GEOS info block as it is shown.
pub fn info_text(raw: &[u8]) -> String {
    let w = |o: usize| raw[o] as u16 | (raw[o + 1] as u16) << 8;
    let (s, t) = geos_names(raw[0x46], raw[0x45]);
    let f = |o: usize, n: usize| super::files::ascii_field(&raw[o..o + n]);
    let text = [
        format!("Type: {} ({})", t, s),
        format!("Program addresses: load=0x{:04x} end=0x{:04x} start=0x{:04x}", w(0x47), w(0x49), w(0x4B)),
        format!("Class: {}", f(0x4D, 20)),
        format!("Author: {}", f(0x61, 20)),
        format!("Application: {}", f(0x75, 20)),
        format!("Description: {}", f(0xA0, 96)),
    ];
    (0..11).map(|i| format!("{} {}\n", sprite_line(&raw[5..68], i), text.get(i).map(|s| &s[..]).unwrap_or(""))).collect()
}

/// What is shown about a sound file besides its line in the directory.
pub fn details_text(geo: &Geo, img: &[u8], e: &fs::Ent, verbose: bool) -> Option<String> {
    let list = |v: &[Loc]| v.iter().map(|l| format!("({},{})", l.0, l.1)).collect::<Vec<_>>().join(" ");
    let mut s = String::new();
    if let Content::Bad(_) = e.content {
        return None;
    }
    if verbose {
        let (l, o) = e.slot;
        s += &format!("Directory position: ({},{}@0x{:02x})\n", l.0, l.1, o);
    }
    match e.kind {
        FKind::Rel => {
            let r = fs::rel_decode(geo, img, &e.raw).ok()?;
            if verbose {
                s += &format!("Data sectors: {}\nSide sectors: {}\n", list(&r.data), list(&r.side));
            }
        }
        FKind::Vlir => {
            let r = fs::vlir_index(geo, img, e.first()).ok()?;
            let n = r.iter().rposition(|x| x.is_some()).map(|i| i + 1).unwrap_or(r.len());
            if verbose {
                s += &format!("VLIR record sector: {}\n", list(&[e.first()]));
                for (i, x) in r[..n].iter().enumerate() {
                    let v = match x {
                        Some(l) => fs::chain_locs(geo, img, *l).ok()?,
                        None => vec![],
                    };
                    s += &format!("Record {} sectors: {}\n", i, list(&v));
                }
                if n < r.len() {
                    s += &format!("{} unavailable records follow...\n", r.len() - n);
                }
            } else {
                s += &format!("VLIR records: {}\n", n);
            }
        }
        _ => {
            if verbose {
                s += &format!("Occupied sectors: {}\n", list(&fs::chain_locs(geo, img, e.first()).ok()?));
            }
        }
    }
    if matches!(e.kind, FKind::GeosSeq | FKind::Vlir) {
        if let Some(l) = e.info() {
            s += "GEOS info block:\n";
            s += &info_text(geo.sector(img, l)?);
        }
    }
    Some(s)
}

pub fn header_line(geo: &Geo, img: &[u8]) -> String {
    let h = geo.sector(img, geo.header()).unwrap();
    let (n, i, v) = (geo.name_offset(), geo.id_offset(), geo.dos_version_offset());
    let mut s = format!("0 \"{}\" {} {}", show(&h[n..n + 16]), show(&h[i..i + 2]), show(&h[v..v + 2]));
    if &h[0xAD..0xAD + 11] == b"GEOS format" {
        let id = &h[0xAD..0xAD + 16];
        let end = id.iter().position(|x| *x == 0).unwrap_or(16);
        let text: String = id[..end].iter().flat_map(|b| std::ascii::escape_default(*b)).map(|b| b as char).collect();
        s.push_str(&format!(" ({})", text));
    }
    s
}

fn dumps(cx: &mut Cx) -> R<()> {
    const P: &str = "C20";
    let geo = pick_geo(cx);
    let (img, sound) = fill(cx, geo);
    cx.step(format!("{} image {:016x}", geo.name(), hash_bytes(&img)));
    let mut d = load_memory(geo, &img);
    if cx.rng.chance(1, 2) {
        let mut out = vec![];
        if let Err(e) = d.dump(&mut out) {
            cx.fail(&[P], format!("dump: {}", kind(&e)));
            return Ok(());
        }
        match parse_image(&geo, &String::from_utf8_lossy(&out)) {
            Err(e) => cx.fail(&[P], format!("the dump cannot be read back: {}", e)),
            Ok(b) => {
                if b != img {
                    let k = (0..img.len()).find(|i| b[*i] != img[*i]).unwrap();
                    cx.fail(&[P], format!("the dump shows byte {:#x} as {:02x}, it is {:02x}", k, b[k], img[k]));
                }
            }
        }
        cx.count("sectors_dumped", geo.sectors() as u64);
    }
    cx.check(hk::image(&*d) == img, &[P], || "dumping modified the image".to_string());
    cx.ok()?;
    // files
    if let Ok(f) = Fs::parse(&geo, &img) {
        let listed = d.directory();
        // noise may be refused as a whole; what is listed must be right
        let ents: &[fs::Ent] = if listed.is_err() && !sound { &[] } else { &f.ents };
        let listed: Vec<_> = listed.unwrap_or_default();
        for (k, e) in ents.iter().enumerate() {
            // listing
            if let Some(x) = listed.get(k) {
                let got = x.to_string();
                let want = listing_line(e);
                cx.check(got == want, &[P], || format!("{:02x?} is listed as {:?}, expected {:?}", e.name, got, want));
                cx.count("listing_lines", 1);
                let got = format!("{:#}", x);
                let want = verbose_line(e);
                cx.check(got == want, &[P], || format!("{:02x?} is listed verbosely as {:?}, expected {:?}", e.name, got, want));
                let f = match d.open_file_from_entry(x) {
                    Ok(f) => f,
                    Err(_) => continue,
                };
                let v = cx.rng.below(3);
                if let (true, Some(want)) = (sound, details_text(&geo, &img, e, v > 0)) {
                    let mut out = vec![];
                    if let Err(x) = f.details(&mut out, v) {
                        cx.fail(&[P], format!("details of {:02x?}: {}", e.name, kind(&x)));
                    }
                    let got = String::from_utf8_lossy(&out).into_owned();
                    cx.count("details_shown", 1);
                    cx.check(got == want, &[P], || format!("details of {:02x?} at verbosity {} are {:?}, expected {:?}", e.name, v, got, want));
                }
                let want: Vec<Vec<u8>> = match &e.content {
                    Content::Bytes(b) => vec![b.clone()],
                    Content::Records(r) => {
                        if r.len() > 300 {
                            continue;
                        }
                        r.clone()
                    }
                    Content::Vlir(r) => r.iter().map(|x| x.clone().unwrap_or_default()).collect(),
                    Content::Bad(_) => continue,
                };
                let mut out = vec![];
                if let Err(x) = f.dump(&mut out) {
                    cx.fail(&[P], format!("dump of {:02x?}: {}", e.name, kind(&x)));
                    break;
                }
                match parse_file_dump(&String::from_utf8_lossy(&out)) {
                    Err(x) => cx.fail(&[P], format!("the dump of {:02x?} cannot be read back: {}", e.name, x)),
                    Ok((name, recs)) => {
                        cx.check(name == show(&e.name), &[P], || format!("the dump of {:02x?} names it {:?}", e.name, name));
                        cx.check(recs == want, &[P], || format!("the dump of {:02x?} ({:?}) shows other bytes than the file's", e.name, e.kind));
                        cx.count("files_dumped", 1);
                        if e.kind != FKind::Linear {
                            cx.count("record_files_dumped", 1);
                        }
                    }
                }
            } else {
                cx.fail(&[P], format!("the directory lists {} of {} files", listed.len(), f.ents.len()));
            }
            cx.ok()?;
        }
        let got = format!("{}", &*d);
        if !got.starts_with("Cannot read header") {
            let want = header_line(&geo, &img);
            cx.check(got == want, &[P], || format!("the disk is shown as {:?}, expected {:?}", got, want));
            // and at length
            let h = geo.sector(&img, geo.header()).unwrap();
            let (n, i, v) = (geo.name_offset(), geo.id_offset(), geo.dos_version_offset());
            let want = [
                format!("disk name: \"{}\"", show(&h[n..n + 16]).replace('"', "\\\"")),
                format!("disk id: Id([{}, {}])", h[i], h[i + 1]),
                format!("directory dos version and format type: {}", show(&h[v..v + 2])),
            ];
            let got = d.header().map(|h| format!("{:?}", h)).unwrap_or_default();
            for w in &want {
                cx.check(got.lines().any(|l| l == w), &[P], || format!("the header is shown as {:?}, expected a line {:?}", got, w));
            }
            let geos = crate::fs::geos_border(&geo, &img).is_some();
            cx.check(got.contains("format: CBM") != geos && got.contains("format: GEOS format") == geos, &[P], || format!("the header is shown as {:?}, GEOS: {}", got, geos));
            let long = format!("{:?}", &*d);
            cx.check(long.contains(&got), &[P], || format!("the disk is shown as {:?} without its header", long));
            if geo.err {
                let table = format!("{:?}", &img[geo.sectors() * 256..]);
                cx.check(long.contains(&table), &[P], || "the disk is shown without its error table".to_string());
            }
        }
    }
    // allocation map, of whatever counts and bits the image has
    if let Ok(b) = d.bam() {
        let got = format!("{:?}", b.borrow());
        let got: Vec<&str> = got.lines().collect();
        let want = bam_text(&geo, &img);
        if got != want {
            let k = (0..want.len()).find(|i| got.get(*i) != Some(&&want[*i][..])).unwrap_or(0);
            cx.fail(&[P], format!("allocation map line {:?}, expected {:?}", got.get(k), want.get(k)));
        }
        cx.count("maps_shown", 1);
    }
    cx.ok()?;
    for _ in 0..10 {
        sprite(cx)?;
    }
    Ok(())
}

const GLYPHS: &str = " \u{2597}\u{2596}\u{2584}\u{259D}\u{2590}\u{259E}\u{259F}\u{2598}\u{259A}\u{258C}\u{2599}\u{2580}\u{259C}\u{259B}\u{2588}";

fn random_sprite(rng: &mut Rng) -> Vec<u8> {
    match rng.below(3) {
        0 => (0..63).map(|_| if rng.chance(1, 8) { 1 << rng.below(8) } else { 0 }).collect(),
        _ => rng.content(63),
    }
}

/// A picture made of quadrant glyphs, back to pixels.
fn sprite(cx: &mut Cx) -> R<()> {
    const P: &str = "C20";
    let raw = random_sprite(&mut cx.rng);
    cx.fold(hash_bytes(&raw));
    let s = Sprite::from_bytes(&raw);
    let mut b = vec![0u8; 63];
    s.to_bytes(&mut b);
    cx.check(b == raw, &[P], || "a sprite does not survive decoding and encoding".to_string());
    let text = s.to_unicode();
    let lines: Vec<Vec<char>> = text.lines().map(|l| l.chars().collect()).collect();
    if lines.len() != 11 || lines.iter().any(|l| l.len() != 12) {
        cx.fail(&[P], format!("a sprite is shown as {} lines of {:?} columns", lines.len(), lines.first().map(|l| l.len())));
        return Err(Stop);
    }
    for y in 0..22 {
        for x in 0..24 {
            let g = match GLYPHS.chars().position(|c| c == lines[y / 2][x / 2]) {
                Some(g) => g,
                None => {
                    cx.fail(&[P], format!("glyph {:?} is not a quadrant", lines[y / 2][x / 2]));
                    return Err(Stop);
                }
            };
            // bit 3: upper left, 2: upper right, 1: lower left, 0: lower right
            let bit = 3 - ((y % 2) * 2 + x % 2);
            let got = g >> bit & 1 == 1;
            let want = y < 21 && raw[y * 3 + x / 8] >> (7 - x % 8) & 1 == 1;
            cx.check(got == want, &[P], || format!("pixel ({},{}) of a sprite is shown {}, it is {}", x, y, got, want));
        }
    }
    cx.count("sprites", 1);
    cx.ok()
}
