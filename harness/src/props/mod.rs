mod cli;
mod corrupt;
mod damage;
mod disk;
mod files;
mod hist;
mod text;

use crate::Prop;

macro_rules! prop {
    ($id:expr, $case:path, $q:expr, $t:expr, $level:expr, $rule:expr, $assume:expr) => {
        Prop { id: $id, case: $case, quick: $q, thorough: $t, level: $level, rule: $rule, assumptions: $assume, exhaustive: false }
    };
}

const MODEL: &[&str] = &[
    "the independent decoder of the harness (fs.rs, geom.rs) describes the CBM formats correctly",
    "at most one writer is open per file, and no file is deleted while a writer is open on it",
];

pub static ALL: &[Prop] = &[
    prop!("C01", hist::c01, 16000, 480000, "exploration",
        "a case is a random history of file operations (create, write in random chunk sizes, flush, close, append, read, rename, delete, reopen) on a random geometry and initial image; non-trivial: it stored at least one byte and read at least one file back; distinct: by the sequence of operations and the final image", MODEL),
    prop!("C02", hist::c02, 10000, 300000, "exploration",
        "a case is a random history of operations with several writers open at once; after every operation every changed byte of the image is attributed to the operation's target; non-trivial: at least one bystander file was compared; distinct: by operations and final image", MODEL),
    prop!("C03", hist::c03, 12000, 360000, "exploration",
        "a case is a random history biased towards full disks and full directories; after every operation the reported and stored free space are compared with the model; non-trivial: blocks were consumed or released; distinct: by operations and final image", MODEL),
    prop!("C04", hist::c04, 10000, 300000, "exploration",
        "a case is a random history; after every operation sector ownership is recomputed from the image, and a full audit of the allocation map runs whenever no writer has buffered data; non-trivial: at least one full audit of a disk with files; distinct: by operations and final image", MODEL),
    prop!("C05", hist::c05, 14000, 420000, "exploration",
        "a case is a random history ending in a reopen of the image (file-backed in most cases), with further reopens in between and writers outliving their disk object; non-trivial: at least one live/fresh view comparison; distinct: by operations and final image", MODEL),
    prop!("C06", corrupt::c06, 60000, 1800000, "exploration",
        "a case is a well-formed image with 0 to 6 random structural injuries (allocation bits, crossed chains, loops, bad links, damaged entries, REL and VLIR structures); validate() is compared with the reference set of problems; non-trivial: at least one problem expected, or a clean image with files; distinct: by the image", &["the reference validator (valid.rs) states what the documented error kinds mean"]),
    prop!("C07", corrupt::c07, 5000, 150000, "exploration",
        "a case is an arbitrary image (well-formed then mutated, or random bytes) put through every reading and writing operation; panics, aborts and non-termination are violations; non-trivial: at least one directory entry was visited or an operation was refused; distinct: by the image", &["non-termination is decided by a budget of block accesses (5 million) and of CPU time (90 s) per case"]),
    prop!("C08", disk::c08, 7000, 210000, "exploration",
        "a case opens a random image file read-only, performs every reading operation and attempts every mutating operation; the file's bytes and the visible state must stay the same; non-trivial: the image has files; distinct: by the image", &["the process has permission to write the file, so only the crate protects it"]),
    prop!("C09", hist::c09, 10000, 300000, "exploration",
        "a case is a random history full of operations that must fail (duplicate, overlong, absent names, full disk, full directory, damaged files); before and after each failure the semantic state is compared; non-trivial: at least one failure was judged; distinct: by operations and final image", MODEL),
    prop!("C10", hist::c10, 6000, 180000, "exploration",
        "a case is a random history of directory operations (create, rename, delete, attribute changes, lookups, refused names), some of them filling the directory to its last slot; the directory is compared entry by entry with the model; non-trivial: at least one listing comparison with entries; distinct: by operations and final image", MODEL),
    prop!("C11", disk::c11, 40000, 1200000, "exploration",
        "a case formats a random prior image (garbage, files, GEOS, unformatted) with a random name and id and examines the result byte by byte and by use; non-trivial: the prior image was not blank; distinct: by prior image and name", &[]),
    prop!("C12", hist::c12, 20000, 600000, "exploration",
        "a case is either a random allocation map queried directly for many predecessors, or a history of creations and writes on a fragmented disk; every chosen block is compared with the reference strategy; non-trivial: at least one allocation judged; distinct: by map or history", &["the reference allocator (alloc.rs) transcribes the strategy documented in DISK.TXT and in the crate's comments"]),
    prop!("C13", disk::c13, 40000, 1200000, "exploration",
        "a case writes an image of a random geometry with a unique pattern in every sector, opens it every possible way, and compares every sector, the error table and the rejection of wrong sizes with the documented layout; non-trivial: always; distinct: by geometry and operations", &[]),
    prop!("C14", disk::c14, 15000, 450000, "exploration",
        "a case fills directory slots and the header with random bytes, reads them through the crate, writes them back unchanged and with single fields changed, and compares bytes; non-trivial: at least one live entry; distinct: by the entries", &[]),
    prop!("C15", files::c15, 14000, 420000, "exploration",
        "a case builds REL files of random record length and count (0 to 6 side sectors), well-formed or damaged, and compares every record, the bounds, the occupied sectors and the effect of rename and delete with the reference; non-trivial: at least one record or one refusal judged; distinct: by the image", &[]),
    prop!("C16", files::c16, 40000, 1200000, "exploration",
        "a case builds GEOS sequential and VLIR files (with missing records, info blocks, border entries) and compares records, info block, Convert stream under random read sizes, and deletion with the reference; non-trivial: at least one GEOS file; distinct: by the image", &["VLIR records of zero bytes do not occur"]),
    prop!("C17", text::c17, 40000, 1200000, "exploration",
        "case 0 enumerates all 256 PETSCII codes and all Unicode scalar values; the others check random strings, paddings and conversions against the pinned table; non-trivial: always; distinct: by the string", &["the pinned table is the one published at style64.org/petscii as transcribed in the harness"]),
    prop!("C18", cli::c18, 1200, 36000, "exploration",
        "a case is a random sequence of cdisk command lines in a scratch folder, each compared with a model (exit status, output, and effect on the image decoded independently); non-trivial: at least one command changed or read a file; distinct: by the commands", &["the scratch folder is writable"]),
    prop!("C19", hist::c19, 3500, 105000, "fault_enumeration",
        "a case is a random history; every block write of every operation is a crash point, and the image at that instant is decoded and judged; non-trivial: at least one crash point inside an operation; distinct: by operations and final image", &["a crash is the death of the process between two block accesses; what the kernel has of the mapping survives (no reordering of pages by a power loss)", "a block is updated as a whole"]),
    prop!("C20", text::c20, 8000, 240000, "exploration",
        "a case prints everything the crate prints about a random image (hex dump of a sector, file dump, allocation map, directory listing lines, disk header line, sprite icon), parses the text back and compares it with the bytes; non-trivial: always; distinct: by the image", &[]),
    prop!("C22", damage::c22, 9000, 270000, "exploration",
        "a case takes one disk object through 2 to 5 changes of its image from outside (another disk's sectors, a format, an edited allocation map or header, an unreadable header) each followed by initialize(), and compares everything the object shows and does, also through handles from before, with a fresh object over the same bytes; non-trivial: at least one re-initialization judged; distinct: by operations and final image", &["a fresh object over an image is judged by the other properties"]),
    prop!("C23", damage::c23, 40000, 1200000, "exploration",
        "case 0 checks all errors against the pinned table of kinds and messages in every direction of conversion; the others provoke failures with known causes on random images and compare the error; non-trivial: at least one failure provoked; distinct: by image and operations", &[]),
    prop!("C24", damage::c24, 60000, 1800000, "exploration",
        "a case is an image with 0 to 6 structural injuries or arbitrary bytes; the listing and every linear and GEOS sequential file is read in random portions and compared with the bytes in front of the damage and the kind of damage found by an independent decoder; non-trivial: at least one file or damaged directory judged; distinct: by the image", &["the independent decoder of the harness (fs.rs, geom.rs) describes the CBM formats correctly"]),
    prop!("C21", corrupt::c21, 3000, 60000, "exploration",
        "a case runs a healthy history or a hostile image through the crate built with AddressSanitizer, on memory-backed images so that the allocator's red zones surround the image; any sanitizer report ends the process and is a violation; in addition healthy and hostile images are taken through every kind of operation under Miri, which stops at undefined behaviour of any kind (observed: miri_*); non-trivial: at least one file operation; distinct: by operations and image", &["AddressSanitizer does not see overreads that stay inside a memory-mapped file's last page, and Miri cannot map files; the memory-backed images cover the same code"]),
];

/// Disk images for the Miri runs: well-formed ones and hostile ones in turn.
pub fn images(seed: u64, shard: u64, n: u64) -> Vec<Vec<u8>> {
    let mut r = vec![];
    for k in 0..n {
        let mut cx = crate::cx::Cx::detached("C21", k, crate::rng::mix(crate::rng::mix(seed, 0x4d697269), shard * 10_000 + k));
        let img = if k % 2 == 0 {
            let geo = hist::pick_geo(&mut cx);
            let files = cx.rng.range(1, 8);
            let geos = cx.rng.chance(1, 2);
            crate::build::random_image(geo, &mut cx.rng, files, geos, true).img
        } else {
            corrupt::hostile(&mut cx).1
        };
        r.push(img);
    }
    r
}
