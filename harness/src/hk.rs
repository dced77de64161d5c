//! State behind the block device hook: counts events, bounds the work a case
//! may do, captures images at flushes, and runs the crash-point monitor.
use cbm::verif_hooks::{self, Event};
use std::cell::RefCell;

type OnWrite = Box<dyn FnMut((u8, u8), &[u8])>;

#[derive(Default)]
pub struct St {
    pub reads: u64,
    pub writes: u64,
    pub flushes: u64,
    pub steps: u64,
    pub budget: u64,
    pub tripped: bool,
    pub capture: bool,
    pub captured: Option<Vec<u8>>,
    pub on_write: Option<OnWrite>,
    pub write_log: Option<Vec<(u8, u8)>>,
    pub total: (u64, u64, u64),
    /// What has certainly reached the storage behind a mapped image: the
    /// bytes as they were when msync last covered them.
    pub medium: Option<Vec<u8>>,
    base: usize,
    pub syncs: u64,
    /// Let msync fail as if the storage had an error.
    pub refuse_sync: bool,
}

thread_local! {
    static ST: RefCell<St> = RefCell::new(St::default());
}

pub const BUDGET_MSG: &str = "block access budget exceeded (operation does not terminate)";

pub fn install() {
    verif_hooks::set(Some(Box::new(|ev: &Event| {
        let mut trip = false;
        let mut cb: Option<OnWrite> = None;
        ST.with(|s| {
            let mut s = match s.try_borrow_mut() {
                Ok(s) => s,
                Err(_) => return,
            };
            s.steps += 1;
            if let Event::Write { image, .. } | Event::Flush { image } = ev {
                s.base = image.as_ptr() as usize;
            }
            if s.budget > 0 && s.steps > s.budget && !s.tripped {
                s.tripped = true;
                trip = true;
                return;
            }
            match ev {
                Event::Read { .. } => s.reads += 1,
                Event::Write { track, sector, .. } => {
                    s.writes += 1;
                    if let Some(l) = s.write_log.as_mut() {
                        l.push((*track, *sector));
                    }
                    cb = s.on_write.take();
                }
                Event::Flush { image } => {
                    s.flushes += 1;
                    if s.capture {
                        s.captured = Some(image.to_vec());
                    }
                }
            }
        });
        if let (Some(mut f), Event::Write { track, sector, image }) = (cb, ev) {
            f((*track, *sector), image);
            ST.with(|s| {
                if let Ok(mut s) = s.try_borrow_mut() {
                    s.on_write = Some(f);
                }
            });
        }
        if trip {
            panic!("{}", BUDGET_MSG);
        }
    })));
}

pub fn with<R>(f: impl FnOnce(&mut St) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}

/// Start of a case (or of a bounded section of one).
pub fn reset(budget: u64) {
    with(|s| {
        let t = (s.total.0 + s.reads, s.total.1 + s.writes, s.total.2 + s.flushes);
        *s = St { budget, total: t, ..St::default() };
    })
}

pub fn clear_hooks() {
    with(|s| {
        s.on_write = None;
        s.write_log = None;
        s.capture = false;
    })
}

/// The complete image behind a writable disk.
pub fn image(disk: &dyn cbm::disk::Disk) -> Vec<u8> {
    with(|s| {
        s.capture = true;
        s.captured = None;
    });
    let r = disk.blocks_ref_mut().flush();
    with(|s| {
        s.capture = false;
        s.flushes = s.flushes.saturating_sub(1);
    });
    match (r, with(|s| s.captured.take())) {
        (Ok(_), Some(v)) => v,
        (r, _) => panic!("harness: no image captured ({:?})", r.map_err(|e| e.to_string())),
    }
}

extern "C" {
    fn __errno_location() -> *mut std::ffi::c_int;
    fn syscall(num: std::ffi::c_long, ...) -> std::ffi::c_long;
}

/// Takes the place of libc's msync in this program: records what is synced,
/// then does it.
#[no_mangle]
pub extern "C" fn msync(addr: *mut std::ffi::c_void, len: usize, flags: std::ffi::c_int) -> std::ffi::c_int {
    const SYS_MSYNC: std::ffi::c_long = 26;
    const MS_SYNC: std::ffi::c_int = 4;
    let refuse = ST.try_with(|s| s.try_borrow().map(|s| s.refuse_sync).unwrap_or(false)).unwrap_or(false);
    if refuse {
        unsafe { *__errno_location() = 5 };
        return -1;
    }
    let r = unsafe { syscall(SYS_MSYNC, addr, len, flags as std::ffi::c_long) } as std::ffi::c_int;
    if r == 0 && flags & MS_SYNC != 0 {
        let _ = ST.try_with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                s.syncs += 1;
                let base = s.base;
                if let Some(m) = s.medium.as_mut() {
                    let from = (addr as usize).max(base);
                    let to = (addr as usize + len).min(base + m.len());
                    if base != 0 && from < to {
                        let src = unsafe { std::slice::from_raw_parts(from as *const u8, to - from) };
                        m[from - base..to - base].copy_from_slice(src);
                    }
                }
            }
        });
    }
    r
}
