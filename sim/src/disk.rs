//! The simulated disk.
//!
//! `open`, `read` and `close` of the C library are interposed in this binary. Files registered
//! here live below a scratch directory; a real file of the same length backs each one so that
//! metadata calls work, but every byte and every failure comes from the simulator. All other
//! files pass straight through to the kernel.

use crate::sched;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::path::PathBuf;
use std::rc::Rc;

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const SYS_READ: c_long = 0;
const SYS_CLOSE: c_long = 3;
const SYS_LSEEK: c_long = 8;
const SYS_FCNTL: c_long = 72;
const SYS_OPENAT: c_long = 257;
const AT_FDCWD: c_long = -100;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
const EROFS: i32 = 30;
const O_CREAT: c_int = 0o100;

#[derive(Clone, Debug)]
pub enum ReadAct {
    /// Deliver at most this many bytes.
    Data(usize),
    /// Interrupted by a signal.
    Eintr,
    /// Fail once with this errno.
    Err(i32),
}

#[derive(Clone, Debug, Default)]
pub struct LoadPlan {
    /// Fail the open with this errno.
    pub open_err: Option<i32>,
    pub acts: Vec<ReadAct>,
    /// After the acts: deliver everything asked for (false) or keep cycling the acts (true).
    pub cycle: bool,
    /// Failure injected when this many bytes have been delivered.
    pub err_at: Option<(usize, i32)>,
    /// The file never ends: its content repeats.
    pub endless: bool,
}

pub struct SimFile {
    pub content: RefCell<Vec<u8>>,
    pub path: PathBuf,
    serial: u64,
    /// When it was last written (simulated milliseconds).
    written: std::cell::Cell<u64>,
}

pub struct Handle {
    file: Rc<SimFile>,
    pub plan: LoadPlan,
    next: usize,
    pos: usize,
    pub served: Vec<u8>,
    pub served_len: usize,
    pub eof: bool,
    pub err: Option<i32>,
    pub eintr: u64,
    pub reads: u64,
    pub boundaries: u64,
    fd: c_int,
    /// Largest amount an endless file may serve before the simulator pulls the plug.
    pub cap: usize,
    pub capped: bool,
}

#[derive(Default)]
struct Disk {
    files: HashMap<Vec<u8>, Rc<SimFile>>,
    open: HashMap<c_int, Rc<RefCell<Handle>>>,
    /// Plans for the next opens, by client.
    plans: HashMap<(usize, Vec<u8>), Vec<LoadPlan>>,
    opens: Vec<(usize, Rc<RefCell<Handle>>)>,
    open_errs: Vec<(usize, i32)>,
    dir: PathBuf,
    serial: u64,
    sizes: Sizes,
    /// Nothing can be written or created where the files are.
    read_only: bool,
    /// Paths known to lead nowhere.
    missing: HashSet<Vec<u8>>,
}

/// What metadata calls say about the size of a simulated file.
#[derive(Clone, Copy, Default, PartialEq)]
pub enum Sizes {
    #[default]
    Exact,
    /// Nothing, as for pipes, devices and generated files.
    Zero,
    /// Less than there is, as for a file still being written to.
    Less,
}

thread_local! { static OWN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
thread_local! { static DISK: RefCell<Option<Disk>> = const { RefCell::new(None) }; }

fn now() -> u64 { sched::with(|s| s.steps as u64) }

fn set_errno(e: i32) { unsafe { *__errno_location() = e } }

pub fn scratch_dir() -> PathBuf {
    // pid keeps parallel workers apart; the name never reaches a decision or an oracle.
    std::env::temp_dir().join(scratch_name(std::process::id()))
}

fn scratch_name(pid: u32) -> String { format!("html5sim.{:010}", pid) }

/// Removes what a process that ended without cleaning up has left.
pub fn cleanup_of(pid: u32) { let _ = std::fs::remove_dir_all(std::env::temp_dir().join(scratch_name(pid))); }

/// The text without the part of paths that tells processes apart.
pub fn anonymous(s: &str) -> String { s.replace(&scratch_name(std::process::id()), "html5sim") }

pub fn begin() {
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_none() {
            let dir = scratch_dir();
            std::fs::create_dir_all(&dir).expect("scratch dir");
            std::env::set_current_dir(&dir).expect("scratch dir");
            *d = Some(Disk { dir, ..Disk::default() });
        }
        let d = d.as_mut().unwrap();
        d.files.clear();
        d.plans.clear();
        d.opens.clear();
        d.open_errs.clear();
        d.sizes = Sizes::Exact;
        d.serial = 0;
        d.missing.clear();
        d.read_only = false;
    })
}

pub fn read_only() {
    DISK.with(|d| d.borrow_mut().as_mut().unwrap().read_only = true);
}

pub fn sizes(sizes: Sizes) {
    DISK.with(|d| d.borrow_mut().as_mut().unwrap().sizes = sizes);
}

/// Writes the real file behind a simulated one.
fn back(path: &std::path::Path, content: &[u8]) {
    let shown = match DISK.with(|d| d.borrow().as_ref().unwrap().sizes) {
        Sizes::Exact => content.len(),
        Sizes::Zero => 0,
        Sizes::Less => content.len() / 2,
    };
    if shown != content.len() { sched::fault("file_size_understated"); }
    OWN.with(|o| o.set(true));
    std::fs::write(path, &content[..shown]).expect("backing file");
    OWN.with(|o| o.set(false));
}

/// What the loads of a run have left behind: handles that are no longer the ones handed out, and files.
pub struct Left { pub handles: usize, pub files: Vec<String> }

fn stray(dir: &std::path::Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        match e.file_type() { Ok(t) if t.is_dir() => stray(&e.path(), out), _ => out.push(e.path()) }
    }
}

pub fn end() -> Left {
    DISK.with(|d| {
        let mut left = Left { handles: 0, files: vec![] };
        let mut d = d.borrow_mut();
        let Some(d) = d.as_mut() else { return left };
        for (_, f) in d.files.drain() { let _ = std::fs::remove_file(&f.path); }
        d.plans.clear();
        d.opens.clear();
        d.open_errs.clear();
        for (fd, _) in d.open.drain() { unsafe { syscall(SYS_CLOSE, fd as c_long); } }
        // Duplicates of handles.
        for fd in 3..64 {
            if unsafe { syscall(SYS_FCNTL, fd as c_long, 1 as c_long) } < 0 { continue }
            let there = std::fs::read_link(format!("/proc/self/fd/{}", fd)).map_or(false, |p| p.starts_with(&d.dir));
            if there { left.handles += 1; unsafe { syscall(SYS_CLOSE, fd as c_long); } }
        }
        let mut files = vec![];
        stray(&d.dir, &mut files);
        files.sort();
        for f in files {
            left.files.push(f.display().to_string());
            let _ = std::fs::remove_file(f);
        }
        left
    })
}

pub fn cleanup() {
    let dir = DISK.with(|d| d.borrow_mut().take().map(|d| d.dir));
    if let Some(dir) = dir { let _ = std::fs::remove_dir_all(dir); }
}

pub fn dir() -> PathBuf { DISK.with(|d| d.borrow().as_ref().unwrap().dir.clone()) }

/// Creates a simulated file.
pub fn create(name: &str, content: Vec<u8>) -> Rc<SimFile> { create_at(&dir().join(name), content) }

/// Creates a simulated file under a path below the scratch directory, however it is written.
pub fn create_at(path: &std::path::Path, content: Vec<u8>) -> Rc<SimFile> {
    back(path, &content);
    use std::os::unix::ffi::OsStrExt;
    let key = key_of(path.as_os_str().as_bytes());
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        let d = d.as_mut().unwrap();
        d.serial += 1;
        let file = Rc::new(SimFile {
            content: RefCell::new(content), path: path.to_path_buf(), serial: d.serial, written: std::cell::Cell::new(now()),
        });
        d.files.insert(key, file.clone());
        file
    })
}

/// There is no file at this path.
pub fn missing(path: &std::path::Path) {
    use std::os::unix::ffi::OsStrExt;
    let key = key_of(path.as_os_str().as_bytes());
    DISK.with(|d| { d.borrow_mut().as_mut().unwrap().missing.insert(key); });
}

/// A readable file nobody was asked to load, for a path next to those of the simulated files.
fn decoy(key: &[u8]) -> Option<Rc<SimFile>> {
    use std::os::unix::ffi::{OsStrExt, OsStringExt};
    let path = PathBuf::from(std::ffi::OsString::from_vec(key.to_vec()));
    let serve = DISK.with(|d| match d.try_borrow() {
        Ok(d) => d.as_ref().map_or(false, |d| {
            let dir = normal(d.dir.as_os_str().as_bytes());
            key.len() > dir.len() && key.starts_with(&dir) && key[dir.len()] == b'/' && !d.missing.contains(key)
        }),
        Err(_) => false,
    });
    if !serve || path.is_dir() { return None }
    let content = RefCell::new(b"<decoy>not what was asked for</decoy>".to_vec());
    Some(Rc::new(SimFile { content, path, serial: 0, written: std::cell::Cell::new(0) }))
}

/// A simulated file of this content, new or old.
pub fn ensure(name: &str, content: &[u8]) -> Rc<SimFile> {
    use std::os::unix::ffi::OsStrExt;
    let path = dir().join(name);
    let key = key_of(path.as_os_str().as_bytes());
    let old = DISK.with(|d| d.borrow().as_ref().unwrap().files.get(&key).cloned());
    match old {
        Some(f) => {
            let same = *f.content.borrow() == content;
            if !same { overwrite(&f, content.to_vec()); }
            f
        }
        None => create_at(&path, content.to_vec()),
    }
}

/// Replaces the content in place (readers with open handles see the new bytes).
pub fn overwrite(file: &Rc<SimFile>, content: Vec<u8>) {
    back(&file.path, &content);
    if content.len() == file.content.borrow().len() { sched::fault("file_rewritten_same_length"); }
    *file.content.borrow_mut() = content;
    file.written.set(now());
}

/// Sets what the next open of `file` by the current client will meet.
pub fn plan(file: &Rc<SimFile>, plan: LoadPlan) {
    use std::os::unix::ffi::OsStrExt;
    let key = (sched::with(|s| s.client), key_of(file.path.as_os_str().as_bytes()));
    DISK.with(|d| d.borrow_mut().as_mut().unwrap().plans.entry(key).or_default().push(plan));
}

/// The handles the current client opened so far (and forgets them), and failed opens.
pub fn take_opens() -> (Vec<Rc<RefCell<Handle>>>, Vec<i32>) {
    let c = sched::with(|s| s.client);
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        let d = d.as_mut().unwrap();
        let mine = d.opens.iter().filter(|o| o.0 == c).map(|o| o.1.clone()).collect();
        let errs = d.open_errs.iter().filter(|o| o.0 == c).map(|o| o.1).collect();
        d.opens.retain(|o| o.0 != c);
        d.open_errs.retain(|o| o.0 != c);
        d.plans.retain(|k, _| k.0 != c);
        (mine, errs)
    })
}

/// The path with `.`, `..` and doubled slashes resolved.
fn normal(path: &[u8]) -> Vec<u8> {
    let mut parts: Vec<&[u8]> = Vec::new();
    for p in path.split(|b| *b == b'/') {
        match p { b"" | b"." => (), b".." => { parts.pop(); } _ => parts.push(p) }
    }
    let mut out = Vec::new();
    for p in parts { out.push(b'/'); out.extend_from_slice(p); }
    out
}

pub fn is_open(h: &Rc<RefCell<Handle>>) -> bool {
    DISK.with(|d| {
        let d = d.borrow();
        d.as_ref().unwrap().open.values().any(|o| Rc::ptr_eq(o, h))
    })
}

/// What a path stands for, taken from the scratch directory, which all runs work in.
fn key_of(path: &[u8]) -> Vec<u8> {
    use std::os::unix::ffi::OsStrExt;
    if path.first() == Some(&b'/') { return normal(path) }
    let mut full = DISK.with(|d| match d.try_borrow() {
        Ok(d) => d.as_ref().map_or(vec![], |d| d.dir.as_os_str().as_bytes().to_vec()),
        Err(_) => vec![],
    });
    full.push(b'/');
    full.extend_from_slice(path);
    normal(&full)
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let real = |p: *const c_char| {
        let r = syscall(SYS_OPENAT, AT_FDCWD, p, flags as c_long, mode as c_long);
        r as c_int // syscall() has set errno
    };
    if !sched::active() { return real(path); }
    let key = CStr::from_ptr(path).to_bytes();
    let key = key_of(key);
    let found = DISK.with(|d| match d.try_borrow() {
        Ok(d) => d.as_ref().and_then(|d| d.files.get(&key).cloned()),
        Err(_) => None,
    });
    if flags & (3 | O_CREAT) != 0 {
        let refused = !OWN.with(|o| o.get()) && DISK.with(|d| d.try_borrow().map_or(false, |d| d.as_ref().map_or(false, |d| d.read_only
            && key.starts_with(&normal({ use std::os::unix::ffi::OsStrExt; d.dir.as_os_str().as_bytes() })))));
        if refused {
            sched::fault("write_to_read_only_medium");
            set_errno(EROFS);
            return -1;
        }
        if flags & 3 != 2 || found.is_none() { return real(path); }
    }
    let (file, asked) = match found {
        Some(f) => (f, true),
        None => match decoy(&key) { Some(f) => (f, false), None => return real(path) },
    };
    sched::yield_point("open", 0);
    let client = sched::with(|s| s.client);
    let plan = DISK.with(|d| {
        let mut d = d.borrow_mut();
        let d = d.as_mut().unwrap();
        match d.plans.get_mut(&(client, key)) {
            Some(v) if !v.is_empty() => v.remove(0),
            _ => LoadPlan::default(),
        }
    });
    if let Some(e) = plan.open_err {
        sched::fault(if e == EINTR { "open_eintr" } else { "open_error" });
        sched::trace(|| format!("open fails with errno {}", e));
        DISK.with(|d| {
            let mut d = d.borrow_mut();
            let d = d.as_mut().unwrap();
            d.open_errs.push((client, e));
        });
        set_errno(e);
        return -1;
    }
    let fd = real(if asked { path } else { c"/dev/null".as_ptr() });
    if fd < 0 { return fd; }
    sched::trace(|| if asked { "open".to_string() } else { "open of a path not asked for".to_string() });
    if !asked { sched::probe("decoy_opened") }
    let h = Rc::new(RefCell::new(Handle {
        file, plan, next: 0, pos: 0, served: Vec::new(), served_len: 0, eof: false, err: None,
        eintr: 0, reads: 0, boundaries: 0, fd, cap: 256 << 20, capped: false,
    }));
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        let d = d.as_mut().unwrap();
        d.open.insert(fd, h.clone());
        d.opens.push((client, h));
    });
    fd
}

unsafe fn do_read(h: Rc<RefCell<Handle>>, buf: *mut u8, count: usize) -> isize {
    sched::yield_point("read", 0);
    let mut h = h.borrow_mut();
    let h = &mut *h;
    h.reads += 1;
    let mut max = count;
    if let Some((at, e)) = h.plan.err_at {
        if h.pos >= at {
            h.plan.err_at = None;
            h.err = Some(e);
            sched::fault("read_error");
            sched::trace(|| format!("read fails with errno {} after {} bytes", e, h.pos));
            set_errno(e);
            return -1;
        }
        max = max.min(at - h.pos);
    }
    if h.next < h.plan.acts.len() {
        let act = h.plan.acts[h.next].clone();
        h.next += 1;
        if h.plan.cycle && h.next == h.plan.acts.len() { h.next = 0; }
        match act {
            ReadAct::Data(n) => {
                // A file that was replaced by a far longer one comes in larger pieces.
                let len = h.file.content.borrow().len();
                let n = if h.plan.cycle && !h.plan.endless && len > 300_000 { n * (1 + len / 50_000) } else { n };
                if n < max { max = n.max(1); sched::fault("short_read"); }
            }
            ReadAct::Eintr => {
                h.eintr += 1;
                sched::fault("read_eintr");
                sched::trace(|| "read interrupted".to_string());
                set_errno(EINTR);
                return -1;
            }
            ReadAct::Err(e) => {
                h.err = Some(e);
                sched::fault("read_error");
                sched::trace(|| format!("read fails with errno {} after {} bytes", e, h.pos));
                set_errno(e);
                return -1;
            }
        }
    }
    if count == 0 { return 0; }
    let content = h.file.content.borrow();
    let out = std::slice::from_raw_parts_mut(buf, count);
    let n;
    if h.plan.endless && !content.is_empty() {
        if h.served_len > h.cap {
            h.capped = true;
            set_errno(EIO);
            return -1;
        }
        n = max.min(1 << 20);
        for (i, o) in out[..n].iter_mut().enumerate() { *o = content[(h.pos + i) % content.len()]; }
        sched::fault("endless_file_read");
    } else {
        n = max.min(content.len().saturating_sub(h.pos));
        out[..n].copy_from_slice(&content[h.pos.min(content.len())..][..n]);
        h.served.extend_from_slice(&out[..n]);
        if n > 0 && h.pos + n < content.len() && content[h.pos + n] & 0xC0 == 0x80 {
            h.boundaries += 1;
            sched::fault("read_splits_character");
        }
    }
    h.pos += n;
    h.served_len += n;
    if n == 0 { h.eof = true; }
    // Reads that get on with a file of finite length never exhaust the step budget.
    else if !h.plan.endless { sched::with(|s| s.step_cap += 8); }
    syscall(SYS_LSEEK, h.fd as c_long, h.pos as c_long, 0 as c_long);
    sched::trace(|| format!("read delivers {} bytes", n));
    n as isize
}

fn handle(fd: c_int) -> Option<Rc<RefCell<Handle>>> {
    if fd <= 2 || !sched::active() { return None; }
    DISK.with(|d| match d.try_borrow() {
        Ok(d) => d.as_ref().and_then(|d| d.open.get(&fd).cloned()),
        Err(_) => None,
    })
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int { do_open(path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int { do_open(path, flags, mode) }

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: usize) -> isize {
    match handle(fd) {
        Some(h) => do_read(h, buf as *mut u8, count),
        None => syscall(SYS_READ, fd as c_long, buf, count) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, count: usize, offset: i64) -> isize {
    match handle(fd) {
        Some(h) => {
            let before = h.borrow().pos;
            h.borrow_mut().pos = offset.max(0) as usize;
            let r = do_read(h.clone(), buf as *mut u8, count);
            // The position of the file itself stays.
            h.borrow_mut().pos = before;
            syscall(SYS_LSEEK, fd as c_long, before as c_long, 0 as c_long);
            r
        }
        None => syscall(17, fd as c_long, buf, count, offset as c_long) as isize,
    }
}

#[repr(C)]
pub struct IoVec { base: *mut c_void, len: usize }

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    match handle(fd) {
        Some(h) => {
            for i in 0..n as usize {
                let v = &*iov.add(i);
                if v.len > 0 { return do_read(h, v.base as *mut u8, v.len); }
            }
            0
        }
        None => syscall(19, fd as c_long, iov, n as c_long) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd > 2 && sched::active() {
        let h = DISK.with(|d| match d.try_borrow_mut() {
            Ok(mut d) => d.as_mut().and_then(|d| d.open.remove(&fd)),
            Err(_) => None,
        });
        if h.is_some() { sched::trace(|| "close".to_string()); }
    }
    syscall(SYS_CLOSE, fd as c_long) as c_int
}

/// Files are numbered, and their times have a resolution of two seconds of simulated time, so a
/// file that was written twice shortly one after the other may look untouched.
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    let r = syscall(332, dirfd as c_long, path, flags as c_long, mask as c_long, buf) as c_int;
    if r != 0 || !sched::active() { return r }
    let name = if path.is_null() { &b""[..] } else { CStr::from_ptr(path).to_bytes() };
    let file = match handle(dirfd) {
        Some(h) if name.is_empty() => Some(h.borrow().file.clone()),
        _ if name.is_empty() => None,
        _ => {
            let key = key_of(name);
            DISK.with(|d| d.try_borrow().ok().and_then(|d| d.as_ref().and_then(|d| d.files.get(&key).cloned())))
        }
    };
    if let Some(f) = file {
        sched::probe("file_metadata_asked");
        let b = buf as *mut u8;
        (b.add(32) as *mut u64).write_unaligned(1000 + f.serial);
        let secs = 1_700_000_000 + (f.written.get() / 2000 * 2) as i64;
        for at in [64, 80, 96, 112] {
            (b.add(at) as *mut i64).write_unaligned(secs);
            (b.add(at + 8) as *mut u32).write_unaligned(0);
        }
    }
    r
}
