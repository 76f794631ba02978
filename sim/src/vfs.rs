//! Storage seam: the libc entry points the Rust standard library uses for files and for hash
//! seeds are defined here, so that the unmodified loader runs against a simulated disk. Outside a
//! simulation (no world installed on the thread) every call goes straight to the kernel.
use libc::{c_char, c_int, c_void, off_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// Everything below this directory is simulated; relative paths are resolved against `CWD`.
pub const TOP: &str = "/vfs";
pub const CWD: &str = "/vfs/cwd";

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    /// The call is interrupted (and must be retried by its caller).
    Eintr,
    /// The call fails with this errno.
    Errno(i32),
    /// A read delivers at most this many bytes.
    Short(usize),
    /// The file ends here: this and all later reads of this descriptor deliver nothing.
    Eof,
    /// The size reported for the file.
    Size(u64),
}

/// What happens on disk before the n-th call.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Change {
    Replace(String, Vec<u8>),
    Remove(String),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Disk {
    pub files: BTreeMap<String, Vec<u8>>,
    pub dirs: BTreeSet<String>,
    /// Paths that exist but whose opening fails.
    pub denied: BTreeMap<String, i32>,
}

/// Standing behaviour of the storage, all of it harmless to a correct reader.
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Policy {
    /// No read delivers more than this many bytes (0: no limit).
    pub short: usize,
    /// Every n-th open or read is interrupted (0: never; at least 2).
    pub eintr_every: u64,
    /// Every file claims this size.
    pub size: Option<u64>,
}

/// One file opened by the code under test.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Opened {
    /// As spelled by the caller.
    pub spelled: String,
    /// Where it leads on the simulated disk (normalised).
    pub place: String,
    pub errno: Option<i32>,
    /// Bytes handed out, and whether the end of the file was reached without an error.
    pub bytes: Vec<u8>,
    pub ended: bool,
    pub failed: bool,
    /// Size of the file when it was opened.
    pub full: usize,
}
impl Opened {
    /// The content the storage vouched for, if the file could be read in full.
    pub fn complete(&self) -> Option<&[u8]> {
        (self.errno.is_none() && !self.failed && (self.ended || self.bytes.len() == self.full)).then_some(&self.bytes)
    }
}

pub struct World {
    pub disk: Disk,
    /// Fault for the n-th storage call of the run.
    pub faults: Vec<(u64, Fault)>,
    pub changes: Vec<(u64, Change)>,
    pub calls: u64,
    pub opened: Vec<Opened>,
    pub fired: BTreeMap<&'static str, u64>,
    pub trace: u64,
    pub hash_seed: u64,
    pub randoms: u64,
    fds: BTreeMap<c_int, Fd>,
    next: c_int,
    pub hook: Option<Rc<dyn Fn()>>,
    /// Give up (a loop) after this many calls.
    pub limit: u64,
    /// Existence checks and canonicalisation, which are not reads.
    pub probes: Vec<String>,
    /// Paths that led nowhere when they were resolved.
    pub unresolved: u64,
    pub policy: Policy,
    /// Simulated clock (ns), advanced by every reading and every storage call.
    pub clock: u64,
    pub clock_reads: u64,
    /// The package the code runs for (none: as the process says).
    pub package: Option<std::ffi::CString>,
}
struct Fd {
    data: Rc<Vec<u8>>,
    at: usize,
    open: usize,
    eof: bool,
}

thread_local! {
    static WORLD: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
    /// The simulator itself is running.
    static PAUSED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl World {
    pub fn new(disk: Disk) -> Self {
        World {
            disk,
            faults: vec![],
            changes: vec![],
            calls: 0,
            opened: vec![],
            fired: BTreeMap::new(),
            trace: 0x51,
            hash_seed: 1,
            randoms: 0,
            fds: BTreeMap::new(),
            next: 1_000_000,
            hook: None,
            limit: 20_000,
            probes: vec![],
            unresolved: 0,
            policy: Policy::default(),
            clock: 1_000_000_000,
            clock_reads: 0,
            package: None,
        }
    }
    pub fn leaked(&self) -> usize {
        self.fds.len()
    }
    fn fault(&mut self) -> Option<Fault> {
        let n = self.calls;
        self.calls += 1;
        let due: Vec<Change> = self.changes.iter().filter(|c| c.0 == n).map(|c| c.1.clone()).collect();
        for c in due {
            self.note("file changed during the load");
            match c {
                Change::Replace(p, b) => {
                    self.disk.files.insert(p, b);
                }
                Change::Remove(p) => {
                    self.disk.files.remove(&p);
                }
            }
        }
        self.clock += 1_000_003;
        if let Some(f) = self.faults.iter().find(|f| f.0 == n) {
            return Some(f.1.clone());
        }
        if self.policy.eintr_every > 1 && n % self.policy.eintr_every == 0 {
            return Some(Fault::Eintr);
        }
        None
    }
    fn note(&mut self, k: &'static str) {
        *self.fired.entry(k).or_insert(0) += 1;
    }
    fn mix(&mut self, tag: u64, x: u64) {
        self.trace = crate::rng::mix(self.trace, tag << 32 ^ x);
    }
}

/// Lexical path of the simulated disk: directories must exist on the way, like on a real one.
pub fn resolve(disk: &Disk, path: &str) -> Result<String, i32> {
    let full = if path.starts_with('/') { path.to_string() } else { format!("{CWD}/{path}") };
    if full.len() >= 4096 {
        return Err(libc::ENAMETOOLONG);
    }
    let mut out: Vec<&str> = vec![];
    let parts: Vec<&str> = full.split('/').filter(|x| !x.is_empty() && *x != ".").collect();
    for (i, p) in parts.iter().enumerate() {
        if *p == ".." {
            out.pop();
        } else {
            if p.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            out.push(p);
        }
        if i + 1 < parts.len() {
            let cur = format!("/{}", out.join("/"));
            if disk.files.contains_key(&cur) {
                return Err(libc::ENOTDIR);
            }
            if !is_dir(disk, &cur) {
                return Err(libc::ENOENT);
            }
        }
    }
    Ok(format!("/{}", out.join("/")))
}
fn is_dir(disk: &Disk, p: &str) -> bool {
    p == "/" || p == TOP || p == CWD || disk.dirs.contains(p) || {
        let pre = format!("{p}/");
        disk.files.keys().chain(disk.dirs.iter()).any(|f| f.starts_with(&pre))
    }
}
pub fn normal(path: &str) -> String {
    let full = if path.starts_with('/') { path.to_string() } else { format!("{CWD}/{path}") };
    let mut out: Vec<&str> = vec![];
    for p in full.split('/').filter(|x| !x.is_empty() && *x != ".") {
        if p == ".." {
            out.pop();
        } else {
            out.push(p);
        }
    }
    format!("/{}", out.join("/"))
}

/// Runs `f` with the simulated storage installed on this thread.
pub fn with_world<T>(w: World, f: impl FnOnce() -> T) -> (T, World) {
    WORLD.with(|c| {
        let old = c.borrow_mut().replace(Box::new(w));
        assert!(old.is_none());
    });
    let r = f();
    let w = WORLD.with(|c| c.borrow_mut().take()).unwrap();
    (r, *w)
}

/// Only used by callers that want the hash seed fixed without a disk.
fn active<T>(f: impl FnOnce(&mut World) -> T) -> Option<T> {
    if PAUSED.try_with(|p| p.get()).unwrap_or(true) {
        return None;
    }
    WORLD.try_with(|c| c.try_borrow_mut().ok().and_then(|mut g| g.as_mut().map(|w| f(w)))).ok().flatten()
}

fn hook() {
    let h = active(|w| w.hook.clone()).flatten();
    if let Some(h) = h {
        PAUSED.with(|p| p.set(true));
        h();
        PAUSED.with(|p| p.set(false));
    }
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
unsafe fn c_path<'a>(p: *const c_char) -> Option<&'a str> {
    if p.is_null() {
        return None;
    }
    std::ffi::CStr::from_ptr(p).to_str().ok()
}
fn is_virtual(p: &str) -> bool {
    if p == TOP || p.starts_with("/vfs/") {
        return true;
    }
    if !p.starts_with('/') {
        return !p.is_empty();
    }
    // Another spelling of the same place.
    (p.contains("//") || p.contains("/.")) && normal(p).starts_with("/vfs/")
}
/// Whether a call on this path belongs to the simulation.
fn mine(p: &str) -> bool {
    is_virtual(p) && active(|_| ()).is_some()
}

enum R {
    Ok(i64),
    Err(i32),
}
fn ret(r: R) -> i64 {
    match r {
        R::Ok(x) => x,
        R::Err(e) => {
            set_errno(e);
            -1
        }
    }
}

fn v_open(p: &str) -> R {
    hook();
    active(|w| {
        let f = w.fault();
        if w.calls > w.limit {
            return R::Err(libc::EMFILE);
        }
        match f {
            Some(Fault::Eintr) => {
                w.note("interrupted call");
                w.mix(1, libc::EINTR as u64);
                return R::Err(libc::EINTR);
            }
            Some(Fault::Errno(e)) => {
                w.note("open failure");
                w.mix(1, e as u64);
                let place = normal(p);
                w.opened.push(Opened { spelled: p.into(), place, errno: Some(e), bytes: vec![], ended: false, failed: true, full: 0 });
                return R::Err(e);
            }
            _ => {}
        }
        let r = resolve(&w.disk, p).and_then(|q| {
            if let Some(e) = w.disk.denied.get(&q) {
                return Err(*e);
            }
            match w.disk.files.get(&q) {
                Some(d) => Ok((q, Some(d.clone()))),
                None if is_dir(&w.disk, &q) => Ok((q, None)),
                None => Err(libc::ENOENT),
            }
        });
        match r {
            Ok((place, data)) => {
                let fd = w.next;
                w.next += 1;
                let dir = data.is_none();
                w.opened.push(Opened { spelled: p.into(), place, errno: None, bytes: vec![], ended: false, failed: dir, full: data.as_ref().map_or(0, |d| d.len()) });
                let open = w.opened.len() - 1;
                w.fds.insert(fd, Fd { data: Rc::new(data.unwrap_or_default()), at: 0, open, eof: dir });
                if dir {
                    w.fds.get_mut(&fd).unwrap().at = usize::MAX;
                }
                w.mix(2, 0);
                R::Ok(fd as i64)
            }
            Err(e) => {
                w.opened.push(Opened { spelled: p.into(), place: normal(p), errno: Some(e), bytes: vec![], ended: false, failed: true, full: 0 });
                w.mix(1, e as u64);
                R::Err(e)
            }
        }
    })
    .unwrap_or(R::Err(libc::EIO))
}

fn v_fd(fd: c_int) -> bool {
    fd >= 1_000_000 && active(|w| w.fds.contains_key(&fd)).unwrap_or(false)
}

fn v_read(fd: c_int, buf: *mut u8, n: usize) -> R {
    hook();
    active(|w| {
        let f = w.fault();
        let Some(x) = w.fds.get_mut(&fd) else { return R::Err(libc::EBADF) };
        if x.at == usize::MAX {
            return R::Err(libc::EISDIR);
        }
        let open = x.open;
        let mut max = n;
        match f {
            Some(Fault::Eintr) => {
                w.note("interrupted call");
                w.mix(3, libc::EINTR as u64);
                return R::Err(libc::EINTR);
            }
            Some(Fault::Errno(e)) => {
                w.opened[open].failed = true;
                w.note("read failure");
                w.mix(3, e as u64);
                return R::Err(e);
            }
            Some(Fault::Short(k)) => {
                if n > k.max(1) {
                    max = k.max(1);
                    w.note("short read");
                }
            }
            Some(Fault::Eof) => {
                x.eof = true;
                w.note("file cut while being read");
            }
            _ => {}
        }
        if w.policy.short > 0 && max > w.policy.short {
            max = w.policy.short;
            w.note("short read");
        }
        let x = w.fds.get_mut(&fd).unwrap();
        let k = if x.eof { 0 } else { max.min(x.data.len() - x.at) };
        unsafe { std::ptr::copy_nonoverlapping(x.data[x.at..].as_ptr(), buf, k) };
        let chunk = x.data[x.at..x.at + k].to_vec();
        x.at += k;
        if k == 0 && n > 0 {
            w.opened[open].ended = true;
        }
        w.opened[open].bytes.extend_from_slice(&chunk);
        w.mix(4, k as u64);
        R::Ok(k as i64)
    })
    .unwrap_or(R::Err(libc::EBADF))
}

/// (is directory, size), with the faults of a metadata call.
fn v_stat(path: Option<&str>, fd: c_int) -> Result<(bool, u64), i32> {
    hook();
    active(|w| {
        let f = w.fault();
        let mut lie = w.policy.size;
        if lie.is_some() {
            w.note("misleading size");
        }
        match f {
            Some(Fault::Errno(e)) => {
                w.note("metadata failure");
                // "Not there" would be an answer, not a failure.
                return Err(if e == libc::ENOENT { libc::EIO } else { e });
            }
            Some(Fault::Size(n)) => {
                w.note("misleading size");
                lie = Some(n);
            }
            _ => {}
        }
        let (d, n) = match path {
            Some(p) => {
                w.probes.push(p.to_string());
                let q = resolve(&w.disk, p)?;
                match w.disk.files.get(&q) {
                    Some(b) => (false, b.len() as u64),
                    None if is_dir(&w.disk, &q) => (true, 4096),
                    None => return Err(libc::ENOENT),
                }
            }
            None => match w.fds.get(&fd) {
                Some(x) if x.at == usize::MAX => (true, 4096),
                Some(x) => (false, x.data.len() as u64),
                None => return Err(libc::EBADF),
            },
        };
        w.mix(5, n);
        Ok((d, lie.unwrap_or(n)))
    })
    .unwrap_or(Err(libc::EIO))
}

unsafe fn sys6(n: i64, a: [i64; 6]) -> i64 {
    libc::syscall(n, a[0], a[1], a[2], a[3], a[4], a[5])
}

unsafe fn do_openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(p) = c_path(path) {
        if (dir == libc::AT_FDCWD || p.starts_with('/')) && mine(p) {
            return ret(v_open(p)) as c_int;
        }
    }
    sys6(libc::SYS_openat, [dir as i64, path as i64, flags as i64, mode as i64, 0, 0]) as c_int
}

/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(libc::AT_FDCWD, path, flags, mode)
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(libc::AT_FDCWD, path, flags, mode)
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(dir, path, flags, mode)
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_openat(dir, path, flags, mode)
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if v_fd(fd) {
        return ret(v_read(fd, buf as *mut u8, n)) as ssize_t;
    }
    sys6(libc::SYS_read, [fd as i64, buf as i64, n as i64, 0, 0, 0]) as ssize_t
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if v_fd(fd) {
        active(|w| w.fds.get_mut(&fd).map(|x| x.at = (off as usize).min(x.data.len())));
        return ret(v_read(fd, buf as *mut u8, n)) as ssize_t;
    }
    sys6(libc::SYS_pread64, [fd as i64, buf as i64, n as i64, off, 0, 0]) as ssize_t
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if v_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return ret(v_read(fd, v.iov_base as *mut u8, v.iov_len)) as ssize_t;
            }
        }
        return 0;
    }
    sys6(libc::SYS_readv, [fd as i64, iov as i64, n as i64, 0, 0, 0]) as ssize_t
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 1_000_000 {
        if let Some(true) = active(|w| w.fds.remove(&fd).is_some()) {
            return 0;
        }
    }
    sys6(libc::SYS_close, [fd as i64, 0, 0, 0, 0, 0]) as c_int
}
unsafe fn do_lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    if v_fd(fd) {
        let r = active(|w| {
            let x = w.fds.get_mut(&fd)?;
            if x.at == usize::MAX {
                return None;
            }
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => x.at as i64,
                _ => x.data.len() as i64,
            };
            let to = base + off;
            if to < 0 {
                return None;
            }
            x.at = (to as usize).min(x.data.len());
            Some(to)
        })
        .flatten();
        return match r {
            Some(x) => x,
            None => ret(R::Err(libc::EINVAL)),
        };
    }
    sys6(libc::SYS_lseek, [fd as i64, off, whence as i64, 0, 0, 0])
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    do_lseek(fd, off, whence)
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    do_lseek(fd, off, whence)
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, out: *mut libc::statx) -> c_int {
    let p = c_path(path);
    let virt = match p {
        Some("") => v_fd(dir),
        Some(p) => (dir == libc::AT_FDCWD || p.starts_with('/')) && mine(p),
        None => false,
    };
    if virt {
        let r = match p {
            Some("") | None => v_stat(None, dir),
            Some(p) => v_stat(Some(p), -1),
        };
        return match r {
            Ok((d, n)) => {
                let mut s: libc::statx = std::mem::zeroed();
                s.stx_mask = libc::STATX_BASIC_STATS;
                s.stx_mode = (if d { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
                s.stx_size = n;
                s.stx_nlink = 1;
                s.stx_blksize = 4096;
                *out = s;
                0
            }
            Err(e) => ret(R::Err(e)) as c_int,
        };
    }
    sys6(libc::SYS_statx, [dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0]) as c_int
}
unsafe fn fill_stat(out: *mut libc::stat64, d: bool, n: u64) {
    let mut s: libc::stat64 = std::mem::zeroed();
    s.st_mode = if d { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    s.st_size = n as i64;
    s.st_nlink = 1;
    s.st_blksize = 4096;
    *out = s;
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if v_fd(fd) {
        return match v_stat(None, fd) {
            Ok((d, n)) => {
                fill_stat(out, d, n);
                0
            }
            Err(e) => ret(R::Err(e)) as c_int,
        };
    }
    sys6(libc::SYS_fstat, [fd as i64, out as i64, 0, 0, 0, 0]) as c_int
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if let Some(p) = c_path(path) {
        if mine(p) {
            return match v_stat(Some(p), -1) {
                Ok((d, n)) => {
                    fill_stat(out, d, n);
                    0
                }
                Err(e) => ret(R::Err(e)) as c_int,
            };
        }
    }
    sys6(libc::SYS_newfstatat, [libc::AT_FDCWD as i64, path as i64, out as i64, 0, 0, 0]) as c_int
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, out: *mut libc::stat64) -> c_int {
    if let Some(p) = c_path(path) {
        if mine(p) {
            return stat64(path, out);
        }
    }
    sys6(libc::SYS_newfstatat, [libc::AT_FDCWD as i64, path as i64, out as i64, libc::AT_SYMLINK_NOFOLLOW as i64, 0, 0]) as c_int
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let Some(p) = c_path(path) {
        if mine(p) {
            return match v_stat(Some(p), -1) {
                Ok(_) => 0,
                Err(e) => ret(R::Err(e)) as c_int,
            };
        }
    }
    sys6(libc::SYS_faccessat, [libc::AT_FDCWD as i64, path as i64, mode as i64, 0, 0, 0]) as c_int
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if fd >= 1_000_000 && active(|_| ()).is_some() {
        if !v_fd(fd) {
            return ret(R::Err(libc::EBADF)) as c_int;
        }
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_SETFD | libc::F_GETFL | libc::F_SETFL => 0,
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret(match active(|w| {
                let x = &w.fds[&fd];
                let y = Fd { data: x.data.clone(), at: x.at, open: x.open, eof: x.eof };
                let n = w.next;
                w.next += 1;
                w.fds.insert(n, y);
                n
            }) {
                Some(n) => R::Ok(n as i64),
                None => R::Err(libc::EBADF),
            }) as c_int,
            _ => ret(R::Err(libc::EINVAL)) as c_int,
        };
    }
    sys6(libc::SYS_fcntl, [fd as i64, cmd as i64, arg, 0, 0, 0]) as c_int
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    fcntl(fd, cmd, arg)
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, off: off_t, n: off_t, advice: c_int) -> c_int {
    if v_fd(fd) {
        return 0;
    }
    -(sys6(libc::SYS_fadvise64, [fd as i64, off, n, advice as i64, 0, 0]).min(0)) as c_int
}
/// # Safety
/// Same contract as the libc function: no simulated file is a link.
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if let Some(p) = c_path(path) {
        if mine(p) {
            return match v_stat(Some(p), -1) {
                Ok(_) => ret(R::Err(libc::EINVAL)) as ssize_t,
                Err(e) => ret(R::Err(e)) as ssize_t,
            };
        }
    }
    sys6(libc::SYS_readlink, [path as i64, buf as i64, n as i64, 0, 0, 0]) as ssize_t
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let Some(p) = c_path(path) else {
        set_errno(libc::EINVAL);
        return std::ptr::null_mut();
    };
    let full = if mine(p) {
        match v_stat(Some(p), -1) {
            Ok(_) => active(|w| resolve(&w.disk, p)).unwrap_or(Err(libc::EIO)),
            Err(e) => Err(e),
        }
        .inspect_err(|_| drop(active(|w| w.unresolved += 1)))
    } else {
        // Good enough outside a simulation: the path as the kernel sees it.
        let fd = sys6(libc::SYS_openat, [libc::AT_FDCWD as i64, path as i64, (libc::O_PATH | libc::O_CLOEXEC) as i64, 0, 0, 0]) as c_int;
        if fd < 0 {
            return std::ptr::null_mut();
        }
        let link = format!("/proc/self/fd/{fd}\0");
        let mut buf = vec![0u8; 4096];
        let n = sys6(libc::SYS_readlink, [link.as_ptr() as i64, buf.as_mut_ptr() as i64, 4096, 0, 0, 0]);
        sys6(libc::SYS_close, [fd as i64, 0, 0, 0, 0, 0]);
        if n < 0 {
            Err(libc::EIO)
        } else {
            buf.truncate(n as usize);
            String::from_utf8(buf).map_err(|_| libc::EIO)
        }
    };
    match full {
        Ok(s) => {
            let b = if out.is_null() { libc::malloc(s.len() + 1) as *mut u8 } else { out as *mut u8 };
            std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
            *b.add(s.len()) = 0;
            b as *mut c_char
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active(|_| ()).is_some() {
        let s = CWD;
        if n < s.len() + 1 {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, s.len());
        *buf.add(s.len()) = 0;
        return buf;
    }
    let r = sys6(libc::SYS_getcwd, [buf as i64, n as i64, 0, 0, 0, 0]);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        buf
    }
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: libc::c_uint) -> ssize_t {
    let mine = active(|w| {
        let mut x = crate::rng::Rng::new(crate::rng::mix(w.hash_seed, w.randoms));
        w.randoms += 1;
        for i in 0..n {
            *(buf as *mut u8).add(i) = x.next() as u8;
        }
    });
    if mine.is_some() {
        return n as ssize_t;
    }
    sys6(libc::SYS_getrandom, [buf as i64, n as i64, flags as i64, 0, 0, 0]) as ssize_t
}

/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, out: *mut libc::timespec) -> c_int {
    let t = active(|w| {
        w.clock += 977;
        w.clock_reads += 1;
        w.clock
    });
    if let Some(t) = t {
        (*out).tv_sec = (t / 1_000_000_000) as i64;
        (*out).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    sys6(libc::SYS_clock_gettime, [id as i64, out as i64, 0, 0, 0, 0]) as c_int
}

/// # Safety
/// Same contract as the libc function: the result lives as long as the variable keeps its value.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    extern "C" {
        static environ: *const *const c_char;
    }
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    if name == b"CARGO_MANIFEST_DIR" {
        if let Some(Some(p)) = active(|w| w.package.as_ref().map(|p| p.as_ptr())) {
            return p as *mut c_char;
        }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let kv = std::ffi::CStr::from_ptr(*e).to_bytes();
        if kv.len() > name.len() && kv[name.len()] == b'=' && &kv[..name.len()] == name {
            return (*e).add(name.len() + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
