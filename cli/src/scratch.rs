//! Directory trees to explore, in a scratch directory of this thread.
use std::collections::BTreeMap;
use std::ffi::{CString, OsStr, OsString};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

/// The directory everything happens in: `MC_SCRATCH`, created and removed by check.sh.
pub fn root() -> PathBuf {
    match std::env::var_os("MC_SCRATCH") {
        Some(d) if Path::new(&d).is_dir() => d.into(),
        _ => engine::harness_error("MC_SCRATCH is not a directory: run check.sh"),
    }
}

thread_local! {
    static MINE: PathBuf = {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = root().join(format!("w{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&d).expect("harness: scratch");
        // A working directory of this thread alone.
        if unsafe { libc::unshare(libc::CLONE_FS) } != 0 {
            engine::harness_error("no working directory per thread");
        }
        d
    };
}

/// This thread's scratch directory, empty.
pub fn mine() -> PathBuf {
    let d = MINE.with(|d| d.clone());
    for e in fs::read_dir(&d).expect("harness: scratch") {
        wipe(&e.expect("harness: scratch").path());
    }
    d
}

pub fn wipe(p: &Path) {
    match fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => fs::remove_dir_all(p).expect("harness: wipe"),
        Ok(_) => fs::remove_file(p).expect("harness: wipe"),
        Err(_) => {}
    }
}

pub fn chdir(p: &Path) {
    std::env::set_current_dir(p).expect("harness: chdir");
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    File(Vec<u8>),
    Dir,
    Link(OsString),
    Fifo,
}

#[derive(Clone, PartialEq, Eq)]
pub struct Entry {
    pub path: OsString,
    pub kind: Kind,
}
impl std::fmt::Debug for Entry {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.kind {
            Kind::File(_) => write!(f, "file {:?}", self.path),
            Kind::Dir => write!(f, "dir {:?}", self.path),
            Kind::Link(t) => write!(f, "link {:?} -> {t:?}", self.path),
            Kind::Fifo => write!(f, "fifo {:?}", self.path),
        }
    }
}

pub fn os(b: impl Into<Vec<u8>>) -> OsString {
    OsString::from_vec(b.into())
}

pub fn make(base: &Path, entries: &[Entry]) {
    for e in entries {
        let p = base.join(&e.path);
        if let Some(d) = p.parent() {
            fs::create_dir_all(d).expect("harness: make");
        }
        match &e.kind {
            Kind::File(c) => fs::write(&p, c).expect("harness: make"),
            Kind::Dir => fs::create_dir_all(&p).expect("harness: make"),
            Kind::Link(t) => symlink(t, &p).expect("harness: make"),
            Kind::Fifo => {
                let c = CString::new(p.as_os_str().as_bytes()).expect("harness: make");
                if unsafe { libc::mkfifo(c.as_ptr(), 0o644) } != 0 {
                    engine::harness_error("mkfifo");
                }
            }
        }
    }
}

/// What a directory tree consists of.
pub type Snap = BTreeMap<PathBuf, (u32, i64, i64, Vec<u8>)>;

pub fn snap(base: &Path) -> Snap {
    fn rec(p: &Path, rel: &Path, out: &mut Snap) {
        let Ok(m) = fs::symlink_metadata(p) else { return };
        let body = if m.is_file() {
            fs::read(p).expect("harness: snap")
        } else if m.is_symlink() {
            fs::read_link(p).expect("harness: snap").into_os_string().into_vec()
        } else {
            vec![]
        };
        out.insert(rel.to_owned(), (m.mode(), m.mtime(), m.mtime_nsec(), body));
        if m.is_dir() {
            for e in fs::read_dir(p).expect("harness: snap") {
                let n = e.expect("harness: snap").file_name();
                rec(&p.join(&n), &rel.join(&n), out);
            }
        }
    }
    let mut out = Snap::new();
    rec(base, Path::new(""), &mut out);
    out
}

/// The documents a tree consists of: id to the file's path.
pub fn documents(entries: &[Entry], ext: &str) -> BTreeMap<PathBuf, Entry> {
    let end = [b".", ext.as_bytes()].concat();
    let is_file = |e: &Entry| match &e.kind {
        Kind::File(_) => true,
        Kind::Link(t) => {
            // Links of these trees name a sibling or nothing.
            let to = Path::new(&e.path).parent().map(|d| d.join(t)).unwrap_or_default();
            entries.iter().any(|o| Path::new(&o.path) == to && matches!(o.kind, Kind::File(_)))
        }
        _ => false,
    };
    let mut out = BTreeMap::new();
    for e in entries {
        let b = e.path.as_bytes();
        let name = Path::new(&e.path).file_name().map(|n| n.as_bytes()).unwrap_or_default();
        let hidden = b.split(|c| *c == b'/').any(|c| c.starts_with(b"."));
        if hidden || !is_file(e) || !name.ends_with(&end) {
            continue;
        }
        let id = PathBuf::from(OsStr::from_bytes(&b[..b.len() - end.len()]));
        out.insert(id, e.clone());
    }
    out
}

pub fn content<'a>(entries: &'a [Entry], e: &'a Entry) -> &'a [u8] {
    match &e.kind {
        Kind::File(c) => c,
        Kind::Link(t) => {
            let to = Path::new(&e.path).parent().map(|d| d.join(t)).unwrap_or_default();
            match entries.iter().find(|o| Path::new(&o.path) == to).map(|o| &o.kind) {
                Some(Kind::File(c)) => c,
                _ => engine::harness_error("harness: content"),
            }
        }
        _ => engine::harness_error("harness: content"),
    }
}
