//! `std::fs` on the real file system, with fault and crash points before every change, containment
//! (changes are refused outside the scratch directory) and a record of what a power loss may take.
pub use std::fs::{DirEntry, FileTimes, FileType, Metadata, Permissions};
use crate::mc;
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::io::{self, Error, ErrorKind, IoSlice, IoSliceMut, Read, Result, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::SystemTime as RealTime;

/// What the model checker knows about the files of an execution.
#[derive(Default)]
pub struct Model {
    /// files written and not synced since
    pub dirty: BTreeSet<PathBuf>,
    /// read_dir yields names in reverse order
    pub reverse_dirs: bool,
    /// file names whose writes, creations and renames are crash points (all when empty)
    pub ops: u64,
}

/// How many file-system changes were refused because they left the scratch directory.
pub static ESCAPES: AtomicU64 = AtomicU64::new(0);

fn norm(p: &Path) -> PathBuf {
    let p = if p.is_absolute() {
        p.to_path_buf()
    } else {
        std::env::current_dir().unwrap_or_default().join(p)
    };
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                out.pop();
            }
            std::path::Component::CurDir => {}
            c => out.push(c),
        }
    }
    out
}

fn contained(p: &Path) -> Result<PathBuf> {
    let p = norm(p);
    if p.starts_with(mc::scratch()) {
        return Ok(p);
    }
    ESCAPES.fetch_add(1, SeqCst);
    eprintln!("refused: change outside the scratch directory: {}", p.display());
    Err(Error::new(ErrorKind::PermissionDenied, "outside the scratch directory"))
}

enum Go {
    /// do it
    Do,
    /// do part k of 2, then die
    Part(usize),
    /// the process is gone: pretend
    Skip,
}

/// The gate every change passes.
fn gate(what: &'static str, cuts: usize) -> Result<Go> {
    let c = match mc::cur() {
        None => return Ok(Go::Do),
        Some(c) => c,
    };
    if mc::dying() {
        return Ok(Go::Skip);
    }
    c.point();
    if mc::dying() {
        return Ok(Go::Skip);
    }
    if let Some(k) = mc::crash_point(what, cuts) {
        return Ok(Go::Part(k));
    }
    if mc::dying() {
        return Ok(Go::Skip);
    }
    if mc::fault(what) {
        return Err(Error::new(ErrorKind::Other, "injected I/O error"));
    }
    Ok(Go::Do)
}

/// The gate every read passes (fault points only).
fn gate_read(what: &'static str) -> Result<()> {
    if mc::cur().is_some() && !mc::dying() && mc::fault(what) {
        return Err(Error::new(ErrorKind::Other, "injected I/O error"));
    }
    Ok(())
}

fn model(f: impl FnOnce(&mut Model)) {
    if let Some(c) = mc::cur() {
        let mut m = c.exec().fs.lock().unwrap_or_else(|e| e.into_inner());
        m.ops += 1;
        f(&mut m)
    }
}

fn dirty(p: &Path) {
    model(|m| {
        m.dirty.insert(p.to_path_buf());
    })
}

/// After a crash: a power loss may have emptied, or halved, each file that was not synced.
/// (A mere end of the process takes nothing the system calls had accepted.)
pub fn power_loss() {
    let c = mc::cur().unwrap();
    let files: Vec<PathBuf> = {
        let mut m = c.exec().fs.lock().unwrap_or_else(|e| e.into_inner());
        let d = std::mem::take(&mut m.dirty);
        d.into_iter().collect()
    };
    for f in files {
        let n = match std::fs::metadata(&f) {
            Ok(m) if m.is_file() => m.len(),
            _ => continue,
        };
        let keep = match mc::choose(3) {
            0 => continue,
            1 => 0,
            _ => n / 2,
        };
        mc::note(|| format!("power loss cuts {} to {} of {} bytes", f.display(), keep, n));
        let f = std::fs::OpenOptions::new().write(true).open(&f).unwrap();
        f.set_len(keep).unwrap();
    }
}

/// Lists directories in reverse name order from now on (the order is unspecified).
pub fn reverse_dirs(on: bool) {
    model(|m| m.reverse_dirs = on)
}

#[derive(Debug)]
pub struct File {
    f: std::fs::File,
    path: PathBuf,
}

fn dead() -> Error {
    Error::new(ErrorKind::Other, "the process is gone")
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> Result<File> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> Result<File> {
        OpenOptions::new().read(true).write(true).create_new(true).open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn sync_all(&self) -> Result<()> {
        match gate("fsync", 1)? {
            Go::Skip => Ok(()),
            Go::Part(_) => {
                mc::die();
                Ok(())
            }
            Go::Do => {
                model(|m| {
                    m.dirty.remove(&self.path);
                });
                Ok(())
            }
        }
    }
    pub fn sync_data(&self) -> Result<()> {
        self.sync_all()
    }
    pub fn set_len(&self, n: u64) -> Result<()> {
        match gate("set_len", 1)? {
            Go::Do => {
                dirty(&self.path);
                self.f.set_len(n)
            }
            _ => Ok(()),
        }
    }
    pub fn metadata(&self) -> Result<Metadata> {
        self.f.metadata()
    }
    pub fn try_clone(&self) -> Result<File> {
        Ok(File {
            f: self.f.try_clone()?,
            path: self.path.clone(),
        })
    }
    pub fn set_permissions(&self, p: Permissions) -> Result<()> {
        self.f.set_permissions(p)
    }

    fn put(&self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let cuts = if b.len() > 2 { 3 } else { 2 };
        match gate("write", cuts)? {
            Go::Skip => Ok(b.len()),
            Go::Part(k) => {
                let n = if k == 1 { b.len() / 2 } else { b.len() - 1 };
                let _ = (&self.f).write_all(&b[..n]);
                dirty(&self.path);
                mc::die();
                Ok(b.len())
            }
            Go::Do => {
                dirty(&self.path);
                (&self.f).write(b)
            }
        }
    }
}

impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        gate_read("read")?;
        self.f.read(b)
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> Result<usize> {
        self.f.read_vectored(b)
    }
    fn read_to_end(&mut self, b: &mut Vec<u8>) -> Result<usize> {
        gate_read("read")?;
        self.f.read_to_end(b)
    }
    fn read_to_string(&mut self, b: &mut String) -> Result<usize> {
        gate_read("read")?;
        self.f.read_to_string(b)
    }
}
impl Read for &File {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        gate_read("read")?;
        (&self.f).read(b)
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.put(b)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> {
        for s in b {
            if !s.is_empty() {
                return self.put(s);
            }
        }
        Ok(0)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Write for &File {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.put(b)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.f.seek(p)
    }
}
impl Seek for &File {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        (&self.f).seek(p)
    }
}
impl std::os::unix::io::AsRawFd for File {
    fn as_raw_fd(&self) -> i32 {
        self.f.as_raw_fd()
    }
}

#[derive(Clone, Debug)]
pub struct OpenOptions {
    o: std::fs::OpenOptions,
    write: bool,
    changes: bool,
}

impl OpenOptions {
    pub fn new() -> Self {
        OpenOptions {
            o: std::fs::OpenOptions::new(),
            write: false,
            changes: false,
        }
    }
    pub fn read(&mut self, b: bool) -> &mut Self {
        self.o.read(b);
        self
    }
    pub fn write(&mut self, b: bool) -> &mut Self {
        self.o.write(b);
        self.write |= b;
        self
    }
    pub fn append(&mut self, b: bool) -> &mut Self {
        self.o.append(b);
        self.write |= b;
        self
    }
    pub fn truncate(&mut self, b: bool) -> &mut Self {
        self.o.truncate(b);
        self.changes |= b;
        self
    }
    pub fn create(&mut self, b: bool) -> &mut Self {
        self.o.create(b);
        self.changes |= b;
        self
    }
    pub fn create_new(&mut self, b: bool) -> &mut Self {
        self.o.create_new(b);
        self.changes |= b;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> Result<File> {
        if !self.write && !self.changes {
            gate_read("open")?;
            return Ok(File {
                f: self.o.open(&p)?,
                path: norm(p.as_ref()),
            });
        }
        let path = contained(p.as_ref())?;
        if self.changes {
            match gate("create", 1)? {
                Go::Do => {}
                _ => return Err(dead()),
            }
        } else if mc::dying() {
            return Err(dead());
        }
        let f = self.o.open(&path)?;
        if self.changes {
            dirty(&path);
        }
        Ok(File { f, path })
    }
}

impl std::os::unix::fs::OpenOptionsExt for OpenOptions {
    fn mode(&mut self, m: u32) -> &mut Self {
        self.o.mode(m);
        self
    }
    fn custom_flags(&mut self, f: i32) -> &mut Self {
        self.o.custom_flags(f);
        self
    }
}

fn change<T>(
    what: &'static str,
    p: &Path,
    skip: T,
    f: impl FnOnce(&Path) -> Result<T>,
) -> Result<T> {
    let p = contained(p)?;
    match gate(what, 1)? {
        Go::Do => f(&p),
        _ => Ok(skip),
    }
}

pub fn create_dir<P: AsRef<Path>>(p: P) -> Result<()> {
    change("mkdir", p.as_ref(), (), |p| std::fs::create_dir(p))
}
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> Result<()> {
    let p = contained(p.as_ref())?;
    if p.is_dir() {
        return Ok(());
    }
    let mut todo = vec![];
    let mut q: &Path = &p;
    while !q.exists() {
        todo.push(q.to_path_buf());
        q = match q.parent() {
            Some(q) => q,
            None => break,
        };
    }
    for d in todo.into_iter().rev() {
        change("mkdir", &d, (), |p| match std::fs::create_dir(p) {
            Err(e) if e.kind() == ErrorKind::AlreadyExists && p.is_dir() => Ok(()),
            r => r,
        })?;
    }
    Ok(())
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> Result<()> {
    change("unlink", p.as_ref(), (), |p| {
        model(|m| {
            m.dirty.remove(p);
        });
        std::fs::remove_file(p)
    })
}
pub fn remove_dir<P: AsRef<Path>>(p: P) -> Result<()> {
    change("rmdir", p.as_ref(), (), |p| std::fs::remove_dir(p))
}
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> Result<()> {
    change("rmtree", p.as_ref(), (), |p| {
        model(|m| m.dirty.retain(|f| !f.starts_with(p)));
        std::fs::remove_dir_all(p)
    })
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> Result<()> {
    let a = contained(a.as_ref())?;
    change("rename", b.as_ref(), (), |b| {
        std::fs::rename(&a, b)?;
        model(|m| {
            m.dirty.remove(b);
            let moved: Vec<PathBuf> = m.dirty.iter().filter(|f| f.starts_with(&a)).cloned().collect();
            for f in moved {
                m.dirty.remove(&f);
                let rest = f.strip_prefix(&a).unwrap();
                m.dirty.insert(if rest.as_os_str().is_empty() { b.to_path_buf() } else { b.join(rest) });
            }
        });
        Ok(())
    })
}
pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> Result<()> {
    let a = contained(a.as_ref())?;
    change("link", b.as_ref(), (), |b| std::fs::hard_link(&a, b))
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> Result<u64> {
    let data = read(a)?;
    write(b, &data)?;
    Ok(data.len() as u64)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> Result<()> {
    File::create(p)?.write_all(c.as_ref())
}
pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
    let mut v = vec![];
    File::open(p)?.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> {
    let mut v = String::new();
    File::open(p)?.read_to_string(&mut v)?;
    Ok(v)
}
pub fn set_permissions<P: AsRef<Path>>(p: P, perm: Permissions) -> Result<()> {
    change("chmod", p.as_ref(), (), |p| std::fs::set_permissions(p, perm))
}
pub use std::fs::{canonicalize, exists, metadata, read_link, symlink_metadata};

/// Entries in name order (the real order is not deterministic), or in reverse name order.
pub struct ReadDir(std::vec::IntoIter<Result<DirEntry>>);

impl Iterator for ReadDir {
    type Item = Result<DirEntry>;
    fn next(&mut self) -> Option<Self::Item> {
        let entry = self.0.next()?;
        Some(gate_read("readdir entry").and(entry))
    }
}
impl std::fmt::Debug for ReadDir {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ReadDir")
    }
}

pub fn read_dir<P: AsRef<Path>>(p: P) -> Result<ReadDir> {
    gate_read("readdir")?;
    let mut ok: Vec<(OsString, DirEntry)> = vec![];
    let mut all: Vec<Result<DirEntry>> = vec![];
    for e in std::fs::read_dir(p)? {
        match e {
            Ok(e) => ok.push((e.file_name(), e)),
            Err(e) => all.push(Err(e)),
        }
    }
    ok.sort_by(|a, b| a.0.cmp(&b.0));
    let mut reverse = false;
    model(|m| reverse = m.reverse_dirs);
    if reverse {
        ok.reverse();
    }
    all.extend(ok.into_iter().map(|(_, e)| Ok(e)));
    Ok(ReadDir(all.into_iter()))
}

#[derive(Debug)]
pub struct DirBuilder {
    rec: bool,
}
impl DirBuilder {
    pub fn new() -> Self {
        DirBuilder { rec: false }
    }
    pub fn recursive(&mut self, r: bool) -> &mut Self {
        self.rec = r;
        self
    }
    pub fn create<P: AsRef<Path>>(&self, p: P) -> Result<()> {
        if self.rec {
            create_dir_all(p)
        } else {
            create_dir(p)
        }
    }
}

/// The modification time of a file (real, not virtual).
pub fn mtime(p: &Path) -> io::Result<RealTime> {
    std::fs::metadata(p)?.modified()
}
