//! An in-memory backend that logs what the library asks and can misbehave on request.

use ruplicity::Backend;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::{self, Read};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path;
use std::sync::{Arc, Mutex};

use crate::util::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    List(bool),
    Open(Vec<u8>, bool),
    /// name, number of reads that followed, bytes, last was an error
    Eof(Vec<u8>),
    ReadErr(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// the operation (list, open or read, counted from zero) to fail
    pub at: u64,
    /// how many consecutive operations fail
    pub len: u64,
    pub kind: io::ErrorKind,
    pub msg: String,
    /// use an OS error number instead of kind and message
    pub os: Option<i32>,
}

/// the kinds of error a backend may give (but Interrupted, which asks for a retry)
/// a kind of error that a backend can give
pub fn kind(r: &mut Rng) -> io::ErrorKind {
    if let Some(n) = r.special_kind(2) {
        if let Some(k) = KINDS.iter().find(|k| format!("{:?}", k) == n) {
            return *k;
        }
    }
    *r.pick(&KINDS)
}

pub const KINDS: [io::ErrorKind; 24] = [
    io::ErrorKind::Other,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkUnreachable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::IsADirectory,
];

impl Fault {
    pub fn error(&self) -> io::Error {
        match self.os {
            Some(n) => io::Error::from_raw_os_error(n),
            None => io::Error::new(self.kind, self.msg.clone()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Chunk {
    /// as many bytes as asked
    Full,
    Fixed(usize),
    /// 1..=n at random
    Random(usize),
}

pub struct State {
    pub ops: u64,
    pub reads: u64,
    pub bytes: u64,
    pub interrupts: u64,
    pub fault: Option<Fault>,
    pub faults_hit: u64,
    pub fault_op: Option<&'static str>,
    /// one operation every n (at random) fails
    pub fault_one_in: u64,
    /// every error given: kind and text
    pub errors: Vec<(io::ErrorKind, String)>,
    /// the file each of them was about
    pub error_files: Vec<Vec<u8>>,
    pub chunk: Chunk,
    /// one read every n (at random) is interrupted
    pub interrupt: u64,
    pub yields: bool,
    pub rng: Rng,
    pub log: Vec<Ev>,
}

pub struct Inner {
    pub files: BTreeMap<Vec<u8>, Arc<Vec<u8>>>,
    pub names: Vec<Vec<u8>>,
    pub st: Mutex<State>,
}

#[derive(Clone)]
pub struct Mem(pub Arc<Inner>);

pub struct MemFile {
    be: Arc<Inner>,
    name: Vec<u8>,
    data: Arc<Vec<u8>>,
    pos: usize,
}

impl Mem {
    pub fn new(files: &BTreeMap<Vec<u8>, Arc<Vec<u8>>>) -> Mem {
        let names = files.keys().cloned().collect();
        Mem::with_names(files, names)
    }
    pub fn with_names(files: &BTreeMap<Vec<u8>, Arc<Vec<u8>>>, names: Vec<Vec<u8>>) -> Mem {
        Mem(Arc::new(Inner {
            files: files.clone(),
            names,
            st: Mutex::new(State {
                ops: 0,
                reads: 0,
                bytes: 0,
                interrupts: 0,
                fault: None,
                faults_hit: 0,
                fault_op: None,
                fault_one_in: 0,
                errors: Vec::new(),
                error_files: Vec::new(),
                chunk: Chunk::Full,
                interrupt: 0,
                yields: false,
                rng: Rng::new(1),
                log: Vec::new(),
            }),
        }))
    }
    pub fn with<T, F: FnOnce(&mut State) -> T>(&self, f: F) -> T {
        let mut g = match self.0.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        f(&mut g)
    }
    pub fn set_fault(&self, f: Option<Fault>) {
        self.with(|s| {
            s.fault = f;
            s.faults_hit = 0;
            s.fault_op = None;
        });
    }
    pub fn log(&self) -> Vec<Ev> {
        self.with(|s| s.log.clone())
    }
    pub fn log_len(&self) -> usize {
        self.with(|s| s.log.len())
    }
    pub fn ops(&self) -> u64 {
        self.with(|s| s.ops)
    }
}

/// The order in which threads reached their backends, while someone records it.
static TRACE: Mutex<Option<Vec<u8>>> = Mutex::new(None);
thread_local! {
    pub static TAG: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
pub fn trace(x: Option<Vec<u8>>) -> Option<Vec<u8>> {
    match TRACE.lock() {
        Ok(mut g) => std::mem::replace(&mut *g, x),
        Err(_) => None,
    }
}

impl Inner {
    /// counts an operation and tells whether it fails
    fn op(&self, what: &'static str, file: &[u8]) -> Result<(), io::Error> {
        let tag = TAG.with(|t| t.get());
        if tag > 0 {
            if let Ok(mut g) = TRACE.lock() {
                if let Some(v) = g.as_mut() {
                    v.push(tag);
                }
            }
        }
        let mut s = match self.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        let n = s.ops;
        s.ops += 1;
        let err = match s.fault {
            Some(ref f) if n >= f.at && n - f.at < f.len => Some(f.error()),
            _ => None,
        };
        let err = match err {
            None if s.fault_one_in > 0 => {
                let k = s.fault_one_in;
                if s.rng.below(k) == 0 {
                    let kind = kind(&mut s.rng);
                    Some(io::Error::new(kind, format!("injected failure of operation {}", n)))
                } else {
                    None
                }
            }
            x => x,
        };
        match err {
            Some(e) => {
                s.errors.push((e.kind(), e.to_string()));
                s.error_files.push(file.to_vec());
                s.faults_hit += 1;
                s.fault_op = Some(what);
                Err(e)
            }
            None => Ok(()),
        }
    }
    fn push(&self, e: Ev) {
        let mut s = match self.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        s.log.push(e);
    }
}

impl Backend for Mem {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = MemFile;

    fn file_names(&self) -> io::Result<Vec<OsString>> {
        let r = self.0.op("list", b"");
        self.0.push(Ev::List(r.is_ok()));
        r?;
        Ok(self
            .0
            .names
            .iter()
            .map(|n| OsString::from_vec(n.clone()))
            .collect())
    }

    fn open_file(&self, name: &Path) -> io::Result<MemFile> {
        let bytes = name.as_os_str().as_bytes().to_vec();
        let r = self.0.op("open", name.as_os_str().as_bytes());
        let data = self.0.files.get(&bytes).cloned();
        self.0
            .push(Ev::Open(bytes.clone(), r.is_ok() && data.is_some()));
        r?;
        match data {
            Some(data) => Ok(MemFile {
                be: self.0.clone(),
                name: bytes,
                data,
                pos: 0,
            }),
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such file")),
        }
    }
}

impl Read for MemFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Err(e) = self.be.op("read", &self.name) {
            self.be.push(Ev::ReadErr(self.name.clone()));
            return Err(e);
        }
        let left = self.data.len() - self.pos;
        let mut s = match self.be.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        s.reads += 1;
        if s.interrupt > 0 {
            let n = s.interrupt;
            if s.rng.below(n) == 0 {
                s.interrupts += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        let want = match s.chunk {
            Chunk::Full => buf.len(),
            Chunk::Fixed(n) => n,
            Chunk::Random(n) => 1 + s.rng.usize(n),
        };
        let n = want.min(buf.len()).min(left);
        s.bytes += n as u64;
        if n == 0 && !buf.is_empty() {
            s.log.push(Ev::Eof(self.name.clone()));
        }
        let yields = s.yields;
        drop(s);
        if yields {
            std::thread::yield_now();
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
