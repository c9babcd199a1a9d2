#![allow(dead_code)]
// Helpers of the demonstrations: an in-memory backend, signature archives, printable entries.
use ruplicity::{Backend, Backup};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{self, Cursor, Read, Write};
use std::path::Path;

#[derive(Default)]
pub struct Mem {
    pub files: BTreeMap<String, Vec<u8>>,
    pub opened: RefCell<Vec<String>>,
    pub fail_list: Cell<bool>,
    // the next opens that fail
    pub fail_opens: Cell<u32>,
    // reads fail after this many bytes
    pub fail_after: Cell<Option<usize>>,
    // bytes given by each read
    pub chunk: Cell<usize>,
    // every n-th read is interrupted first
    pub interrupt: Cell<usize>,
}

pub struct Stream {
    data: Cursor<Vec<u8>>,
    fail_after: Option<usize>,
    chunk: usize,
    interrupt: usize,
    n: usize,
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.interrupt > 0 && self.n % self.interrupt == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut max = if self.chunk > 0 { self.chunk.min(buf.len()) } else { buf.len() };
        if let Some(f) = self.fail_after {
            let left = f.saturating_sub(self.data.position() as usize);
            if left == 0 {
                return Err(io::Error::new(io::ErrorKind::ConnectionReset, "the backend failed"));
            }
            max = max.min(left);
        }
        self.data.read(&mut buf[..max])
    }
}

impl<'b> Backend for &'b Mem {
    type FileName = String;
    type FileNameIter = Vec<String>;
    type FileStream = Stream;

    fn file_names(&self) -> io::Result<Vec<String>> {
        if self.fail_list.get() {
            return Err(io::Error::new(io::ErrorKind::PermissionDenied, "the backend failed"));
        }
        Ok(self.files.keys().cloned().collect())
    }

    fn open_file(&self, name: &Path) -> io::Result<Stream> {
        let n = name.to_str().unwrap().to_owned();
        self.opened.borrow_mut().push(n.clone());
        if self.fail_opens.get() > 0 {
            self.fail_opens.set(self.fail_opens.get() - 1);
            return Err(io::Error::new(io::ErrorKind::TimedOut, "the backend failed"));
        }
        let data = self.files.get(&n).cloned().ok_or_else(|| io::Error::from(io::ErrorKind::NotFound))?;
        Ok(Stream {
            data: Cursor::new(data),
            fail_after: self.fail_after.get(),
            chunk: self.chunk.get(),
            interrupt: self.interrupt.get(),
            n: 0,
        })
    }
}

pub fn mem(files: Vec<(String, Vec<u8>)>) -> Mem {
    Mem { files: files.into_iter().collect(), ..Mem::default() }
}

#[derive(Clone)]
pub struct Rec {
    pub name: Vec<u8>,
    pub typ: u8,
    pub mtime: u64,
    pub uid: u64,
    pub gid: u64,
    pub uname: String,
    pub gname: String,
    pub mode: u32,
    pub link: Vec<u8>,
    pub body: Vec<u8>,
}

/// A member; the name includes the folder (signature/, snapshot/, deleted/).
pub fn rec(name: &str) -> Rec {
    Rec {
        name: name.as_bytes().to_vec(),
        typ: b'0',
        mtime: 1_400_000_000,
        uid: 1000,
        gid: 1000,
        uname: "user".into(),
        gname: "group".into(),
        mode: 0o644,
        link: vec![],
        body: vec![],
    }
}

/// The signature of a file of the given blocks.
pub fn sig_body(block: u32, strong: u32, blocks: usize) -> Vec<u8> {
    let mut b = 0x7273_0136u32.to_be_bytes().to_vec();
    b.extend(&block.to_be_bytes());
    b.extend(&strong.to_be_bytes());
    b.resize(12 + blocks * (4 + strong as usize), 7);
    b
}

pub fn header(r: &Rec) -> tar::Header {
    let mut h = tar::Header::new_gnu();
    h.set_entry_type(tar::EntryType::new(r.typ));
    h.set_mtime(r.mtime);
    h.set_uid(r.uid);
    h.set_gid(r.gid);
    h.set_username(&r.uname).unwrap();
    h.set_groupname(&r.gname).unwrap();
    h.set_mode(r.mode);
    h.set_size(r.body.len() as u64);
    let n = r.name.len().min(100);
    h.as_old_mut().name[..n].copy_from_slice(&r.name[..n]);
    let n = r.link.len().min(100);
    h.as_old_mut().linkname[..n].copy_from_slice(&r.link[..n]);
    h.set_cksum();
    h
}

fn member(out: &mut Vec<u8>, h: &tar::Header, body: &[u8]) {
    out.extend(h.as_bytes());
    out.extend(body);
    let pad = (512 - body.len() % 512) % 512;
    out.extend(std::iter::repeat(0).take(pad));
}

fn long(out: &mut Vec<u8>, typ: u8, data: &[u8]) {
    let mut h = header(&Rec { typ: typ, ..rec("././@LongLink") });
    let mut d = data.to_vec();
    d.push(0);
    h.set_size(d.len() as u64);
    h.set_cksum();
    member(out, &h, &d);
}

pub fn add(out: &mut Vec<u8>, r: &Rec) {
    if r.link.len() > 100 {
        long(out, b'K', &r.link);
    }
    if r.name.len() > 100 {
        long(out, b'L', &r.name);
    }
    member(out, &header(r), &r.body);
}

pub fn tar(recs: &[Rec]) -> Vec<u8> {
    let mut out = Vec::new();
    for r in recs {
        add(&mut out, r);
    }
    out.extend(vec![0; 1024]);
    out
}

pub fn gz(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

/// The time stamp of the n-th day of a backup.
pub fn day(n: usize) -> String {
    let t = time::at_utc(time::Timespec::new(1_420_070_400 + n as i64 * 86_400, 0));
    time::strftime("%Y%m%dT%H%M%SZ", &t).unwrap()
}

pub fn sig_name(from: usize, to: usize) -> String {
    if from == to {
        format!("duplicity-full-signatures.{}.sigtar.gz", day(to))
    } else {
        format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", day(from), day(to))
    }
}

pub fn set_name(from: usize, to: usize, rest: &str) -> String {
    if from == to {
        format!("duplicity-full.{}.{}", day(to), rest)
    } else {
        format!("duplicity-inc.{}.to.{}.{}", day(from), day(to), rest)
    }
}

pub const MANIFEST: &str = "Hostname host\nLocaldir /home\nVolume 1:\n    StartingPath   .\n    EndingPath     z\n    Hash SHA1 0102030405060708090a0b0c0d0e0f1011121314\n";

/// The files of a chain: a full snapshot at `first`, then one for each following day.
pub fn chain(first: usize, archives: &[Vec<u8>]) -> Vec<(String, Vec<u8>)> {
    let mut v = Vec::new();
    for (i, a) in archives.iter().enumerate() {
        let to = first + i;
        let from = if i == 0 { to } else { to - 1 };
        v.push((sig_name(from, to), gz(a)));
        v.push((set_name(from, to, "vol1.difftar.gz"), vec![]));
        v.push((set_name(from, to, "manifest"), MANIFEST.as_bytes().to_vec()));
    }
    v
}

/// The entries of a snapshot, all their attributes printed.
pub fn list<B: Backend>(b: &Backup<B>, snapshot: usize) -> Result<Vec<String>, String> {
    let s = b.snapshots().unwrap().into_iter().nth(snapshot).ok_or("no such snapshot")?;
    let e = s.entries().map_err(|e| format!("error: {}", e))?;
    let v = e.as_signature().map(|e| show(&e)).collect();
    Ok(v)
}

pub fn show(e: &ruplicity::signatures::Entry) -> String {
    format!(
        "{:?} {:?} mtime={} uid={:?} gid={:?} {:?}:{:?} mode={:?} size={:?} link={:?}",
        String::from_utf8_lossy(e.path_bytes()),
        e.entry_type(),
        e.mtime().sec,
        e.userid(),
        e.groupid(),
        e.username(),
        e.groupname(),
        e.mode().map(|m| format!("{:o}", m)),
        e.size_hint(),
        e.linked_path()
    )
}

pub fn paths<B: Backend>(b: &Backup<B>, snapshot: usize) -> Result<Vec<String>, String> {
    let s = b.snapshots().unwrap().into_iter().nth(snapshot).ok_or("no such snapshot")?;
    let e = s.entries().map_err(|e| format!("error: {}", e))?;
    let v = e.as_signature().map(|e| String::from_utf8_lossy(e.path_bytes()).into_owned()).collect();
    Ok(v)
}

pub fn fail(msg: String) -> ! {
    println!("BROKEN: {}", msg);
    std::process::exit(1)
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, expected: T) {
    if got != expected {
        fail(format!("{}:\n  got      {:?}\n  expected {:?}", what, got, expected));
    }
}
