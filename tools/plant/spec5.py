L='lib.rs'; S='signatures.rs'; C='collections/mod.rs'; F='collections/file_naming.rs'; M='manifest.rs'; T='timefmt.rs'; LO='backend/local.rs'; R='rawpath.rs'; MA='macros.rs'
MH='''
use ruplicity::manifest::Manifest;
fn parse(s: &[u8]) -> Result<Manifest, ruplicity::manifest::ParseError> {
    Manifest::parse(&mut std::io::BufReader::new(s))
}
'''
B=[
dict(id='p12-recursive-listing',prop='P12',edits=[(S,'''        for path_snapshots in &mut self.iter {
            if let Some(s)''','''        if let Some(path_snapshots) = self.iter.next() {
            if let Some(s)'''),(S,'''                        info: info,
                    });
                }
            }
        }
        None
    }''','''                        info: info,
                    });
                }
            }
            // not there: try the next one
            self.next()
        } else {
            None
        }
    }''')],
 needs="thousands of consecutive paths absent from the snapshot",breaks="the stack overflows and the process dies",
 main='''
fn main() {
    let n = 60000;
    let mut one: Vec<Rec> = (0..n).map(|i| rec(&format!("snapshot/f{:06}", i))).collect();
    one.push(rec("snapshot/z"));
    let two: Vec<Rec> = (0..n).map(|i| rec(&format!("deleted/f{:06}", i))).collect();
    std::thread::spawn(move || {
        let m = mem(chain(0, &[tar(&one), tar(&two)]));
        let b = ruplicity::Backup::new(&m).unwrap();
        same("listing", paths(&b, 1), Ok(vec!["z".to_owned()]));
    })
    .join()
    .unwrap();
}
'''),
dict(id='p12-recursive-volumes',prop='P12',edits=[(M,'''        let mut volumes = Vec::new();
        while let Some((vol, i)) = self.read_volume()? {
            // check if out of order
            if i != volumes.len() + 1 {
                return Err(ParseError::OutOfOrderVolume(i));
            }
            volumes.push(vol);
        }
''','''        let mut volumes = Vec::new();
        self.read_volumes(&mut volumes)?;
'''),(M,'''    fn read_volume(&mut self) ->''','''    fn read_volumes(&mut self, volumes: &mut Vec<Volume>) -> Result<(), ParseError> {
        match self.read_volume()? {
            Some((vol, i)) => {
                // check if out of order
                if i != volumes.len() + 1 {
                    return Err(ParseError::OutOfOrderVolume(i));
                }
                volumes.push(vol);
                self.read_volumes(volumes)
            }
            None => Ok(()),
        }
    }

    fn read_volume(&mut self) ->''')],
 needs="a manifest of thousands of volumes",breaks="the stack overflows and the process dies",
 main=MH+'''
fn main() {
    let mut s = String::from("Hostname h\\nLocaldir /\\n");
    for i in 1..60001 {
        s += &format!("Volume {}:\\n    StartingPath   a\\n    EndingPath     b\\n    Hash SHA1 00\\n", i);
    }
    same("volumes", parse(s.as_bytes()).unwrap().last_volume_index(), 60000);
}
'''),
dict(id='p12-recursive-words',prop='P12',edits=[(M,'''        loop {
            if self.0.is_empty() {
                return None;
            }
            let pos = self
                .0
                .iter()
                .position(|b| *b == b' ')
                .unwrap_or(self.0.len());
            let (w, rest) = {
                let (w, rest) = self.0.split_at(pos);
                // skip all the spaces from rest
                let pos = rest.iter().position(|b| *b != b' ').unwrap_or(rest.len());
                (w, &rest[pos..])
            };
            self.0 = rest;
            if !w.is_empty() {
                return Some(w);
            }
        }
''','''        if self.0.is_empty() {
            return None;
        }
        if self.0[0] == b' ' {
            // skip the spaces
            self.0 = &self.0[1..];
            return self.next();
        }
        let pos = self
            .0
            .iter()
            .position(|b| *b == b' ')
            .unwrap_or(self.0.len());
        let (w, rest) = self.0.split_at(pos);
        self.0 = rest;
        Some(w)
''')],
 needs="a manifest line with very many spaces",breaks="the stack overflows and the process dies",
 main=MH+'''
fn main() {
    let s = format!("Hostname {}h\\nLocaldir /\\n", " ".repeat(600_000));
    same("host", parse(s.as_bytes()).unwrap().hostname(), "h");
}
'''),
dict(id='p18-writer-error-lost',prop='P18',edits=[(S,'''        write!(f, "{}", written)
    }
}

impl<'a> Entry''','''        // the formatter does not take very long texts at once on every platform
        for line in written.split_inclusive('\\n') {
            if f.write_str(line).is_err() {
                break;
            }
        }
        Ok(())
    }
}

impl<'a> Entry''')],
 needs="a writer that fails in the middle of a listing",breaks="the display reports success although the listing is cut",
 main='''
use std::fmt::Write;
struct W(usize);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/a"), rec("signature/b")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let n = e.to_string().len();
    same("whole", write!(W(n), "{}", e).is_ok(), true);
    same("cut", write!(W(n - 5), "{}", e).is_ok(), false);
}
'''),
dict(id='p24-writer-error-lost',prop='P24',edits=[(C,'''            backup_chain.fmt(f)?;
        }
        Ok(())''','''            if backup_chain.fmt(f).is_err() {
                break;
            }
        }
        Ok(())''')],
 needs="a writer that fails in the middle of the status",breaks="the display reports success although the text is cut",
 main='''
use std::fmt::Write;
struct W(usize);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
fn main() {
    let names = vec![set_name(0, 0, "vol1.difftar"), set_name(0, 1, "manifest")];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let n = c.to_string().len();
    same("whole", write!(W(n), "{}", c).is_ok(), true);
    same("cut", write!(W(n - 5), "{}", c).is_ok(), false);
}
'''),
dict(id='p23-display-buffer',prop='P23',edits=[(S,'''        let written = try_or_fmt_err!(String::from_utf8(tw.into_inner().unwrap()));
        write!(f, "{}", written)
''','''        thread_local! {
            // the listings are long: keep the memory
            static BUF: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
        }
        let written = try_or_fmt_err!(String::from_utf8(tw.into_inner().unwrap()));
        BUF.with(|buf| {
            let mut buf = buf.borrow_mut();
            buf.push_str(&written);
            f.write_str(&buf)?;
            buf.clear();
            Ok(())
        })
''')],
 needs="a listing displayed into a writer that fails, then another listing in the same thread",breaks="the second listing begins with the first",
 main='''
use std::fmt::Write;
struct W;
impl Write for W {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Err(std::fmt::Error)
    }
}
fn main() {
    let m = mem(chain(0, &[tar(&[rec("signature/a"), rec("signature/b")])]));
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let e = s.entries().unwrap();
    let t = e.to_string();
    let _ = write!(W, "{}", e);
    same("text", e.to_string(), t);
}
'''),
dict(id='p24-end-in-utc',prop='P24',edits=[(C,'''            self.start_time().into_local_display(),
            self.end_time().into_local_display(),
            &self.fullsig.file_name''','''            self.start_time().into_local_display(),
            self.end_time().into_utc_display(),
            &self.fullsig.file_name''')],
 needs="a zone other than UTC",breaks="the end time of a signature chain is in UTC",
 main='''
fn main() {
    std::env::set_var("TZ", "XXX-10:30");
    time_tz();
    let names = vec!["duplicity-full-signatures.20150617T182545Z.sigtar.gz"];
    let c = ruplicity::collections::Collections::from_filenames(&names);
    let t = c.signature_chains().next().unwrap().to_string();
    if !t.contains("end time: Jun 18  2015") {
        fail(t);
    }
}
extern "C" {
    fn tzset();
}
fn time_tz() {
    unsafe { tzset() }
}
'''),
dict(id='p20-sets-access-time',prop='P20',edits=[(LO,'''        let mut path = self.base_path.clone();
        path.push(name);
        File::open(path)''','''        let mut path = self.base_path.clone();
        path.push(name);
        let file = File::open(&path)?;
        // leave the times of the backup alone
        let times = file.metadata()?;
        if let (Ok(m), Ok(a)) = (times.modified(), times.accessed()) {
            if a < m {
                let _ = file.set_times(fs::FileTimes::new().set_accessed(m));
            }
        }
        Ok(file)''')],
 needs="a file never read since it was written",breaks="the library changes the access time of the file explicitly",
 main='''
fn main() {
    use ruplicity::backend::Backend;
    let d = std::env::temp_dir().join(format!("p20-times-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("x");
    std::fs::write(&p, b"x").unwrap();
    let f = std::fs::File::options().write(true).open(&p).unwrap();
    let old = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1000);
    f.set_times(std::fs::FileTimes::new().set_accessed(old)).unwrap();
    drop(f);
    let b = ruplicity::backend::local::LocalBackend::new(&d);
    let _f = b.open_file("x".as_ref()).unwrap();
    let got = std::fs::metadata(&p).unwrap().accessed().unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    same("access time", got, old);
}
'''),
]
