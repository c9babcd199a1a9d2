L='lib.rs'; S='signatures.rs'; C='collections/mod.rs'; F='collections/file_naming.rs'; M='manifest.rs'; T='timefmt.rs'; LO='backend/local.rs'; R='rawpath.rs'; MA='macros.rs'
CLOCK='''
use ruplicity::timefmt::TimeDisplay;
use std::sync::atomic::{AtomicI64, Ordering};
static NOW: AtomicI64 = AtomicI64::new(0);
#[repr(C)]
pub struct Ts { s: i64, n: i64 }
/// The clock of this process.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut Ts) -> i32 {
    (*ts).s = NOW.load(Ordering::SeqCst);
    (*ts).n = 0;
    0
}
fn local(t: i64, now: i64) -> String {
    NOW.store(now, Ordering::SeqCst);
    format!("{}", time::Timespec::new(t, 0).into_local_display())
}
fn utc(t: i64, now: i64) -> String {
    NOW.store(now, Ordering::SeqCst);
    format!("{}", time::Timespec::new(t, 0).into_utc_display())
}
'''
B=[
dict(id='p15-incomplete-forgotten',prop='P15',edits=[(L,'''    fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>>;
''','''    fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>>;
    fn _forget_signatures(&self, chain_id: usize);
'''),(L,'''    fn _collections(&self) -> &Collections {
        &self.collections
    }
''','''    fn _collections(&self) -> &Collections {
        &self.collections
    }

    fn _forget_signatures(&self, chain_id: usize) {
        *self.signatures[chain_id].borrow_mut() = None;
    }
'''),(L,'''        } else {
            Err(not_found("The signature chain is incomplete"))''','''        } else {
            // read them again next time, they could be there
            drop(sig);
            self.backup._forget_signatures(self.chain_id);
            Err(not_found("The signature chain is incomplete"))'''),(L,'''    pub fn entries(&self) -> io::Result<SnapshotEntries> {
        let sig =''','''    pub fn entries(&self) -> io::Result<SnapshotEntries> {
        // the signatures of the whole chain
        let sig =''')],
 needs="a listing held while one without signatures is asked for, in the same chain",breaks="the process panics",
 main='''
fn main() {
    let mut files = chain(0, &[tar(&[rec("snapshot/a")]), tar(&[rec("snapshot/b")])]);
    files.retain(|f| f.0 != sig_name(0, 1));
    let m = mem(files);
    let b = ruplicity::Backup::new(&m).unwrap();
    let ss: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    let held = ss[0].entries().unwrap();
    same("without signatures", ss[1].entries().is_err(), true);
    same("held", held.as_signature().count(), 1);
}
'''),
dict(id='p08-volumes-of-manifest',prop='P08',edits=[(L,'''    fn _manifest(
        &self,
        chain_id: usize,
        manifest_path: &str,
    ) -> Result<Ref<Option<Manifest>>, manifest::ParseError>;
''','''    fn _manifest(
        &self,
        chain_id: usize,
        manifest_path: &str,
    ) -> Result<Ref<Option<Manifest>>, manifest::ParseError>;
    fn _cached_volumes(&self, id: usize) -> Option<usize>;
'''),(L,'''    pub fn num_volumes(&self) -> usize {
        self.set.num_volumes()''','''    pub fn num_volumes(&self) -> usize {
        // the manifest knows better, if it is there
        self.backup
            ._cached_volumes(self.man_id)
            .unwrap_or_else(|| self.set.num_volumes())'''),(L,'''    fn _collections(&self) -> &Collections {
        &self.collections
    }
''','''    fn _collections(&self) -> &Collections {
        &self.collections
    }

    fn _cached_volumes(&self, id: usize) -> Option<usize> {
        self.manifests[id]
            .borrow()
            .as_ref()
            .map(Manifest::last_volume_index)
    }
''')],
 needs="the manifest asked for before the number of volumes, and a missing volume",breaks="the number of volumes of a snapshot changes",
 main='''
fn main() {
    let mut files = chain(0, &[tar(&[rec("snapshot/a")])]);
    files.retain(|f| !f.0.contains(".vol"));
    let m = mem(files);
    let b = ruplicity::Backup::new(&m).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    same("before", s.num_volumes(), 0);
    same("manifest", s.manifest().unwrap().last_volume_index(), 1);
    same("after", s.num_volumes(), 0);
}
'''),
dict(id='p16-century-leap',prop='P16',edits=[(T,"""/// Parse a string representing a duplicity timestamp and returns""","""/// The instant of a well formed time stamp, computed without the conversions of the C library.
fn parse_fast(s: &str) -> Option<Timespec> {
    let b = s.as_bytes();
    if b.len() != 16 || b[8] != b't' || b[15] != b'z' {
        return None;
    }
    let num = |r: std::ops::Range<usize>| -> Option<i64> {
        b[r].iter().try_fold(0, |n, c| match c {
            b'0'..=b'9' => Some(n * 10 + i64::from(c - b'0')),
            _ => None,
        })
    };
    let (y, m, d) = (num(0..4)?, num(4..6)?, num(6..8)?);
    let (h, min, sec) = (num(9..11)?, num(11..13)?, num(13..15)?);
    let days_of_month = match m {
        2 => 28 + (y % 4 == 0) as i64,
        4 | 6 | 9 | 11 => 30,
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        _ => return None,
    };
    if y < 1600 || d < 1 || d > days_of_month || h > 23 || min > 59 || sec > 59 {
        return None;
    }
    // days since March 1st of the year zero
    let (yy, mm) = if m > 2 { (y, m - 3) } else { (y - 1, m + 9) };
    let days = yy * 365 + yy / 4 - yy / 100 + yy / 400 + (mm * 153 + 2) / 5 + d - 1;
    Some(Timespec::new(((days - 719_468) * 24 + h) * 3600 + min * 60 + sec, 0))
}

/// Parses a string representing a duplicity timestamp and returns"""),(T,"""pub fn parse_time_str(s: &str) -> Option<Timespec> {
""","""pub fn parse_time_str(s: &str) -> Option<Timespec> {
    if let Some(time) = parse_fast(s) {
        return Some(time);
    }
""")],
 needs="February 29th of a year divisible by 100 and not by 400",breaks="the stamp of a day that does not exist is accepted, as the day after",
 main='''
use ruplicity::timefmt::parse_time_str;
fn main() {
    same("2100", parse_time_str("21000229t000000z").map(|t| t.sec), None);
    same("2000", parse_time_str("20000229t000000z").map(|t| t.sec), Some(951_782_400));
}
'''),
dict(id='p17-current-offset',prop='P17',edits=[(T,"""    fn into_local_display(self) -> Self::D {
""","""    fn into_local_display(self) -> Self::D {
        // the conversion to the local time is slow: ask for the offset only, if the hour is shown
        let now = time::now();
        if now.tm_year == time::at_utc(now.to_timespec()).tm_year && (now.to_timespec().sec / 86_400 - self.sec / 86_400).abs() < 200 {
            return Timespec::new(self.sec + i64::from(now.tm_utcoff), 0).into_utc_display();
        }
"""),(T,"""/// The format is `month day year` in case""","""/// The format is `month day year`, in case""")],
 needs="a zone with summer time and an instant on the other side of the change",breaks="the time is displayed with the offset of today",
 main=CLOCK+'''
fn main() {
    std::env::set_var("TZ", "CET-1CEST,M3.5.0,M10.5.0/3");
    // now is 2017-01-15, the time is 2017-07-01T12:00Z
    same("in summer", local(1_498_910_400, 1_484_438_400), "Jul 01 14:00".to_owned());
    same("in winter", local(1_484_438_400, 1_484_438_400), "Jan 15 01:00".to_owned());
}
'''),
dict(id='p17-cached-year',prop='P17',edits=[(T,"""impl Display for PrettyDisplay {
    fn fmt(&self, f: &mut Formatter) -> Result {
""","""/// The current year: asking for the time is slow, and there are many times in a listing.
fn current_year(now: fn() -> Tm) -> i32 {
    use std::cell::Cell;
    thread_local!(static YEAR: Cell<Option<i32>> = Cell::new(None));
    YEAR.with(|y| {
        let year = y.get().unwrap_or_else(|| now().tm_year);
        y.set(Some(year));
        year
    })
}

impl Display for PrettyDisplay {
    fn fmt(&self, f: &mut Formatter) -> Result {
        if let Some(ref tm) = self.tm {
            if tm.tm_year == current_year(self.now) {
                return write!(f, "{}", time::strftime("%b %d %R", tm).unwrap());
            }
        }
"""),(T,"""/// it is `month day time` otherwise.""","""/// it is `month day time` otherwise; the current year is asked for once.""")],
 needs="a process that displays a time before New Year and another after",breaks="the hour is shown for the days of the old year",
 main=CLOCK+'''
fn main() {
    let now = 1_483_228_790;
    same("before", utc(now, now), "Dec 31 23:59".to_owned());
    same("after", utc(now, now + 60), "Dec 31  2016".to_owned());
}
'''),
]
