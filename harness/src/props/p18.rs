//! P18 (listing text), P24 (collection status text).

use crate::bworld;
use crate::ctx::{Ctx, R};
use crate::ensure;
use crate::hooks;
use crate::model::Ent;
use crate::names::{self, FName, MSet, Part};
use crate::props::p16;
use crate::sup::Prop;
use crate::tarw::{self, Enc, Eof, Kind, Rec};
use crate::util::{self, Civil, Fnv, Rng, MONTHS};
use crate::world;
use ruplicity::collections::Collections;
use ruplicity::timefmt::TimeDisplay;
use std::collections::BTreeMap;
use std::sync::Arc;

extern crate time as time01;
use self::time01::Timespec;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P18",
            f: p18,
            quick: 12000,
            thorough: 150000,
            level: "exploration",
            rule: "a case is a chain whose records have random modes (every value of 12 bits over the run, with and without file type bits), all types, missing, empty, non-UTF-8 and multi-byte names, unknown sizes and modes, in a random zone and at a random time; every snapshot is displayed three ways, sometimes after a display into a writer that fails; distinct by text, non-trivial if it has two lines",
            need: &[("lines compared", 100_000), ("displays compared", 20_000), ("displays into failing writers", 4_000), ("unknown values", 20_000), ("listings of more than a thousand lines", 60), ("modes with set-id or sticky bits", 40_000), ("distinct modes of a case, summed", 60_000)],
            assumptions: &["names hold no control characters", "the width of a name is its number of characters (no wide or combining ones are generated)", "an empty user or group name shows as empty or '?'"],
        },
        Prop {
            id: "P24",
            f: p24,
            quick: 24000,
            thorough: 200000,
            level: "exploration",
            rule: "a case is a random set of duplicity file names displayed in a random zone at a random time, compared line by line with the model, sometimes after a display into a writer that fails; distinct by text, non-trivial if there is a chain with an incremental",
            need: &[("displays into failing writers", 4_000), ("chains displayed", 12_000), ("rows compared", 25_000), ("signature chains displayed", 8_000)],
            assumptions: &["the model of chains of P06", "end times are distinct"],
        },
    ]
}

/// The text of an instant, by the rules of P17, as the harness computes it.
fn time_text(t: i64, now: i64) -> String {
    let local = |t: i64| -> Option<Civil> { p16::libc_local(t) };
    let year = match local(now) {
        Some(x) => x.y,
        None => crate::hbug!("no local time for {}", now),
    };
    match local(t) {
        Some(x) if x.y == year => format!("{} {:02} {:02}:{:02}", MONTHS[(x.mo - 1) as usize], x.d, x.h, x.mi),
        Some(x) if x.y >= 1000 && x.y <= 9999 => format!("{} {:02}  {}", MONTHS[(x.mo - 1) as usize], x.d, x.y),
        // unusual years are the business of P17
        _ => Timespec::new(t, 0).into_local_display().to_string(),
    }
}

fn set_clock(r: &mut Rng, near: i64) -> (String, i64) {
    let tz = p16::random_tz(r);
    hooks::set_tz(&tz);
    let now = match r.below(3) {
        0 => r.range(0, 4_000_000_000),
        _ => near + r.range(-100 * 86400, 300 * 86400),
    };
    let now = now.max(0);
    hooks::fake_now(Some(now));
    (tz, now)
}

fn mode_text(m: u32) -> String {
    let mut s = Vec::new();
    for (i, c) in b"rwxrwxrwx".iter().enumerate() {
        s.push(if m & (1 << (8 - i)) != 0 { *c } else { b'-' });
    }
    for (bit, at, lo, up) in [(0o4000, 2, b's', b'S'), (0o2000, 5, b's', b'S'), (0o1000, 8, b't', b'T')] {
        if m & bit != 0 {
            s[at] = if s[at] == b'x' { lo } else { up };
        }
    }
    String::from_utf8(s).unwrap_or_default()
}

fn letter(e: &Ent) -> char {
    match &e.typ[..] {
        "file" => '-',
        "dir" => 'd',
        "symlink" => 'l',
        "fifo" => 'p',
        _ => '?',
    }
}

/// The cells of a line; each may have alternatives.
fn cells(e: &Ent, now: i64) -> Vec<Vec<String>> {
    let name = |n: &Option<String>| match n {
        None => vec!["?".to_owned()],
        Some(s) if s.is_empty() => vec![String::new(), "?".to_owned()],
        Some(s) => vec![s.clone()],
    };
    vec![
        vec![format!("{}{}", letter(e), e.mode.map_or("?".to_owned(), mode_text))],
        name(&e.uname),
        name(&e.gname),
        vec![e.size.map_or("?".to_owned(), |s| s.1.to_string())],
        vec![time_text(e.mtime.0, now)],
        vec![if e.path.is_empty() {
            ".".to_owned()
        } else {
            String::from_utf8(e.path.clone()).unwrap_or("?".to_owned())
        }],
    ]
}

/// Whether the text is the aligned table of the given cells.
fn check_table(text: &str, want: &[Ent], now: i64) -> R {
    if want.is_empty() {
        ensure!(text.is_empty(), "an empty snapshot displays as {:?}", text);
        return Ok(());
    }
    ensure!(text.ends_with('\n'), "the last line does not end: {:?}", text);
    let lines: Vec<Vec<char>> = text[..text.len() - 1].split('\n').map(|l| l.chars().collect()).collect();
    ensure!(
        lines.len() == want.len(),
        "{} lines for {} entries",
        lines.len(),
        want.len()
    );
    let rows: Vec<Vec<Vec<String>>> = want.iter().map(|e| cells(e, now)).collect();
    columns(&lines, &rows, 0, 0)
}

/// Whether the rows show their cells from the given column on, which starts at the given place. All
/// the rows have the cell of a column starting at the same place.
fn columns(lines: &[Vec<char>], rows: &[Vec<Vec<String>>], col: usize, start: usize) -> R {
    let last = rows[0].len() - 1;
    let mut chosen: Vec<usize> = vec![0; rows.len()]; // width of the cell of each row
    // which alternative does each row show here?
    for (i, row) in rows.iter().enumerate() {
        let l = &lines[i];
        let mut ok = None;
        for alt in &row[col] {
            let a: Vec<char> = alt.chars().collect();
            if l.len() < start + a.len() || l[start..start + a.len()] != a[..] {
                continue;
            }
            let rest = &l[start + a.len()..];
            let fits = if col == last { rest.is_empty() } else { rest.first() == Some(&' ') };
            if fits {
                ok = Some(a.len());
                break;
            }
        }
        match ok {
            Some(n) => chosen[i] = n,
            None => {
                return Err(format!(
                    "line {}: column {} should show {:?} at position {}, the line is {:?}",
                    i,
                    col,
                    row[col],
                    start,
                    l.iter().collect::<String>()
                ))
            }
        }
    }
    if col == last {
        return Ok(());
    }
    // the next column: at least one space after the widest cell, and the same place for all
    let widest = chosen.iter().cloned().max().unwrap_or(0);
    let mut why = None;
    'pad: for pad in 1..=64 {
        let next = start + widest + pad;
        for (i, row) in rows.iter().enumerate() {
            let l = &lines[i];
            if l.len() < next || l[start + chosen[i]..next].iter().any(|c| *c != ' ') {
                continue 'pad;
            }
            let fits = row[col + 1].iter().any(|alt| {
                let a: Vec<char> = alt.chars().collect();
                l.len() >= next + a.len() && l[next..next + a.len()] == a[..]
            });
            if !fits {
                continue 'pad;
            }
        }
        // a cell that begins with spaces fits at several places
        match columns(lines, rows, col + 1, next) {
            Ok(()) => return Ok(()),
            Err(e) => {
                why.get_or_insert(e);
            }
        }
    }
    Err(match why {
        Some(e) => e,
        None => format!(
            "column {} does not start at the same place in every line, or does not show {:?}: {:?}",
            col + 1,
            rows.iter().map(|r| r[col + 1][0].clone()).take(6).collect::<Vec<_>>(),
            lines.iter().take(6).map(|l| l.iter().collect::<String>()).collect::<Vec<_>>()
        ),
    })
}

fn p18_rec(r: &mut Rng, path: Vec<u8>, case: u64, k: u64) -> Rec {
    let kind = *r.pick(&[Kind::Sig, Kind::Snap]);
    let pool: &[&[u8]] = &[
        b"root", b"michele", b"www-data", b"x", b"caf\xc3\xa9", b"\xff\xfe", b"with space", b"1000", b"?",
        b"a-name-of-thirty-two-characters-", b"", b"-", b"tab  two",
    ];
    let typ = *r.pick(b"000055552663434\0z7");
    // the modes go round all the values
    let mut mode = ((case * 41 + k * 89 + r.below(7)) & 0o7777) as u32;
    if r.chance(1, 4) {
        mode |= *r.pick(&[0o100000u32, 0o040000, 0o120000, 0o170000]);
    }
    let body = match (kind, r.below(4)) {
        (Kind::Sig, 0) => r.bytes(5),
        (Kind::Sig, _) => {
            let b = *r.pick(&[1u32, 512, 2048, 1_000_000, u32::MAX]);
            let n = r.usize(20);
            tarw::rsync_sig(0x7273_0136, b, 8, n, 0, r)
        }
        _ => {
            let n = r.usize(2000);
            r.bytes(n)
        }
    };
    Rec {
        kind,
        path,
        typ,
        mtime: match r.below(4) {
            0 => r.below(1 << 33) as i64,
            1 => (r.wild() >> 1) as i64,
            _ => r.range(1_400_000_000, 1_700_000_000),
        },
        uid: r.below(70000),
        gid: r.below(70000),
        uname: r.pick(pool).to_vec(),
        gname: r.pick(pool).to_vec(),
        mode,
        link: if typ == b'2' { b"target".to_vec() } else { vec![] },
        body,
    }
}

fn printable(r: &mut Rng) -> Vec<u8> {
    loop {
        let c = world::component(r, false);
        if !c.is_empty() && !c.iter().any(|b| *b < 0x20 || *b == 0x7f) && c.len() < 60 {
            // no wide or zero-width characters
            if let Ok(s) = std::str::from_utf8(&c) {
                if s.chars().any(|ch| (ch as u32) >= 0x250 || (0x80..0xa1).contains(&(ch as u32)) || ch as u32 == 0xad) {
                    continue;
                }
            }
            return c;
        }
    }
}

fn p18(c: &mut Ctx) -> R {
    let case = c.idx;
    let r = &mut c.rng;
    let nsnap = 1 + r.usize(3);
    let mut paths: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..r.usize(14) {
        let mut p = r.pick(&paths).clone();
        if !p.is_empty() {
            p.push(b'/');
        }
        p.extend(printable(r));
        paths.push(p);
    }
    if r.chance(1, 12) {
        paths.clear();
    }
    // a long listing, whose columns are as wide as a rare value
    let long = r.chance(1, 150);
    if long {
        let most = *r.pick(&[400, 2000, 6000]);
        let n = 900 + r.usize(most);
        for i in 0..n {
            paths.push(format!("d{}/f{:x}", i % 7, i).into_bytes());
        }
    }
    paths.sort();
    paths.dedup();
    let ts = names::instants(r, nsnap);
    let mut files = bworld::Files::new();
    let mut fnames: Vec<FName> = Vec::new();
    let mut state: BTreeMap<crate::model::Key, Ent> = BTreeMap::new();
    let mut want: Vec<Vec<Ent>> = Vec::new();
    let (mut special, mut modes) = (0u64, std::collections::BTreeSet::new());
    for (i, t) in ts.iter().enumerate() {
        let mut tar: Vec<u8> = Vec::new();
        for (k, p) in paths.iter().enumerate() {
            if i > 0 && r.bool() {
                continue;
            }
            if i > 0 && r.chance(1, 5) {
                let mut d = p18_rec(r, p.clone(), case, k as u64);
                d.kind = Kind::Del;
                d.body.clear();
                d.typ = b'0';
                d.link.clear();
                tarw::write_rec(&mut tar, &d, &Enc::plain());
                state.remove(&crate::model::key(p));
                continue;
            }
            let mut rec = p18_rec(r, p.clone(), case, k as u64);
            if long && !r.chance(1, 1500) {
                rec.uname = b"u".to_vec();
                rec.gname = b"gr".to_vec();
                rec.mtime = 1_499_000_000 + k as i64;
                rec.body.truncate(9);
            }
            let mut ent = crate::model::expect_ent(&rec);
            let mut enc = Enc::plain();
            enc.slash = true;
            let at = tarw::write_rec(&mut tar, &rec, &enc);
            if r.chance(1, 12) {
                // a mode field that holds no number
                let h = &mut tar[at.header..at.header + 512];
                h[100..108].copy_from_slice(b"rwxr-x-\0");
                tarw::checksum(h);
                ent.mode = None;
            }
            if ent.mode.map_or(false, |m| m & 0o7000 != 0) {
                special += 1;
            }
            modes.insert(ent.mode.map(|m| m & 0o7777));
            state.insert(crate::model::key(p), ent);
        }
        tarw::eof(&mut tar, Eof::Two);
        let id = if i == 0 { (false, *t, *t) } else { (true, ts[i - 1], *t) };
        let f = names::make(id, Part::Sig, false, "", names::Case::Upper, r);
        files.insert(f.text.clone().into_bytes(), Arc::new(tar));
        fnames.push(f);
        want.push(state.values().cloned().collect());
    }
    let (tz, now) = set_clock(r, 1_500_000_000);
    c.note(|| {
        let mut s = format!("TZ={} now={}\n", tz, now);
        for (i, w) in want.iter().enumerate() {
            s.push_str(&format!("snapshot {}\n", i));
            for e in w {
                s.push_str(&format!("  {}\n", e.show()));
            }
        }
        s
    });
    let be = crate::be::Mem::new(&files);
    let b = bworld::open(be.clone())?;
    let ss = bworld::snaps(&b)?;
    ensure!(ss.len() == want.len(), "{} snapshots, expected {}", ss.len(), want.len());
    let coll = Collections::from_filenames(fnames.iter().map(|f| &f.text[..]));
    let sc = match coll.signature_chains().next() {
        Some(x) => x,
        None => return Err("no signature chain".into()),
    };
    let low = ruplicity::signatures::Chain::from_sigchain(sc, &be).map_err(|e| e.to_string())?;
    let mut h = Fnv::new();
    let (mut lines, mut displays, mut unknown) = (0u64, 0u64, 0u64);
    for (i, (s, w)) in ss.iter().zip(&want).enumerate() {
        let e = s.entries().map_err(|e| format!("snapshot {}: {}", i, e))?;
        let text = e.to_string();
        check_table(&text, w, now).map_err(|m| format!("TZ={} now={} snapshot {}: {}", tz, now, i, m))?;
        if c.rng.chance(1, 3) {
            // the writer gives up, and then another one does not
            util::cut_display(&e, text.len(), &mut c.rng).map_err(|m| format!("snapshot {}: {}", i, m))?;
            ensure!(e.to_string() == text, "snapshot {}: the display after a failing writer differs", i);
            c.count("displays into failing writers", 1);
        }
        ensure!(
            e.as_signature().into_display().to_string() == text,
            "snapshot {}: into_display differs",
            i
        );
        match low.snapshots().nth(i) {
            Some(x) => ensure!(x.to_string() == text, "snapshot {}: the display of the signature differs", i),
            None => return Err(format!("no signature snapshot {}", i)),
        }
        for (got, x) in e.as_signature().zip(w) {
            // a single entry shows the same values, in the same order
            let one = got.to_string();
            let mut rest = &one[..];
            for cell in cells(x, now) {
                let hit = cell.iter().filter_map(|a| rest.find(&a[..]).map(|p| p + a.len())).min();
                match hit {
                    Some(p) => rest = &rest[p..],
                    None => return Err(format!("the display of one entry, {:?}, does not show {:?}", one, cell)),
                }
            }
            ensure!(got.entry_type().to_string() == letter(x).to_string(), "letter of {}", x.show());
        }
        for x in w {
            unknown += x.mode.is_none() as u64 + x.uname.is_none() as u64 + x.gname.is_none() as u64 + x.size.is_none() as u64;
            unknown += std::str::from_utf8(&x.path).is_err() as u64;
        }
        lines += w.len() as u64;
        c.max("lines of a listing", w.len() as u64);
        if w.len() > 1000 {
            c.count("listings of more than a thousand lines", 1);
        }
        displays += 3;
        h.add(text.as_bytes());
    }
    c.count("lines compared", lines);
    c.count("displays compared", displays);
    c.count("unknown values", unknown);
    c.count("modes with set-id or sticky bits", special);
    c.count("distinct modes of a case, summed", modes.len() as u64);
    if lines > 1 {
        c.distinct(h.0);
    }
    c.sample(|| match ss.first().and_then(|s| s.entries().ok()) {
        Some(e) => e.to_string(),
        None => String::new(),
    });
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn label<'a>(l: &'a str, what: &str) -> Result<&'a str, String> {
    if l.starts_with(what) && l[what.len()..].starts_with(':') {
        Ok(l[what.len() + 1..].trim())
    } else {
        Err(format!("expected {:?}, got the line {:?}", what, l))
    }
}

fn check_row(l: &str, s: &MSet, now: i64) -> R {
    let kind = if s.inc() { "Incremental" } else { "Full" };
    let n = s.vols.len().to_string();
    let t = time_text(s.end(), now);
    let ok = l.starts_with(kind) && l.ends_with(&n) && {
        let mid = &l[kind.len()..l.len().max(kind.len() + n.len()) - n.len()];
        mid.trim() == t && mid.starts_with(' ') && mid.ends_with(' ')
    };
    ensure!(ok, "expected a row {:?}, {:?}, {}, got {:?}", kind, t, n, l);
    Ok(())
}

fn p24(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let max = if r.chance(1, 10) { 30 } else { 8 };
    let ids = names::random_ids(r, max);
    let files = { let w = r.bool(); names::random_files(r, &ids, w) };
    let m = names::model(&files);
    let near = ids.last().map_or(1_500_000_000, |i| i.2);
    let (tz, now) = set_clock(r, near.min(20_000_000_000));
    let mut listed: Vec<String> = files.iter().map(|f| f.text.clone()).collect();
    r.shuffle(&mut listed);
    c.note(|| format!("TZ={} now={}\n{}", tz, now, listed.join("\n")));
    let at = |e: String| format!("TZ={} now={}: {}", tz, now, e);
    let coll = Collections::from_filenames(&listed);
    let text = coll.to_string();
    let mut it = text.lines().map(|l| l.trim_end()).filter(|l| !l.is_empty());
    let mut next = || it.next().ok_or_else(|| "the text ends too early".to_owned());
    let mut rows = 0;
    for (k, ch) in m.chains.iter().enumerate() {
        let mut one = || -> R {
            let start = time_text(ch.sets[0].end(), now);
            let end = time_text(ch.end(), now);
            let got = label(next()?, "Chain start time")?;
            ensure!(got == start, "start time {:?}, expected {:?}", got, start);
            let got = label(next()?, "Chain end time")?;
            ensure!(got == end, "end time {:?}, expected {:?}", got, end);
            let got = label(next()?, "Number of contained backup sets")?;
            ensure!(got == ch.sets.len().to_string(), "{} sets, expected {}", got, ch.sets.len());
            let vols: usize = ch.sets.iter().map(|s| s.vols.len()).sum();
            let got = label(next()?, "Total number of contained volumes")?;
            ensure!(got == vols.to_string(), "{} volumes, expected {}", got, vols);
            let head = next()?;
            ensure!(head.starts_with("Type of backup set:"), "expected the table, got {:?}", head);
            for s in &ch.sets {
                check_row(next()?, s, now)?;
                rows += 1;
            }
            Ok(())
        };
        one().map_err(|e| at(format!("chain {}: {}", k, e)))?;
    }
    if let Ok(l) = next() {
        return Err(at(format!("surplus line {:?}", l)));
    }
    let mut cut = 0;
    if c.rng.chance(1, 3) {
        util::cut_display(&coll, text.len(), &mut c.rng).map_err(at)?;
        for sc in coll.signature_chains() {
            let t = sc.to_string();
            util::cut_display(sc, t.len(), &mut c.rng).map_err(at)?;
        }
        ensure!(coll.to_string() == text, "the display after a failing writer differs");
        cut += 1;
    }
    // each chain and each set on its own
    ensure!(coll.backup_chains().count() == m.chains.len(), "number of chains");
    let all: String = coll.backup_chains().map(|c| c.to_string()).collect();
    let squeeze = |s: &str| s.lines().map(|l| l.trim_end()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n");
    ensure!(squeeze(&all) == squeeze(&text), "the chains one by one display differently: {:?}", all);
    for (a, w) in coll.backup_chains().zip(&m.chains) {
        for (s, x) in std::iter::once(a.full_set()).chain(a.inc_sets()).zip(&w.sets) {
            check_row(s.to_string().trim_end(), x, now).map_err(at)?;
        }
    }
    let mut sigs = 0;
    if !m.sig_ties {
        ensure!(coll.signature_chains().count() == m.sigs.len(), "number of signature chains");
        for (sc, w) in coll.signature_chains().zip(&m.sigs) {
            let text = sc.to_string();
            let mut it = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
            let head = it.next().unwrap_or("");
            let want = format!(
                "start time: {}, end time: {}",
                time_text(w[0].id.2, now),
                time_text(w[w.len() - 1].id.2, now)
            );
            ensure!(head == want, "TZ={} now={}: {:?}, expected {:?}", tz, now, head, want);
            let names: Vec<&str> = it.collect();
            let exp: Vec<&str> = w.iter().map(|f| &f.text[..]).collect();
            ensure!(names == exp, "signature chain shows {:?}, expected {:?}", names, exp);
            sigs += 1;
        }
    }
    c.count("displays into failing writers", cut);
    c.count("chains displayed", m.chains.len() as u64);
    c.count("rows compared", rows);
    c.count("signature chains displayed", sigs);
    if m.chains.iter().any(|c| c.sets.len() > 1) {
        c.distinct_of(&[text.as_bytes()]);
    }
    c.sample(|| text.clone());


    Ok(())
}
