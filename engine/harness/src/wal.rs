//! Checks of the write-ahead log's segments.
use crate::core::{fingerprint, seqs, Report};
use monolith::verif_wal::{Entry, EntryType, FlushPolicy, Segment};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Write};
use std::rc::Rc;
use std::time::Duration;
use vstd::mc::{self, Cfg, Scenario};

const MAGIC: [u8; 8] = [0x57, 0x41, 0x4c, 0, 0, 0, 0, 0];

fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

fn crc64(d: &[u8]) -> u64 {
    let mut c = !0u64;
    for b in d {
        c ^= *b as u64;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xc96c_5795_d787_0f42 } else { c >> 1 };
        }
    }
    !c
}

/// The bytes of an entry, by the documented format.
fn frame(id: u64, content: &[u8]) -> Vec<u8> {
    let mut v = id.to_be_bytes().to_vec();
    v.push(0);
    v.extend((content.len() as u16).to_be_bytes());
    v.extend(content);
    v.extend(crc32(content).to_be_bytes());
    v
}

/// What a reader of the log finds: entries up to the first that is incomplete or wrong, and the rest.
fn parse(log: &[u8]) -> Result<(Vec<(u64, Vec<u8>)>, &[u8]), String> {
    if log.len() < 8 || log[..8] != MAGIC {
        return Err("the magic number is missing".into());
    }
    let mut at = &log[8..];
    let mut v = vec![];
    while at.len() >= 15 {
        let len = u16::from_be_bytes([at[9], at[10]]) as usize;
        if at.len() < 15 + len || at[8] != 0 {
            break;
        }
        let content = &at[11..11 + len];
        if at[11 + len..15 + len] != crc32(content).to_be_bytes() {
            break;
        }
        v.push((u64::from_be_bytes(at[..8].try_into().unwrap()), content.to_vec()));
        at = &at[15 + len..];
    }
    Ok((v, at))
}

#[derive(Default)]
struct Disk {
    /// what the writer was given
    data: Vec<u8>,
    /// what it was given before its last flush
    flushed: usize,
    /// misbehaviours left
    left: u32,
    interrupted_in_a_row: u32,
    failed: bool,
}

#[derive(Clone)]
struct Writer(Rc<RefCell<Disk>>);

impl Write for Writer {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut d = self.0.borrow_mut();
        let how = if d.left > 0 && !b.is_empty() { mc::choose(6) } else { 0 };
        if how > 0 {
            d.left -= 1;
        }
        let n = match how {
            0 => b.len(),
            1 => 1,
            2 => (b.len() + 1) / 2,
            3 => return Err(Error::new(ErrorKind::Interrupted, "interrupted")),
            4 => {
                d.failed = true;
                return Err(Error::new(ErrorKind::Other, "no space"));
            }
            _ => {
                d.failed = true;
                0
            }
        };
        mc::note(|| format!("    {} of {} bytes are written", n, b.len()));
        d.data.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut d = self.0.borrow_mut();
        if d.left > 0 && mc::choose(2) == 1 {
            d.left -= 1;
            d.failed = true;
            return Err(Error::new(ErrorKind::Other, "cannot flush"));
        }
        d.flushed = d.data.len();
        Ok(())
    }
}

const POLICIES: [(&str, fn() -> FlushPolicy); 11] = [
    ("immediate", || FlushPolicy::Immediate),
    ("1-entry", || FlushPolicy::NumBased(1)),
    ("2-entries", || FlushPolicy::NumBased(2)),
    ("3-entries", || FlushPolicy::NumBased(3)),
    ("no-entries", || FlushPolicy::NumBased(0)),
    ("1-byte", || FlushPolicy::SizeBased(1)),
    ("20-bytes", || FlushPolicy::SizeBased(20)),
    ("50-bytes", || FlushPolicy::SizeBased(50)),
    ("timed", || FlushPolicy::TimeBased(Duration::from_secs(1))),
    ("any-number-of-entries", || FlushPolicy::NumBased(usize::MAX)),
    ("any-number-of-bytes", || FlushPolicy::SizeBased(usize::MAX)),
];

fn content(len: usize, k: usize) -> Vec<u8> {
    (0..len).map(|i| (i * 7 + k * 31 + 1) as u8).collect()
}

fn log(policy: usize, depth: usize, budget: u32, lens: &'static [usize]) {
    let disk = Rc::new(RefCell::new(Disk { left: budget, ..Default::default() }));
    let mut want = MAGIC.to_vec();
    let failed = || disk.borrow().failed;
    // after a reported failure all that can be said is that nothing but a piece of the log was written
    let torn = |want: &Vec<u8>, what: &str| {
        let d = disk.borrow();
        if !want.starts_with(&d.data) {
            panic!("{}: the log is {:02x?}, which is not a piece of {:02x?}", what, d.data, want)
        }
        mc::outcome(format!("{} {} bytes", what, d.data.len()));
    };
    let mut s = match Segment::new(POLICIES[policy].1(), Writer(disk.clone())) {
        Ok(s) => {
            if failed() {
                panic!("the writer failed, and the log was opened without an error")
            }
            s
        }
        Err(e) => {
            if !failed() {
                panic!("the log cannot be opened: {}", e)
            }
            return torn(&want, "refused to open");
        }
    };
    // entries and bytes that may not have been flushed yet
    let mut waiting = (0, 0);
    for k in 0..depth {
        let op = mc::choose(lens.len() + 1);
        let id = (k as u64 + 1) << (8 * (k % 8));
        let mut due = false;
        let (what, r) = if op < lens.len() {
            let c = content(lens[op], k);
            let mut e = Entry::new(id, EntryType::Default);
            for part in c.chunks((c.len() / 2).max(1)) {
                e.push(part.to_vec());
            }
            let fits = c.len() <= u16::MAX as usize;
            if fits && (e.get_bytes() != frame(id, &c) || e.len() != frame(id, &c).len()) {
                panic!("an entry of {} bytes has length {} and encodes to {} bytes", c.len(), e.len(), e.get_bytes().len())
            }
            let r = s.write_entry(e).map_err(|e| e.to_string());
            mc::note(|| format!("write {} bytes -> {:?}", c.len(), r));
            if !fits {
                if r.is_ok() {
                    panic!("an entry of {} bytes, which the format cannot hold, was taken", c.len())
                }
                if !failed() {
                    continue;
                }
            } else {
                want.extend(frame(id, &c));
                waiting = (waiting.0 + 1, waiting.1 + frame(id, &c).len());
                due = match POLICIES[policy].1() {
                    FlushPolicy::Immediate => true,
                    FlushPolicy::NumBased(n) => waiting.0 >= n,
                    FlushPolicy::SizeBased(n) => waiting.1 >= n,
                    FlushPolicy::TimeBased(_) => false,
                };
            }
            ("write", r)
        } else {
            let r = s.flush().map_err(|e| e.to_string());
            mc::note(|| format!("flush -> {:?}", r));
            ("flush", r)
        };
        match r {
            Err(e) => {
                if !failed() {
                    panic!("a {} failed though the writer did not: {}", what, e)
                }
                return torn(&want, "failed");
            }
            Ok(()) if failed() => panic!("the writer failed, and the {} did not say so", what),
            Ok(()) => {}
        }
        let d = disk.borrow();
        if what == "flush" || due {
            if d.data != want {
                panic!("after a flush the log is {:02x?} instead of {:02x?}", d.data, want)
            }
            waiting = (0, 0);
            if d.flushed != d.data.len() {
                panic!("a flush was not passed on to the writer")
            }
        } else if !want.starts_with(&d.data) {
            panic!("the log is {:02x?}, which is no beginning of {:02x?}", d.data, want)
        }
    }
    let r = s.close();
    mc::note(|| format!("close -> {:?}", r.as_ref().map_err(|e| e.to_string())));
    want.extend(crc64(&want[8..]).to_be_bytes());
    match r {
        Err(e) => {
            if !failed() {
                panic!("closing failed though the writer did not: {}", e)
            }
            return torn(&want, "failed to close");
        }
        Ok(()) if failed() => panic!("the writer failed, and closing did not say so"),
        Ok(()) => {}
    }
    let d = disk.borrow();
    if d.data != want {
        let found = parse(&d.data);
        panic!("the closed log is {:02x?} instead of {:02x?}; a reader finds {:?}", d.data, want, found.map(|f| f.0.len()))
    }
    if d.flushed != d.data.len() {
        panic!("the closed log was not flushed to the end")
    }
    mc::outcome(format!("closed {:x}", fingerprint(&d.data)));
}

/// Many entries under one limit: what has reached the writer is looked at after every one.
fn long_log(by_size: bool, limit: usize, len: usize) -> Result<(u64, u64), String> {
    let disk = Rc::new(RefCell::new(Disk::default()));
    let policy = if by_size { FlushPolicy::SizeBased(limit) } else { FlushPolicy::NumBased(limit) };
    let mut s = Segment::new(policy, Writer(disk.clone())).map_err(|e| e.to_string())?;
    let mut want = MAGIC.to_vec();
    let mut waiting = (0, 0);
    let n = if by_size { 2 * limit / (15 + len) + 5 } else { 2 * limit + 5 };
    for k in 0..n {
        let c = content(if k % 5 == 4 { 0 } else { len }, k);
        let f = frame(k as u64, &c);
        let mut e = Entry::new(k as u64, EntryType::Default);
        e.push(c);
        s.write_entry(e).map_err(|e| format!("entry {} is refused: {}", k, e))?;
        want.extend(&f);
        waiting = (waiting.0 + 1, waiting.1 + f.len());
        let d = disk.borrow();
        if (if by_size { waiting.1 } else { waiting.0 }) >= limit {
            waiting = (0, 0);
            if d.data.len() != want.len() || d.flushed != want.len() {
                return Err(format!("after {} entries, with the limit reached, {} of {} bytes are flushed", k + 1, d.flushed, want.len()));
            }
        } else if d.data.len() > want.len() {
            return Err(format!("after {} entries there are {} bytes instead of {}", k + 1, d.data.len(), want.len()));
        }
    }
    s.close().map_err(|e| e.to_string())?;
    want.extend(crc64(&want[8..]).to_be_bytes());
    let d = disk.borrow();
    if d.data != want || d.flushed != want.len() {
        return Err(format!("the closed log of {} entries has {} bytes ({} flushed) instead of {}, or others", n, d.data.len(), d.flushed, want.len()));
    }
    Ok((fingerprint(&(by_size, limit, len)), n as u64))
}

pub fn w01(r: &mut Report) {
    r.rule("All sequences of entries (empty, short, the longest, too long) and flushes up to a depth, under eleven flush policies (also without a limit), ended by closing, over a writer that, up to a budget, at every single call takes part of the bytes, is interrupted, writes nothing or fails: the bytes have to be those of the documented format, read by an independent encoder and parser, complete after every flush and after closing, and every failure has to be reported. Logs of many entries, with limits at and around the powers of two, looked at after every entry. All entries over a lattice of ids, contents and ways of putting them together, cloned half-way.");
    let ids = [0u64, 1, 255, 256, 1 << 32, u64::MAX];
    let n = r.pick(3, 4);
    r.enumerate("entries", (0..=n).flat_map(|len| seqs(6, len)).flat_map(move |s| ids.into_iter().map(move |i| (s.clone(), i))), |(s, id)| {
        let parts: Vec<Vec<u8>> = s.iter().map(|k| content([0usize, 1, 2, 8, 255, 300][*k], *k)).collect();
        let all: Vec<u8> = parts.concat();
        let want = frame(*id, &all);
        for cut in 0..=parts.len() {
            let mut e = Entry::new(*id, EntryType::Default);
            for p in &parts[..cut] {
                e.push(p.clone());
            }
            let mut c = e.clone();
            for p in &parts[cut..] {
                c.push(p.clone());
            }
            if c.get_bytes() != want {
                return Err(format!("entry {} of {} parts, cloned after {}, is {:02x?} instead of {:02x?}", id, parts.len(), cut, c.get_bytes(), want));
            }
            if c.len() != want.len() {
                return Err(format!("an entry of {} bytes says it has {}", want.len(), c.len()));
            }
            if e.get_bytes() != frame(*id, &parts[..cut].concat()) {
                return Err("a clone changes the entry it came from".into());
            }
        }
        let mut log = MAGIC.to_vec();
        log.extend(&want);
        match parse(&log) {
            Ok((v, rest)) if v == [(*id, all.clone())] && rest.is_empty() => Ok((fingerprint(&want), parts.len() as u64)),
            other => Err(format!("the reader finds {:?}", other.map(|o| o.0))),
        }
    });
    let top = r.pick(12u32, 16);
    r.enumerate(
        "long-logs",
        (2..=top).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1]).chain([100, 1000, 5000]).flat_map(|l| [(false, l, 5), (true, l, 0), (true, l, 5), (true, l, 1000)]),
        |(by_size, limit, len)| long_log(*by_size, *limit, *len),
    );
    let mut scs = vec![];
    for (k, p) in POLICIES.iter().enumerate() {
        let (d, f) = r.pick((4, 2), (5, 3));
        scs.push(Scenario::new(format!("logs/{}", p.0), Cfg::default(), move || log(k, d, f, &[0, 1, 9])));
        scs.push(Scenario::new(format!("logs/{}/big", p.0), Cfg::default(), move || log(k, 3, 1, &[3, 65535, 65536, 70000])));
        scs.push(Scenario::new(format!("logs/{}/long", p.0), Cfg::default(), move || log(k, r_len(d), 0, &[0, 1, 9])));
    }
    r.explore(scs);
}

fn r_len(d: usize) -> usize {
    d + 3
}
