//! C04: key records on a simulated disk with crashes. C05: key records through faulty streams.
use crate::core::*;
use crate::gen::*;
use crate::refimpl as rf;
use ops::{Item, Key, Kind, SerFault, TapeVal, KINDS};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};

/// The 57 bytes spelled by exactly 114 hex digits, either case.
pub fn spelled(s: &str) -> Option<K> {
    let b = s.as_bytes();
    if b.len() != 114 || !b.iter().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    Some(rf::hexb(s).try_into().unwrap())
}
/// What the record on the medium means: None unless it is a JSON string of 114 hex digits.
pub fn record_meaning(b: &[u8]) -> Option<K> {
    spelled(&serde_json::from_slice::<String>(b).ok()?)
}
pub fn record(k: &K) -> Vec<u8> {
    format!("\"{}\"", rf::tohex(k)).into_bytes()
}
/// Does the loaded object spell exactly `b` (and, for signing keys, carry its own public key)?
pub fn is_exactly(k: &Key, b: &K) -> Result<(), String> {
    match k {
        Key::Secret(s) => {
            if *s != libgoldilocks::SecretKey::from_bytes(b) {
                return Err(format!("loaded secret key {:?} is not {}", s, hx(b)));
            }
        }
        Key::Verifying(v) => {
            if v.as_bytes() != b {
                return Err(format!("loaded verifying key {} is not {}", hx(v.as_bytes()), hx(b)));
            }
        }
        Key::Signing(s) => {
            if s.to_bytes() != *b || *s.secret_key() != libgoldilocks::SecretKey::from_bytes(b) {
                return Err(format!("loaded signing key {} is not {}", hx(&s.to_bytes()), hx(b)));
            }
            let want = rf::derive(b);
            if s.verifying_key().as_bytes() != want {
                return Err(format!("signing key {} loaded with public key {}, its own is {}", hx(b), hx(s.verifying_key().as_bytes()), hx(&want)));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Default)]
struct File {
    /// content that survives a crash
    durable: Vec<u8>,
    /// writes since the last fsync: (offset, data); a truncation is recorded as (len, None)
    pending: Vec<(usize, Option<Vec<u8>>)>,
    cached: Vec<u8>,
}
fn apply(v: &mut Vec<u8>, w: &(usize, Option<Vec<u8>>)) {
    match &w.1 {
        None => v.truncate(w.0),
        Some(d) => {
            if v.len() < w.0 + d.len() {
                v.resize(w.0 + d.len(), 0);
            }
            v[w.0..w.0 + d.len()].copy_from_slice(d);
        }
    }
}
struct Disk {
    files: BTreeMap<String, File>,
    /// bytes left before the disk is full
    space: usize,
}
struct Handle<'a> {
    disk: &'a mut Disk,
    name: String,
    pos: usize,
    short: usize, // largest write accepted at once
    crash_at: usize, // the process dies when this many bytes have been written
    written: usize,
    crashed: bool,
}
impl Write for Handle<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.crashed {
            return Err(io::Error::new(io::ErrorKind::Other, "process is gone"));
        }
        let mut n = b.len().min(self.short);
        if self.written + n > self.crash_at {
            n = self.crash_at - self.written;
            self.crashed = true;
        }
        let mut full = false;
        if n > self.disk.space {
            n = self.disk.space;
            full = n == 0;
        }
        if full {
            return Err(io::Error::new(io::ErrorKind::Other, "no space left on device"));
        }
        self.disk.space -= n;
        let f = self.disk.files.entry(self.name.clone()).or_default();
        let w = (self.pos, Some(b[..n].to_vec()));
        apply(&mut f.cached, &w);
        f.pending.push(w);
        self.pos += n;
        self.written += n;
        if self.crashed {
            return Err(io::Error::new(io::ErrorKind::Other, "process is gone"));
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Chunked<'a> {
    b: &'a [u8],
    max: usize,
}
impl Read for Chunked<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        let n = o.len().min(self.max).min(self.b.len());
        o[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

/// Files named .txt hold the record as plain text: the whole file is the string, as in formats whose
/// strings are not quoted.
fn is_plain(name: &str) -> bool {
    name.contains(".txt")
}
fn record_of(name: &str, k: &K) -> Vec<u8> {
    if is_plain(name) {
        rf::tohex(k).into_bytes()
    } else {
        record(k)
    }
}
fn plain_writer(obj: &Key, w: &mut dyn Write) -> Result<(), String> {
    let mut calls = 0;
    match ops::ser_tape(obj, true, SerFault::None, &mut calls) {
        Ok(TapeVal::Str(s)) => w.write_all(s.as_bytes()).map_err(|e| e.to_string()),
        Ok(v) => Err(format!("not text: {:?}", v)),
        Err(e) => Err(e.0),
    }
}

pub fn c04(c: &mut Ctx) {
    crate::os::surroundings(c);
    let mut d = Disk { files: BTreeMap::new(), space: usize::MAX };
    // what the application knows to be durable: name -> (kind, key)
    let mut acked: BTreeMap<String, (Kind, K)> = BTreeMap::new();
    let steps = c.range(2, 12);
    let names = ["a.key", "b.key", "c.key", "d.txt", "e.txt"];
    let mut keys: Vec<K> = vec![];
    for step in 0..steps {
        c.now_us += 1000;
        match c.weighted(&[5, 4, 4]) {
            // store a key
            0 => {
                let k = match keys.last() {
                    Some(k) if c.chance(1, 3) => {
                        let k = *k;
                        sibling(c, &k)
                    }
                    _ => fresh_key(c),
                };
                keys.push(k);
                let kind = *c.pick(&KINDS);
                let name = c.pick(&names).to_string();
                let atomic = c.chance(1, 2); // write a new file and rename, or overwrite in place
                let target = if atomic { format!("{}.tmp", name) } else { name.clone() };
                let obj = Key::make(kind, &k);
                let short = if c.chance(1, 3) { 1 + c.logu(64) as usize } else { usize::MAX };
                let crash_at = if c.chance(1, 4) { c.below(117) as usize } else { usize::MAX };
                d.space = if c.chance(1, 8) { c.below(117) as usize } else { usize::MAX };
                acked.remove(&name);
                if atomic || c.chance(1, 2) {
                    let f = d.files.entry(target.clone()).or_default();
                    let w = (0, None);
                    apply(&mut f.cached, &w);
                    f.pending.push(w);
                }
                let size = record_of(&name, &k).len();
                let full = d.space < size;
                let mut h = Handle { disk: &mut d, name: target.clone(), pos: 0, short, crash_at, written: 0, crashed: false };
                c.phase(1);
                let plain = is_plain(&name);
                let r = guard(|| if plain { plain_writer(&obj, &mut h) } else { ops::to_writer(&obj, &mut h) });
                c.phase(0);
                let crashed = h.crashed;
                d.space = usize::MAX;
                c.count("op.store");
                c.log(|| format!("step {}: store {:?} key {} in {} (atomic {}): {:?}{}", step, kind, hx(&k), name, atomic, r, if crashed { ", process killed mid-write" } else { "" }));
                let r = match r {
                    Ok(r) => r,
                    Err(e) => c.fail("store-panicked", format!("serialising {:?} key {} panicked: {}", kind, hx(&k), e)),
                };
                if r.is_ok() && d.files[&target].cached[..] != record_of(&name, &k)[..] && atomic {
                    c.fail("wrong-record", format!("stored record {:?} for key {}", String::from_utf8_lossy(&d.files[&target].cached), hx(&k)));
                }
                if full {
                    c.fault("fault.disk_full");
                }
                if crashed {
                    c.fault("fault.crash_mid_write");
                    crash(c, &mut d);
                    continue;
                }
                if r.is_err() {
                    continue;
                }
                if short < size {
                    c.fault("fault.short_write");
                }
                if c.chance(3, 4) {
                    // fsync
                    let f = d.files.get_mut(&target).unwrap();
                    f.durable = f.cached.clone();
                    f.pending.clear();
                    if atomic {
                        // rename is atomic and durable here
                        let f = d.files.remove(&target).unwrap();
                        d.files.insert(name.clone(), f);
                        acked.insert(name, (kind, k));
                    } else if d.files[&target].durable.len() == size {
                        acked.insert(name, (kind, k));
                    }
                } else {
                    c.fault("fault.no_fsync");
                }
            }
            // crash, or damage at rest
            1 => {
                if c.chance(1, 2) {
                    crash(c, &mut d);
                } else {
                    let present: Vec<String> = d.files.keys().cloned().collect();
                    if present.is_empty() {
                        continue;
                    }
                    let name = c.pick(&present).clone();
                    let f = d.files.get_mut(&name).unwrap();
                    let mut v = f.cached.clone();
                    if is_plain(&name) && c.chance(1, 2) {
                        damage_text(c, &mut v);
                    } else {
                        damage(c, &mut v);
                    }
                    c.log(|| format!("step {}: {} damaged at rest: {:?}", step, name, String::from_utf8_lossy(&v)));
                    let f = d.files.get_mut(&name).unwrap();
                    f.cached = v.clone();
                    f.durable = v;
                    f.pending.clear();
                    acked.remove(&name);
                }
            }
            // load
            _ => {
                let present: Vec<String> = d.files.keys().cloned().collect();
                if present.is_empty() {
                    continue;
                }
                let name = c.pick(&present).clone();
                load(c, &d, &name, &acked);
            }
        }
    }
    crash(c, &mut d);
    for n in d.files.keys().cloned().collect::<Vec<_>>() {
        load(c, &d, &n, &acked);
    }
}

fn crash(c: &mut Ctx, d: &mut Disk) {
    c.fault("fault.crash");
    if c.chance(1, 8) {
        crate::os::set_clock(c);
    }
    for (n, f) in d.files.iter_mut() {
        // each unsynced write is lost, kept or torn, independently (writes may reach the disk out of order)
        let mut v = f.durable.clone();
        let pend = std::mem::take(&mut f.pending);
        for w in &pend {
            match c.weighted(&[3, 2, 1]) {
                0 => c.fault("fault.lost_write"),
                1 => apply(&mut v, w),
                _ => match &w.1 {
                    None => apply(&mut v, w),
                    Some(data) => {
                        let cut = c.below(data.len() as u32 + 1) as usize;
                        if c.chance(1, 2) {
                            apply(&mut v, &(w.0, Some(data[..cut].to_vec())));
                        } else {
                            // the size reached the disk, the tail did not: zeros
                            let mut z = data[..cut].to_vec();
                            z.resize(data.len(), 0);
                            apply(&mut v, &(w.0, Some(z)));
                        }
                        c.fault("fault.torn_write");
                    }
                },
            }
        }
        c.log(|| format!("after the crash {} holds {:?}", n, String::from_utf8_lossy(&v)));
        f.durable = v.clone();
        f.cached = v;
    }
}

/// Damage to the digits themselves: padding, prefixes, separators, lost or repeated runs, look-alike digits.
pub fn damage_text(c: &mut Ctx, v: &mut Vec<u8>) {
    let n = v.len();
    let pads: [&str; 16] = [" ", "\t", "\n", "\r\n", "\0", "0", "00", "0x", "0X", "+", "\u{feff}", "\u{a0}", "'", "f", "=", "h"];
    let p = c.pick(&pads).to_string();
    let times = if c.chance(1, 2) { 1 } else { 1 + c.below(6) as usize };
    let p = p.repeat(times).into_bytes();
    match c.below(9) {
        0 => {
            let mut w = p;
            w.extend_from_slice(v);
            *v = w;
        }
        1 => v.extend(p),
        2 => {
            let mut w = p.clone();
            w.extend_from_slice(v);
            w.extend(p);
            *v = w;
        }
        3 => {
            let i = c.below(n as u32 + 1) as usize;
            v.splice(i..i, p);
        }
        4 => {
            // a separator between bytes
            let sep = [b' ', b':', b'-', b'_', b','][c.below(5) as usize];
            let step = [2usize, 4, 8, 16, 38][c.below(5) as usize];
            let mut w = vec![];
            for (i, x) in v.iter().enumerate() {
                if i > 0 && i % step == 0 {
                    w.push(sep);
                }
                w.push(*x);
            }
            *v = w;
        }
        5 => {
            // whole bytes lost, from either end or the middle
            let k = 2 * (1 + c.logu(56) as usize);
            let k = k.min(n);
            let at = [0, n - k, c.below((n - k) as u32 + 1) as usize][c.below(3) as usize];
            v.drain(at..at + k);
        }
        6 => {
            // whole bytes repeated
            let k = (2 * (1 + c.logu(56) as usize)).min(n);
            let at = [0, n - k, c.below((n - k) as u32 + 1) as usize][c.below(3) as usize];
            let run = v[at..at + k].to_vec();
            v.splice(at..at, run);
        }
        7 => {
            // look-alike digits, count of characters kept
            if n > 0 {
                let i = c.below(n as u32) as usize;
                let alt = ["０", "Ａ", "O", "l", "٣", "G", "`", "@", "/", ":", "g", "\0", "\u{80}"];
                let a = c.pick(&alt).to_string();
                v.splice(i..i + 1, a.into_bytes());
            }
        }
        _ => {
            // a run overwritten with one value, length kept
            if n > 0 {
                let i = c.below(n as u32) as usize;
                let k = 1 + c.below(n as u32) as usize;
                let b = [0u8, b' ', b'\n', 0xff, b'*', b'.'][c.below(6) as usize];
                for x in v.iter_mut().skip(i).take(k) {
                    *x = b;
                }
            }
        }
    }
    c.fault("fault.digits_damaged");
}

pub fn damage(c: &mut Ctx, v: &mut Vec<u8>) {
    let n = v.len();
    if n >= 2 && v[0] == b'"' && v[n - 1] == b'"' && c.chance(1, 4) {
        let mut w = v[1..n - 1].to_vec();
        damage_text(c, &mut w);
        if c.chance(1, 2) {
            // as a JSON writer would spell the same characters
            *v = serde_json::to_vec(&String::from_utf8_lossy(&w)).unwrap();
        } else {
            *v = [&b"\""[..], &w, b"\""].concat();
        }
        return;
    }
    match c.weighted(&[5, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1]) {
        0 if n > 0 => {
            let b = c.below(8 * n as u32) as usize;
            v[b / 8] ^= 1 << (b % 8);
            c.fault("fault.bit_rot");
        }
        1 => {
            let k = c.below(n as u32 + 1) as usize;
            v.truncate(k);
            c.fault("fault.truncated");
        }
        2 => {
            let k = 1 + c.logu(600) as usize;
            let b = [0u8, b'\n', b'0', b'f', b'"', 0xff][c.below(6) as usize];
            v.extend(vec![b; k]);
            c.fault("fault.padded");
        }
        3 if n > 2 => {
            // digits lost or gained inside the quotes
            let p = 1 + c.below(n as u32 - 2) as usize;
            let k = 1 + c.below(4) as usize;
            if c.chance(1, 2) {
                for _ in 0..k.min(v.len() - p) {
                    v.remove(p);
                }
            } else {
                for _ in 0..k {
                    v.insert(p, b'7');
                }
            }
            c.fault("fault.digits_lost_or_gained");
        }
        4 if n > 2 => {
            // foreign characters, byte length kept
            let p = 1 + c.below(n as u32 - 2) as usize;
            let s: &[u8] = [&b"g"[..], b" ", "é".as_bytes(), "€".as_bytes(), "😀".as_bytes(), b"\\", b"-", b"\0"][c.below(8) as usize];
            for (i, x) in s.iter().enumerate() {
                if p + i < v.len() {
                    v[p + i] = *x;
                }
            }
            c.fault("fault.foreign_characters");
        }
        5 => {
            v.make_ascii_uppercase();
            c.fault("fault.case_changed");
        }
        6 => {
            v.clear();
            c.fault("fault.emptied");
        }
        7 => {
            let s = c.seed();
            *v = expand(s, 116);
            c.fault("fault.garbage_block");
        }
        8 => {
            let alts: [&[u8]; 10] = [b"null", b"true", b"123", b"[]", b"{}", b"\"\"", b"[1,2]", b"{\"key\":\"00\"}", b"\"0\"", b"1e400"];
            *v = c.pick(&alts).to_vec();
            c.fault("fault.other_json");
        }
        9 if n > 2 => {
            // escapes: still the same JSON string, or a control character
            let p = 1 + c.below(n as u32 - 2) as usize;
            let ch = v[p];
            let e = format!("\\u{:04x}", ch);
            v.splice(p..p + 1, e.into_bytes());
            c.fault("fault.escaped_character");
        }
        10 if n > 2 => {
            let a = c.below(n as u32) as usize;
            let k = 1 + c.below(n as u32) as usize;
            for x in v.iter_mut().skip(a).take(k) {
                *x = 0;
            }
            c.fault("fault.zeroed_range");
        }
        _ => {
            let w = v.clone();
            v.extend(w);
            c.fault("fault.doubled");
        }
    }
}

fn load(c: &mut Ctx, d: &Disk, name: &str, acked: &BTreeMap<String, (Kind, K)>) {
    let b = d.files[name].cached.clone();
    let mut kind = *c.pick(&KINDS);
    if let Some((k, _)) = acked.get(name) {
        if !c.chance(1, 4) {
            kind = *k;
        }
    }
    let via = c.below(4);
    let max = 1 + c.logu(200) as usize;
    let plain = is_plain(name);
    let want = if plain { std::str::from_utf8(&b).ok().and_then(spelled) } else { record_meaning(&b) };
    c.phase(2);
    let r = guard(|| match via {
        _ if plain => match String::from_utf8(b.clone()) {
            Ok(s) => {
                let item = match via {
                    0 => Item::Str(s),
                    1 => Item::Borrowed(s),
                    2 => Item::Owned(s),
                    _ => Item::Owned(s),
                };
                ops::de_tape(kind, true, &item).map_err(|e| e.0)
            }
            Err(e) => Err(e.to_string()),
        },
        0 => ops::from_slice(kind, &b),
        1 => ops::from_reader(kind, &mut Chunked { b: &b, max }),
        2 => match serde_json::from_slice::<serde_json::Value>(&b) {
            Ok(v) => ops::from_value(kind, v),
            Err(e) => Err(e.to_string()),
        },
        _ => match serde_json::from_slice::<String>(&b) {
            Ok(s) => ops::de_tape(kind, true, &Item::Owned(s)).map_err(|e| e.0),
            Err(e) => Err(e.to_string()),
        },
    });
    c.phase(0);
    c.count("op.load");
    c.ev(b.len() as u64 ^ (want.is_some() as u64) << 32 ^ (r.is_ok() as u64) << 33);
    let txt = String::from_utf8_lossy(&b).into_owned();
    c.log(|| format!("load {} ({} bytes) as {:?} via {}: {}", name, b.len(), kind, via, match &r { Ok(Ok(_)) => "a key".into(), Ok(Err(e)) => format!("error {}", e), Err(p) => format!("PANIC {}", p) }));
    let r = match r {
        Ok(r) => r,
        Err(p) => c.fail("load-panicked", format!("loading {:?} as {:?} key panicked: {}", txt, kind, p)),
    };
    if let Some((_, k)) = acked.get(name) {
        c.count("check.durable_record");
        if want != Some(*k) {
            // harness invariant
            c.fail("harness-disk", format!("durable record of {} reads {:?}", hx(k), txt));
        }
    }
    match (want, r) {
        (Some(k), Ok(key)) => {
            c.count("check.well_formed_record_loaded");
            if let Err(e) = is_exactly(&key, &k) {
                c.fail("wrong-key", format!("record {:?}: {}", txt, e));
            }
        }
        (Some(_), Err(e)) => c.fail("good-record-refused", format!("loading {:?} as {:?} failed: {}", txt, kind, e)),
        (None, Ok(key)) => c.fail("bad-record-loaded", format!("damaged record {:?} loaded as {:?}", txt, key)),
        (None, Err(_)) => c.count("check.damaged_record_refused"),
    }
}

// ------------------------------------------------------------------------------------------ C05
struct FaultyWriter {
    out: Vec<u8>,
    plan: Vec<u8>, // per call: 0 ok, 1 interrupted, 2 short, 3 would-block/other error, 4 zero
    chunk: usize,
    i: usize,
    hard: bool,
    soft: [u32; 3],
}
impl Write for FaultyWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let p = self.plan.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        if self.hard {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "medium gone"));
        }
        match p {
            1 => {
                self.soft[0] += 1;
                Err(io::Error::from(io::ErrorKind::Interrupted))
            }
            3 => {
                self.hard = true;
                Err(io::Error::new(io::ErrorKind::Other, "medium failed"))
            }
            4 if !b.is_empty() => {
                self.hard = true;
                Ok(0)
            }
            p => {
                let mut n = b.len();
                if p == 2 && n > 1 {
                    n = (n / 2).min(self.chunk).max(1);
                    self.soft[1] += 1;
                }
                self.out.extend_from_slice(&b[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.hard {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "medium gone"));
        }
        Ok(())
    }
}
struct FaultyReader<'a> {
    b: &'a [u8],
    pos: usize,
    plan: Vec<u8>,
    i: usize,
    chunk: usize,
    fail_at: usize,
    hard: bool,
    soft: [u32; 2],
}
impl Read for FaultyReader<'_> {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        let p = self.plan.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        if p == 1 {
            self.soft[0] += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.pos >= self.fail_at {
            self.hard = true;
            return Err(io::Error::new(io::ErrorKind::Other, "medium failed"));
        }
        let mut n = o.len().min(self.b.len() - self.pos).min(self.fail_at - self.pos);
        if p == 2 {
            n = n.min(self.chunk);
            self.soft[1] += 1;
        }
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn c05(c: &mut Ctx) {
    crate::os::surroundings(c);
    let n = c.range(1, 8);
    for _ in 0..n {
        c.now_us += 100;
        let k = fresh_key(c);
        let kind = *c.pick(&KINDS);
        let obj = Key::make(kind, &k);
        let hexs = rf::tohex(&k);
        match c.below(4) {
            0 => {
                // stream out
                let np = c.below(8) as usize;
                let hard_ok = c.chance(1, 2);
                let plan: Vec<u8> = (0..np).map(|_| [0u8, 1, 2, 3, 4][c.weighted(&[3, 3, 3, hard_ok as u32, hard_ok as u32])]).collect();
                let chunk = 1 + c.logu(64) as usize;
                let mut w = FaultyWriter { out: vec![], plan, chunk, i: 0, hard: false, soft: [0; 3] };
                let r = guard(|| ops::to_writer(&obj, &mut w));
                c.count("op.write_stream");
                c.log(|| format!("write {:?} key {} through plan {:?}: {:?}, medium failed: {}", kind, hexs, w.plan, r, w.hard));
                if w.soft[0] > 0 {
                    c.fault("fault.write_interrupted");
                }
                if w.soft[1] > 0 {
                    c.fault("fault.short_write");
                }
                if w.hard {
                    c.fault("fault.write_failed");
                }
                c.ev(w.out.len() as u64 ^ (w.hard as u64) << 40);
                let want = record(&k);
                match r {
                    Err(p) => c.fail("serialise-panicked", format!("{:?} key {}: {}", kind, hexs, p)),
                    Ok(Ok(())) if w.hard => c.fail("write-error-hidden", format!("success reported though the medium failed after {} bytes", w.out.len())),
                    Ok(Ok(())) if w.out != want => c.fail("partial-record", format!("success reported for {:?}, expected {:?}", String::from_utf8_lossy(&w.out), String::from_utf8_lossy(&want))),
                    Ok(Err(e)) if !w.hard => c.fail("spurious-write-error", format!("no medium error, yet: {}", e)),
                    _ => {}
                }
                c.count("check.write_stream");
            }
            1 => {
                // stream in
                let mut b = record(&k);
                if c.chance(1, 3) {
                    damage(c, &mut b);
                }
                if c.chance(1, 6) {
                    b.extend(b" \n");
                }
                let np = c.below(12) as usize;
                let plan: Vec<u8> = (0..np).map(|_| c.below(3) as u8).collect();
                let fail_at = if c.chance(1, 3) { c.below(b.len() as u32 + 1) as usize } else { usize::MAX };
                let chunk = 1 + c.logu(64) as usize;
                let want = record_meaning(&b);
                let mut rd = FaultyReader { b: &b, pos: 0, plan, i: 0, chunk, fail_at, hard: false, soft: [0; 2] };
                let r = guard(|| ops::from_reader(kind, &mut rd));
                c.count("op.read_stream");
                if rd.soft[0] > 0 {
                    c.fault("fault.read_interrupted");
                }
                if rd.soft[1] > 0 {
                    c.fault("fault.short_read");
                }
                if rd.hard {
                    c.fault("fault.read_failed");
                }
                let hard = rd.hard;
                c.log(|| format!("read {:?} as {:?}, fails at {:?}: {:?}", String::from_utf8_lossy(&b), kind, fail_at, r.as_ref().map(|r| r.is_ok())));
                c.ev(b.len() as u64 ^ (hard as u64) << 40 ^ (want.is_some() as u64) << 41);
                judge_read(c, kind, r, if hard { None } else { want }, hard, &String::from_utf8_lossy(&b));
            }
            2 => {
                // some other serde format, writing
                let human = c.chance(1, 2);
                let fault = if c.chance(1, 3) { SerFault::Fail } else { SerFault::None };
                let mut calls = 0;
                let r = guard(|| ops::ser_tape(&obj, human, fault, &mut calls));
                c.count("op.write_format");
                c.ev(fault as u64 | (human as u64) << 4);
                if fault == SerFault::Fail {
                    c.fault("fault.serializer_failed");
                }
                c.log(|| format!("serialize {:?} key {} (human {}, {:?}): {:?}", kind, hexs, human, fault, r));
                match (fault, r) {
                    (_, Err(p)) => c.fail("serialise-panicked", format!("{:?} key {}: {}", kind, hexs, p)),
                    (SerFault::None, Ok(Ok(TapeVal::Str(s)))) if s == hexs => {}
                    (SerFault::Fail, Ok(Err(_))) => {}
                    (SerFault::Fail, Ok(Ok(v))) => c.fail("write-error-hidden", format!("format failed, serialisation reported {:?}", v)),
                    (_, Ok(v)) => c.fail("partial-record", format!("expected the string {:?}, format received {:?}", hexs, v)),
                }
                c.count("check.write_format");
            }
            _ => {
                // some other serde format, reading
                let mut s = hexs.clone();
                if c.chance(1, 4) {
                    let mut b = s.into_bytes();
                    if c.chance(1, 2) {
                        damage_text(c, &mut b);
                    } else {
                        damage(c, &mut b);
                    }
                    s = String::from_utf8_lossy(&b).into_owned();
                }
                let human = !c.chance(1, 4);
                let (item, claim) = match c.below(14) {
                    0 | 1 => (Item::Str(s.clone()), 1),
                    2 | 3 => (Item::Borrowed(s.clone()), 1),
                    4 | 5 => (Item::Owned(s.clone()), 1),
                    6 => (Item::Bytes(s.clone().into_bytes()), 2),
                    7 => (Item::ByteBuf(s.clone().into_bytes()), 2),
                    8 => (Item::U64(c.seed()), 0),
                    9 => ([Item::I64(-1), Item::F64(0.5), Item::Bool(true), Item::Char('a')][c.below(4) as usize].clone(), 0),
                    10 => ([Item::Unit, Item::None][c.below(2) as usize].clone(), 0),
                    11 => (Item::SomeStr(s.clone()), 2),
                    12 => (Item::Seq(if c.chance(1, 2) { k.to_vec() } else { s.clone().into_bytes() }), 0),
                    _ => (Item::Fail, 3),
                };
                let r = guard(|| ops::de_tape(kind, human, &item).map_err(|e| e.0));
                c.count("op.read_format");
                c.log(|| format!("deserialize {:?} from {:?} (human {}): {:?}", kind, item, human, r));
                c.ev(claim as u64 | (human as u64) << 4 | (spelled(&s).is_some() as u64) << 5);
                if item == Item::Fail {
                    c.fault("fault.deserializer_failed");
                }
                if !human {
                    c.nontrivial = true;
                    c.count("probe.binary_format");
                    if !matches!(r, Ok(Err(_))) {
                        c.fail("binary-format-read", format!("a binary format gave {:?}", r));
                    }
                    continue;
                }
                match claim {
                    1 => judge_read(c, kind, r, spelled(&s), false, &s),
                    2 => match r {
                        Err(p) => c.fail("read-panicked", format!("{:?}: {}", item, p)),
                        Ok(Ok(key)) => match spelled(&s) {
                            Some(k) => {
                                if let Err(e) = is_exactly(&key, &k) {
                                    c.fail("wrong-key", e);
                                }
                            }
                            None => c.fail("bad-record-loaded", format!("{:?} gave {:?}", item, key)),
                        },
                        Ok(Err(_)) => {}
                    },
                    _ => {
                        c.nontrivial = true;
                        c.count("check.non_string_refused");
                        match r {
                            Err(p) => c.fail("read-panicked", format!("{:?}: {}", item, p)),
                            Ok(Ok(key)) => c.fail(if claim == 3 { "read-error-hidden" } else { "non-string-accepted" }, format!("{:?} gave {:?}", item, key)),
                            Ok(Err(_)) => {}
                        }
                    }
                }
            }
        }
    }
}

fn judge_read(c: &mut Ctx, kind: Kind, r: Result<Result<Key, String>, String>, want: Option<K>, hard: bool, txt: &str) {
    match (want, r) {
        (_, Err(p)) => c.fail("read-panicked", format!("reading {:?} as {:?}: {}", txt, kind, p)),
        (Some(k), Ok(Ok(key))) => {
            c.count("check.read_ok");
            if let Err(e) = is_exactly(&key, &k) {
                c.fail("wrong-key", format!("{:?}: {}", txt, e));
            }
        }
        (Some(_), Ok(Err(e))) => c.fail("good-record-refused", format!("{:?} as {:?}: {}", txt, kind, e)),
        (None, Ok(Ok(key))) => c.fail(if hard { "read-error-hidden" } else { "bad-record-loaded" }, format!("{:?} gave {:?}", txt, key)),
        (None, Ok(Err(_))) => c.count("check.read_refused"),
    }
}
