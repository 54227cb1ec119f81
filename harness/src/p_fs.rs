//! The file-system reader against the in-memory one (P27).  `tokio::fs::File` is a model (models/tokio): one file, whose
//! readiness, short reads and failures are symbolic.
use crate::oracle::*;
use crate::p_read::three;
use crate::p_sched::{agree, sample};
use crate::{check, io::*, sym};
use async_zip::base::read::mem;
use async_zip::error::ZipError;
use async_zip::tokio::read::fs;
use futures_lite::io::AsyncReadExt;
use std::io::{Error, ErrorKind};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::task::{Context, Poll};
use tokio::fs::{disk, install, Disk};
const F: u32 = 12;
const PATH: &str = "/d/a.zip";

static mut SCHED: Sched = Sched::NONE;
fn gate(cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
    // SAFETY: harnesses are single-threaded.
    unsafe { (*std::ptr::addr_of_mut!(SCHED)).gate(cx) }
}
fn clip(n: usize) -> usize {
    // SAFETY: harnesses are single-threaded.
    unsafe { (*std::ptr::addr_of_mut!(SCHED)).clip(n) }
}
fn sched(s: Sched) {
    // SAFETY: harnesses are single-threaded.
    unsafe { SCHED = s }
}
fn file(data: Vec<u8>, s: Sched) {
    install(Disk { path: PATH.into(), data, gate, clip, opened: 0, closed: 0 });
    sched(s);
}

/// What a user gets to see of an archive: listing, every entry in both ways, and one that does not exist.
#[macro_export]
macro_rules! transcript {
    ($r:expr) => {{
        #[allow(unused_imports)]
        use futures_lite::io::AsyncReadExt as _;
        let mut l = $crate::p_sched::Log::new();
        match $r {
            #[allow(unused_mut)]
            Ok(mut r) => {
                l.bytes(r.file().comment().as_bytes());
                l.0.push(r.file().zip64() as u8);
                l.0.push(r.file().entries().len() as u8);
                for e in r.file().entries() {
                    l.entry(e);
                }
                for i in (0..r.file().entries().len()).rev() {
                    match run(r.reader_with_entry(i)) {
                        Ok(mut e) => {
                            l.bytes(e.entry().filename().as_bytes());
                            let mut d = Vec::new();
                            match run(e.read_to_end_checked(&mut d)) {
                                Ok(n) => {
                                    l.0.push(n as u8);
                                    l.bytes(&d);
                                }
                                Err(e) => l.err(&e),
                            }
                        }
                        Err(e) => l.err(&e),
                    }
                    match run(r.reader_without_entry(i)) {
                        Ok(mut e) => {
                            $crate::p_sched::pieces(&mut l, &mut e);
                        }
                        Err(e) => l.err(&e),
                    }
                }
                let n = r.file().entries().len();
                check!(F, matches!(run(r.reader_with_entry(n)), Err(ZipError::EntryIndexOutOfBounds))); // none there
                check!(F, matches!(run(r.reader_without_entry(n)), Err(ZipError::EntryIndexOutOfBounds))); // none there
            }
            Err(e) => l.err(&e),
        }
        l
    }};
}

fn same(v: Vec<u8>, s: Sched) {
    let a = transcript!(run(mem::ZipFileReader::new(v.clone())));
    file(v, s);
    let b = transcript!(run(fs::ZipFileReader::new(PATH)));
    agree(&a, &b);
}
/// Archives whole and damaged, read by path and from memory.
pub fn h_fs_same() {
    same(sample(sym::pick(7)), Sched::NONE)
}
/// The same when the file is not ready at any one point.
pub fn h_fs_pend() {
    same(sample(sym::pick(7)), Sched::pending(1))
}
/// The same with a short read at any one point.
pub fn h_fs_short() {
    same(sample(sym::pick(7)), Sched::short(1, 3))
}
/// The same with a file that is never ready at once and delivers one byte at a time.
pub fn h_fs_worst() {
    same(sample(sym::pick(7)), Sched::WORST)
}
/// The same with two irregularities.
pub fn h_fs_deep() {
    same(sample(sym::pick(7)), Sched { pend: 1, short: 1, short_max: 2, ..Sched::NONE })
}
fn damaged(mut v: Vec<u8>, n: usize) {
    check!(F, n < 256); // every position is covered
    let i = sym::pick(n as u8);
    v[i] = sym::u8();
    same(v, Sched::NONE)
}
/// Any one byte of the local header or the contents replaced by any other value.
pub fn h_fs_damage() {
    damaged(archive(&mut [(Ent::plain(b"a", b"xy"), b"xy".to_vec())], b"z"), 33)
}
/// Any one byte of the archive.
pub fn h_fs_damage_any_deep() {
    let v = archive(&mut [(Ent::plain(b"a", b"xy"), b"xy".to_vec())], b"z");
    let n = v.len();
    damaged(v, n)
}
/// The same with two entries, a compressed one and a comment.
pub fn h_fs_damage_deep() {
    let enc = toy(0xD8, 1, b"vw");
    let mut e = Ent::plain(b"bb", b"vw");
    e.method = 8;
    e.csize = enc.len() as u32;
    e.comment = b"k".to_vec();
    let v = archive(&mut [(Ent::plain(b"a", b"xyz"), b"xyz".to_vec()), (e, enc)], b"zz");
    let n = v.len();
    damaged(v, n)
}

/// Two entries open at once, through the reader and a clone that outlives it, read in any order of steps.
pub fn h_fs_clone() {
    let (v, d) = three();
    file(v, Sched::pending(1));
    let r = match run(fs::ZipFileReader::new(PATH)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // opens
            return;
        }
    };
    let (i, j) = (sym::pick(3), sym::pick(3));
    let c = r.clone();
    check!(F, c.path() == Path::new(PATH) && r.path() == Path::new(PATH)); // the path given
    let mut ga = Vec::new();
    let mut gb = Vec::new();
    match (run(r.reader_without_entry(i)), run(c.reader_with_entry(j))) {
        (Ok(mut a), Ok(mut b)) => {
            drop(r);
            let mut x = [0u8; 1];
            for _ in 0..3 {
                if sym::flip() {
                    if let Ok(n) = run(a.read(&mut x)) {
                        ga.extend_from_slice(&x[..n]);
                    }
                } else if let Ok(n) = run(b.read(&mut x)) {
                    gb.extend_from_slice(&x[..n]);
                }
            }
            check!(F, run(a.read_to_end(&mut ga)).is_ok()); // rest of the first
            check!(F, run(b.read_to_end_checked(&mut gb)).is_ok()); // rest of the second
            check!(F, disk().opened - disk().closed == 2); // one handle each
        }
        _ => check!(F, false), // entries open
    }
    check!(F, disk().opened == disk().closed); // no handle is kept
    check!(F, sym::same(&ga, &d[i]) && sym::same(&gb, &d[j])); // each its own bytes
    check!(F, c.file().entries().len() == 3); // listing unchanged
    sym::reach(1);
}

/// One failure of the file at any operation, opening included: reported, as it is, and nothing wrong is returned; the
/// reader works again afterwards.
pub fn h_fs_fault() {
    let (v, d) = three();
    file(v, Sched::error());
    let r = match run(fs::ZipFileReader::new(PATH)) {
        Ok(r) => {
            check!(F, !failed()); // reported
            r
        }
        Err(e) => {
            check!(F, failed() && matches!(e, ZipError::UpstreamReadError(e) if e.kind() == ErrorKind::ConnectionAborted)); // as it is
            sym::reach(2);
            return;
        }
    };
    let i = sym::pick(3);
    let mut g = Vec::new();
    match run(r.reader_with_entry(i)) {
        Ok(mut e) => {
            check!(F, !failed()); // reported
            match run(e.read_to_end_checked(&mut g)) {
                Ok(_) => check!(F, !failed() && sym::same(&g, &d[i])), // exact
                Err(e) => check!(F, failed() && matches!(e, ZipError::UpstreamReadError(e) if e.kind() == ErrorKind::ConnectionAborted)), // as it is
            }
        }
        Err(e) => check!(F, failed() && matches!(e, ZipError::UpstreamReadError(e) if e.kind() == ErrorKind::ConnectionAborted)), // as it is
    }
    check!(F, g.len() <= d[i].len() && sym::same(&g, &d[i][..g.len()])); // no wrong byte
    sched(Sched::NONE);
    let mut g = Vec::new();
    match run(r.reader_without_entry(i)) {
        Ok(mut e) => check!(F, run(e.read_to_end(&mut g)).is_ok()), // reads
        Err(_) => check!(F, false), // opens
    }
    check!(F, sym::same(&g, &d[i])); // exact
    sym::reach(1);
}

/// A file that is not there, is gone when an entry is opened, or comes back; a reader made from its parts.
pub fn h_fs_path() {
    let (v, d) = three();
    file(v, Sched::NONE);
    let mut name = PATH.as_bytes().to_vec();
    let c = sym::u8();
    sym::assume(c != 0 && c != b'/' && c != b'.');
    name[3] = c; // not even UTF-8, perhaps
    let path = Path::new(OsStr::from_bytes(&name));
    disk().path = path.to_owned();
    check!(F, matches!(run(fs::ZipFileReader::new("/d/bb.zip")), Err(ZipError::UpstreamReadError(e)) if e.kind() == ErrorKind::NotFound)); // not there
    let r = match run(fs::ZipFileReader::new(path)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // opens
            return;
        }
    };
    let r = if sym::flip() { fs::ZipFileReader::from_raw_parts(path, r.file().clone()) } else { r };
    check!(F, r.path() == path && r.file().entries().len() == 3); // parts
    let i = sym::pick(3);
    disk().path = "/d/cc.zip".into();
    check!(F, matches!(run(r.reader_with_entry(i)), Err(ZipError::UpstreamReadError(e)) if e.kind() == ErrorKind::NotFound)); // gone
    check!(F, matches!(run(r.reader_without_entry(i)), Err(ZipError::UpstreamReadError(e)) if e.kind() == ErrorKind::NotFound)); // gone
    disk().path = path.to_owned();
    let mut g = Vec::new();
    match run(r.reader_with_entry(i)) {
        Ok(mut e) => check!(F, run(e.read_to_end_checked(&mut g)).is_ok()), // reads
        Err(_) => check!(F, false), // opens
    }
    check!(F, sym::same(&g, &d[i])); // exact
    check!(F, disk().opened == disk().closed); // no handle is kept
    sym::reach(1);
}
