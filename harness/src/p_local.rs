//! Entries that are refused, fail or are abandoned leave the rest of the archive alone (P28).
use crate::p_write::*;
use crate::{check, io::*, sym};
use async_zip::base::read::mem;
use async_zip::base::write::ZipFileWriter;
use async_zip::error::Result;
use async_zip::*;
use futures_lite::io::{AsyncWrite, AsyncWriteExt};
const F: u32 = 11;

fn spec(i: usize, method: usize) -> Spec {
    let mut s = Spec::plain(["a", "bc", "d"][i], sym::bytes([1, 2, 2][i])).attrs();
    s.method = method;
    s.comment = ["", "k", ""][i].into();
    s
}

/// Opens the archive, which must list exactly these entries with exactly their contents.
fn exactly(v: Vec<u8>, specs: &[&Spec]) {
    sym::observe(v.len() as u64);
    read_back_mem(v, specs, b"zz");
}

fn long() -> ZipString {
    ZipString::new(vec![b'n'; 65536], StringEncoding::Utf8)
}

/// An entry of a method that cannot be written.
fn undeflated64(s: &Spec) -> ZipEntryBuilder {
    let mut s = s.clone();
    s.method = 6;
    s.entry()
}

/// Something that must be refused, in each of the ways there are.
fn refused(w: &mut ZipFileWriter<Vec<u8>>, how: usize, z: Z, s: &Spec) {
    match how {
        0 => check!(F, run(w.write_entry_whole(s.entry().filename(long()), &s.data)).is_err()), // name
        1 => check!(F, run(w.write_entry_whole(s.entry().comment(long()), &s.data)).is_err()), // comment
        2 => check!(F, run(w.write_entry_stream(s.entry().filename(long()))).is_err()), // name
        3 => {
            // Streamed to the end, refused when closed.
            match run(w.write_entry_stream(s.entry().comment(long()))) {
                Ok(mut e) => {
                    check!(F, run(e.write_all(&s.data)).is_ok()); // data accepted
                    check!(F, run(e.close()).is_err()); // comment
                }
                Err(_) => check!(F, true), // refused at once
            }
        }
        7 => check!(F, run(w.write_entry_whole(undeflated64(s), &s.data)).is_err()), // method
        8 => check!(F, run(w.write_entry_stream(undeflated64(s))).is_err()), // method
        4 => check!(F, run(w.write_entry_whole_precompressed(s.entry().filename(long()), &s.data)).is_err()), // name
        _ => {
            // Needs zip64, which matters only where it is forbidden.
            let e = s.entry().crc32(crate::oracle::crc32(&s.data)).uncompressed_size(1u64 << 32);
            if z == Z::Forbidden {
                let r = if how == 5 { run(w.write_entry_whole_precompressed(e, &s.data)) } else { run(w.write_entry_stream_precompressed(e)).map(|_| ()) };
                check!(F, r.is_err()); // too large
            }
        }
    }
}

/// One refused entry, in each way of being refused, before, between or after two accepted ones.
pub fn h_local_refused() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let how = sym::pick(9);
    let at = sym::pick(3);
    let m = sym::pick(2);
    let (a, b, c) = (spec(0, m), spec(1, 1 - m), spec(2, m));
    let kinds = sym::pick(4);
    let mut w = writer(z);
    w.comment("zz".to_owned());
    for i in 0..3 {
        if i == at {
            refused(&mut w, how, z, &c);
        }
        let s = match i {
            0 => &a,
            1 => &b,
            _ => break,
        };
        if kinds >> i & 1 == 1 {
            put_stream(&mut w, s, &[1], None);
        } else {
            put_whole(&mut w, s);
        }
    }
    exactly(finish(w), &[&a, &b]);
    sym::reach(1);
}

/// One way of writing an entry.
async fn put<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, s: &Spec, kind: usize) -> Result<()> {
    match kind {
        0 => w.write_entry_whole(s.entry(), &s.data).await,
        1 => {
            let mut e = w.write_entry_stream(s.entry()).await?;
            e.write_all(&s.data[..1]).await?;
            e.flush().await?;
            e.write_all(&s.data[1..]).await?;
            e.close().await
        }
        _ => {
            let b = s.entry().crc32(crate::oracle::crc32(&s.data)).uncompressed_size(s.data.len() as u64);
            let d = if s.method == 0 { s.data.clone() } else { crate::oracle::toy(METHODS[s.method].2, 3, &s.data) };
            if kind == 2 {
                w.write_entry_whole_precompressed(b, &d).await
            } else {
                let mut e = w.write_entry_stream_precompressed(b).await?;
                e.write_all(&d).await?;
                e.close().await
            }
        }
    }
}

fn sink(z: Z, s: Sched) -> ZipFileWriter<Sink> {
    let mut w = ZipFileWriter::new(Sink::new(s));
    w.comment("zz".to_owned());
    match z {
        Z::Auto => w,
        Z::Forced => w.force_zip64(),
        Z::Forbidden => w.force_no_zip64(),
    }
}

/// Three entries; the one in the middle (or the first) is written under the schedule `s`, through `drive`, which tells
/// whether it was completed.
fn hurt(s: Sched, methods: u8, drive: fn(&mut ZipFileWriter<Sink>, &Spec, usize) -> bool) {
    let z = [Z::Auto, Z::Forbidden][sym::pick(2)];
    let m = sym::pick(methods);
    let first = sym::flip();
    let kind = sym::pick(4);
    let after = sym::pick(2);
    let (a, b, c) = (spec(0, 0), spec(1, m), spec(2, 1 - m.min(1)));
    let mut w = sink(z, Sched::NONE);
    if !first {
        check!(F, run(put(&mut w, &a, 0)).is_ok()); // accepted
    }
    w.inner_mut().s = s;
    let done = drive(&mut w, &b, kind);
    w.inner_mut().s = Sched::NONE;
    check!(F, run(put(&mut w, &c, after)).is_ok()); // accepted
    match run(w.close()) {
        Ok(v) => {
            let mut l: Vec<&Spec> = Vec::new();
            if !first {
                l.push(&a);
            }
            if done {
                l.push(&b);
                sym::reach(1);
            } else {
                sym::reach(2);
            }
            l.push(&c);
            exactly(v.data, &l);
        }
        Err(_) => check!(F, false), // archive closes
    }
}

fn to_the_end(w: &mut ZipFileWriter<Sink>, s: &Spec, kind: usize) -> bool {
    let r = run(put(w, s, kind)).is_ok();
    check!(F, r != failed()); // reported
    r
}
/// The sink fails any one operation of an entry and works again afterwards.
pub fn h_local_fault() {
    hurt(Sched::error(), 2, to_the_end)
}
/// The same after a short write.
pub fn h_local_fault_short() {
    hurt(Sched { short: 1, short_max: 2, ..Sched::error() }, 2, to_the_end)
}
/// The same with a not-ready result, all methods.
pub fn h_local_fault_deep() {
    hurt(Sched { short: 1, short_max: 3, pend: 1, ..Sched::error() }, 6, to_the_end)
}

fn dropped(w: &mut ZipFileWriter<Sink>, s: &Spec, kind: usize) -> bool {
    run_or_drop(put(w, s, kind)).is_some_and(|r| r.is_ok())
}
/// The future that writes an entry is dropped at any point where the sink is not ready.
pub fn h_local_drop() {
    hurt(Sched::pending(1), 2, dropped)
}
/// The same after a short write.
pub fn h_local_drop_short() {
    hurt(Sched { short: 1, short_max: 2, ..Sched::pending(1) }, 2, dropped)
}

/// A streamed entry that is given up before it is closed, after any number of bytes.
pub fn h_local_abandoned() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let m = sym::pick(6);
    let (a, b, c) = (spec(0, m), spec(1, m), spec(2, m));
    let n = sym::pick(3);
    let flush = sym::flip();
    let mut w = writer(z);
    w.comment("zz".to_owned());
    put_whole(&mut w, &a);
    match run(w.write_entry_stream(b.entry())) {
        Ok(mut e) => {
            check!(F, run(e.write_all(&b.data[..n])).is_ok()); // data accepted
            if flush {
                check!(F, run(e.flush()).is_ok()); // flush accepted
            }
        }
        Err(_) => check!(F, false), // entry accepted
    }
    put_stream(&mut w, &c, &[1], None);
    exactly(finish(w), &[&a, &c]);
    sym::reach(1);
}

/// Reading: an entry that cannot be opened or whose CRC is wrong does not keep others from being read.
pub fn h_local_read() {
    let (a, b) = (spec(0, 1), spec(1, 0));
    let wrong = sym::u32();
    let mut w = writer(Z::Auto);
    put_whole(&mut w, &a);
    check!(F, run(w.write_entry_whole_precompressed(b.entry().crc32(wrong).uncompressed_size(2u64), &b.data)).is_ok()); // accepted
    let mut v = finish(w);
    let damage = sym::flip();
    if damage {
        v[0] ^= 1; // the local header of the first entry
    }
    match run(mem::ZipFileReader::new(v)) {
        Ok(r) => {
            for _ in 0..2 {
                let mut d = Vec::new();
                match run(r.reader_with_entry(0)) {
                    Ok(mut e) => check!(F, !damage && run(futures_lite::io::AsyncReadExt::read_to_end(&mut e, &mut d)).is_ok() && sym::same(&d, &a.data)), // reads
                    Err(_) => check!(F, damage), // refused only then
                }
                let mut d = Vec::new();
                match run(r.reader_with_entry(1)) {
                    Ok(mut e) => check!(F, run(e.read_to_end_checked(&mut d)).is_ok() == (wrong == crate::oracle::crc32(&b.data))), // exactly then
                    Err(_) => check!(F, false), // opens
                }
                check!(F, sym::same(&d, &b.data)); // data
            }
            sym::reach(1);
        }
        Err(_) => check!(F, false), // archive opens
    }
}
