//! Independence from how sources and sinks schedule their work (P11, P12), failures (P13), the tokio variants (P23).
use crate::oracle::*;
use crate::p_write::{dos, METHODS};
use crate::{check, io::*, sym};
use async_zip::base::read::{seek, stream, ZipEntryReader};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::{Result, ZipError};
use async_zip::*;
use futures_lite::io::{AsyncBufRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt};
use std::io::ErrorKind;
const F: u32 = 8;

// ------------------------------------------------------------------------------------------------- transcripts of reads

pub(crate) fn io_code(k: ErrorKind) -> u8 {
    match k {
        ErrorKind::UnexpectedEof => 0xE1,
        ErrorKind::InvalidData => 0xE2,
        ErrorKind::ConnectionAborted => 0xE3,
        ErrorKind::InvalidInput => 0xE4,
        ErrorKind::WriteZero => 0xE5,
        _ => 0xE0,
    }
}

pub(crate) fn code(e: &ZipError) -> u8 {
    match e {
        ZipError::UpstreamReadError(e) => io_code(e.kind()),
        ZipError::CRC32CheckError => 0xC1,
        ZipError::EOFNotReached => 0xC2,
        ZipError::UnexpectedHeaderError(..) => 0xC3,
        ZipError::UnableToLocateEOCDR => 0xC4,
        ZipError::FeatureNotSupported(_) => 0xC5,
        ZipError::CompressionNotSupported(_) => 0xC6,
        _ => 0xC0,
    }
}

/// What a user of the crate gets to see, as bytes.
pub(crate) struct Log(pub(crate) Vec<u8>);

impl Log {
    pub(crate) fn new() -> Log {
        Log(Vec::with_capacity(256))
    }
    pub(crate) fn bytes(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b);
    }
    pub(crate) fn err(&mut self, e: &ZipError) {
        self.0.push(0xFF);
        self.0.push(code(e));
        // A failure of the source is passed on as it is.
        check!(F, !matches!(e, ZipError::UpstreamReadError(e) if e.kind() == ErrorKind::ConnectionAborted) || failed());
    }
    pub(crate) fn entry(&mut self, e: &ZipEntry) {
        self.bytes(e.filename().as_bytes());
        self.bytes(e.comment().as_bytes());
        p32(&mut self.0, e.crc32());
        p64(&mut self.0, e.compressed_size());
        p64(&mut self.0, e.uncompressed_size());
        self.0.push(e.extra_fields().len() as u8);
    }
}

/// Opens, lists, reads both entries (checked and in pieces) and one that does not exist.
fn log_seek<R: AsyncBufRead + AsyncSeek + Unpin>(r: Result<seek::ZipFileReader<R>>) -> Log {
    let mut l = Log::new();
    let mut r = match r {
        Ok(r) => r,
        Err(e) => {
            l.err(&e);
            return l;
        }
    };
    l.bytes(r.file().comment().as_bytes());
    l.0.push(r.file().entries().len() as u8);
    for i in 0..r.file().entries().len() {
        let e: &ZipEntry = &r.file().entries()[i];
        l.entry(e);
    }
    for i in 0..r.file().entries().len() {
        match run(r.reader_with_entry(i)) {
            Ok(mut e) => {
                let mut d = Vec::new();
                match run(e.read_to_end_checked(&mut d)) {
                    Ok(n) => {
                        l.0.push(n as u8);
                        l.bytes(&d);
                    }
                    Err(e) => {
                        l.err(&e);
                        return l;
                    }
                }
            }
            Err(e) => {
                l.err(&e);
                return l;
            }
        }
    }
    match run(r.reader_without_entry(0)) {
        Ok(mut e) => {
            pieces(&mut l, &mut e);
        }
        Err(e) => l.err(&e),
    }
    l
}

/// Reads in pieces of two bytes; the pieces themselves may depend on the schedule, their sum may not.
pub(crate) fn pieces<R: AsyncBufRead + Unpin, E>(l: &mut Log, e: &mut ZipEntryReader<'_, R, E>) -> bool {
    let mut d = Vec::with_capacity(16);
    loop {
        let mut b = [0u8; 2];
        match run(e.read(&mut b)) {
            Ok(0) => break,
            Ok(n) => d.extend_from_slice(&b[..n]),
            Err(e) => {
                l.err(&ZipError::UpstreamReadError(e));
                return false;
            }
        }
    }
    l.bytes(&d);
    p32(&mut l.0, e.compute_hash());
    true
}

/// Walks a stream; `how` gives one of read, skip, finish early per entry.
fn log_stream<R: AsyncBufRead + Unpin>(r: stream::ZipFileReader<stream::Ready<R>>, how: [usize; 3]) -> Log {
    let mut l = Log::new();
    let mut r = r;
    let mut i = 0;
    loop {
        check!(F, i <= 2); // ends
        let next = match run(r.next_with_entry()) {
            Ok(Some(mut e)) => {
                l.entry(e.reader().entry());
                match how[i] {
                    0 => {
                        let mut d = Vec::new();
                        match run(e.reader_mut().read_to_end(&mut d)) {
                            Ok(_) => l.bytes(&d),
                            Err(e) => {
                                l.err(&ZipError::UpstreamReadError(e));
                                return l;
                            }
                        }
                        p32(&mut l.0, e.reader_mut().compute_hash());
                        run(e.done())
                    }
                    1 => run(e.skip()),
                    2 => run(e.done()),
                    _ => {
                        if !pieces(&mut l, e.reader_mut()) {
                            return l;
                        }
                        run(e.done())
                    }
                }
            }
            Ok(None) => {
                l.0.push(0xEE);
                return l;
            }
            Err(e) => {
                l.err(&e);
                return l;
            }
        };
        match next {
            Ok(x) => r = x,
            Err(e) => {
                l.err(&e);
                return l;
            }
        }
        i += 1;
    }
}

/// Two entries (stored, compressed with descriptor), symbolic contents, extra data, comments; optionally damaged.
pub(crate) fn sample(damage: usize) -> Vec<u8> {
    let d0 = sym::bytes(3);
    let d1 = sym::bytes(2);
    let z = toy(0xD8, 3, &d1);
    let mut e0 = Ent::plain(b"ab", &d0);
    e0.extra = vec![0x42, 0x42, 1, 0, sym::u8()];
    e0.comment = b"k".to_vec();
    let mut e1 = Ent::plain(b"c", &d1);
    e1.method = 8;
    e1.flags = 8;
    e1.csize = z.len() as u32;
    match damage {
        1 => e0.crc = sym::u32(),
        2 => e1.csize -= 1,
        3 => e1.off = 7,
        _ => {}
    }
    let mut body1 = z;
    if damage == 4 {
        body1[0] = sym::u8();
    }
    p32(&mut body1, DD);
    p32(&mut body1, e1.crc);
    p32(&mut body1, e1.csize);
    p32(&mut body1, 2);
    let mut v = Vec::with_capacity(512);
    put_lfh(&mut v, &e0);
    v.extend_from_slice(&d0);
    if damage != 3 {
        e1.off = v.len() as u32;
    }
    put_lfh(&mut v, &e1);
    v.extend_from_slice(&body1);
    let cd = v.len();
    if damage == 6 {
        // Listed in another order than that of their data, with zip64 records at the end.
        put_cdh(&mut v, &e1);
        put_cdh(&mut v, &e0);
    } else {
        put_cdh(&mut v, &e0);
        put_cdh(&mut v, &e1);
    }
    let at = v.len();
    let size = at - cd;
    if damage == 6 {
        put_z64(&mut v, at as u64, &Z64 { made: 45, need: 45, disk: 0, cd_disk: 0, n_disk: 2, n: 2, size: size as u64, off: cd as u64 });
        put_eocd(&mut v, 0, 0, 2, 0xFFFF, size as u32, 0xFFFF_FFFF, b"zz");
    } else {
        put_eocd(&mut v, 0, 0, 2, 2, size as u32, cd as u32, b"zz");
    }
    // No byte that could end an end-record signature, except where there is one (cheaper searches).
    for i in 0..at {
        sym::assume(v[i] != 6);
    }
    if damage == 5 {
        v.truncate(cd + 20);
    }
    v
}

pub(crate) fn agree(a: &Log, b: &Log) {
    check!(F, sym::same(&a.0, &b.0)); // the schedule makes no difference
    sym::observe(a.0.len() as u64);
    sym::reach(1);
}

// ------------------------------------------------------------------------------------------------------------- P11

fn sched_seek(s: Sched) {
    let v = sample(sym::pick(7));
    let a = log_seek(run(seek::ZipFileReader::new(Src::new(v.clone(), Sched::NONE))));
    let b = log_seek(run(seek::ZipFileReader::new(Src::new(v, s))));
    agree(&a, &b);
}
/// One not-ready result anywhere.
pub fn h_sched_seek_pend() {
    sched_seek(Sched::pending(1))
}
/// Two of them.
pub fn h_sched_seek_pend_deep() {
    sched_seek(Sched::pending(2))
}
/// One short transfer of 1 to 3 bytes anywhere.
pub fn h_sched_seek_short() {
    sched_seek(Sched::short(1, 3))
}
/// Two of them.
pub fn h_sched_seek_short_deep() {
    sched_seek(Sched::short(2, 3))
}
/// One of each.
pub fn h_sched_seek_both() {
    sched_seek(Sched { pend: 1, short: 1, short_max: 1, ..Sched::NONE })
}
/// Never ready at once, one byte at a time.
pub fn h_sched_seek_worst() {
    sched_seek(Sched::WORST)
}

fn sched_stream(s: Sched, modes: u8) {
    let v = sample([0, 1, 4, 5][sym::pick(4)]);
    let how = [sym::pick(modes), sym::pick(modes), 1];
    let a = log_stream(stream::ZipFileReader::new(Src::new(v.clone(), Sched::NONE)), how);
    let b = log_stream(stream::ZipFileReader::new(Src::new(v, s)), how);
    agree(&a, &b);
}
/// Streaming reader: one not-ready result anywhere.
pub fn h_sched_stream_pend() {
    sched_stream(Sched::pending(1), 4)
}
/// Three of them.
pub fn h_sched_stream_pend_deep() {
    sched_stream(Sched::pending(3), 4)
}
/// One short transfer of 1 to 3 bytes anywhere.
pub fn h_sched_stream_short() {
    sched_stream(Sched::short(1, 3), 4)
}
/// Two of them.
pub fn h_sched_stream_short_deep() {
    sched_stream(Sched::short(2, 3), 4)
}
/// One of each.
pub fn h_sched_stream_both() {
    sched_stream(Sched { pend: 1, short: 1, short_max: 1, ..Sched::NONE }, 2)
}
/// Never ready at once, one byte at a time.
pub fn h_sched_stream_worst() {
    sched_stream(Sched::WORST, 4)
}

/// The search for the end record over several blocks, under short reads and not-ready results.
fn sched_locate(s: Sched) {
    let n = [0usize, 2026, 2030, 4100][sym::pick(4)];
    let mut c = vec![b'x'; n];
    if n > 0 {
        c[n - 1] = sym::u8() | 8;
        c[0] = sym::u8() | 8;
    }
    // What comes before the record may look like one.
    let mut v = Vec::with_capacity(8192);
    p32(&mut v, EOCD);
    put_cdh(&mut v, &Ent::plain(b"PK\x05\x06", b""));
    put_eocd(&mut v, 0, 0, 1, 1, 50, 4, &c);
    let r = run(seek::ZipFileReader::new(Src::new(v, s)));
    check!(F, r.is_ok()); // opens
    if let Ok(r) = r {
        check!(F, r.file().entries().len() == 1 && r.file().entries()[0].filename().as_bytes() == b"PK\x05\x06"); // entry
        check!(F, sym::same(r.file().comment().as_bytes(), &c)); // comment
        sym::reach(1);
    }
}
/// Searching the end record across blocks with two short reads.
pub fn h_sched_locate_short() {
    sched_locate(Sched::short(2, 3))
}
/// The search one byte at a time, and with reads that end anywhere.
pub fn h_sched_locate_capped() {
    let n = 1 + sym::pick(66) as usize;
    sched_locate(Sched::capped(n))
}
/// The same with not-ready results.
pub fn h_sched_locate_pend() {
    sched_locate(Sched { pend: 2, short: 1, short_max: 1, ..Sched::NONE })
}

// ------------------------------------------------------------------------------------------------------------- P12

/// What is written: 0 whole, 1 streamed in pieces, 2 precompressed whole, 3 precompressed streamed.
struct Script {
    kinds: [usize; 2],
    method: usize,
    z: usize,
    data: Vec<u8>,
    flush: bool,
}

fn write<W: AsyncWrite + Unpin>(w: ZipFileWriter<W>, s: &Script) -> Result<W> {
    let mut w = match s.z {
        0 => w,
        1 => w.force_zip64(),
        _ => w.force_no_zip64(),
    };
    w.comment("zz".to_owned());
    for k in s.kinds {
        let e = ZipEntryBuilder::new("ab".into(), METHODS[s.method].0).comment("c".into()).last_modification_date(dos(0x21, 0));
        match k {
            0 => run(w.write_entry_whole(e, &s.data))?,
            1 => {
                let mut e = run(w.write_entry_stream(e))?;
                run(e.write_all(&s.data[..1]))?;
                if s.flush {
                    run(e.flush())?;
                }
                run(e.write_all(&s.data[1..]))?;
                run(e.close())?
            }
            2 => run(w.write_entry_whole_precompressed(e.uncompressed_size(5u64).crc32(7u32), &s.data[..2]))?,
            _ => {
                let mut e = run(w.write_entry_stream_precompressed(e.uncompressed_size(5u64).crc32(7u32)))?;
                run(e.write_all(&s.data))?;
                run(e.close())?
            }
        }
    }
    run(w.close())
}

fn script(methods: u8) -> Script {
    let k = sym::pick(4);
    Script {
        kinds: [[1, 0], [0, 1], [3, 1], [2, 3]][k],
        method: [1, 0, 4, 2, 3, 5][sym::pick(methods)],
        z: sym::pick(3),
        data: sym::bytes(4),
        flush: sym::flip(),
    }
}

fn sched_write(s: Sched, methods: u8) {
    let c = script(methods);
    let a = write(ZipFileWriter::new(Sink::new(Sched::NONE)), &c);
    let b = write(ZipFileWriter::new(Sink::new(s)), &c);
    check!(F, a.is_ok() && b.is_ok()); // both complete
    if let (Ok(a), Ok(b)) = (a, b) {
        check!(F, sym::same(&a.data, &b.data)); // the schedule makes no difference
        sym::observe_bytes(&b.data);
        sym::reach(1);
    }
}
/// Writing: one not-ready result anywhere.
pub fn h_sched_write_pend() {
    sched_write(Sched::pending(1), 2)
}
/// Two of them, all methods.
pub fn h_sched_write_pend_deep() {
    sched_write(Sched::pending(2), 6)
}
/// One short write of 1 to 3 bytes anywhere.
pub fn h_sched_write_short() {
    sched_write(Sched::short(1, 3), 2)
}
/// Two of them.
pub fn h_sched_write_short_deep() {
    sched_write(Sched::short(2, 3), 2)
}
/// One of each.
pub fn h_sched_write_both() {
    sched_write(Sched { pend: 1, short: 1, short_max: 1, ..Sched::NONE }, 1)
}
/// Never ready at once, one byte at a time.
pub fn h_sched_write_worst() {
    sched_write(Sched::WORST, 6)
}

/// Short writes inside an entry only, any split by the caller; the recorded CRC and sizes are those of the data.
pub fn h_sched_write_accept() {
    let n = sym::pick(5);
    let data = sym::bytes(n);
    let method = sym::pick(2);
    let s = Sched { short: 3, short_max: 2, pend: 1, ..Sched::NONE };
    let mut w = ZipFileWriter::new(Sink::new(Sched::NONE));
    let e = ZipEntryBuilder::new("a".into(), METHODS[method].0);
    let mut e = match run(w.write_entry_stream(e)) {
        Ok(e) => e,
        Err(_) => {
            check!(F, false); // entry accepted
            return;
        }
    };
    // Reach the sink through the entry: the schedule starts here.
    arm(&s);
    let mut at = 0;
    while at < n {
        match run(e.write(&data[at..])) {
            Ok(k) => {
                check!(F, k >= 1 && k <= n - at); // some of what was offered is accepted
                at += k;
            }
            Err(_) => {
                check!(F, false); // accepted
                return;
            }
        }
    }
    check!(F, run(e.close()).is_ok()); // closes
    arm(&Sched::NONE);
    let a = match run(w.close()) {
        Ok(s) => strict(&s.data, 0),
        Err(_) => {
            check!(F, false); // archive closes
            return;
        }
    };
    let r = &a.recs[0];
    check!(F, r.crc == crc32(&data) && r.usize_ == n as u64); // crc and size of the data
    check!(F, sym::same(&r.data, &if method == 0 { data } else { toy(0xD8, 3, &data) })); // data in order
    sym::reach(1);
}

// ------------------------------------------------------------------------------------------------------------- P13

fn fault(eof: bool) -> Sched {
    Sched { err: 1, eof, ..Sched::NONE }
}

/// An error at any one operation of opening, listing and reading.
fn fault_seek(s: Sched) {
    let v = sample(0);
    let want = if s.eof { 0xE1 } else { 0xE3 };
    let l = log_seek(run(seek::ZipFileReader::new(Src::new(v.clone(), s))));
    let n = l.0.len();
    if failed() {
        check!(F, n >= 2 && l.0[n - 2] == 0xFF && l.0[n - 1] == want); // the failure is what the caller gets
        sym::reach(2);
    } else {
        let a = log_seek(run(seek::ZipFileReader::new(Src::new(v, Sched::NONE))));
        check!(F, sym::same(&a.0, &l.0)); // nothing else changes
        sym::reach(1);
    }
}
/// Seekable reader: one failure (or early end of file) at any operation.
pub fn h_fault_seek() {
    fault_seek(fault(sym::flip()))
}
/// The same with a not-ready result anywhere.
pub fn h_fault_seek_pend() {
    fault_seek(Sched { pend: 1, ..fault(false) })
}
/// The same with a short read anywhere.
pub fn h_fault_seek_short() {
    fault_seek(Sched { short: 1, short_max: 2, ..fault(false) })
}

fn fault_stream(s: Sched) {
    let v = sample(0);
    let how = [[0, 1, 3][sym::pick(3)], [0, 1, 3][sym::pick(3)], 1];
    let want = if s.eof { 0xE1 } else { 0xE3 };
    let l = log_stream(stream::ZipFileReader::new(Src::new(v.clone(), s)), how);
    let n = l.0.len();
    if failed() {
        check!(F, n >= 2 && l.0[n - 2] == 0xFF && l.0[n - 1] == want); // the failure is what the caller gets
        sym::reach(2);
    } else {
        let a = log_stream(stream::ZipFileReader::new(Src::new(v, Sched::NONE)), how);
        check!(F, sym::same(&a.0, &l.0)); // nothing else changes
        check!(F, l.0[n - 1] == 0xEE); // and the end is reported
        sym::reach(1);
    }
}
/// Streaming reader: one failure (or early end of file) at any operation.
pub fn h_fault_stream() {
    fault_stream(fault(sym::flip()))
}
/// The same with a not-ready result anywhere.
pub fn h_fault_stream_pend() {
    fault_stream(Sched { pend: 1, ..fault(false) })
}
/// The same with a short read anywhere.
pub fn h_fault_stream_short() {
    fault_stream(Sched { short: 1, short_max: 2, ..fault(false) })
}

/// A search for the end record over several blocks that fails.
pub fn h_fault_locate() {
    let n = [2030usize, 4100][sym::pick(2)];
    let c = vec![b'x'; n];
    let mut v = Vec::with_capacity(8192);
    put_eocd(&mut v, 0, 0, 0, 0, 0, 0, &c);
    let s = fault(sym::flip());
    match run(seek::ZipFileReader::new(Src::new(v, s))) {
        Ok(r) => {
            check!(F, !failed() && r.file().comment().as_bytes().len() == n); // complete
            sym::reach(1);
        }
        Err(e) => {
            check!(F, failed() && code(&e) == if s.eof { 0xE1 } else { 0xE3 }); // the failure
            sym::reach(2);
        }
    }
}

/// An error at any one operation of writing.
fn fault_write(s: Sched, methods: u8) {
    let c = script(methods);
    let want = if s.stop > 0 { 0xE5 } else { 0xE3 };
    match write(ZipFileWriter::new(Sink::new(s)), &c) {
        Ok(_) => {
            check!(F, !failed()); // no archive is finished on a failed sink
            sym::reach(1);
        }
        Err(e) => {
            check!(F, failed() && code(&e) == want); // the failure
            sym::reach(2);
        }
    }
}
/// Writer: one failure at any operation.
pub fn h_fault_write() {
    fault_write(Sched::error(), 2)
}
/// The same with a not-ready result anywhere, all methods.
pub fn h_fault_write_deep() {
    fault_write(Sched { pend: 1, ..Sched::error() }, 6)
}
/// The sink accepts no more bytes from any point on.
pub fn h_fault_stop() {
    fault_write(Sched::stopping(), 2)
}
/// The same after a short write.
pub fn h_fault_stop_short() {
    fault_write(Sched { short: 1, short_max: 2, ..Sched::stopping() }, 1)
}
/// A write that fails after a short write: what was accepted stays accepted.
pub fn h_fault_write_short() {
    fault_write(Sched { short: 1, short_max: 2, ..Sched::error() }, 1)
}

// ------------------------------------------------------------------------------------------------------------- P23

fn tokio_seek(s: Sched) {
    let v = sample(sym::pick(7));
    let a = log_seek(run(seek::ZipFileReader::new(Src::new(v.clone(), Sched::NONE))));
    let b = log_seek(run(seek::ZipFileReader::with_tokio(Src::new(v, s))));
    agree(&a, &b);
}
/// Seekable reader: one not-ready result anywhere.
pub fn h_tokio_seek() {
    tokio_seek(Sched::pending(1))
}
/// One short read anywhere.
pub fn h_tokio_seek_short() {
    tokio_seek(Sched::short(1, 3))
}
/// Never ready at once, one byte at a time.
pub fn h_tokio_seek_worst() {
    tokio_seek(Sched::WORST)
}
/// Two irregularities.
pub fn h_tokio_seek_deep() {
    tokio_seek(Sched { pend: 1, short: 1, short_max: 2, ..Sched::NONE })
}

fn tokio_stream(s: Sched) {
    let v = sample([0, 1, 4, 5][sym::pick(4)]);
    let how = [sym::pick(4), sym::pick(4), 1];
    let a = log_stream(stream::ZipFileReader::new(Src::new(v.clone(), Sched::NONE)), how);
    let b = log_stream(stream::ZipFileReader::with_tokio(Src::new(v, s)), how);
    agree(&a, &b);
}
/// Streaming reader: one not-ready result anywhere.
pub fn h_tokio_stream() {
    tokio_stream(Sched::pending(1))
}
/// One short read anywhere.
pub fn h_tokio_stream_short() {
    tokio_stream(Sched::short(1, 3))
}
/// Never ready at once, one byte at a time.
pub fn h_tokio_stream_worst() {
    tokio_stream(Sched::WORST)
}
/// Two irregularities.
pub fn h_tokio_stream_deep() {
    tokio_stream(Sched { pend: 1, short: 1, short_max: 2, ..Sched::NONE })
}

fn tokio_write(s: Sched, methods: u8) {
    let c = script(methods);
    let a = write(ZipFileWriter::new(Sink::new(Sched::NONE)), &c);
    let b = write(ZipFileWriter::with_tokio(Sink::new(s)), &c);
    check!(F, a.is_ok() && b.is_ok()); // both complete
    if let (Ok(a), Ok(b)) = (a, b) {
        check!(F, sym::same(&a.data, &b.into_inner().data)); // same archive
        sym::reach(1);
    }
}
/// Writer: one not-ready result anywhere.
pub fn h_tokio_write() {
    tokio_write(Sched::pending(1), 2)
}
/// One short write anywhere.
pub fn h_tokio_write_short() {
    tokio_write(Sched::short(1, 3), 2)
}
/// Never ready at once, one byte at a time; all methods.
pub fn h_tokio_write_worst() {
    tokio_write(Sched::WORST, 6)
}
/// Two irregularities.
pub fn h_tokio_write_deep() {
    tokio_write(Sched { pend: 1, short: 1, short_max: 2, ..Sched::NONE }, 2)
}

/// Failures through the tokio interface.
pub fn h_tokio_fault() {
    let c = script(1);
    match write(ZipFileWriter::with_tokio(Sink::new(Sched::error())), &c) {
        Ok(_) => check!(F, !failed()), // no archive is finished on a failed sink
        Err(e) => {
            check!(F, failed() && code(&e) == 0xE3); // the failure
            sym::reach(1);
        }
    }
}
/// One read failure through the tokio interface.
pub fn h_tokio_fault_read() {
    let v = sample(0);
    let stream = sym::flip();
    let s = Sched::error();
    let l = if stream {
        log_stream(stream::ZipFileReader::with_tokio(Src::new(v, s)), [0, 1, 1])
    } else {
        log_seek(run(seek::ZipFileReader::with_tokio(Src::new(v, s))))
    };
    let n = l.0.len();
    let last = n >= 2 && l.0[n - 2] == 0xFF && l.0[n - 1] == 0xE3;
    check!(F, !failed() || last); // the failure is what the caller gets
    sym::reach(if failed() { 1 } else { 2 });
}
