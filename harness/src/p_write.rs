//! Writing and reading back (P01, P02), structure of what is written (P03), precompressed data (P21), methods (P24).
use crate::oracle::*;
use crate::{check, io::*, sym};
use async_zip::base::read::{mem, seek};
use async_zip::base::write::{compress, ZipFileWriter};
use async_zip::*;
use futures_lite::io::{AsyncReadExt, AsyncWriteExt, Cursor};
use std::io::IoSlice;
const F: u32 = 4;

pub const METHODS: [(Compression, u16, u8); 7] = [
    (Compression::Stored, 0, 0),
    (Compression::Deflate, 8, 0xD8),
    (Compression::Bz, 12, 0xDC),
    (Compression::Lzma, 14, 0xDE),
    (Compression::Zstd, 93, 0x5D),
    (Compression::Xz, 95, 0x5F),
    (Compression::Deflate64, 9, 0xD9), // only precompressed
];

/// What one entry is supposed to be.
#[derive(Clone)]
pub struct Spec {
    pub name: ZipString,
    pub comment: ZipString,
    pub method: usize,
    pub iattr: u16,
    pub eattr: u32,
    pub date: u16,
    pub time: u16,
    pub data: Vec<u8>,
}

pub fn dos(date: u16, time: u16) -> ZipDateTime {
    ZipDateTimeBuilder::new()
        .year(1980 + (date >> 9) as i32)
        .month(((date >> 5) & 15) as u32)
        .day((date & 31) as u32)
        .hour((time >> 11) as u32)
        .minute(((time >> 5) & 63) as u32)
        .second(((time & 31) << 1) as u32)
        .build()
}

impl Spec {
    pub fn plain(name: &str, data: Vec<u8>) -> Spec {
        Spec { name: name.into(), comment: "".into(), method: 0, iattr: 0, eattr: 0, date: 0x21, time: 0, data }
    }
    pub fn entry(&self) -> ZipEntryBuilder {
        ZipEntryBuilder::new(self.name.clone(), METHODS[self.method].0)
            .comment(self.comment.clone())
            .internal_file_attribute(self.iattr)
            .external_file_attribute(self.eattr)
            .last_modification_date(dos(self.date, self.time))
    }
    /// Symbolic attributes and timestamp.
    pub fn attrs(mut self) -> Spec {
        self.iattr = sym::u16();
        self.eattr = sym::u32();
        self.date = sym::u16();
        self.time = sym::u16();
        self
    }
}

/// Symbolic text: `n` bytes, offered as UTF-8 or as raw bytes.
pub fn text(n: usize, raw: bool) -> ZipString {
    ZipString::new(sym::bytes(n), if raw { StringEncoding::Raw } else { StringEncoding::Utf8 })
}

pub fn same_text(got: &ZipString, want: &ZipString) -> bool {
    if !sym::same(got.as_bytes(), want.as_bytes()) {
        return false;
    }
    match (got.encoding(), want.encoding()) {
        (StringEncoding::Utf8, StringEncoding::Utf8) => true,
        (StringEncoding::Raw, StringEncoding::Raw) => true,
        // Raw bytes that are plain ASCII are presented as text when read.
        (StringEncoding::Utf8, StringEncoding::Raw) => got.as_bytes().is_ascii(),
        (StringEncoding::Raw, StringEncoding::Utf8) => false,
    }
}

/// Reads one entry completely through the in-memory reader, checked and unchecked.
pub fn mem_data(r: &mem::ZipFileReader, i: usize) -> Vec<u8> {
    let mut e = match run(r.reader_with_entry(i)) {
        Ok(e) => e,
        Err(_) => {
            check!(F, false); // entry opens
            return Vec::new();
        }
    };
    let mut v = Vec::new();
    let n = run(e.read_to_end_checked(&mut v));
    check!(F, matches!(n, Ok(n) if n == v.len())); // checked read succeeds
    let mut u = Vec::new();
    match run(r.reader_without_entry(i)) {
        Ok(mut e) => check!(F, run(e.read_to_end(&mut u)).is_ok()), // unchecked read succeeds
        Err(_) => check!(F, false), // entry opens without entry
    }
    check!(F, sym::same(&u, &v)); // checked and unchecked reads agree
    v
}

/// Everything a reader must report for the given entries.
pub fn expect_file(f: &ZipFile, specs: &[&Spec], comment: &[u8]) {
    check!(F, f.entries().len() == specs.len()); // number of entries
    check!(F, sym::same(f.comment().as_bytes(), comment)); // archive comment
    for (e, s) in f.entries().iter().zip(specs) {
        check!(F, same_text(e.filename(), &s.name)); // name
        check!(F, same_text(e.comment(), &s.comment)); // entry comment
        check!(F, e.compression() == METHODS[s.method].0); // method
        check!(F, e.internal_file_attribute() == s.iattr); // internal attributes
        check!(F, e.external_file_attribute() == s.eattr); // external attributes
        check!(F, *e.last_modification_date() == dos(s.date, s.time)); // timestamp
        check!(F, e.crc32() == crc32(&s.data)); // crc
        check!(F, e.uncompressed_size() == s.data.len() as u64); // uncompressed size
        let c = if s.method == 0 { s.data.len() } else { 3 + 2 * s.data.len() };
        check!(F, e.compressed_size() == c as u64); // compressed size
        check!(F, matches!(e.unix_permissions(), Some(m) if m == (s.eattr >> 16) as u16)); // permissions
    }
}

pub fn read_back_mem(v: Vec<u8>, specs: &[&Spec], comment: &[u8]) {
    let r = match run(mem::ZipFileReader::new(v)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // archive opens
            return;
        }
    };
    expect_file(r.file(), specs, comment);
    for (i, s) in specs.iter().enumerate() {
        check!(F, sym::same(&mem_data(&r, i), &s.data)); // data
    }
}

pub fn read_back_seek(v: Vec<u8>, specs: &[&Spec], comment: &[u8]) {
    let mut r = match run(seek::ZipFileReader::new(Cursor::new(v))) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // archive opens
            return;
        }
    };
    expect_file(r.file(), specs, comment);
    for (i, s) in specs.iter().enumerate() {
        let mut d = Vec::new();
        match run(r.reader_with_entry(i)) {
            Ok(mut e) => {
                check!(F, e.entry().crc32() == crc32(&s.data)); // entry of the reader
                check!(F, run(e.read_to_end_checked(&mut d)).is_ok()); // checked read succeeds
            }
            Err(_) => check!(F, false), // entry opens
        }
        check!(F, sym::same(&d, &s.data)); // data
        let mut d = Vec::new();
        match run(r.reader_without_entry(i)) {
            Ok(mut e) => check!(F, run(e.read_to_end(&mut d)).is_ok()), // unchecked read succeeds
            Err(_) => check!(F, false), // entry opens
        }
        check!(F, sym::same(&d, &s.data)); // data, again
    }
    let i = specs.len() - 1;
    let mut d = Vec::new();
    match run(r.into_entry(i)) {
        Ok(mut e) => check!(F, run(e.read_to_end(&mut d)).is_ok()), // owned read succeeds
        Err(_) => check!(F, false), // entry opens by value
    }
    check!(F, sym::same(&d, &specs[i].data)); // data, owned
}

/// How an archive is written.
#[derive(Clone, Copy, PartialEq)]
pub enum Z {
    Auto,
    Forced,
    Forbidden,
}

pub fn writer(z: Z) -> ZipFileWriter<Vec<u8>> {
    let w = ZipFileWriter::new(Vec::<u8>::with_capacity(512));
    match z {
        Z::Auto => w,
        Z::Forced => w.force_zip64(),
        Z::Forbidden => w.force_no_zip64(),
    }
}

pub fn put_whole(w: &mut ZipFileWriter<Vec<u8>>, s: &Spec) {
    check!(F, run(w.write_entry_whole(s.entry(), &s.data)).is_ok()); // whole entry accepted
}

/// Streams an entry in the given pieces, flushing after piece `flush`.
pub fn put_stream(w: &mut ZipFileWriter<Vec<u8>>, s: &Spec, cuts: &[usize], flush: Option<usize>) {
    let mut e = match run(w.write_entry_stream(s.entry())) {
        Ok(e) => e,
        Err(_) => {
            check!(F, false); // streamed entry accepted
            return;
        }
    };
    let mut at = 0;
    for (i, c) in cuts.iter().enumerate() {
        check!(F, run(e.write_all(&s.data[at..*c])).is_ok()); // piece accepted
        at = *c;
        if flush == Some(i) {
            check!(F, run(e.flush()).is_ok()); // flush accepted
        }
    }
    check!(F, run(e.write_all(&s.data[at..])).is_ok()); // rest accepted
    check!(F, run(e.close()).is_ok()); // streamed entry closes
}

/// Writes with vectored calls over the given cuts, trusting the counts returned.
pub fn put_vectored(w: &mut ZipFileWriter<Vec<u8>>, s: &Spec, a: usize, b: usize) {
    let mut e = match run(w.write_entry_stream(s.entry())) {
        Ok(e) => e,
        Err(_) => {
            check!(F, false); // streamed entry accepted
            return;
        }
    };
    let mut at = 0;
    while at < s.data.len() {
        let (x, y) = (a.max(at), b.max(at));
        let io = [IoSlice::new(&s.data[at..x]), IoSlice::new(&s.data[x..y]), IoSlice::new(&s.data[y..])];
        match run(e.write_vectored(&io)) {
            Ok(n) => {
                check!(F, n > 0 && n <= s.data.len() - at); // a count of what was offered
                at += n;
            }
            Err(_) => check!(F, false), // accepted
        }
    }
    check!(F, run(e.close()).is_ok()); // streamed entry closes
}

pub fn finish(w: ZipFileWriter<Vec<u8>>) -> Vec<u8> {
    match run(w.close()) {
        Ok(v) => v,
        Err(_) => {
            check!(F, false); // archive closes
            Vec::new()
        }
    }
}

/// Compares strictly parsed records with what was written.
pub fn expect_recs(a: &Arch, specs: &[(&Spec, bool)], z: Z) {
    check!(F, a.recs.len() == specs.len()); // number of records
    let mut any64 = z == Z::Forced;
    for (r, (s, streamed)) in a.recs.iter().zip(specs) {
        check!(F, r.made >> 8 == 3); // made by Unix
        let utf8 = matches!(s.name.encoding(), StringEncoding::Utf8) && matches!(s.comment.encoding(), StringEncoding::Utf8);
        let want = if *streamed { 8 } else { 0 } | if utf8 { 0x800 } else { 0 };
        check!(F, r.flags == want); // flags
        check!(F, r.method == METHODS[s.method].1); // method id
        check!(F, r.time == s.time && r.date == s.date); // timestamp
        check!(F, r.crc == crc32(&s.data)); // crc of the data
        check!(F, r.usize_ == s.data.len() as u64); // uncompressed size
        check!(F, sym::same(&r.name, s.name.as_bytes())); // name
        check!(F, sym::same(&r.comment, s.comment.as_bytes())); // comment
        check!(F, r.iattr == s.iattr && r.eattr == s.eattr); // attributes
        let need = [10u16, 20, 46, 63, 10, 10][s.method].max(if utf8_dir(&s.name) { 20 } else { 10 });
        let want = need.max(if r.zip64 { 45 } else { 10 });
        check!(F, r.need == want || s.method > 3 && r.need > want && r.need <= 63); // version needed
        let want = need.max(if r.lzip64 { 45 } else { 10 });
        check!(F, r.lneed == want || s.method > 3 && r.lneed > want && r.lneed <= 63); // version needed in the local header
        if s.method == 0 {
            check!(F, sym::same(&r.data, &s.data)); // stored data verbatim
        } else {
            check!(F, sym::same(&r.data, &toy(METHODS[s.method].2, 3, &s.data))); // encoded data
        }
        any64 |= r.zip64;
        if z == Z::Forbidden || !*streamed {
            check!(F, !r.zip64); // no needless zip64 field
        }
    }
    check!(F, a.zip64 == any64); // zip64 end records exactly when needed or forced
}

fn utf8_dir(n: &ZipString) -> bool {
    matches!(n.encoding(), StringEncoding::Utf8) && n.as_bytes().last() == Some(&b'/')
}

// ------------------------------------------------------------------------------------------------------------- P01

/// One entry: symbolic metadata, 0 to 3 symbolic data bytes, any method, mem reader.
pub fn h_whole_mem() {
    let method = sym::pick(6);
    let n = sym::pick(4);
    let mut s = Spec::plain("ab", sym::bytes(n)).attrs();
    s.method = method;
    let mut w = writer(Z::Auto);
    put_whole(&mut w, &s);
    let v = finish(w);
    sym::observe_bytes(&v);
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

/// As above through the seekable reader.
pub fn h_whole_seek() {
    let method = sym::pick(6);
    let n = sym::pick(3);
    let mut s = Spec::plain("ab", sym::bytes(n)).attrs();
    s.method = method;
    let mut w = writer(Z::Auto);
    put_whole(&mut w, &s);
    let v = finish(w);
    read_back_seek(v, &[&s], b"");
    sym::reach(1);
}

/// Names and comments: symbolic bytes, both encodings, symbolic archive comment.
pub fn h_whole_text() {
    let raw = sym::pick(4);
    let nn = sym::pick(4);
    let nc = sym::pick(3);
    let mut s = Spec::plain("", sym::bytes(sym::pick(3)));
    s.name = text(nn, raw & 1 == 1);
    s.comment = text(nc, raw & 2 == 2);
    let mut w = writer(Z::Auto);
    put_whole(&mut w, &s);
    let v = finish(w);
    sym::observe_bytes(&v);
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

/// Three entries in sequence with different sizes and methods, archive comment, all zip64 modes.
pub fn h_whole_many() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let n = sym::pick(4);
    let nc = sym::pick(3);
    let m = sym::pick(3);
    let mut s: Vec<Spec> = Vec::new();
    for i in 0..n {
        let mut x = Spec::plain(["a", "bcd/", "e.f"][i], sym::bytes([2, 0, 3][i])).attrs();
        x.method = (i * m) % 6;
        x.comment = ["", "cc", "d"][i].into();
        s.push(x);
    }
    let mut c = sym::bytes(nc);
    for b in c.iter_mut() {
        *b &= 0x7f;
    }
    let mut w = writer(z);
    if m > 0 {
        w.comment("before".into()); // replaced by one set later
    }
    if m < 2 {
        w.comment(String::from_utf8(c.clone()).unwrap());
    }
    for x in s.iter() {
        put_whole(&mut w, x);
    }
    if m == 2 {
        w.comment(String::from_utf8(c.clone()).unwrap());
    }
    let v = finish(w);
    sym::observe_bytes(&v);
    let refs: Vec<&Spec> = s.iter().collect();
    read_back_mem(v.clone(), &refs, &c);
    if n > 0 {
        read_back_seek(v, &refs, &c);
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}

/// Size classes: contents, names and comments of lengths around internal boundaries, symbolic at the end.
pub fn h_whole_sizes() {
    let d = [127usize, 256, 1025, 2049, 4099][sym::pick(5)];
    let n = [1usize, 127, 128, 255, 256, 300][sym::pick(6)];
    let mut data = ramp(d);
    data[d - 1] = sym::u8();
    let name = "n".repeat(n);
    let mut s = Spec::plain(&name, data).attrs();
    s.comment = "c".repeat(513 - n).as_str().into();
    let mut w = writer(Z::Auto);
    put_whole(&mut w, &s);
    let v = finish(w);
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

const BIG: [usize; 4] = [65535, 65536, 65537, 131073];

/// Contents around 64 KiB, stored or coded, in an archive with a second entry.
pub fn h_whole_big() {
    let d = BIG[sym::pick(4)];
    let mut data = ramp(d);
    data[d - 1] = sym::u8();
    let mut s = Spec::plain("big", data).attrs();
    s.method = if d == 65536 { sym::pick(2) } else { 0 };
    let t = Spec::plain("t", sym::bytes(1));
    let mut w = writer(Z::Auto);
    put_whole(&mut w, &s);
    put_whole(&mut w, &t);
    let v = finish(w);
    read_back_seek(v, &[&s, &t], b"");
    sym::reach(1);
}

// ------------------------------------------------------------------------------------------------------------- P02

fn zmode(i: usize) -> Z {
    [Z::Auto, Z::Forced, Z::Forbidden][i]
}

/// One streamed entry: every split of up to five symbolic bytes into three writes, with a flush anywhere or nowhere.
/// The archive equals that of a single write, and reads back.
pub fn h_stream_split() {
    let z = zmode(sym::pick(3));
    let method = sym::pick(6);
    let n = sym::pick(6);
    let a = sym::pick(n as u8 + 1);
    let b = sym::pick(n as u8 + 1);
    sym::assume(a <= b);
    let fl = sym::pick(3);
    let mut s = Spec::plain("ab", sym::bytes(n)).attrs();
    s.method = method;
    let mut w = writer(z);
    put_stream(&mut w, &s, &[a, b], if fl == 2 { None } else { Some(fl) });
    let v = finish(w);
    sym::observe_bytes(&v);
    let mut w = writer(z);
    put_stream(&mut w, &s, &[], None);
    let u = finish(w);
    check!(F, sym::same(&v, &u)); // independent of the split
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

/// The same with vectored writes of three buffers, any of them empty.
pub fn h_stream_vectored() {
    let z = zmode(sym::pick(3));
    let method = sym::pick(6);
    let n = sym::pick(6);
    let a = sym::pick(n as u8 + 1);
    let b = sym::pick(n as u8 + 1);
    sym::assume(a <= b);
    let mut s = Spec::plain("ab", sym::bytes(n)).attrs();
    s.method = method;
    let mut w = writer(z);
    put_vectored(&mut w, &s, a, b);
    let v = finish(w);
    let mut w = writer(z);
    put_stream(&mut w, &s, &[], None);
    let u = finish(w);
    check!(F, sym::same(&v, &u)); // independent of the split
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

/// Up to three entries, each whole or streamed, all zip64 modes; both readers.
pub fn h_stream_mix() {
    let z = zmode(sym::pick(3));
    let n = 1 + sym::pick(3);
    let kinds = sym::pick(8);
    let m = sym::pick(6);
    let mut s: Vec<Spec> = Vec::new();
    for i in 0..n {
        let mut x = Spec::plain(["a", "bcd/", "e.f"][i], sym::bytes([2, 0, 3][i])).attrs();
        x.method = if i == 1 { 0 } else { (m + i) % 6 };
        x.comment = ["k", "", "dd"][i].into();
        s.push(x);
    }
    let mut w = writer(z);
    w.comment("zz".into());
    for (i, x) in s.iter().enumerate() {
        if kinds >> i & 1 == 1 {
            put_stream(&mut w, x, &[1.min(x.data.len())], None);
        } else {
            put_whole(&mut w, x);
        }
    }
    let v = finish(w);
    sym::observe_bytes(&v);
    let refs: Vec<&Spec> = s.iter().collect();
    read_back_mem(v.clone(), &refs, b"zz");
    read_back_seek(v, &refs, b"zz");
    sym::reach(1);
}

/// Names, comments and encodings of a streamed entry.
pub fn h_stream_text() {
    let z = zmode(2 * sym::pick(2));
    let raw = sym::pick(4);
    let nn = sym::pick(3);
    let nc = sym::pick(3);
    let mut s = Spec::plain("", sym::bytes(1));
    s.name = text(nn, raw & 1 == 1);
    s.comment = text(nc, raw & 2 == 2);
    let mut w = writer(z);
    put_stream(&mut w, &s, &[], None);
    let v = finish(w);
    sym::observe_bytes(&v);
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

/// Size classes for streamed data, in pieces around internal boundaries, symbolic at the end.
pub fn h_stream_sizes() {
    let z = zmode(2 * sym::pick(2));
    let d = [127usize, 256, 1025, 2049, 4099, 8193][sym::pick(6)];
    let cut = [0usize, 1, 127, 128, 1024][sym::pick(5)];
    let method = sym::pick(2);
    let mut data = ramp(d);
    data[d - 1] = sym::u8();
    let mut s = Spec::plain("big", data).attrs();
    s.method = method;
    let mut w = writer(z);
    put_stream(&mut w, &s, &[cut.min(d)], Some(0));
    let v = finish(w);
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

/// Contents streamed in many small writes, flushed every so often.
pub fn h_stream_writes() {
    let z = zmode(2 * sym::pick(2));
    let d = [5usize, 9, 17, 33, 65, 129, 257, 300, 1025][sym::pick(9)];
    let piece = [1usize, 2, 3][sym::pick(3)];
    let every = [0usize, 1, 4][sym::pick(3)];
    let mut data = ramp(d);
    data[d - 1] = sym::u8();
    let mut s = Spec::plain("big", data);
    s.method = sym::pick(2);
    let mut w = writer(z);
    match run(w.write_entry_stream(s.entry())) {
        Ok(mut e) => {
            let mut at = 0;
            let mut k = 0;
            while at < d {
                let n = piece.min(d - at);
                check!(F, run(e.write_all(&s.data[at..at + n])).is_ok()); // piece accepted
                at += n;
                k += 1;
                if every > 0 && k % every == 0 {
                    check!(F, run(e.flush()).is_ok()); // flush accepted
                }
            }
            check!(F, run(e.close()).is_ok()); // streamed entry closes
        }
        Err(_) => check!(F, false), // streamed entry accepted
    }
    let v = finish(w);
    sym::observe(v.len() as u64);
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

/// Streamed contents around 64 KiB, stored or coded, in one or two pieces, with a second entry.
pub fn h_stream_big() {
    let d = BIG[sym::pick(4)];
    let mut data = ramp(d);
    data[d - 1] = sym::u8();
    let mut s = Spec::plain("big", data).attrs();
    s.method = if d == 65536 { sym::pick(2) } else { 0 };
    let t = Spec::plain("t", sym::bytes(1));
    let mut w = writer([Z::Auto, Z::Forbidden][sym::pick(2)]);
    put_stream(&mut w, &s, &[[0usize, 32768][sym::pick(2)]], None);
    put_stream(&mut w, &t, &[], None);
    let v = finish(w);
    read_back_mem(v, &[&s, &t], b"");
    sym::reach(1);
}

/// Writing piece by piece through `write`, trusting only the counts it returns.
pub fn h_stream_counts() {
    let z = zmode(2 * sym::pick(2));
    let method = sym::pick(2);
    let n = 1 + sym::pick(4);
    let mut s = Spec::plain("ab", sym::bytes(n));
    s.method = method;
    let mut w = writer(z);
    let mut done = Vec::new();
    match run(w.write_entry_stream(s.entry())) {
        Ok(mut e) => {
            let mut at = 0;
            while at < n {
                match run(e.write(&s.data[at..])) {
                    Ok(k) => {
                        check!(F, k > 0 && k <= n - at); // progress
                        done.extend_from_slice(&s.data[at..at + k]);
                        at += k;
                    }
                    Err(_) => check!(F, false), // write accepted
                }
            }
            check!(F, run(e.close()).is_ok()); // closes
        }
        Err(_) => check!(F, false), // accepted
    }
    let v = finish(w);
    read_back_mem(v, &[&s], b"");
    sym::reach(1);
}

// ------------------------------------------------------------------------------------------------------------- P03

/// Structure of up to three entries, whole or streamed, all modes and methods, symbolic metadata and data.
pub fn h_struct_mix() {
    let z = zmode(sym::pick(3));
    let n = sym::pick(4);
    let kinds = sym::pick(1 << n);
    let m = if n == 0 { 0 } else { sym::pick(6) };
    let nc = sym::pick(3);
    let mut s: Vec<Spec> = Vec::new();
    for i in 0..n {
        let mut x = Spec::plain(["a", "bcd/", "e.f"][i], sym::bytes([2, 0, 3][i])).attrs();
        x.method = (m + i) % 6;
        x.comment = ["k", "", "dd"][i].into();
        s.push(x);
    }
    let mut w = writer(z);
    if nc > 0 {
        w.comment("zzz"[..nc].into());
    }
    for (i, x) in s.iter().enumerate() {
        if kinds >> i & 1 == 1 {
            put_stream(&mut w, x, &[1.min(x.data.len())], None);
        } else {
            put_whole(&mut w, x);
        }
    }
    let v = finish(w);
    sym::observe_bytes(&v);
    let a = strict(&v, nc);
    check!(F, sym::same(&v[v.len() - nc..], &b"zzz"[..nc])); // archive comment bytes
    let specs: Vec<(&Spec, bool)> = s.iter().enumerate().map(|(i, x)| (x, kinds >> i & 1 == 1)).collect();
    expect_recs(&a, &specs, z);
    sym::reach(1);
}

/// Many entries, of which some are streamed; the last with symbolic contents and attributes.
fn many(n: usize) -> Vec<Spec> {
    let name = |i: usize| [b'a' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i / 676) as u8];
    let mut s: Vec<Spec> = (0..n - 1).map(|i| Spec::plain(std::str::from_utf8(&name(i)).unwrap(), vec![i as u8; i % 3])).collect();
    s.push(Spec::plain("last", sym::bytes(2)).attrs());
    s
}
/// Archives of numbers of entries around powers of two, whole and streamed.
pub fn h_struct_count() {
    let z = zmode(2 * sym::pick(2));
    let s = many([127usize, 128, 255, 256, 257, 1025][sym::pick(6)]);
    let mut w = writer(z);
    for (i, x) in s.iter().enumerate() {
        if i % 5 == 1 {
            put_stream(&mut w, x, &[], None);
        } else {
            put_whole(&mut w, x);
        }
    }
    let v = finish(w);
    sym::observe(v.len() as u64);
    let a = strict(&v, 0);
    let specs: Vec<(&Spec, bool)> = s.iter().enumerate().map(|(i, x)| (x, i % 5 == 1)).collect();
    expect_recs(&a, &specs, z);
    sym::reach(1);
}
/// Archives of numbers of entries around powers of two, written and read back.
pub fn h_whole_count() {
    let s = many([128usize, 256, 257, 1025][sym::pick(4)]);
    let mut w = writer(Z::Auto);
    for x in s.iter() {
        put_whole(&mut w, x);
    }
    let v = finish(w);
    sym::observe(v.len() as u64);
    let refs: Vec<&Spec> = s.iter().collect();
    if sym::flip() {
        read_back_mem(v, &refs, b"");
    } else {
        read_back_seek(v, &refs, b"");
    }
    sym::reach(1);
}
/// The same, streamed.
pub fn h_stream_count() {
    let s = many([128usize, 256, 257, 1025][sym::pick(4)]);
    let z = zmode(2 * sym::pick(2));
    let mut w = writer(z);
    for x in s.iter() {
        put_stream(&mut w, x, &[1.min(x.data.len())], None);
    }
    let v = finish(w);
    sym::observe(v.len() as u64);
    let refs: Vec<&Spec> = s.iter().collect();
    if sym::flip() {
        read_back_mem(v, &refs, b"");
    } else {
        read_back_seek(v, &refs, b"");
    }
    sym::reach(1);
}

/// Structure for symbolic names and comments in both encodings.
pub fn h_struct_text() {
    let z = zmode(2 * sym::pick(2));
    let streamed = sym::flip();
    let raw = sym::pick(4);
    let nn = sym::pick(4);
    let nc = sym::pick(3);
    let mut s = Spec::plain("", sym::bytes(1));
    s.name = text(nn, raw & 1 == 1);
    s.comment = text(nc, raw & 2 == 2);
    let mut w = writer(z);
    if streamed {
        put_stream(&mut w, &s, &[], None);
    } else {
        put_whole(&mut w, &s);
    }
    let v = finish(w);
    sym::observe_bytes(&v);
    let a = strict(&v, 0);
    expect_recs(&a, &[(&s, streamed)], z);
    sym::reach(1);
}

/// Structure at size classes of names, comments and data.
pub fn h_struct_sizes() {
    let z = zmode(2 * sym::pick(2));
    let streamed = sym::flip();
    let n = [1usize, 127, 255, 256, 1000, 4096][sym::pick(6)];
    let c = [0usize, 255, 256, 3000][sym::pick(4)];
    let d = [0usize, 255, 256, 4097][sym::pick(4)];
    let mut s = Spec::plain(&"n".repeat(n), ramp(d)).attrs();
    s.comment = "c".repeat(c).as_str().into();
    let t = Spec::plain("t", sym::bytes(1));
    let mut w = writer(z);
    w.comment("z".repeat(c));
    if streamed {
        put_stream(&mut w, &s, &[], None);
    } else {
        put_whole(&mut w, &s);
    }
    put_whole(&mut w, &t);
    let v = finish(w);
    let a = strict(&v, c);
    expect_recs(&a, &[(&s, streamed), (&t, false)], z);
    sym::reach(1);
}

// ------------------------------------------------------------------------------------------------------------- P21

fn pre(w: &mut ZipFileWriter<Vec<u8>>, e: ZipEntryBuilder, d: &[u8], streamed: bool, cut: usize) {
    if streamed {
        match run(w.write_entry_stream_precompressed(e)) {
            Ok(mut s) => {
                check!(F, run(s.write_all(&d[..cut])).is_ok()); // first piece accepted
                check!(F, run(s.write_all(&d[cut..])).is_ok()); // second piece accepted
                check!(F, run(s.close()).is_ok()); // closes
            }
            Err(_) => check!(F, false), // accepted
        }
    } else {
        check!(F, run(w.write_entry_whole_precompressed(e, d)).is_ok()); // accepted
    }
}

/// Arbitrary bytes with arbitrary declared CRC and size: written verbatim, values recorded as declared.
pub fn h_pre_verbatim() {
    let z = zmode(2 * sym::pick(2));
    let streamed = sym::flip();
    let method = sym::pick(7);
    let n = sym::pick(5);
    let cut = if streamed { sym::pick(n as u8 + 1) } else { 0 };
    let mut s = Spec::plain("ab", sym::bytes(n)).attrs();
    s.method = method;
    let crc = sym::u32();
    let us = if z == Z::Auto { sym::u64() } else { sym::u32() as u64 };
    sym::assume(z == Z::Auto || us < 0xFFFF_FFFF);
    let decl = sym::u64(); // a declared compressed size must not matter
    sym::assume(z == Z::Auto || decl < 0xFFFF_FFFF);
    let e = s.entry().crc32(crc).uncompressed_size(us).compressed_size(decl);
    let mut w = writer(z);
    pre(&mut w, e, &s.data, streamed, cut);
    let v = finish(w);
    sym::observe_bytes(&v);
    let a = strict(&v, 0);
    check!(F, a.recs.len() == 1); // one record
    let r = &a.recs[0];
    check!(F, r.method == METHODS[method].1); // declared method
    check!(F, r.crc == crc); // declared crc
    check!(F, r.usize_ == us); // declared size
    check!(F, r.csize == n as u64); // actual compressed size
    check!(F, sym::same(&r.data, &s.data)); // bytes verbatim
    check!(F, r.time == s.time && r.date == s.date && r.iattr == s.iattr && r.eattr == s.eattr); // metadata
    match run(mem::ZipFileReader::new(v)) {
        Ok(rd) => {
            let e = &rd.file().entries()[0];
            check!(F, e.crc32() == crc && e.uncompressed_size() == us && e.compressed_size() == n as u64); // as read
            check!(F, e.compression() == METHODS[method].0); // method as read
        }
        Err(_) => check!(F, false), // opens
    }
    sym::reach(1);
}

/// Entries of the same name, with the same or different contents, or none.
pub fn h_struct_same() {
    let z = zmode(sym::pick(2));
    let kinds = sym::pick(8);
    let sizes = sym::pick(8);
    let method = sym::pick(2);
    let mut s: Vec<Spec> = Vec::new();
    for i in 0..3 {
        let mut x = Spec::plain("n", sym::bytes(sizes >> i & 1)).attrs();
        x.method = method;
        s.push(x);
    }
    let mut w = writer(z);
    for (i, x) in s.iter().enumerate() {
        if kinds >> i & 1 == 1 {
            put_stream(&mut w, x, &[], None);
        } else {
            put_whole(&mut w, x);
        }
    }
    let v = finish(w);
    sym::observe_bytes(&v);
    let a = strict(&v, 0);
    let specs: Vec<(&Spec, bool)> = s.iter().enumerate().map(|(i, x)| (x, kinds >> i & 1 == 1)).collect();
    expect_recs(&a, &specs, z);
    read_back_mem(v, &[&s[0], &s[1], &s[2]], b"");
    sym::reach(1);
}

/// Structure of an archive with a precompressed entry, whole or streamed, before or after another entry.
pub fn h_struct_pre() {
    let z = zmode(2 * sym::pick(2));
    let streamed = sym::flip();
    let first = sym::flip();
    let other = sym::pick(2);
    let method = sym::pick(7);
    let n = sym::pick(3);
    let mut s = Spec::plain(["ab", "ab/"][sym::pick(2)], sym::bytes(n)).attrs();
    s.method = method;
    let crc = sym::u32();
    let us = if z == Z::Auto { sym::u64() } else { sym::u32() as u64 };
    sym::assume(z == Z::Auto || us < 0xFFFF_FFFF);
    let t = Spec::plain("t", sym::bytes(1));
    let mut w = writer(z);
    for k in 0..2 {
        if first == (k == 0) {
            pre(&mut w, s.entry().crc32(crc).uncompressed_size(us), &s.data, streamed, n / 2);
        } else if other == 0 {
            put_whole(&mut w, &t);
        } else {
            put_stream(&mut w, &t, &[], None);
        }
    }
    let v = finish(w);
    sym::observe_bytes(&v);
    let a = strict(&v, 0);
    check!(F, a.recs.len() == 2); // two records
    let r = &a.recs[!first as usize];
    check!(F, r.made >> 8 == 3); // made by Unix
    check!(F, r.flags == 0x800 | if streamed { 8 } else { 0 }); // flags
    check!(F, r.method == METHODS[method].1 && r.crc == crc && r.usize_ == us && r.csize == n as u64); // as declared
    check!(F, sym::same(&r.data, &s.data) && sym::same(&r.name, s.name.as_bytes())); // verbatim
    let need = [10u16, 20, 46, 63, 10, 10, 21][method].max(if s.name.as_bytes().len() == 3 { 20 } else { 10 });
    let want = need.max(if r.zip64 { 45 } else { 10 });
    check!(F, r.need == want || method > 3 && r.need > want && r.need <= 63); // version needed
    let want = need.max(if r.lzip64 { 45 } else { 10 });
    check!(F, r.lneed == want || method > 3 && r.lneed > want && r.lneed <= 63); // version needed in the local header
    let t64 = z == Z::Auto && other == 1;
    check!(F, r.zip64 == (z == Z::Auto && (streamed || us >= 0xFFFF_FFFF))); // a zip64 field where needed
    check!(F, a.zip64 == (r.zip64 || t64)); // zip64 end records exactly when needed
    sym::reach(1);
}

/// Properly encoded data: reading decodes it, and verifies against the declared CRC, right or wrong.
pub fn h_pre_decode() {
    let z = zmode(2 * sym::pick(2));
    let streamed = sym::flip();
    let method = sym::pick(7);
    let n = sym::pick(4);
    let mut s = Spec::plain("ab", sym::bytes(n));
    s.method = method;
    let level = sym::u8();
    let d = if method == 0 { s.data.clone() } else { toy(METHODS[method].2, level, &s.data) };
    let crc = sym::u32();
    let e = s.entry().crc32(crc).uncompressed_size(n as u64);
    let mut w = writer(z);
    pre(&mut w, e, &d, streamed, d.len() / 2);
    let v = finish(w);
    match run(mem::ZipFileReader::new(v)) {
        Ok(rd) => {
            let mut got = Vec::new();
            match run(rd.reader_with_entry(0)) {
                Ok(mut e) => match run(e.read_to_end_checked(&mut got)) {
                    Ok(k) => {
                        check!(F, k == n && crc == crc32(&s.data)); // verified only against the declared crc
                        sym::reach(1);
                    }
                    Err(error::ZipError::CRC32CheckError) => {
                        check!(F, crc != crc32(&s.data)); // refused only for a wrong crc
                        sym::reach(2);
                    }
                    Err(_) => check!(F, false), // no other failure
                },
                Err(_) => check!(F, false), // entry opens
            }
            check!(F, sym::same(&got, &s.data)); // decoded
        }
        Err(_) => check!(F, false), // opens
    }
}

/// The public `compress` and `crc32` helpers together with precompressed writing behave like whole writing.
pub fn h_pre_helpers() {
    let method = 1 + sym::pick(5);
    let n = sym::pick(4);
    let mut s = Spec::plain("ab", sym::bytes(n)).attrs();
    s.method = method;
    let e: ZipEntry = s.entry().build();
    let d = run(compress(&e, &s.data));
    let crc = async_zip::base::write::crc32(&s.data);
    check!(F, crc == crc32(&s.data)); // crc helper
    let mut w = writer(Z::Auto);
    pre(&mut w, ZipEntryBuilder::from(e).crc32(crc).uncompressed_size(n as u64), &d, false, 0);
    let v = finish(w);
    let mut w = writer(Z::Auto);
    put_whole(&mut w, &s);
    let u = finish(w);
    check!(F, sym::same(&u, &v)); // same archive
    sym::reach(1);
}

// ------------------------------------------------------------------------------------------------------------- P24

/// Method ids, encoder selection and level, whole and streamed.
pub fn h_method_write() {
    let method = sym::pick(6);
    let streamed = sym::flip();
    let opt = sym::pick(5);
    let n = [0usize, 1, 2, 5, 700][sym::pick(5)];
    let mut d = ramp(n);
    for b in d.iter_mut().take(3) {
        *b = sym::u8();
    }
    let mut s = Spec::plain(["ab", "ab/"][sym::pick(2)], d).attrs();
    s.method = method;
    let lv = sym::u8() as i32;
    sym::assume(lv < 0x80);
    let o = match opt {
        0 => DeflateOption::Normal,
        1 => DeflateOption::Maximum,
        2 => DeflateOption::Fast,
        3 => DeflateOption::Super,
        _ => DeflateOption::Other(lv),
    };
    let e = s.entry().deflate_option(o);
    let mut w = writer(Z::Auto);
    if streamed {
        match run(w.write_entry_stream(e)) {
            Ok(mut x) => {
                check!(F, run(x.write_all(&s.data)).is_ok()); // data accepted
                check!(F, run(x.close()).is_ok()); // closes
            }
            Err(_) => check!(F, false), // accepted
        }
    } else {
        check!(F, run(w.write_entry_whole(e, &s.data)).is_ok()); // accepted
    }
    let v = finish(w);
    sym::observe_bytes(&v);
    let a = strict(&v, 0);
    check!(F, a.recs.len() == 1 && a.recs[0].method == METHODS[method].1); // standard id
    let d = &a.recs[0].data;
    if method == 0 {
        check!(F, sym::same(d, &s.data)); // verbatim
    } else {
        check!(F, d.len() == 3 + 2 * n); // encoded length
        let level = if opt == 4 { lv as u8 | 0x80 } else { d[1] };
        check!(F, streamed || opt == 4 || d[1] & 0x80 == 0); // no precise level unless asked for
        let level = if streamed { d[1] } else { level };
        check!(F, sym::same(d, &toy(METHODS[method].2, level, &s.data))); // that method's encoder and level
    }
    sym::reach(1);
}

/// Decoder selection from the id, all readers, including Deflate64.
pub fn h_method_read() {
    let ids = [(0u16, 0u8), (8, 0xD8), (9, 0xD9), (12, 0xDC), (14, 0xDE), (93, 0x5D), (95, 0x5F)];
    let m = sym::pick(7);
    let n = sym::pick(3);
    let which = sym::pick(3);
    let data = sym::bytes(n);
    let enc = if m == 0 { data.clone() } else { toy(ids[m].1, sym::u8(), &data) };
    let mut e = Ent::plain(b"ab", &data);
    e.method = ids[m].0;
    e.csize = enc.len() as u32;
    let v = archive(&mut [(e, enc)], b"");
    let mut got = Vec::new();
    let names = [
        Compression::Stored,
        Compression::Deflate,
        Compression::Deflate64,
        Compression::Bz,
        Compression::Lzma,
        Compression::Zstd,
        Compression::Xz,
    ];
    match which {
        0 => match run(mem::ZipFileReader::new(v)) {
            Ok(r) => {
                check!(F, r.file().entries()[0].compression() == names[m]); // method
                match run(r.reader_without_entry(0)) {
                    Ok(mut e) => check!(F, run(e.read_to_end(&mut got)).is_ok()), // decodes
                    Err(_) => check!(F, false), // opens
                }
            }
            Err(_) => check!(F, false), // opens
        },
        1 => match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(mut r) => {
                check!(F, r.file().entries()[0].compression() == names[m]); // method
                match run(r.reader_with_entry(0)) {
                    Ok(mut e) => check!(F, run(e.read_to_end_checked(&mut got)).is_ok()), // decodes
                    Err(_) => check!(F, false), // opens
                }
            }
            Err(_) => check!(F, false), // opens
        },
        _ => match run(async_zip::base::read::stream::ZipFileReader::new(Cursor::new(v)).next_with_entry()) {
            Ok(Some(mut r)) => {
                check!(F, r.reader().entry().compression() == names[m]); // method
                check!(F, run(r.reader_mut().read_to_end_checked(&mut got)).is_ok()); // decodes
            }
            _ => check!(F, false), // opens
        },
    }
    check!(F, sym::same(&got, &data)); // decoded by that method's decoder
    sym::reach(1);
}
