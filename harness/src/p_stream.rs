//! The stream reader: iteration (P14), data descriptors and refusals (P15).
use crate::oracle::*;
use crate::p_write::{dos, finish, put_stream, put_whole, writer, Spec, METHODS, Z};
use crate::{check, io::*, sym};
use async_zip::base::read::stream;
use async_zip::error::ZipError;
use async_zip::*;
use futures_lite::io::AsyncReadExt;
const F: u32 = 9;

type Ready = stream::ZipFileReader<stream::Ready<Src>>;

fn open(v: Vec<u8>) -> Ready {
    stream::ZipFileReader::new(Src::new(v, Sched::NONE))
}
/// A source that delivers everything at once, or at most `n` bytes at a time.
fn open_capped(v: Vec<u8>, n: usize) -> Ready {
    stream::ZipFileReader::new(Src::new(v, Sched::capped(if sym::flip() { n } else { 0 })))
}

/// Everything a local header says, as far as an entry can say it.
fn same_entry(e: &ZipEntry, h: &Ent, c: Compression, size: (u64, u64)) {
    check!(F, sym::same(e.filename().as_bytes(), &h.name)); // name
    check!(F, e.compression() == c); // method
    check!(F, e.crc32() == h.crc); // crc
    check!(F, e.compressed_size() == size.0); // compressed size
    check!(F, e.uncompressed_size() == size.1); // uncompressed size
    check!(F, *e.last_modification_date() == dos(h.date, h.time)); // timestamp
}

/// Reads `n` bytes (or to the end); returns what was read.
fn read<R: futures_lite::io::AsyncRead + Unpin>(r: &mut R, n: usize) -> Vec<u8> {
    let mut d = Vec::with_capacity(16);
    while d.len() < n {
        let mut b = [0u8; 3];
        let want = if n - d.len() < 3 { n - d.len() } else { 3 };
        match run(r.read(&mut b[..want])) {
            Ok(0) => break,
            Ok(k) => d.extend_from_slice(&b[..k]),
            Err(_) => {
                check!(F, false); // reading works
                break;
            }
        }
    }
    d
}

/// One step of a history over the entry `h` with contents `want`: read it completely, partly, or not at all; then finish
/// or skip.  Returns the reader for the next entry, or nothing after a refusal.
fn step(r: Ready, h: &Ent, want: &[u8], c: Compression, how: usize, with: bool) -> Option<Ready> {
    let amount = [want.len(), 1, 0][how % 3].min(want.len());
    let skip = how >= 3;
    let complete = amount == want.len();
    let next = if with {
        let mut e = match run(r.next_with_entry()) {
            Ok(Some(e)) => e,
            _ => {
                check!(F, false); // there is another entry
                return None;
            }
        };
        same_entry(e.reader().entry(), h, c, (h.csize as u64, h.usize_ as u64));
        let d = read(e.reader_mut(), amount);
        check!(F, sym::same(&d, &want[..amount])); // its data
        if how == 0 {
            check!(F, e.reader_mut().compute_hash() == crc32(want)); // hash of the data
        }
        if skip { run(e.skip()) } else { run(e.done()) }
    } else {
        let mut e = match run(r.next_without_entry()) {
            Ok(Some(e)) => e,
            _ => {
                check!(F, false); // there is another entry
                return None;
            }
        };
        let d = read(e.reader_mut(), amount);
        check!(F, sym::same(&d, &want[..amount])); // its data
        if skip { run(e.skip()) } else { run(e.done()) }
    };
    match next {
        Ok(r) => {
            check!(F, skip || complete); // not finished before everything is read
            Some(r)
        }
        Err(e) => {
            check!(F, !skip && !complete && matches!(e, ZipError::EOFNotReached)); // refused only then, with this error
            sym::reach(2);
            None
        }
    }
}

fn end(r: Ready, with: bool) {
    let end = if with { run(r.next_with_entry()).map(|e| e.is_none()) } else { run(r.next_without_entry()).map(|e| e.is_none()) };
    check!(F, matches!(end, Ok(true))); // the end is reported at the directory
}

/// An entry as it lies in the file: header, coded bytes (with descriptor), contents.
struct Item {
    h: Ent,
    coded: Vec<u8>,
    data: Vec<u8>,
    c: Compression,
}

/// `method` indexes METHODS; `dd`: 0 no descriptor, 1 with signature, 2 without.
fn item(name: &[u8], data: Vec<u8>, method: usize, dd: usize) -> Item {
    let (c, id, tag) = METHODS[method];
    let mut h = Ent::plain(name, &data);
    h.method = id;
    let mut coded = if method == 0 { data.clone() } else { toy(tag, 3, &data) };
    h.csize = coded.len() as u32;
    h.usize_ = data.len() as u32;
    if dd > 0 {
        if dd == 1 {
            p32(&mut coded, DD);
        } else {
            sym::assume(h.crc != DD); // ambiguous by design of the format
        }
        let crc = h.crc;
        p32(&mut coded, crc);
        p32(&mut coded, h.csize);
        p32(&mut coded, h.usize_);
        h.flags = 8;
        h.crc = 0;
        h.csize = 0;
        h.usize_ = 0;
    }
    Item { h, coded, data, c }
}

fn build(items: &[&Item]) -> Vec<u8> {
    let mut v = Vec::with_capacity(512);
    for i in items {
        put_lfh(&mut v, &i.h);
        v.extend_from_slice(&i.coded);
    }
    let cd = v.len();
    for i in items {
        put_cdh(&mut v, &i.h);
    }
    put_eocd(&mut v, 0, 0, items.len() as u16, items.len() as u16, 0, cd as u32, b"");
    v
}

// ------------------------------------------------------------------------------------------------------------- P14

fn history(n: usize, sizes: [usize; 3], methods: [usize; 3], with: bool) {
    let dds = [0, if methods[1] == 0 { 0 } else { 1 }, if methods[2] == 0 { 0 } else { 2 }];
    let names = [&b"a"[..], b"bc/", b""];
    let items: Vec<Item> = (0..n).map(|i| item(names[i], sym::bytes(sizes[i]), methods[i], dds[i])).collect();
    let refs: Vec<&Item> = items.iter().collect();
    let mut r = open_capped(build(&refs), 1);
    for i in items.iter() {
        let how = sym::pick(6);
        match step(r, &i.h, &i.data, i.c, how, with) {
            Some(x) => r = x,
            None => return,
        }
    }
    end(r, with);
    sym::reach(1);
}
/// Every read/partial/finish/skip history over three entries, two method mixes.
pub fn h_walk_history() {
    let m = [[0, 1, 4], [2, 0, 1]][sym::pick(2)];
    history(3, [2, 3, 1], m, sym::flip())
}
/// The same with empty entries in between, and over fewer entries.
pub fn h_walk_empty() {
    let n = 1 + sym::pick(3);
    let s = [[0, 2, 0], [1, 0, 0]][sym::pick(2)];
    history(n, s, [[0, 0, 0], [0, 1, 0], [3, 5, 0]][sym::pick(3)], sym::flip())
}
/// Many entries, read, finished or skipped in turn.
pub fn h_walk_count() {
    let n = [129usize, 256, 257, 513][sym::pick(4)];
    let how = sym::pick(6);
    let items: Vec<Item> = (0..n)
        .map(|i| item(&[b'a' + (i % 26) as u8, b'a' + (i / 26) as u8], if i + 1 == n { sym::bytes(2) } else { vec![i as u8; i % 3] }, i % 2, 0))
        .collect();
    let refs: Vec<&Item> = items.iter().collect();
    let with = sym::flip();
    let mut r = open_capped(build(&refs), 1);
    for (k, i) in items.iter().enumerate() {
        match step(r, &i.h, &i.data, i.c, if k + 1 == n { how } else { [0, 3, 5][k % 3] }, with) {
            Some(x) => r = x,
            None => {
                check!(F, k + 1 == n); // goes on
                return;
            }
        }
    }
    end(r, with);
    sym::reach(1);
}
/// All contents lengths up to 8 of a single entry in every method.
pub fn h_walk_lengths() {
    let n = sym::pick(9);
    history(1, [n, 0, 0], [sym::pick(6), 0, 0], sym::flip())
}

/// Every field of a local header: names, timestamps, checksum, versions, extra data.
pub fn h_walk_fields() {
    let n = sym::pick(4);
    let x = sym::pick(5);
    let mut i = item(b"", vec![1, 2], 0, 0);
    i.h.name = sym::bytes(n);
    i.h.need = sym::u16();
    i.h.time = sym::u16();
    i.h.date = sym::u16();
    i.h.crc = sym::u32();
    i.h.flags = sym::u16() & 0xFFF6;
    i.h.usize_ = sym::u32();
    sym::assume(i.h.usize_ != u32::MAX);
    if x > 0 {
        p16(&mut i.h.extra, 0x4242);
        p16(&mut i.h.extra, x as u16 - 1);
        i.h.extra.extend_from_slice(&sym::bytes(x - 1));
    }
    let mut r = open(build(&[&i]));
    match run(r.next_with_entry()) {
        Ok(Some(mut e)) => {
            same_entry(e.reader().entry(), &i.h, i.c, (2, i.h.usize_ as u64));
            let fields = e.reader().entry().extra_fields();
            check!(F, fields.len() == usize::from(x > 0)); // extra fields
            sym::observe(e.reader().entry().uncompressed_size());
            let mut d = Vec::new();
            let ok = run(e.reader_mut().read_to_end_checked(&mut d));
            check!(F, ok.is_ok() == (i.h.crc == crc32(&i.data))); // verified against the local header's checksum
            check!(F, d == [1, 2]); // data
            match run(e.done()) {
                Ok(x) => r = x,
                Err(_) => {
                    check!(F, false); // finished
                    return;
                }
            }
            end(r, true);
            sym::reach(1);
        }
        _ => check!(F, false), // an entry
    }
}

/// Sizes in a local zip64 field.
pub fn h_walk_zip64() {
    let which = sym::pick(4);
    let mut i = item(b"ab", sym::bytes(3), 0, 0);
    let u = sym::u64();
    if which & 1 == 1 {
        i.h.usize_ = u32::MAX;
    }
    if which & 2 == 2 {
        i.h.csize = u32::MAX;
    }
    let mut x = Vec::new();
    if which & 1 == 1 {
        p64(&mut x, u);
    }
    if which & 2 == 2 {
        p64(&mut x, 3);
    }
    p16(&mut i.h.extra, 1);
    p16(&mut i.h.extra, x.len() as u16);
    i.h.extra.extend_from_slice(&x);
    let r = open(build(&[&i]));
    match run(r.next_with_entry()) {
        Ok(Some(mut e)) => {
            same_entry(e.reader().entry(), &i.h, i.c, (3, if which & 1 == 1 { u } else { 3 }));
            let mut d = Vec::new();
            check!(F, run(e.reader_mut().read_to_end_checked(&mut d)).is_ok()); // data reads
            check!(F, sym::same(&d, &i.data)); // data
            match run(e.done()) {
                Ok(r) => end(r, false),
                Err(_) => check!(F, false), // finished
            }
            sym::reach(1);
        }
        _ => check!(F, false), // an entry
    }
}

/// Contents longer than internal buffers, skipped or read.
pub fn h_walk_large() {
    let n = [2047usize, 2048, 2049, 4097][sym::pick(4)];
    let m = sym::pick(2);
    let mut d = ramp(n);
    d[n - 1] = sym::u8();
    let a = item(b"a", d, m, m);
    let b = item(b"b", sym::bytes(1), 0, 0);
    let r = open_capped(build(&[&a, &b]), 100);
    let how = [0, 3, 4, 5][sym::pick(4)];
    if let Some(r) = step(r, &a.h, &a.data, a.c, how, sym::flip()) {
        if let Some(r) = step(r, &b.h, &b.data, b.c, 0, true) {
            end(r, true);
            sym::reach(1);
        }
    }
}

/// Contents around 64 KiB, skipped or read.
pub fn h_walk_big() {
    let n = [65535usize, 65536, 65537, 131073][sym::pick(4)];
    let mut d = ramp(n);
    d[n - 1] = sym::u8();
    let a = item(b"a", d, 0, 0);
    let b = item(b"b", sym::bytes(1), 0, 0);
    let r = open_capped(build(&[&a, &b]), 5000);
    let how = [0, 4][sym::pick(2)];
    if let Some(r) = step(r, &a.h, &a.data, a.c, how, sym::flip()) {
        if let Some(r) = step(r, &b.h, &b.data, b.c, 0, true) {
            end(r, true);
            sym::reach(1);
        }
    }
}

/// Archives this crate wrote: whole entries and compressed streamed entries, in any order, all zip64 modes.
pub fn h_walk_written() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let kinds = sym::pick(4);
    let m = 1 + sym::pick(5);
    let mut w = writer(z);
    let mut s = Vec::new();
    for i in 0..2 {
        let mut x = Spec::plain(["a", "bc"][i], sym::bytes(2 + i)).attrs();
        x.method = if kinds >> i & 1 == 0 && i == 0 { 0 } else { m };
        if kinds >> i & 1 == 1 {
            put_stream(&mut w, &x, &[1], None);
        } else {
            put_whole(&mut w, &x);
        }
        s.push(x);
    }
    let mut r = open_capped(finish(w), 2);
    let skip = sym::pick(4);
    for (i, x) in s.iter().enumerate() {
        match run(r.next_with_entry()) {
            Ok(Some(mut e)) => {
                let h = e.reader().entry();
                check!(F, sym::same(h.filename().as_bytes(), x.name.as_bytes())); // name
                check!(F, h.compression() == METHODS[x.method].0); // method
                check!(F, *h.last_modification_date() == dos(x.date, x.time)); // timestamp
                let next = if skip >> i & 1 == 1 {
                    run(e.skip())
                } else {
                    let d = read(e.reader_mut(), 99);
                    check!(F, sym::same(&d, &x.data)); // data
                    run(e.done())
                };
                match next {
                    Ok(x) => r = x,
                    Err(_) => {
                        check!(F, false); // on to the next
                        return;
                    }
                }
            }
            _ => {
                check!(F, false); // an entry
                return;
            }
        }
    }
    end(r, true);
    sym::reach(1);
}

/// An archive without entries: the end, at once.
pub fn h_walk_none() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let mut w = writer(z);
    if sym::flip() {
        w.comment("c".to_owned());
    }
    end(open(finish(w)), sym::flip());
    sym::reach(1);
}

/// The source comes back where the stream reader left it.
pub fn h_walk_inner() {
    let a = item(b"a", sym::bytes(2), sym::pick(2), 0);
    let b = item(b"b", sym::bytes(1), 0, 0);
    let v = build(&[&a, &b]);
    let at = 30 + 1 + a.coded.len() as u64;
    let r = open(v.clone());
    if let Some(r) = step(r, &a.h, &a.data, a.c, [0, 3, 4][sym::pick(3)], true) {
        let c = run(r.into_inner());
        check!(F, c.pos == at); // right after the entry
        check!(F, sym::same(&c.data, &v)); // the same source
        sym::reach(1);
    }
}

// ------------------------------------------------------------------------------------------------------------- P15

/// A descriptor in any of its forms (with or without signature, 4 or 8 byte sizes) and with any values, then another entry.
pub fn h_desc_forms() {
    let signed = sym::flip();
    let wide = sym::flip();
    let m = 1 + sym::pick(5);
    let data = sym::bytes(1);
    let mut a = item(b"a", data, m, 0);
    a.h.flags = 8;
    a.h.csize = sym::u32();
    a.h.usize_ = sym::u32();
    a.h.crc = sym::u32();
    if wide {
        p16(&mut a.h.extra, 1);
        p16(&mut a.h.extra, 16);
        p64(&mut a.h.extra, 0);
        p64(&mut a.h.extra, 0);
        sym::assume(a.h.csize == u32::MAX && a.h.usize_ == u32::MAX);
    }
    let crc = sym::u32();
    let (c, u) = (sym::u64(), sym::u64());
    if signed {
        p32(&mut a.coded, DD);
    } else {
        sym::assume(crc != DD); // ambiguous by design of the format
    }
    p32(&mut a.coded, crc);
    if wide {
        sym::assume(c != u64::MAX); // written by earlier versions of the crate in place of both sizes
        p64(&mut a.coded, c);
        p64(&mut a.coded, u);
    } else {
        p32(&mut a.coded, c as u32);
        p32(&mut a.coded, u as u32);
    }
    let b = item(&sym::bytes(1), sym::bytes(2), 0, 0);
    let r = open(build(&[&a, &b]));
    let with = sym::flip();
    let next = match sym::pick(3) {
        0 if with => match run(r.next_with_entry()) {
            Ok(Some(mut e)) => {
                let d = read(e.reader_mut(), 9);
                check!(F, sym::same(&d, &a.data)); // data
                run(e.done())
            }
            _ => return check!(F, false), // an entry
        },
        1 if with => match run(r.next_with_entry()) {
            Ok(Some(e)) => run(e.skip()),
            _ => return check!(F, false), // an entry
        },
        0 | 1 => match run(r.next_without_entry()) {
            Ok(Some(e)) => run(e.skip()),
            _ => return check!(F, false), // an entry
        },
        _ => match run(r.next_without_entry()) {
            Ok(Some(mut e)) => {
                let d = read(e.reader_mut(), 9);
                check!(F, sym::same(&d, &a.data)); // data
                run(e.done())
            }
            _ => return check!(F, false), // an entry
        },
    };
    match next {
        Ok(r) => {
            if let Some(r) = step(r, &b.h, &b.data, b.c, 0, true) {
                end(r, true);
                sym::reach(1);
            }
        }
        Err(_) => check!(F, false), // resumes after the descriptor
    }
}

/// Two descriptors in a row, then the directory.
pub fn h_desc_rows() {
    let (m, n) = (1 + sym::pick(5), sym::pick(3));
    let a = item(b"a", sym::bytes(n), m, 1 + sym::pick(2));
    let b = item(b"b", sym::bytes(1), m % 5 + 1, 1 + sym::pick(2));
    let mut r = open(build(&[&a, &b]));
    for i in [&a, &b] {
        match step(r, &i.h, &i.data, i.c, [0, 3, 4][sym::pick(3)], sym::flip()) {
            Some(x) => r = x,
            None => return,
        }
    }
    end(r, true);
    sym::reach(1);
}

/// No descriptor is looked for where there is none, whatever follows looks like.
pub fn h_desc_none() {
    let m = sym::pick(3);
    let mut a = item(b"a", sym::bytes(2), m, 0);
    a.h.flags = sym::u16() & 0xFFF6;
    if sym::flip() {
        a.h.extra = vec![1, 0, 0, 0];
    }
    let b = item(b"b", sym::bytes(1), 0, 0);
    let mut r = open(build(&[&a, &b]));
    for i in [&a, &b] {
        match step(r, &i.h, &i.data, i.c, [0, 3][sym::pick(2)], true) {
            Some(x) => r = x,
            None => return,
        }
    }
    end(r, true);
    sym::reach(1);
}

/// Every flag word with every method: refused exactly if encrypted or stored with a descriptor.
pub fn h_desc_refuse() {
    let (m, id) = [(0, 0u16), (1, 8), (2, 12), (3, 14), (4, 93), (5, 95), (6, 9)][sym::pick(7)];
    let data = sym::bytes(sym::pick(2));
    let mut i = item(b"a", data, if m == 6 { 0 } else { m }, 0);
    i.h.method = id;
    i.h.flags = sym::u16();
    // Only the flags and the method count.
    i.h.name = [&b"a"[..], b"a/", b""][sym::pick(3)].to_vec();
    i.h.need = sym::u16();
    i.h.crc = sym::u32();
    i.h.csize = sym::u32();
    i.h.usize_ = sym::u32();
    if sym::flip() {
        sym::assume(i.h.csize == 0xFFFF_FFFF && i.h.usize_ == 0xFFFF_FFFF);
        p16(&mut i.h.extra, 1);
        p16(&mut i.h.extra, 16);
        i.h.extra.extend_from_slice(&sym::bytes(16));
    }
    let bad = i.h.flags & 1 == 1 || m == 0 && i.h.flags & 8 == 8;
    let r = open(build(&[&i]));
    let with = sym::flip();
    let e = if with { run(r.next_with_entry()).map(|e| e.is_some()) } else { run(r.next_without_entry()).map(|e| e.is_some()) };
    match e {
        Ok(some) => {
            check!(F, some && !bad); // delivered
            sym::reach(1);
        }
        Err(e) => {
            check!(F, bad && matches!(e, ZipError::FeatureNotSupported(_))); // refused for this reason
            sym::reach(2);
        }
    }
}

/// A streamed archive of this crate with a stored entry is refused at that entry and not misread.
pub fn h_desc_stored() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let n = sym::pick(3);
    let a = Spec::plain("a", sym::bytes(1));
    let s = Spec::plain("b", sym::bytes(n));
    let mut w = writer(z);
    put_whole(&mut w, &a);
    put_stream(&mut w, &s, &[], None);
    let r = open(finish(w));
    let r = match run(r.next_with_entry()) {
        Ok(Some(e)) => match run(e.skip()) {
            Ok(r) => r,
            Err(_) => return check!(F, false), // skipped
        },
        _ => return check!(F, false), // the first entry
    };
    let e = if sym::flip() { run(r.next_with_entry()).err() } else { run(r.next_without_entry()).err() };
    check!(F, matches!(e, Some(ZipError::FeatureNotSupported(_)))); // refused
    sym::reach(1);
}

/// A descriptor that is cut off is an error.
pub fn h_desc_cut() {
    let m = 1 + sym::pick(2);
    let dd = 1 + sym::pick(2);
    let wide = sym::flip();
    let mut a = item(b"a", vec![5], m, dd);
    if wide {
        p16(&mut a.h.extra, 1);
        p16(&mut a.h.extra, 0);
        a.coded.extend_from_slice(&[0; 8]);
    }
    let mut v = Vec::with_capacity(128);
    put_lfh(&mut v, &a.h);
    v.extend_from_slice(&a.coded);
    let full = v.len();
    let k = sym::pick(25);
    sym::assume(k >= 1);
    let d = 8 + if dd == 1 { 4 } else { 0 } + if wide { 16 } else { 4 } + if wide { 0 } else { 0 };
    sym::assume(k <= d);
    v.truncate(full - k);
    match run(open(v).next_without_entry()) {
        Ok(Some(e)) => check!(F, run(e.skip()).is_err()), // never past the end
        _ => check!(F, false), // an entry
    }
    sym::reach(1);
}

/// Contents of any 64-bit length, of which only the beginning is there: that beginning is delivered, and no more than the
/// length says.
pub fn h_walk_size() {
    let size = sym::u64();
    let wide = sym::flip();
    let with = sym::flip();
    let mut h = Ent::plain(b"a", b"");
    if wide {
        h.csize = !0;
        h.usize_ = !0;
        p16(&mut h.extra, 1);
        p16(&mut h.extra, 16);
        p64(&mut h.extra, size);
        p64(&mut h.extra, size);
    } else {
        sym::assume(size < 0xFFFF_FFFF);
        h.csize = size as u32;
        h.usize_ = size as u32;
    }
    let data = sym::bytes(6);
    let mut v = Vec::with_capacity(128);
    put_lfh(&mut v, &h);
    v.extend_from_slice(&data);
    let got = if with {
        match run(open(v).next_with_entry()) {
            Ok(Some(mut e)) => {
                check!(F, e.reader().entry().compressed_size() == size && e.reader().entry().uncompressed_size() == size); // as recorded
                read(e.reader_mut(), 7)
            }
            _ => {
                check!(F, false); // there is an entry
                return;
            }
        }
    } else {
        match run(open(v).next_without_entry()) {
            Ok(Some(mut e)) => read(e.reader_mut(), 7),
            _ => {
                check!(F, false); // there is an entry
                return;
            }
        }
    };
    check!(F, got.len() as u64 == size.min(6) && sym::same(&got, &data[..got.len()])); // its bytes
    sym::reach(1);
}
