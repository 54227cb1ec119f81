//! Arbitrary bytes never panic, hang or over-allocate (P06, P07); truncation is an error (P10).  Panics, non-termination
//! and allocations above the limit are violations wherever they happen, so most of these harnesses assert little else.
use crate::oracle::*;
use crate::p_misc::{long_text, LONGS};
use crate::{check, io::*, sym};
use async_zip::base::read::{mem, seek, stream};
use async_zip::error::ZipError;
use async_zip::*;
use futures_lite::io::{AsyncReadExt, Cursor};
const F: u32 = 7;
const LIMIT: u64 = 512 << 10;

/// Looks at everything a listing offers.
fn look(f: &ZipFile) {
    sym::observe(f.entries().len() as u64);
    let _ = f.comment().as_str();
    for e in f.entries() {
        let _ = e.filename().as_str().map(|s| s.len());
        let _ = e.comment().clone().into_string();
        let _ = e.dir();
        let _ = e.last_modification_date().month();
        sym::observe(e.compressed_size());
    }
}

/// Opens, lists and reads every entry.
fn all_mem(v: Vec<u8>) {
    let n = v.len();
    if let Ok(r) = run(mem::ZipFileReader::new(v)) {
        look(r.file());
        check!(F, r.file().entries().len() <= n / 46 + 1); // no entries out of thin air
        for i in 0..r.file().entries().len() {
            if let Ok(mut e) = run(r.reader_with_entry(i)) {
                let mut d = Vec::new();
                if run(e.read_to_end(&mut d)).is_ok() {
                    sym::reach(1);
                }
                check!(F, d.len() <= n); // no bytes out of thin air
            }
        }
        sym::reach(2);
    } else {
        sym::reach(3);
    }
}

fn all_seek(v: Vec<u8>) {
    let n = v.len();
    if let Ok(mut r) = run(seek::ZipFileReader::new(Cursor::new(v))) {
        look(r.file());
        for i in 0..r.file().entries().len() {
            if let Ok(mut e) = run(r.reader_without_entry(i)) {
                let mut d = Vec::new();
                let _ = run(e.read_to_end(&mut d));
                check!(F, d.len() <= n); // no bytes out of thin air
                sym::reach(1);
            }
        }
        sym::reach(2);
    } else {
        sym::reach(3);
    }
}

/// Opens and lists.
fn open(v: Vec<u8>, seekable: bool) {
    let n = v.len();
    if seekable {
        if let Ok(r) = run(seek::ZipFileReader::new(Cursor::new(v))) {
            look(r.file());
            check!(F, r.file().entries().len() <= n / 46 + 1); // no entries out of thin air
            return sym::reach(1);
        }
    } else if let Ok(r) = run(mem::ZipFileReader::new(v)) {
        look(r.file());
        check!(F, r.file().entries().len() <= n / 46 + 1); // no entries out of thin air
        return sym::reach(1);
    }
    sym::reach(3);
}

fn all(v: Vec<u8>, seekable: bool) {
    if seekable {
        all_seek(v)
    } else {
        all_mem(v)
    }
}

fn raw(max: u8) {
    sym::alloc_limit(LIMIT);
    let n = sym::pick(max + 1);
    all(sym::bytes(n), n & 1 == 1);
}
/// Every string of 0 to 8 bytes.
pub fn h_rob_raw() {
    raw(8)
}
/// Every string of 0 to 12 bytes.
pub fn h_rob_raw_deep() {
    raw(12)
}

/// Bytes of an end record: arbitrary, except that at most one of them is the last byte of the signature (an
/// unrestricted search would fork on every byte).
fn end_record(v: &mut Vec<u8>, free: usize, comment: usize) {
    p32(v, EOCD);
    for i in 0..18 + comment {
        let b = sym::u8();
        if i != free {
            sym::assume(b != 6);
        }
        v.push(b);
    }
}

/// An end record with every field arbitrary (at most one of its bytes is 6, the end of a second signature), 0 to 4 bytes after
/// it, after 2 arbitrary bytes.
pub fn h_rob_end() {
    rob_end(&[99, 0, 9, 17], 2)
}
/// The same with any one of its bytes free to be 6.
pub fn h_rob_end_deep() {
    rob_end(&[99, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21], 4)
}
fn rob_end(free: &[usize], before: usize) {
    sym::alloc_limit(LIMIT);
    let free = free[sym::pick(free.len() as u8)];
    let c = sym::pick(3) * 2;
    let mut v = sym::bytes(before);
    end_record(&mut v, free, c);
    all(v, c == 2);
}

/// A directory record with every field arbitrary (lengths up to 1 or 0xFFFF) and an end record with every field
/// arbitrary, except that a directory inside the file starts at 0.
pub fn h_rob_dir_end() {
    sym::alloc_limit(LIMIT);
    let mut v = Vec::with_capacity(256);
    p32(&mut v, CDH);
    v.extend_from_slice(&sym::bytes(42));
    ascii(&mut v, 1);
    for o in [28, 30, 32] {
        let l = le16(&v, o);
        sym::assume(l <= 1 || l == 0xFFFF);
    }
    let at = v.len();
    end_record(&mut v, 99, 0);
    let off = le32(&v, at + 16);
    sym::assume(off == 0 || off > 100);
    open(v, false);
}

/// Arbitrary ASCII (arbitrary bytes as text: h_rob_text).
fn ascii(v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        v.push(sym::u8() & 0x7F);
    }
}

/// Names and comments of arbitrary bytes, declared as UTF-8 or not.
pub fn h_rob_text() {
    sym::alloc_limit(LIMIT);
    let n = sym::pick(4);
    let mut e = Ent::plain(&[], b"");
    e.flags = sym::u16();
    match sym::pick(3) {
        0 => e.name = sym::bytes(n),
        1 => e.comment = sym::bytes(n),
        _ => {
            // Unicode field for a name or a comment
            p16(&mut e.extra, if sym::flip() { 0x7075 } else { 0x6375 });
            p16(&mut e.extra, 5 + n as u16);
            e.extra.push(sym::u8());
            let crc = [sym::u32(), 0, crc32(b"a")][sym::pick(3)];
            p32(&mut e.extra, crc);
            e.extra.extend_from_slice(&sym::bytes(n));
            if sym::flip() {
                e.name = b"a".to_vec();
                e.comment = b"a".to_vec();
            }
        }
    }
    let mut v = Vec::with_capacity(256);
    put_cdh(&mut v, &e);
    put_eocd(&mut v, 0, 0, 1, 1, 0, 0, b"");
    open(v, false);
}

fn dir(extra: usize, max_len: u16) {
    sym::alloc_limit(LIMIT);
    let n = 1 + sym::pick(2) as u16;
    let mut v = Vec::with_capacity(256);
    p32(&mut v, CDH);
    v.extend_from_slice(&sym::bytes(42));
    ascii(&mut v, extra);
    for o in [28, 30, 32] {
        // Lengths that reach far beyond the end all behave alike; one of them is kept.
        let l = le16(&v, o);
        sym::assume(l <= max_len || l == 0xFFFF);
    }
    put_eocd(&mut v, 0, 0, n, n, 0, 0, b"");
    open(v, n == 2);
}
/// A directory record with every byte arbitrary (lengths 0 to 8 or 65535) and 4 bytes of name, extra data and comment.
pub fn h_rob_dir() {
    dir(4, 8)
}
/// The same with 9 bytes, lengths 0 to 14 or 65535.
pub fn h_rob_dir_deep() {
    dir(9, 14)
}

/// Extra data alone: 0 to 13 arbitrary bytes in directory and local header.
fn extra(max: u8, local: bool) {
    sym::alloc_limit(LIMIT);
    let n = sym::pick(max + 1);
    let x = sym::bytes(n);
    let mut e = Ent::plain(b"a", b"");
    e.flags = sym::u16() & 0xFFFE;
    e.csize = sym::u32();
    e.usize_ = sym::u32();
    e.off = sym::u32();
    e.extra = x;
    let mut v = Vec::with_capacity(256);
    if local {
        put_lfh(&mut v, &e);
        v.extend_from_slice(&sym::bytes(2));
        let r = run(stream::ZipFileReader::new(Cursor::new(v)).next_with_entry());
        sym::reach(if r.is_ok() { 2 } else { 3 });
    } else {
        put_cdh(&mut v, &e);
        put_eocd(&mut v, 0, 0, 1, 1, 0, 0, b"");
        open(v, false);
    }
}
/// A directory entry with 10 arbitrary bytes of extra data.
pub fn h_rob_extra() {
    extra(10, false)
}
/// 16 bytes.
pub fn h_rob_extra_deep() {
    extra(16, false)
}
/// A local header with 10 arbitrary bytes of extra data, streaming.
pub fn h_srob_extra() {
    extra(10, true)
}
/// 16 bytes.
pub fn h_srob_extra_deep() {
    extra(16, true)
}

/// Typed extra fields with any size field and truncated contents.
fn typed(local: bool) {
    sym::alloc_limit(LIMIT);
    let id = [1u16, 0x6375, 0x7075, 0x4242][sym::pick(4)];
    let n = sym::pick(12);
    let size = sym::u16();
    let mut x = Vec::new();
    p16(&mut x, id);
    p16(&mut x, size);
    x.extend_from_slice(&sym::bytes(n));
    let mut e = Ent::plain(b"a", b"");
    e.csize = sym::u32();
    e.usize_ = sym::u32();
    e.off = sym::u32();
    e.extra = x;
    let mut v = Vec::with_capacity(256);
    let ok = if local {
        put_lfh(&mut v, &e);
        run(stream::ZipFileReader::new(Cursor::new(v)).next_without_entry()).is_ok()
    } else {
        put_cdh(&mut v, &e);
        put_eocd(&mut v, 0, 0, 1, 1, 0, 0, b"");
        run(mem::ZipFileReader::new(v)).is_ok()
    };
    check!(F, !ok || size as usize <= n); // contents that are not there are not accepted
    sym::reach(if ok { 2 } else { 3 });
}
/// The fields this crate interprets, any recorded size, truncated anywhere, in the directory.
pub fn h_rob_typed() {
    typed(false)
}
/// The same in a local header, streaming.
pub fn h_srob_typed() {
    typed(true)
}

/// Zip64 locator and end record with every byte arbitrary.
pub fn h_rob_zip64() {
    sym::alloc_limit(LIMIT);
    let seekable = sym::flip();
    let mut v = Vec::with_capacity(256);
    put_cdh(&mut v, &Ent::plain(b"a", b""));
    p32(&mut v, Z64EOCD);
    v.extend_from_slice(&sym::bytes(52));
    let off = le32(&v, 47 + 4 + 44);
    sym::assume(off < 47 || off > 150); // no directory inside the end records
    p32(&mut v, Z64LOC);
    v.extend_from_slice(&sym::bytes(16));
    put_eocd(&mut v, 0xFFFF, 0xFFFF, 0xFFFF, 0xFFFF, 0xFFFF_FFFF, 0xFFFF_FFFF, b"");
    all(v, seekable);
}

/// Entry data anywhere: 64-bit position arbitrary, local header arbitrary.
fn entry_at(seekable: bool, len: u16) {
    sym::alloc_limit(LIMIT);
    let mut v = Vec::with_capacity(256);
    p32(&mut v, LFH);
    v.extend_from_slice(&sym::bytes(26));
    let l = (le16(&v, 26), le16(&v, 28));
    sym::assume((l.0 < len || l.0 == 0xFFFF) && (l.1 < len || l.1 == 0xFFFF));
    v.extend_from_slice(&sym::bytes(3));
    let mut e = Ent::plain(b"a", b"");
    e.off = 0xFFFF_FFFF;
    e.csize = 2;
    e.usize_ = 2;
    p16(&mut e.extra, 1);
    p16(&mut e.extra, 8);
    e.extra.extend_from_slice(&sym::bytes(8));
    let cd = v.len();
    put_cdh(&mut v, &e);
    put_eocd(&mut v, 0, 0, 1, 1, 0, cd as u32, b"");
    all(v, seekable);
}
/// An entry whose zip64 position is arbitrary, in memory.
pub fn h_rob_at() {
    entry_at(false, 5)
}
/// The same, seekable.
pub fn h_rob_at_seek() {
    entry_at(true, 5)
}
/// The same with a longer tail.
pub fn h_rob_at_deep() {
    entry_at(false, 80)
}

/// Entry data of any recorded size and contents, stored or compressed or encrypted.
fn entry_of(seekable: bool, tail: usize) {
    sym::alloc_limit(LIMIT);
    let m = sym::pick(3);
    let mut v = Vec::with_capacity(256);
    let mut l = Ent::plain(b"", b"");
    l.flags = 9;
    put_lfh(&mut v, &l);
    v.extend_from_slice(&sym::bytes(tail));
    let mut e = Ent::plain(b"a", b"");
    e.method = [0, 8, 9][m];
    e.flags = sym::u16();
    e.csize = 0xFFFF_FFFF;
    e.usize_ = 0xFFFF_FFFF;
    e.crc = sym::u32();
    p16(&mut e.extra, 1);
    p16(&mut e.extra, 16);
    for _ in 0..2 {
        // Less than 12, or at least 2^56.
        let (lo, hi) = (sym::u8(), sym::u8());
        sym::assume(lo < 12 || hi != 0);
        e.extra.extend_from_slice(&((hi as u64) << 56 | lo as u64).to_le_bytes());
    }
    let cd = v.len();
    put_cdh(&mut v, &e);
    put_eocd(&mut v, 0, 0, 1, 1, 0, cd as u32, b"");
    all(v, seekable);
}
/// Contents of any recorded size, method and flags, in memory.
pub fn h_rob_data() {
    entry_of(false, 4)
}
/// The same, seekable.
pub fn h_rob_data_seek() {
    entry_of(true, 4)
}
/// The same with more contents.
pub fn h_rob_data_deep() {
    entry_of(false, 10)
}

/// Long names, comments and Unicode fields, valid or not, of characters of any width; in memory.
pub fn h_rob_long() {
    long(false)
}
/// The same in local headers, streaming.
pub fn h_srob_long() {
    long(true)
}
fn long(streaming: bool) {
    sym::alloc_limit(LIMIT);
    let t = long_text(LONGS[sym::pick(22)], sym::flip());
    let by = sym::pick(3);
    let mut e = Ent::plain(b"n", b"");
    e.flags = if sym::flip() { 0x800 } else { 0 };
    match by {
        0 => e.name = t,
        1 => e.comment = t,
        _ => {
            p16(&mut e.extra, if sym::flip() { 0x7075 } else { 0x6375 });
            p16(&mut e.extra, t.len() as u16 + 5);
            e.extra.push(1);
            p32(&mut e.extra, crc32(b"n"));
            e.extra.extend_from_slice(&t);
            e.comment = b"n".to_vec();
        }
    }
    let v = archive(&mut [(e, Vec::new())], b"");
    if streaming {
        walk(v, 1)
    } else {
        all_mem(v)
    }
}

/// Any declared sizes and CRC, classic or zip64, read with verification: nothing is reserved for what is only declared.
pub fn h_rob_declared() {
    sym::alloc_limit(LIMIT);
    let seekable = sym::flip();
    let wide = sym::flip();
    let mut e = Ent::plain(b"a", b"xyz");
    e.crc = sym::u32();
    e.usize_ = sym::u32();
    if wide {
        e.usize_ = !0;
        p16(&mut e.extra, 1);
        p16(&mut e.extra, 8);
        p64(&mut e.extra, sym::u64());
    }
    if sym::flip() {
        e.method = 8;
    }
    let mut l = Ent::plain(b"a", b"");
    l.extra = e.extra.clone();
    let data: &[u8] = if e.method == 8 { &[0xD8, 1, 1, b'x' ^ 0xA5, 0] } else { b"xyz" };
    e.csize = data.len() as u32;
    let mut v = Vec::with_capacity(256);
    put_lfh(&mut v, &l);
    v.extend_from_slice(data);
    let cd = v.len() as u32;
    put_cdh(&mut v, &e);
    let size = v.len() as u32 - cd;
    put_eocd(&mut v, 0, 0, 1, 1, size, cd, b"");
    let mut d = Vec::new();
    if seekable {
        if let Ok(mut r) = run(seek::ZipFileReader::new(Cursor::new(v))) {
            if let Ok(mut e) = run(r.reader_with_entry(0)) {
                let _ = run(e.read_to_end_checked(&mut d));
                sym::reach(1);
            }
        }
    } else if let Ok(r) = run(mem::ZipFileReader::new(v)) {
        if let Ok(mut e) = run(r.reader_with_entry(0)) {
            let mut s = String::new();
            if sym::flip() {
                let _ = run(e.read_to_string_checked(&mut s));
            } else {
                let _ = run(e.read_to_end_checked(&mut d));
            }
            sym::reach(1);
        }
    }
}
/// The same streaming, each entry read to the end, verified.
pub fn h_srob_declared() {
    sym::alloc_limit(LIMIT);
    let mut e = Ent::plain(b"a", b"");
    e.crc = sym::u32();
    e.usize_ = if sym::flip() { !0 } else { sym::u32() };
    p16(&mut e.extra, 1);
    p16(&mut e.extra, 16);
    p64(&mut e.extra, sym::u64());
    let c = sym::u64();
    p64(&mut e.extra, c);
    e.csize = if sym::flip() { !0 } else { sym::u32() };
    e.method = [0, 8][sym::pick(2)];
    let mut v = Vec::with_capacity(256);
    put_lfh(&mut v, &e);
    v.extend_from_slice(&[0xD8, 1, 1, 5, 0]);
    let mut d = Vec::new();
    if let Ok(Some(mut r)) = run(stream::ZipFileReader::new(Cursor::new(v)).next_with_entry()) {
        let _ = run(r.reader_mut().read_to_end_checked(&mut d));
        check!(F, d.len() <= 5); // no bytes out of thin air
        sym::reach(1);
    }
}

// ------------------------------------------------------------------------------------------------------------- P07

/// Walks a stream, choosing at every entry how to proceed.
fn walk(v: Vec<u8>, max: usize) {
    let n = v.len();
    let mut r = stream::ZipFileReader::new(Cursor::new(v));
    let mut seen = 0;
    loop {
        check!(F, seen <= max); // ends
        let mut e = match run(r.next_with_entry()) {
            Ok(Some(e)) => e,
            Ok(None) => {
                sym::reach(2);
                return;
            }
            Err(_) => {
                sym::reach(3);
                return;
            }
        };
        seen += 1;
        let _ = e.reader().entry().filename().as_str();
        let mode = sym::pick(3);
        let next = match mode {
            0 => run(e.skip()),
            1 => {
                let mut d = Vec::new();
                let _ = run(e.reader_mut().read_to_end_checked(&mut d));
                check!(F, d.len() <= n); // no bytes out of thin air
                run(e.done())
            }
            _ => run(e.done()),
        };
        match next {
            Ok(x) => r = x,
            Err(_) => {
                sym::reach(4);
                return;
            }
        }
        sym::reach(1);
    }
}

/// Every string of 0, 5, …, 35 bytes (name and extra data lengths 0 to 7 or 65535).
pub fn h_srob_raw() {
    sym::alloc_limit(LIMIT);
    let n = sym::pick(8) * 5;
    let v = sym::bytes(n);
    if n >= 30 {
        let l = (le16(&v, 26), le16(&v, 28));
        sym::assume((l.0 < 8 || l.0 == 0xFFFF) && (l.1 < 8 || l.1 == 0xFFFF));
    }
    walk(v, 2);
}

fn srob_lfh(tail: usize) {
    sym::alloc_limit(LIMIT);
    let mut v = Vec::with_capacity(256);
    p32(&mut v, LFH);
    v.extend_from_slice(&sym::bytes(26));
    let l = (le16(&v, 26), le16(&v, 28));
    sym::assume(l.0 < 3 && (l.1 == 0 || l.1 == 5));
    v.extend_from_slice(&sym::bytes(tail));
    p32(&mut v, CDH);
    walk(v, 2);
}
/// A local header with every byte arbitrary (name of 0 to 2, extra data of 0 or 5 bytes), 8 bytes of name, extra data, contents and
/// descriptor, then the directory.
pub fn h_srob_lfh() {
    srob_lfh(8)
}
/// The same with 14 bytes.
pub fn h_srob_lfh_deep() {
    srob_lfh(14)
}

/// Descriptors: any contents, any place, any size width.
pub fn h_srob_desc() {
    sym::alloc_limit(LIMIT);
    let n = sym::pick(3);
    let tail = sym::pick(30);
    let mut e = Ent::plain(b"a", b"");
    e.method = 8;
    e.flags = 8 | sym::u16() & 0x7FF0;
    e.csize = sym::u32();
    e.usize_ = sym::u32();
    if sym::flip() {
        p16(&mut e.extra, 1);
        p16(&mut e.extra, 16);
        e.extra.extend_from_slice(&sym::bytes(16));
    }
    let mut v = Vec::with_capacity(256);
    put_lfh(&mut v, &e);
    v.extend_from_slice(&toy(0xD8, 3, &sym::bytes(n)));
    v.extend_from_slice(&sym::bytes(tail));
    walk(v, 2);
}

// ------------------------------------------------------------------------------------------------------------- P10

/// A byte that is part of no record signature but may be anything else with bit 3 set.
fn tame() -> u8 {
    let b = sym::u8() | 8;
    sym::assume(b != 0x4b);
    b
}
fn tames(n: usize) -> Vec<u8> {
    (0..n).map(|_| tame()).collect()
}

fn sample(z64: bool) -> (Vec<u8>, [(Vec<u8>, Vec<u8>); 2], usize) {
    let mut e0 = Ent::plain(&tames(2), &[]);
    e0.extra = vec![0x42, 0x42, 2, 0, tame(), tame()];
    e0.flags = 0;
    e0.comment = tames(2);
    let d0 = tames(2);
    e0.crc = crc32(&d0);
    e0.csize = 2;
    e0.usize_ = 2;
    let d1 = tames(1);
    let mut e1 = Ent::plain(&tames(1), &d1);
    e1.comment = tames(1);
    let names = [(e0.name.clone(), d0.clone()), (e1.name.clone(), d1.clone())];
    let mut v = Vec::with_capacity(512);
    for (e, d) in [(&mut e0, &d0), (&mut e1, &d1)] {
        // The checksum bytes must not look like a signature either.
        e.off = v.len() as u32;
        put_lfh(&mut v, e);
        v.extend_from_slice(d);
    }
    let cd = v.len();
    put_cdh(&mut v, &e0);
    put_cdh(&mut v, &e1);
    let size = v.len() - cd;
    let at = v.len();
    if z64 {
        put_z64(&mut v, at as u64, &Z64 { made: 45, need: 45, disk: 0, cd_disk: 0, n_disk: 2, n: 2, size: size as u64, off: cd as u64 });
        put_eocd(&mut v, 0, 0, 0xFFFF, 0xFFFF, size as u32, 0xFFFF_FFFF, &tames(3));
    } else {
        put_eocd(&mut v, 0, 0, 2, 2, size as u32, cd as u32, &tames(3));
    }
    (v, names, cd)
}

/// Every proper prefix of an archive (classic or zip64) is refused by the in-memory and seekable readers.
fn cut(z64: bool, seekable: bool) {
    let (v, _, cd) = sample(z64);
    for o in [14usize, 53, cd + 16] {
        // first bytes of the recorded checksums
        let mut i = 0;
        while i < 4 {
            sym::assume(v[o + i] != 6);
            i += 1;
        }
    }
    let k = sym::pick(((v.len() + 1) / 2) as u8) * 2 + sym::pick(2);
    sym::assume(k <= v.len());
    let full = k == v.len();
    let v = v[..k].to_vec();
    let ok = if seekable { run(seek::ZipFileReader::new(Cursor::new(v))).is_ok() } else { run(mem::ZipFileReader::new(v)).is_ok() };
    check!(F, ok == full); // opens exactly when complete
    sym::reach(if full { 1 } else { 2 });
}
/// Every proper prefix of an archive, in memory: refused.
pub fn h_cut_mem() {
    cut(false, false)
}
/// The same, seekable.
pub fn h_cut_seek() {
    cut(false, true)
}
/// Every proper prefix of a zip64 archive.
pub fn h_cut_zip64() {
    cut(true, false)
}

/// Every proper prefix given to the stream reader: what is reported is what the full archive contains.
pub fn h_cut_stream() {
    let (v, want, cd) = sample(false);
    let k = sym::pick(((v.len() + 1) / 2) as u8) * 2 + sym::pick(2);
    sym::assume(k < v.len());
    let skip = sym::flip();
    let mut r = stream::ZipFileReader::new(Cursor::new(v[..k].to_vec()));
    let mut i = 0;
    loop {
        match run(r.next_with_entry()) {
            Ok(Some(mut e)) => {
                check!(F, i < 2); // no more entries than there are
                check!(F, sym::same(e.reader().entry().filename().as_bytes(), &want[i].0)); // complete name
                check!(F, e.reader().entry().extra_fields().len() == 1 - i); // complete extra data
                check!(F, e.reader().entry().uncompressed_size() == want[i].1.len() as u64); // size
                let next = if skip {
                    run(e.skip())
                } else {
                    let mut d = Vec::new();
                    let c = run(e.reader_mut().read_to_end_checked(&mut d));
                    check!(F, c.is_err() || sym::same(&d, &want[i].1)); // verified data is complete
                    run(e.done())
                };
                match next {
                    Ok(x) => r = x,
                    Err(_) => {
                        sym::reach(3);
                        return;
                    }
                }
                i += 1;
            }
            Ok(None) => {
                check!(F, i == 2 && k >= cd + 4); // the end is reported only where the directory starts
                sym::reach(1);
                return;
            }
            Err(_) => {
                check!(F, k < cd + 4); // and then always
                sym::reach(2);
                return;
            }
        }
    }
}

/// A directory whose last record's variable-length data runs into the end record or past the end of the file.
pub fn h_cut_lengths() {
    let which = sym::pick(3);
    let n = sym::u16();
    let mut e = Ent::plain(b"ab", b"");
    e.extra = vec![0x42, 0x42, 1, 0, 9];
    e.comment = b"cd".to_vec();
    let mut v = Vec::with_capacity(256);
    put_cdh(&mut v, &e);
    let o = 28 + 2 * which;
    v[o..o + 2].copy_from_slice(&n.to_le_bytes());
    put_eocd(&mut v, 0, 0, 1, 1, 55, 0, b"");
    let room = v.len() - 46;
    let others = 9 - [2, 5, 2][which];
    let r = run(mem::ZipFileReader::new(v));
    if n as usize + others > room {
        check!(F, r.is_err()); // data that is not there
        sym::reach(1);
    }
    if let Ok(r) = r {
        let e = &r.file().entries()[0];
        let got = [e.filename().as_bytes().len(), 0, e.comment().as_bytes().len()];
        check!(F, which == 1 || got[which] == n as usize); // complete
        sym::reach(2);
    }
}

/// An archive comment longer than what is left of the file.
pub fn h_cut_comment() {
    let n = sym::u16();
    let k = sym::pick(5);
    let mut v = Vec::with_capacity(64);
    put_eocd(&mut v, 0, 0, 0, 0, 0, 0, &tames(k));
    v[20..22].copy_from_slice(&n.to_le_bytes());
    sym::assume(v[20] != 6 && v[21] != 6);
    match run(mem::ZipFileReader::new(v)) {
        Ok(r) => {
            check!(F, n as usize <= k && r.file().comment().as_bytes().len() == n as usize); // complete
            sym::reach(1);
        }
        Err(ZipError::UpstreamReadError(_)) => {
            check!(F, n as usize > k); // cut
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}
