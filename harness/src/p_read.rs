//! What the readers report for hand-built archives (P05), finding the end record (P08), entry data and checksums (P09),
//! refusals (P19), independence of reads (P22).
use crate::oracle::*;
use crate::p_write::{dos, writer, Spec, Z};
use crate::{check, io::*, sym};
use async_zip::base::read::{mem, seek, stream, WithEntry, ZipEntryReader};
use async_zip::error::ZipError;
use async_zip::*;
use futures_lite::io::{AsyncBufRead, AsyncReadExt, Cursor};
const F: u32 = 6;
const M: u32 = 0xFFFF_FFFF;

pub const IDS: [(u16, Compression); 7] = [
    (0, Compression::Stored),
    (8, Compression::Deflate),
    (9, Compression::Deflate64),
    (12, Compression::Bz),
    (14, Compression::Lzma),
    (93, Compression::Zstd),
    (95, Compression::Xz),
];

/// Values none of whose bytes can be part of an end-record signature.
pub fn quiet16() -> u16 {
    sym::u16() | 0x8080
}
pub fn quiet32() -> u32 {
    sym::u32() | 0x8080_8080
}

/// Data right before the end record that happens to look like a ZIP64 locator makes the archive ambiguous.
pub fn no_locator(v: &[u8], clen: usize) {
    let e = v.len() - 22 - clen;
    if e >= 20 {
        sym::assume(le32(v, e - 20) != Z64LOC);
    }
}

/// Opens with the in-memory or the seekable reader and returns the listing.
pub fn open(v: Vec<u8>, seekable: bool) -> Result<ZipFile, ZipError> {
    if seekable {
        run(seek::ZipFileReader::new(Cursor::new(v))).map(|r| r.file().clone())
    } else {
        run(mem::ZipFileReader::new(v)).map(|r| r.file().clone())
    }
}

fn open_ok(v: Vec<u8>, seekable: bool) -> ZipFile {
    match open(v, seekable) {
        Ok(f) => f,
        Err(_) => {
            check!(F, false); // archive opens
            sym::assume(false);
            unreachable!()
        }
    }
}

fn any_ent(name: Vec<u8>, extra: Vec<u8>, comment: Vec<u8>, method: u16) -> Ent {
    Ent {
        made: sym::u16(),
        need: sym::u16(),
        flags: sym::u16(),
        method,
        time: sym::u16(),
        date: sym::u16(),
        crc: sym::u32(),
        csize: sym::u32(),
        usize_: sym::u32(),
        name,
        extra,
        comment,
        disk: sym::u16(),
        iattr: sym::u16(),
        eattr: sym::u32(),
        off: sym::u32(),
    }
}

fn expect_entry(e: &StoredZipEntry, x: &Ent, method: usize, cs: u64, us: u64, off: u64) {
    check!(F, e.compression() == IDS[method].1); // method
    check!(F, e.crc32() == x.crc); // crc
    check!(F, e.compressed_size() == cs); // compressed size
    check!(F, e.uncompressed_size() == us); // uncompressed size
    check!(F, *e.last_modification_date() == dos(x.date, x.time)); // timestamp
    check!(F, e.internal_file_attribute() == x.iattr); // internal attributes
    check!(F, e.external_file_attribute() == x.eattr); // external attributes
    check!(F, e.unix_permissions() == Some((x.eattr >> 16) as u16)); // permissions
    check!(F, e.header_offset() == off); // local header position
    check!(F, e.header_size() == 30 + x.name.len() as u64 + x.extra.len() as u64); // header size
}

/// Names, extra data and comments of lengths up to the most there can be, and all of them at once.
pub fn h_cd_long() {
    const N: [usize; 5] = [1, 255, 256, 40000, 65535];
    let seekable = sym::flip();
    let (nn, nx, nc) = (N[sym::pick(5)], [0usize, 256, 30000, 65535][sym::pick(4)], [0usize, 256, 65535][sym::pick(3)]);
    let fill = |n: usize| {
        let mut v = vec![b'x'; n];
        if n > 0 {
            v[0] = sym::u8() & 0x7F;
            v[n - 1] = sym::u8() & 0x7F;
        }
        v
    };
    let (name, comment) = (fill(nn), fill(nc));
    let mut extra = Vec::new();
    let field = fill(nx.saturating_sub(4));
    if nx > 0 {
        p16(&mut extra, 0x4242);
        p16(&mut extra, field.len() as u16);
        extra.extend_from_slice(&field);
    }
    let x = any_ent(name, extra, comment, 0);
    let y = any_ent(b"y".to_vec(), Vec::new(), b"yy".to_vec(), 8);
    let mut v = Vec::with_capacity(x.name.len() + x.extra.len() + x.comment.len() + 256);
    put_cdh(&mut v, &x);
    put_cdh(&mut v, &y);
    let size = v.len() as u32;
    put_eocd(&mut v, 0, 0, 2, 2, size, 0, b"");
    sym::assume(x.csize != !0 && x.usize_ != !0 && x.off != !0 && y.csize != !0 && y.usize_ != !0 && y.off != !0);
    let f = open_ok(v, seekable);
    check!(F, f.entries().len() == 2); // two entries
    for (e, x, m) in [(&f.entries()[0], &x, 0), (&f.entries()[1], &y, 1)] {
        expect_entry(e, x, m, x.csize as u64, x.usize_ as u64, x.off as u64);
        check!(F, sym::same(e.filename().as_bytes(), &x.name)); // name bytes
        check!(F, sym::same(e.comment().as_bytes(), &x.comment)); // comment bytes
    }
    check!(F, f.entries()[0].extra_fields().len() == (nx > 0) as usize && f.entries()[1].extra_fields().is_empty()); // extra fields
    sym::reach(1);
}

/// One directory record, every field symbolic, no extra data; symbolic name and comment bytes.
pub fn h_cd_fields() {
    let seekable = sym::flip();
    let method = sym::pick(7);
    let nn = sym::pick(3);
    let nc = sym::pick(2);
    let x = any_ent(sym::bytes(nn), Vec::new(), sym::bytes(nc), IDS[method].0);
    let mut v = Vec::with_capacity(256);
    put_cdh(&mut v, &x);
    let n = v.len();
    let dn = quiet16();
    put_eocd(&mut v, dn, dn, 1, 1, quiet32(), 0, b"");
    no_locator(&v, 0);
    let f = open_ok(v, seekable);
    check!(F, f.entries().len() == 1); // one entry
    check!(F, !f.zip64() && f.comment().as_bytes().is_empty()); // no zip64, no comment
    let e = &f.entries()[0];
    expect_entry(e, &x, method, x.csize as u64, x.usize_ as u64, x.off as u64);
    check!(F, sym::same(e.filename().as_bytes(), &x.name)); // name bytes
    check!(F, sym::same(e.comment().as_bytes(), &x.comment)); // comment bytes
    check!(F, e.extra_fields().is_empty()); // no extra fields
    sym::observe(e.crc32() as u64);
    sym::observe(e.header_offset());
    sym::observe(n as u64);
    sym::reach(1);
}

/// The ZIP64 extra field: values taken for exactly the saturated fields, in order, wherever the field stands.
pub fn h_cd_zip64() {
    let seekable = sym::flip();
    let sat = sym::pick(8); // bit 0 usize, 1 csize, 2 offset
    let place = sym::pick(3); // alone, after, before another field
    let disk = sym::flip(); // a disk number follows
    let mut d = Vec::new();
    let (u, c, o) = (sym::u64(), sym::u64(), sym::u64());
    if sat & 1 != 0 {
        p64(&mut d, u);
    }
    if sat & 2 != 0 {
        p64(&mut d, c);
    }
    if sat & 4 != 0 {
        p64(&mut d, o);
    }
    if disk {
        p32(&mut d, sym::u32());
    }
    let mut z = Vec::new();
    p16(&mut z, 1);
    p16(&mut z, d.len() as u16);
    z.extend_from_slice(&d);
    let mut other = Vec::new();
    let id = sym::u16();
    sym::assume(id != 1 && id != 0x6375 && id != 0x7075);
    p16(&mut other, id);
    p16(&mut other, 2);
    other.extend_from_slice(&sym::bytes(2));
    let extra = match place {
        0 => z,
        1 => [other, z].concat(),
        _ => [z, other].concat(),
    };
    let mut x = any_ent(b"a".to_vec(), extra, Vec::new(), 0);
    if sat & 1 != 0 {
        x.usize_ = M;
    } else {
        sym::assume(x.usize_ != M);
    }
    if sat & 2 != 0 {
        x.csize = M;
    } else {
        sym::assume(x.csize != M);
    }
    if sat & 4 != 0 {
        x.off = M;
    } else {
        sym::assume(x.off != M);
    }
    let mut v = Vec::with_capacity(256);
    put_cdh(&mut v, &x);
    put_eocd(&mut v, 0, 0, 1, 1, quiet32(), 0, b"");
    no_locator(&v, 0);
    let f = open_ok(v, seekable);
    check!(F, f.entries().len() == 1); // one entry
    expect_entry(
        &f.entries()[0],
        &x,
        0,
        if sat & 2 != 0 { c } else { x.csize as u64 },
        if sat & 1 != 0 { u } else { x.usize_ as u64 },
        if sat & 4 != 0 { o } else { x.off as u64 },
    );
    check!(F, f.entries()[0].extra_fields().len() == if place == 0 { 1 } else { 2 }); // fields
    sym::reach(1);
}

/// A saturated field without a ZIP64 field is reported as it is.
pub fn h_cd_marker() {
    let seekable = sym::flip();
    let x = any_ent(b"a".to_vec(), Vec::new(), Vec::new(), 8);
    let y = any_ent(b"bc".to_vec(), Vec::new(), b"d".to_vec(), 0);
    let mut v = Vec::with_capacity(256);
    put_cdh(&mut v, &x);
    put_cdh(&mut v, &y);
    put_eocd(&mut v, 0, 0, 2, 2, quiet32(), 0, b"");
    no_locator(&v, 0);
    let f = open_ok(v, seekable);
    check!(F, f.entries().len() == 2); // both entries
    expect_entry(&f.entries()[0], &x, 1, x.csize as u64, x.usize_ as u64, x.off as u64);
    expect_entry(&f.entries()[1], &y, 0, y.csize as u64, y.usize_ as u64, y.off as u64);
    sym::reach(1);
}

/// The ZIP64 end record overrides exactly the saturated fields of the classic one.
pub fn h_end_zip64() {
    let seekable = sym::flip();
    let sat = sym::pick(64); // disk, cd disk, n on disk, n, size, offset
    let pad = sym::pick(3);
    let x = any_ent(b"a".to_vec(), Vec::new(), Vec::new(), 0);
    let mut v: Vec<u8> = Vec::with_capacity(256);
    v.extend_from_slice(&sym::bytes(pad));
    let cd = v.len() as u64;
    put_cdh(&mut v, &x);
    let at = v.len() as u64;
    // Values in the record that is not consulted are arbitrary.
    let dn = quiet16();
    sym::assume(dn != 0xFFFF);
    let dn64 = sym::u32();
    let pickd = |bit: usize, classic: u16| if sat >> bit & 1 == 1 { 0xFFFF } else { classic };
    // The effective disk numbers must agree.
    let eff = if sat & 1 != 0 { dn64 } else { dn as u32 };
    let eff2 = if sat & 2 != 0 { sym::u32() } else { dn as u32 };
    sym::assume(eff == eff2);
    let n64 = |bit: usize| {
        let q = sym::u64();
        sym::assume(sat >> bit & 1 == 0 || q == 1);
        if sat >> bit & 1 == 1 {
            1
        } else {
            q
        }
    };
    let junk_cd = sym::u64();
    put_z64(
        &mut v,
        at,
        &Z64 {
            made: sym::u16(),
            need: sym::u16(),
            disk: dn64,
            cd_disk: eff2,
            n_disk: n64(2),
            n: n64(3),
            size: sym::u64(),
            off: if sat & 32 != 0 { cd } else { junk_cd },
        },
    );
    put_eocd(
        &mut v,
        pickd(0, dn),
        pickd(1, dn),
        pickd(2, 1),
        pickd(3, 1),
        if sat & 16 != 0 { M } else { quiet32() },
        if sat & 32 != 0 { M } else { cd as u32 },
        b"",
    );
    let f = open_ok(v, seekable);
    check!(F, f.zip64()); // recognised as zip64
    check!(F, f.entries().len() == 1); // one entry
    expect_entry(&f.entries()[0], &x, 0, x.csize as u64, x.usize_ as u64, x.off as u64);
    sym::reach(1);
}

/// Zip64 end records with extensible data, something between them, and archive comments of any length.
pub fn h_end_zip64_ext() {
    let seekable = sym::flip();
    let sat = sym::flip();
    let k = sym::pick(13); // either several things before the locator, or a long comment
    let ext = if k < 10 { [0usize, 1, 4, 20, 300][k % 5] } else { 0 };
    let gap = if k < 10 { [0usize, 1, 30][sym::pick(3)] } else { 0 };
    let clen = if k < 10 { [0usize, 1, 300][sym::pick(3)] } else { [255usize, 256, 2027, 65535][[k - 10, 3][(k == 12) as usize * sym::pick(2)]] };
    let x = any_ent(b"a".to_vec(), Vec::new(), Vec::new(), 0);
    let mut v: Vec<u8> = Vec::with_capacity(70000);
    let pad = sym::pick(2);
    v.extend_from_slice(&sym::bytes(pad));
    let cd = v.len() as u64;
    put_cdh(&mut v, &x);
    let size = v.len() as u64 - cd;
    v.extend_from_slice(&b"between"[..sym::pick(2) * 7]);
    let at = v.len() as u64;
    let z = Z64 { made: sym::u16(), need: sym::u16(), disk: 0, cd_disk: 0, n_disk: 1, n: 1, size, off: cd };
    put_z64(&mut v, at, &z);
    v.truncate(v.len() - 20); // the locator follows later
    v[at as usize + 4..at as usize + 12].copy_from_slice(&(44 + ext as u64).to_le_bytes());
    v.resize(v.len() + ext + gap, b'e');
    if ext > 0 {
        let n = v.len();
        v[n - gap - 1] = sym::u8();
        v[n - gap - ext] = sym::u8();
    }
    p32(&mut v, Z64LOC);
    p32(&mut v, 0);
    p64(&mut v, at);
    p32(&mut v, 1);
    let mut comment = vec![b'z'; clen];
    if clen > 0 {
        comment[0] = sym::u8() & 0x7f;
        comment[clen - 1] = sym::u8() & 0x7f;
    }
    let f = |x: u16| if sat { 0xFFFF } else { x };
    put_eocd(&mut v, f(0), f(0), f(1), f(1), if sat { M } else { size as u32 }, if sat { M } else { cd as u32 }, &comment);
    let f = open_ok(v, seekable);
    check!(F, f.zip64()); // recognised as zip64
    check!(F, f.entries().len() == 1 && sym::same(f.comment().as_bytes(), &comment)); // one entry, and the comment
    expect_entry(&f.entries()[0], &x, 0, x.csize as u64, x.usize_ as u64, x.off as u64);
    sym::reach(1);
}

/// Several records with different lengths of name, extra data and comment: each is found where it is.
pub fn h_cd_many() {
    let seekable = sym::flip();
    let n = sym::pick(4);
    let l = sym::pick(3);
    let txt = |n: usize| sym::bytes(n).into_iter().map(|b| b & 0x7f).collect::<Vec<u8>>();
    let mut v: Vec<u8> = Vec::with_capacity(512);
    let mut xs = Vec::new();
    for i in 0..n {
        let nx = (i + l) % 3;
        let mut extra = Vec::new();
        if nx > 0 {
            p16(&mut extra, 0x4242);
            p16(&mut extra, nx as u16 - 1);
            extra.extend_from_slice(&sym::bytes(nx - 1));
        }
        let x = any_ent(txt((i * 2 + l) % 4), extra, txt((i + 2 * l) % 3), 0);
        put_cdh(&mut v, &x);
        xs.push((x, nx));
    }
    put_eocd(&mut v, 0, 0, n as u16, n as u16, quiet32(), 0, b"k");
    no_locator(&v, 1);
    let f = open_ok(v, seekable);
    check!(F, f.entries().len() == n); // all entries
    for (e, (x, nx)) in f.entries().iter().zip(&xs) {
        expect_entry(e, x, 0, x.csize as u64, x.usize_ as u64, x.off as u64);
        check!(F, sym::same(e.filename().as_bytes(), &x.name)); // name bytes
        check!(F, sym::same(e.comment().as_bytes(), &x.comment)); // comment bytes
        check!(F, e.extra_fields().len() == (*nx > 0) as usize); // extra fields
    }
    check!(F, sym::same(f.comment().as_bytes(), b"k")); // archive comment
    sym::reach(1);
}

/// Many records, around powers of two: each in its place, the last one of any contents.
pub fn h_cd_count() {
    let seekable = sym::flip();
    let n = [127usize, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2049][sym::pick(10)];
    let mut v: Vec<u8> = Vec::with_capacity(1 << 18);
    let name = |i: usize| [b'a' + (i % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i / 676) as u8];
    for i in 0..n - 1 {
        let mut e = Ent::plain(&name(i), b"");
        e.off = 8 * i as u32;
        e.csize = i as u32;
        put_cdh(&mut v, &e);
    }
    let x = any_ent(sym::bytes(2).into_iter().map(|b| b & 0x7f).collect(), Vec::new(), Vec::new(), 0);
    put_cdh(&mut v, &x);
    put_eocd(&mut v, 0, 0, n as u16, n as u16, quiet32(), 0, b"k");
    no_locator(&v, 1);
    let f = open_ok(v, seekable);
    check!(F, f.entries().len() == n); // all entries
    for (i, e) in f.entries().iter().take(n - 1).enumerate() {
        check!(F, e.filename().as_bytes() == name(i) && e.compressed_size() == i as u64 && e.header_offset() == 8 * i as u64); // in its place
    }
    let e = &f.entries()[n - 1];
    expect_entry(e, &x, 0, x.csize as u64, x.usize_ as u64, x.off as u64);
    check!(F, sym::same(e.filename().as_bytes(), &x.name)); // name bytes
    sym::reach(1);
}

// ------------------------------------------------------------------------------------------------------------- P08

/// Symbolic comment bytes (no end-record signature in them) of 0 to 6 bytes after symbolic leading bytes.
pub fn h_end_comment() {
    end_comment(6, 2)
}
/// Comments of 0 to 12 bytes, more leading bytes.
pub fn h_end_comment_deep() {
    end_comment(12, 4)
}
fn end_comment(max: u8, pads: u8) {
    let n = sym::pick(max + 1);
    let pad = 2 * sym::pick(pads);
    let c = sym::bytes(n);
    let mut v: Vec<u8> = Vec::with_capacity(256);
    v.extend_from_slice(&sym::bytes(pad));
    put_eocd(&mut v, 0, 0, 0, 0, 0, 0, &c);
    // No other signature after the real one.
    let mut i = pad + 1;
    while i + 4 <= v.len() {
        sym::assume(le32(&v, i) != EOCD);
        i += 1;
    }
    let f = open_ok(v, sym::flip());
    check!(F, f.entries().is_empty()); // no entries
    check!(F, sym::same(f.comment().as_bytes(), &c)); // the whole comment
    sym::reach(1);
}

const BOUNDS: [usize; 23] = [
    100, 2021, 2022, 2025, 2026, 2027, 2028, 2029, 2030, 2044, 2047, 2048, 2049, 4065, 4066, 4067, 4068, 4069, 4070, 4071, 4072, 4096, 6112,
];

/// The record at and around every internal buffer boundary; leading bytes before it, comment symbolic near the record.
pub fn h_end_bounds() {
    let n = BOUNDS[sym::pick(23)];
    let pad = [0usize, 1, 4, 2048][sym::pick(4)];
    let mut c = vec![b'x'; n];
    c[0] = sym::u8();
    c[n - 1] = sym::u8();
    let mut v = vec![b'P'; pad];
    v.reserve(n + 22);
    put_eocd(&mut v, 0, 0, 0, 0, 0, 0, &c);
    let f = open_ok(v, true);
    check!(F, sym::same(f.comment().as_bytes(), &c)); // the whole comment
    sym::reach(1);
}

/// Comments up to the maximum length.
pub fn h_end_long() {
    let n = [65535usize, 65534, 65530, 65513, 63490, 32768][sym::pick(6)];
    let pad = [0usize, 1, 30][sym::pick(3)];
    let mut c = vec![b'x'; n];
    c[0] = sym::u8();
    c[n - 1] = sym::u8();
    let mut v = vec![b'K'; pad];
    v.reserve(n + 22);
    put_eocd(&mut v, 0, 0, 0, 0, 0, 0, &c);
    let f = open_ok(v, false);
    check!(F, sym::same(f.comment().as_bytes(), &c)); // the whole comment
    sym::reach(1);
}

/// A signature anywhere from 22 bytes before the end up to the start of a 2- to 3-buffer file is found; the last counts.
pub fn h_end_every() {
    let lo = 16 * sym::pick(255) as usize;
    let n = lo + sym::pick(16);
    let mut v = vec![0u8; 37];
    v.reserve(n + 22);
    let mut c = vec![0u8; n];
    if n > 0 {
        c[0] = sym::u8();
    }
    put_eocd(&mut v, 0, 0, 0, 0, 0, 0, &c);
    let f = open_ok(v, false);
    check!(F, f.comment().as_bytes().len() == n && (n == 0 || f.comment().as_bytes()[0] == c[0])); // found
    sym::reach(1);
}

/// No signature anywhere: refused.
pub fn h_end_none() {
    end_none(9)
}
/// No signature anywhere, more symbolic bytes.
pub fn h_end_none_deep() {
    end_none(14)
}
fn end_none(max: usize) {
    let n = [0usize, 1, 3, 4, 7, 22, 23, 30][sym::pick(8)];
    let at = sym::pick(3) * 5;
    let mut v = b"PK\x05\x06PK\x05\x07PK\x05\x06PK\x05\x06PK\x05\x06PK\x05\x06PK\x05\x06PK"[..n].to_vec();
    for (i, b) in v.iter_mut().enumerate() {
        if i >= at && i < at + max {
            *b = sym::u8();
        } else if i % 4 == 3 {
            *b = 5;
        }
    }
    let mut i = 0;
    while i + 4 <= n {
        sym::assume(le32(&v, i) != EOCD);
        i += 1;
    }
    let r = open(v, sym::flip());
    check!(F, matches!(r, Err(ZipError::UnableToLocateEOCDR))); // refused
    sym::reach(1);
}

/// Long files without a signature, or with one only beyond the reach of a comment: an error, never an archive.
pub fn h_end_far() {
    let n = [2047usize, 2048, 2049, 4092, 5000, 65557, 65558, 70000, 140000][sym::pick(9)];
    let mut v = vec![b'P'; n];
    let sig = sym::flip();
    if sig {
        sym::assume(n >= 70000);
        let e = crate::p_write::METHODS.len(); // 6
        let mut w = Vec::new();
        put_eocd(&mut w, 0, 0, 0, 0, 0, 0, b"");
        v[e..e + 22].copy_from_slice(&w);
    }
    v[n / 2] = sym::u8();
    let r = open(v, false);
    check!(F, matches!(r, Err(ZipError::UnableToLocateEOCDR))); // refused
    sym::reach(1);
}

// ------------------------------------------------------------------------------------------------------------- P09

/// Local header lengths of their own: the data starts where the local header says.
pub fn h_data_position() {
    let which = sym::pick(4);
    let ln = sym::pick(4);
    let lx = sym::pick(4);
    let pad = sym::pick(3);
    let n = sym::pick(4);
    let data = sym::bytes(n);
    let mut e = Ent::plain(b"ab", &data);
    let mut v: Vec<u8> = Vec::with_capacity(512);
    v.extend_from_slice(&sym::bytes(pad));
    e.off = pad as u32;
    // The local header's other fields are arbitrary.
    let l = any_ent(sym::bytes(ln), sym::bytes(lx), Vec::new(), sym::u16());
    put_lfh(&mut v, &l);
    v.extend_from_slice(&data);
    v.extend_from_slice(&sym::bytes(2)); // what follows must not leak in
    let cd = v.len();
    put_cdh(&mut v, &e);
    let size = v.len() - cd;
    put_eocd(&mut v, 0, 0, 1, 1, size as u32, cd as u32, b"");
    let mut got = Vec::new();
    match which {
        0 => match run(mem::ZipFileReader::new(v)) {
            Ok(r) => match run(r.reader_with_entry(0)) {
                Ok(mut e) => check!(F, matches!(run(e.read_to_end_checked(&mut got)), Ok(k) if k == n)), // reads
                Err(_) => check!(F, false), // entry opens
            },
            Err(_) => check!(F, false), // archive opens
        },
        1 => match run(mem::ZipFileReader::new(v)) {
            Ok(r) => match run(r.reader_without_entry(0)) {
                Ok(mut e) => check!(F, matches!(run(e.read_to_end(&mut got)), Ok(k) if k == n)), // reads
                Err(_) => check!(F, false), // entry opens
            },
            Err(_) => check!(F, false), // archive opens
        },
        2 => match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(mut r) => match run(r.reader_with_entry(0)) {
                Ok(mut e) => check!(F, matches!(run(e.read_to_end_checked(&mut got)), Ok(k) if k == n)), // reads
                Err(_) => check!(F, false), // entry opens
            },
            Err(_) => check!(F, false), // archive opens
        },
        _ => match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(r) => match run(r.into_entry(0)) {
                Ok(mut e) => check!(F, matches!(run(e.read_to_end(&mut got)), Ok(k) if k == n)), // reads
                Err(_) => check!(F, false), // entry opens
            },
            Err(_) => check!(F, false), // archive opens
        },
    }
    check!(F, sym::same(&got, &data)); // exactly the entry's bytes
    sym::reach(1);
}

/// Positions and sizes of any 64-bit value: a second entry, the directory and the end records behind gaps of any length,
/// the second entry's contents of any length.
pub fn h_data_far() {
    let which = sym::pick(3);
    let data = sym::bytes(4);
    let mut first = Vec::with_capacity(64);
    let a = Ent::plain(b"a", &data[..2]);
    put_lfh(&mut first, &a);
    first.extend_from_slice(&data[..2]);
    let at = sym::u64();
    sym::assume(at >= first.len() as u64 && at < 1 << 62);
    let size = sym::u64();
    sym::assume(size >= 4 && size < 1 << 61);
    let cd = sym::u64();
    let b_len = 30 + 2 + 5 + 4; // header, name, extra data, the contents that are there
    sym::assume(cd >= at + b_len + (size - 4) && cd < 1 << 63);
    let mut second = Vec::with_capacity(64);
    let mut b = Ent::plain(b"bc", b"");
    b.usize_ = !0;
    b.csize = !0;
    b.off = !0;
    put_lfh_x(&mut second, &b, b"bc", &[0x77, 0x77, 1, 0, 9]);
    second.extend_from_slice(&data);
    p16(&mut b.extra, 1);
    p16(&mut b.extra, 24);
    p64(&mut b.extra, size);
    p64(&mut b.extra, size);
    p64(&mut b.extra, at);
    let mut dir = Vec::with_capacity(3000);
    put_cdh(&mut dir, &a);
    put_cdh(&mut dir, &b);
    let n = dir.len() as u64;
    dir.resize(3000, 0); // room between the directory and its end record
    let z = Z64 { made: 45, need: 45, disk: 0, cd_disk: 0, n_disk: 2, n: 2, size: n, off: cd };
    put_z64(&mut dir, cd + 3000, &z);
    put_eocd(&mut dir, 0, 0, 2, 2, n as u32, !0, b"");
    let src = Far { parts: vec![(0, first), (at, second), (cd, dir)], pos: 0 };
    let mut r = match run(seek::ZipFileReader::new(src)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // archive opens
            return;
        }
    };
    check!(F, r.file().entries()[1].header_offset() == at && r.file().entries()[1].compressed_size() == size); // as recorded
    let mut got = [0u8; 4];
    let ok = match which {
        0 => match run(r.reader_with_entry(1)) {
            Ok(mut e) => run(e.read_exact(&mut got)).is_ok(),
            Err(_) => false,
        },
        1 => match run(r.reader_without_entry(1)) {
            Ok(mut e) => run(e.read_exact(&mut got)).is_ok(),
            Err(_) => false,
        },
        _ => {
            let mut d = Vec::new();
            match run(r.reader_with_entry(0)) {
                Ok(mut e) => check!(F, run(e.read_to_end(&mut d)).is_ok() && sym::same(&d, &data[..2])), // the first one
                Err(_) => check!(F, false), // opens
            }
            match run(r.into_entry(1)) {
                Ok(mut e) => run(e.read_exact(&mut got)).is_ok(),
                Err(_) => false,
            }
        }
    };
    check!(F, ok && sym::same(&got, &data)); // its bytes
    sym::reach(1);
}

/// Any recorded CRC against any data, whole or in two reads of any size; the running hash.
pub fn h_data_crc() {
    let m = sym::pick(2);
    let n = sym::pick(5);
    let data = sym::bytes(n);
    let enc = if m == 0 { data.clone() } else { toy(0xD8, 3, &data) };
    let mut e = Ent::plain(b"ab", &data);
    e.method = [0, 8][m];
    e.csize = enc.len() as u32;
    e.crc = sym::u32();
    let crc = e.crc;
    let v = archive(&mut [(e, enc)], b"");
    let r = match run(mem::ZipFileReader::new(v)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // archive opens
            return;
        }
    };
    let mut got = Vec::new();
    if let Ok(mut e) = run(r.reader_with_entry(0)) {
        match run(e.read_to_end_checked(&mut got)) {
            Ok(k) => {
                check!(F, k == n && crc == crc32(&data)); // verified only if it matches
                sym::reach(1);
            }
            Err(ZipError::CRC32CheckError) => {
                check!(F, crc != crc32(&data)); // refused only if it does not
                sym::reach(2);
            }
            Err(_) => check!(F, false), // no other failure
        }
    } else {
        check!(F, false); // entry opens
    }
    check!(F, sym::same(&got, &data)); // data delivered
    // In pieces, with the running hash.
    if let Ok(mut e) = run(r.reader_without_entry(0)) {
        let a = sym::pick(n as u8 + 2);
        let mut buf = [0u8; 8];
        let mut at = 0;
        while at < a.min(n) {
            match run(e.read(&mut buf[at..a])) {
                Ok(k) => {
                    check!(F, k > 0 && k <= a - at); // progress
                    at += k;
                }
                Err(_) => check!(F, false), // reads
            }
        }
        check!(F, at <= n); // no more than there is
        let mut rest = Vec::new();
        check!(F, matches!(run(e.read_to_end(&mut rest)), Ok(k) if k == n - at)); // the rest
        let h = e.compute_hash();
        check!(F, h == crc32(&data)); // running hash
        check!(F, sym::same(&buf[..at], &data[..at]) && sym::same(&rest, &data[at..])); // same bytes
        check!(F, matches!(run(e.read(&mut buf)), Ok(0))); // and then the end
    } else {
        check!(F, false); // entry opens
    }
    sym::reach(3);
}

/// Reads of any sizes with the running hash asked for after any of them, into buffers that are not empty; a checked read at
/// the end, and another.
pub fn h_data_hash() {
    let n = sym::pick(4);
    let data = sym::bytes(n);
    let m = [0usize, 8][sym::pick(2)];
    let enc = if m == 0 { data.clone() } else { toy(0xD8, 3, &data) };
    let mut e = Ent::plain(b"ab", &data);
    e.method = m as u16;
    e.csize = enc.len() as u32;
    if sym::flip() {
        e.crc = sym::u32();
    }
    e.usize_ = sym::u32();
    let crc = e.crc;
    let mut ents = [(e, enc)];
    let v = archive(&mut ents, b"");
    let r = match run(mem::ZipFileReader::new(v)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // archive opens
            return;
        }
    };
    let mut e = match run(r.reader_with_entry(0)) {
        Ok(e) => e,
        Err(_) => {
            check!(F, false); // entry opens
            return;
        }
    };
    let mut buf = [0u8; 8];
    let mut at = 0;
    for _ in 0..2 {
        let a = sym::pick((n - at) as u8 + 1);
        match run(e.read(&mut buf[at..at + a])) {
            Ok(k) => {
                check!(F, k <= a && (k > 0 || a == 0)); // progress
                check!(F, sym::same(&buf[at..at + k], &data[at..at + k])); // the next bytes
                at += k;
            }
            Err(_) => check!(F, false), // reads
        }
        if sym::flip() {
            check!(F, e.compute_hash() == crc32(&data[..at])); // of what was read so far
        }
    }
    let before = sym::bytes(2);
    let mut got = before.clone();
    for i in 0..2 {
        match run(e.read_to_end_checked(&mut got)) {
            Ok(k) => {
                check!(F, k == if i == 0 { n - at } else { 0 } && crc == crc32(&data)); // verified only if it matches
                sym::reach(1);
            }
            Err(ZipError::CRC32CheckError) => {
                check!(F, crc != crc32(&data)); // refused only if it does not
                sym::reach(2);
            }
            Err(_) => check!(F, false), // no other failure
        }
        check!(F, sym::same(&got[..2], &before) && sym::same(&got[2..], &data[at..])); // appended
    }
    check!(F, e.compute_hash() == crc32(&data)); // of everything
}

/// Every method through every reader, whatever uncompressed size and attributes the record declares: the coded data is
/// decoded by that method, nothing else decides.
pub fn h_data_method() {
    let m = sym::pick(IDS.len() as u8);
    let which = sym::pick(5);
    let n = sym::pick(3);
    let data = sym::bytes(n);
    let tags = [0u8, 0xD8, 0xD9, 0xDC, 0xDE, 0x5D, 0x5F];
    let tag = match IDS[m].0 {
        0 => tags[0],
        8 => tags[1],
        9 => tags[2],
        12 => tags[3],
        14 => tags[4],
        93 => tags[5],
        _ => tags[6],
    };
    let enc = if tag == 0 { data.clone() } else { toy(tag, 3, &data) };
    let mut e = Ent::plain(b"ab", &data);
    let crc = e.crc;
    e = Ent { usize_: sym::u32(), iattr: sym::u16(), eattr: sym::u32(), method: IDS[m].0, csize: enc.len() as u32, ..e };
    sym::assume(e.usize_ != M);
    let v = archive(&mut [(e, enc)], b"");
    let mut got = Vec::new();
    let ok = match which {
        0 => match run(mem::ZipFileReader::new(v)) {
            Ok(r) => match run(r.reader_with_entry(0)) {
                Ok(mut e) => run(e.read_to_end_checked(&mut got)).is_ok(),
                Err(_) => false,
            },
            Err(_) => false,
        },
        1 => match run(mem::ZipFileReader::new(v)) {
            Ok(r) => match run(r.reader_without_entry(0)) {
                Ok(mut e) => run(e.read_to_end(&mut got)).is_ok() && e.compute_hash() == crc,
                Err(_) => false,
            },
            Err(_) => false,
        },
        2 => match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(mut r) => match run(r.reader_with_entry(0)) {
                Ok(mut e) => run(e.read_to_end_checked(&mut got)).is_ok(),
                Err(_) => false,
            },
            Err(_) => false,
        },
        3 => match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(mut r) => match run(r.reader_without_entry(0)) {
                Ok(mut e) => run(e.read_to_end(&mut got)).is_ok() && e.compute_hash() == crc,
                Err(_) => false,
            },
            Err(_) => false,
        },
        _ => match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(r) => match run(r.into_entry(0)) {
                Ok(mut e) => run(e.read_to_end(&mut got)).is_ok() && e.compute_hash() == crc,
                Err(_) => false,
            },
            Err(_) => false,
        },
    };
    check!(F, ok); // opens, reads, verifies
    check!(F, sym::same(&got, &data)); // exact
    sym::reach(1);
}

/// Text reads: `read_to_string_checked` accepts valid UTF-8 with the right CRC only.
pub fn h_data_text() {
    let n = sym::pick(3);
    let data = sym::bytes(n);
    let mut e = Ent::plain(b"ab", &data);
    e.crc = sym::u32();
    let crc = e.crc;
    let v = archive(&mut [(e, data.clone())], b"");
    let r = match run(mem::ZipFileReader::new(v)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // archive opens
            return;
        }
    };
    let valid = std::str::from_utf8(&data).is_ok();
    let mut got = String::new();
    if let Ok(mut e) = run(r.reader_with_entry(0)) {
        match run(e.read_to_string_checked(&mut got)) {
            Ok(k) => {
                check!(F, k == n && valid && crc == crc32(&data) && sym::same(got.as_bytes(), &data)); // verified text
                sym::reach(1);
            }
            Err(ZipError::CRC32CheckError) => {
                check!(F, crc != crc32(&data)); // wrong crc
                sym::reach(2);
            }
            Err(_) => {
                check!(F, !valid); // not text
                sym::reach(3);
            }
        }
    } else {
        check!(F, false); // entry opens
    }
}

/// Contents around internal buffer sizes, a short local header, several entries; each entry gives exactly its own bytes.
pub fn h_data_sizes() {
    let which = sym::pick(2);
    let n = [31usize, 32, 33, 255, 256, 2047, 2048, 2049, 4096, 8193, 65535, 65536, 65537, 131073][sym::pick(14)];
    let mut d0 = ramp(n);
    d0[n - 1] = sym::u8(); // symbolic at the end only: a checksum over thousands of symbolic bytes is out of reach
    let d1 = sym::bytes(2);
    let v = archive(&mut [(Ent::plain(b"a", &d0), d0.clone()), (Ent::plain(b"b", &d1), d1.clone())], b"");
    for (i, d) in [(1usize, &d1), (0, &d0)] {
        let mut got = Vec::new();
        let ok = if which == 0 {
            match run(mem::ZipFileReader::new(v.clone())) {
                Ok(r) => match run(r.reader_with_entry(i)) {
                    Ok(mut e) => run(e.read_to_end_checked(&mut got)).is_ok(),
                    Err(_) => false,
                },
                Err(_) => false,
            }
        } else {
            match run(seek::ZipFileReader::new(Cursor::new(v.clone()))) {
                Ok(mut r) => match run(r.reader_with_entry(i)) {
                    Ok(mut e) => run(e.read_to_end_checked(&mut got)).is_ok(),
                    Err(_) => false,
                },
                Err(_) => false,
            }
        };
        check!(F, ok && sym::same(&got, d)); // its own bytes
    }
    sym::reach(1);
}

/// Contents read in many small reads, then checked.
pub fn h_data_reads() {
    let which = sym::pick(3);
    let n = [5usize, 9, 17, 33, 65, 129, 257, 300, 1025][sym::pick(9)];
    let piece = [1usize, 2, 3][sym::pick(3)];
    let mut d = ramp(n);
    d[n - 1] = sym::u8();
    let m = [0usize, 8][sym::pick(2)];
    let enc = if m == 0 { d.clone() } else { toy(0xD8, 3, &d) };
    let mut e = Ent::plain(b"ab", &d);
    e.method = m as u16;
    e.csize = enc.len() as u32;
    let v = archive(&mut [(e, enc)], b"");
    if which == 0 {
        match run(mem::ZipFileReader::new(v)) {
            Ok(r) => match run(r.reader_with_entry(0)) {
                Ok(mut e) => pieces(&mut e, &d, piece),
                Err(_) => check!(F, false), // entry opens
            },
            Err(_) => check!(F, false), // archive opens
        }
    } else if which == 1 {
        match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(mut r) => match run(r.reader_with_entry(0)) {
                Ok(mut e) => pieces(&mut e, &d, piece),
                Err(_) => check!(F, false), // entry opens
            },
            Err(_) => check!(F, false), // archive opens
        }
    } else {
        match run(stream::ZipFileReader::new(Cursor::new(v)).next_with_entry()) {
            Ok(Some(mut r)) => pieces(r.reader_mut(), &d, piece),
            _ => check!(F, false), // entry opens
        }
    }
    sym::reach(1);
}
fn pieces<R: AsyncBufRead + Unpin>(e: &mut ZipEntryReader<'_, R, WithEntry<'_>>, d: &[u8], piece: usize) {
    let mut got = Vec::with_capacity(d.len() + 8);
    let mut buf = [0u8; 4];
    loop {
        match run(e.read(&mut buf[..piece])) {
            Ok(0) => break,
            Ok(k) => {
                check!(F, k <= piece); // no more than asked for
                got.extend_from_slice(&buf[..k]);
                check!(F, got.len() <= d.len()); // no more than there is
            }
            Err(_) => {
                check!(F, false); // reads
                return;
            }
        }
    }
    check!(F, sym::same(&got, d)); // its own bytes
    check!(F, e.compute_hash() == crc32(d)); // hashed once each
    let mut rest = Vec::new();
    check!(F, run(e.read_to_end_checked(&mut rest)).is_ok() && rest.is_empty()); // and the check agrees
}

/// Long names and extra data in the local header, together longer than either can be.
pub fn h_data_long() {
    let which = sym::flip();
    let ln = [0usize, 255, 256, 32768, 65535][sym::pick(5)];
    let lx = [0usize, 255, 256, 32768, 65535][sym::pick(5)];
    let data = sym::bytes(2);
    let e = Ent::plain(b"ab", &data);
    let mut v: Vec<u8> = Vec::with_capacity(140000);
    put_lfh(&mut v, &any_ent(vec![b'n'; ln], vec![b'x'; lx], Vec::new(), 0));
    v.extend_from_slice(&data);
    let cd = v.len();
    put_cdh(&mut v, &e);
    let size = v.len() - cd;
    put_eocd(&mut v, 0, 0, 1, 1, size as u32, cd as u32, b"");
    let mut got = Vec::new();
    let ok = if which {
        match run(mem::ZipFileReader::new(v)) {
            Ok(r) => match run(r.reader_with_entry(0)) {
                Ok(mut e) => run(e.read_to_end_checked(&mut got)).is_ok(),
                Err(_) => false,
            },
            Err(_) => false,
        }
    } else {
        match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(mut r) => match run(r.reader_with_entry(0)) {
                Ok(mut e) => run(e.read_to_end_checked(&mut got)).is_ok(),
                Err(_) => false,
            },
            Err(_) => false,
        }
    };
    check!(F, ok && sym::same(&got, &data)); // exactly the entry's bytes
    sym::reach(1);
}

/// A compressed size that reaches beyond the archive: what is there is delivered or an error, never bytes from elsewhere.
pub fn h_data_beyond() {
    let cs = sym::u32();
    let data = sym::bytes(2);
    let mut e = Ent::plain(b"a", &data);
    e.csize = cs;
    e.usize_ = cs;
    let v = archive(&mut [(e, data.clone())], b"");
    let after = v[30 + 1..].to_vec(); // everything from the data on
    if let Ok(r) = run(mem::ZipFileReader::new(v)) {
        if let Ok(mut e) = run(r.reader_without_entry(0)) {
            let mut got = Vec::new();
            match run(e.read_to_end(&mut got)) {
                Ok(k) => {
                    check!(F, k == got.len() && k as u64 <= cs as u64); // never more than the compressed size
                    check!(F, k <= after.len() && sym::same(&got, &after[..k])); // the bytes at that place
                    check!(F, k as u64 == cs as u64 || k == after.len()); // all of them
                    sym::reach(1);
                }
                Err(_) => check!(F, cs as usize > after.len()), // an error only beyond the end
            }
        } else {
            check!(F, false); // entry opens
        }
    } else {
        check!(F, false); // archive opens
    }
}

// ------------------------------------------------------------------------------------------------------------- P19

/// Disk numbers and counts of the end record: refused as split exactly when they disagree.
pub fn h_ref_split() {
    let seekable = sym::flip();
    let n = sym::pick(3);
    let mut v: Vec<u8> = Vec::with_capacity(256);
    for _ in 0..n {
        put_cdh(&mut v, &Ent::plain(b"a", b""));
    }
    let (d, c, nd) = (sym::u16(), sym::u16(), sym::u16());
    put_eocd(&mut v, d, c, nd, n as u16, quiet32(), 0, b"");
    let e = v.len() - 22;
    for i in 1..=18 {
        sym::assume(le32(&v, e + i) != EOCD); // no second signature inside the record
    }
    match open(v, seekable) {
        Ok(f) => {
            check!(F, d == c && nd == n as u16 && f.entries().len() == n); // whole archive
            sym::reach(1);
        }
        Err(ZipError::FeatureNotSupported(_)) => {
            check!(F, d != c || nd != n as u16); // split
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

/// The same with a zip64 end record, whose disk numbers and counts hold where the classic ones are saturated.
pub fn h_ref_split_zip64() {
    let seekable = sym::flip();
    let n = sym::pick(3);
    let mut v: Vec<u8> = Vec::with_capacity(256);
    for _ in 0..n {
        put_cdh(&mut v, &Ent::plain(b"a", b""));
    }
    let size = v.len() as u64;
    let z = Z64 { made: 45, need: 45, disk: sym::u32(), cd_disk: sym::u32(), n_disk: sym::u64(), n: n as u64, size, off: 0 };
    put_z64(&mut v, size, &z);
    let sat = sym::pick(8);
    let own = |k: usize, x: u16| if sat >> k & 1 == 1 { 0xFFFF } else { x };
    let (d, c, nd) = (own(0, sym::u8() as u16), own(1, sym::u8() as u16), own(2, sym::u8() as u16));
    put_eocd(&mut v, d, c, nd, if sym::flip() { n as u16 } else { 0xFFFF }, size as u32, 0, b"");
    let e = v.len() - 22;
    for i in 1..=18 {
        sym::assume(le32(&v, e + i) != EOCD); // no second signature inside the record
    }
    let ed = if d == 0xFFFF { z.disk } else { d as u32 };
    let ec = if c == 0xFFFF { z.cd_disk } else { c as u32 };
    let en = if nd == 0xFFFF { z.n_disk } else { nd as u64 };
    match open(v, seekable) {
        Ok(f) => {
            check!(F, ed == ec && en == n as u64 && f.entries().len() == n); // whole archive
            sym::reach(1);
        }
        Err(ZipError::FeatureNotSupported(_)) => {
            check!(F, ed != ec || en != n as u64); // split
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

/// Any method id: supported exactly for the known ones, otherwise refused naming the id.
pub fn h_ref_method() {
    let how = sym::pick(3);
    let m = sym::u16();
    let mut e = Ent::plain(b"a", b"");
    e.method = m;
    let known = m == 0 || m == 8 || m == 9 || m == 12 || m == 14 || m == 93 || m == 95;
    let v = archive(&mut [(e, Vec::new())], b"");
    let r = match how {
        0 => open(v, false).map(|f| f.entries()[0].compression()),
        1 => open(v, true).map(|f| f.entries()[0].compression()),
        _ => match run(async_zip::base::read::stream::ZipFileReader::new(Cursor::new(v)).next_with_entry()) {
            Ok(Some(r)) => Ok(r.reader().entry().compression()),
            Ok(None) => {
                check!(F, false); // there is an entry
                return;
            }
            Err(e) => Err(e),
        },
    };
    match r {
        Ok(c) => {
            check!(F, known); // only known methods
            let mut ok = false;
            for (id, x) in IDS {
                ok |= id == m && x == c;
            }
            check!(F, ok); // the right one
            sym::reach(1);
        }
        Err(ZipError::CompressionNotSupported(x)) => {
            check!(F, !known && x == m); // unknown, and named
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

/// Writing: a method there is only a decoder for is refused, naming the id, with nothing written; every other one is not, and
/// data compressed elsewhere never is.
pub fn h_ref_write() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let m = sym::pick(7);
    let how = sym::pick(4);
    let mut s = Spec::plain("ab", sym::bytes(sym::pick(3)));
    s.method = m;
    let mut w = writer(z);
    let r = match how {
        0 => run(w.write_entry_whole(s.entry(), &s.data)),
        1 => run(w.write_entry_stream(s.entry())).map(|_| ()),
        2 => run(w.write_entry_whole_precompressed(s.entry(), &s.data)),
        _ => run(w.write_entry_stream_precompressed(s.entry())).map(|_| ()),
    };
    match r {
        Ok(()) => {
            check!(F, m < 6 || how > 1); // there is an encoder, or none is needed
            sym::reach(1);
        }
        Err(ZipError::CompressionNotSupported(x)) => {
            check!(F, m == 6 && how <= 1 && x == 9); // there is none
            check!(F, w.inner_mut().is_empty()); // nothing written
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

/// Wrong signatures of directory record and local header; stream signatures.
pub fn h_ref_signature() {
    let sig = sym::u32();
    let how = sym::pick(4);
    let data = sym::bytes(1);
    let mut v = archive(&mut [(Ent::plain(b"a", &data), data.clone())], b"");
    let at = if how == 0 { 32 } else { 0 };
    v[at..at + 4].copy_from_slice(&sig.to_le_bytes());
    match how {
        0 => match open(v, sym::flip()) {
            Ok(_) => {
                check!(F, sig == CDH); // right
                sym::reach(1);
            }
            Err(ZipError::UnexpectedHeaderError(a, b)) => {
                check!(F, sig != CDH && a == sig && b == CDH); // wrong, and named
                sym::reach(2);
            }
            Err(_) => check!(F, false), // no other reason
        },
        1 | 2 => {
            let r = if how == 1 {
                match run(mem::ZipFileReader::new(v)) {
                    Ok(r) => run(r.reader_without_entry(0)).map(|_| ()),
                    Err(e) => Err(e),
                }
            } else {
                match run(seek::ZipFileReader::new(Cursor::new(v))) {
                    Ok(mut r) => run(r.reader_with_entry(0)).map(|_| ()),
                    Err(e) => Err(e),
                }
            };
            match r {
                Ok(_) => check!(F, sig == LFH), // right
                Err(ZipError::UnexpectedHeaderError(a, b)) => {
                    check!(F, sig != LFH && a == sig && b == LFH); // wrong, and named
                    sym::reach(3);
                }
                Err(_) => check!(F, false), // no other reason
            }
        }
        _ => match run(async_zip::base::read::stream::ZipFileReader::new(Cursor::new(v)).next_without_entry()) {
            Ok(Some(_)) => check!(F, sig == LFH), // an entry
            Ok(None) => check!(F, sig == CDH || sig == EOCD || sig == Z64EOCD), // the directory or what follows it
            Err(ZipError::UnexpectedHeaderError(a, b)) => {
                check!(F, sig != LFH && sig != CDH && sig != EOCD && sig != Z64EOCD && a == sig && b == LFH); // neither
                sym::reach(4);
            }
            Err(_) => check!(F, false), // no other reason
        },
    }
}

/// The ZIP64 end record's own signature, wherever the locator points.
pub fn h_ref_zip64_sig() {
    let sig = sym::u32();
    let at = sym::u64();
    let mut v: Vec<u8> = Vec::with_capacity(256);
    put_cdh(&mut v, &Ent::plain(b"a", b""));
    let z = v.len();
    let here = z as u64;
    put_z64(&mut v, at, &Z64 { made: 45, need: 45, disk: 0, cd_disk: 0, n_disk: 1, n: 1, size: 47, off: 0 });
    v[z..z + 4].copy_from_slice(&sig.to_le_bytes());
    put_eocd(&mut v, 0, 0, 0xFFFF, 0xFFFF, M, M, b"");
    match open(v, sym::flip()) {
        Ok(f) => {
            check!(F, sig == Z64EOCD && at == here); // only at the record
            check!(F, f.entries().len() == 1); // one entry
            sym::reach(1);
        }
        Err(ZipError::UnexpectedHeaderError(a, b)) => {
            check!(F, b == Z64EOCD && (at != here || a == sig && sig != Z64EOCD)); // named
            sym::reach(2);
        }
        Err(_) => {
            check!(F, at != here); // out of the file
            sym::reach(3);
        }
    }
}

/// Entry indices: exactly those below the number of entries exist.
pub fn h_ref_index() {
    let n = sym::pick(3);
    let i = sym::u64() as usize;
    let mut ents = Vec::new();
    for _ in 0..n {
        ents.push((Ent::plain(b"a", b"x"), b"x".to_vec()));
    }
    let v = archive(&mut ents, b"");
    let how = sym::pick(5);
    let r = match how {
        0 | 1 => match run(mem::ZipFileReader::new(v)) {
            Ok(r) => {
                if how == 0 {
                    run(r.reader_without_entry(i)).map(|_| ())
                } else {
                    run(r.reader_with_entry(i)).map(|_| ())
                }
            }
            Err(e) => Err(e),
        },
        _ => match run(seek::ZipFileReader::new(Cursor::new(v))) {
            Ok(mut r) => match how {
                2 => run(r.reader_without_entry(i)).map(|_| ()),
                3 => run(r.reader_with_entry(i)).map(|_| ()),
                _ => run(r.into_entry(i)).map(|_| ()),
            },
            Err(e) => Err(e),
        },
    };
    match r {
        Ok(()) => {
            check!(F, i < n); // exists
            sym::reach(1);
        }
        Err(ZipError::EntryIndexOutOfBounds) => {
            check!(F, i >= n); // does not exist
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

// ------------------------------------------------------------------------------------------------------------- P22

pub(crate) fn three() -> (Vec<u8>, [Vec<u8>; 3]) {
    three_with(|_| Vec::new())
}
/// Three entries, whose local headers have extra data of their own.
fn three_with(local: impl Fn(usize) -> Vec<u8>) -> (Vec<u8>, [Vec<u8>; 3]) {
    let d = [sym::bytes(3), sym::bytes(2), sym::bytes(4)];
    let enc = toy(0xD8, 1, &d[1]);
    let mut e1 = Ent::plain(b"bb", &d[1]);
    e1.method = 8;
    e1.csize = enc.len() as u32;
    let mut es = [Ent::plain(b"a", &d[0]), e1, Ent::plain(b"ccc", &d[2])];
    let mut v = Vec::with_capacity(512);
    for (i, e) in es.iter_mut().enumerate() {
        e.off = v.len() as u32;
        put_lfh_x(&mut v, e, &e.name, &local(i));
        v.extend_from_slice(if i == 1 { &enc } else { &d[i] });
    }
    let cd = v.len();
    for e in es.iter() {
        put_cdh(&mut v, e);
    }
    let size = (v.len() - cd) as u32;
    put_eocd(&mut v, 0, 0, 3, 3, size, cd as u32, b"");
    (v, d)
}

/// Wherever the source stands when an entry is opened, also within or behind other entries whose local headers differ from
/// their directory records: the same bytes.
pub fn h_ind_position() {
    let n = sym::pick(3);
    let (v, d) = three_with(|i| if i == 2 { Vec::new() } else { vec![0x42; n * 4] });
    let len = v.len() as u64;
    let mut r = match run(seek::ZipFileReader::new(Src::new(v, Sched::NONE))) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // opens
            return;
        }
    };
    for _ in 0..2 {
        let i = sym::pick(3);
        let at = sym::u64();
        sym::assume(at <= len + 1);
        r.inner_mut().pos = at;
        let mut got = Vec::new();
        match run(r.reader_with_entry(i)) {
            Ok(mut e) => check!(F, run(e.read_to_end_checked(&mut got)).is_ok()), // verified
            Err(_) => check!(F, false), // opens
        }
        check!(F, sym::same(&got, &d[i])); // its bytes
    }
    sym::reach(1);
}

/// Opens an entry and reads it in two steps.
async fn look(r: &mut seek::ZipFileReader<Src>, i: usize, got: &mut Vec<u8>) -> async_zip::error::Result<()> {
    let mut e = r.reader_with_entry(i).await?;
    let mut b = [0u8; 2];
    let n = e.read(&mut b).await?;
    got.extend_from_slice(&b[..n]);
    e.read_to_end(got).await?;
    Ok(())
}

/// The read of any entry is cut short by the schedule `s`, through `drive`; what is read later is as if nothing had happened.
pub(crate) fn cut_short(s: Sched, drive: fn(&mut seek::ZipFileReader<Src>, usize, &mut Vec<u8>) -> bool) {
    let (v, d) = three();
    let mut r = match run(seek::ZipFileReader::new(Src::new(v, Sched::NONE))) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // opens
            return;
        }
    };
    let i = sym::pick(3);
    let mut got = Vec::new();
    r.inner_mut().s = s;
    if drive(&mut r, i, &mut got) {
        check!(F, sym::same(&got, &d[i])); // its bytes
        sym::reach(1);
    } else {
        check!(F, got.len() <= d[i].len() && sym::same(&got, &d[i][..got.len()])); // its first bytes
        sym::reach(2);
    }
    r.inner_mut().s = Sched::NONE;
    let j = sym::pick(3);
    for j in [j, i] {
        let mut got = Vec::new();
        match run(r.reader_with_entry(j)) {
            Ok(mut e) => check!(F, run(e.read_to_end_checked(&mut got)).is_ok()), // verified
            Err(_) => check!(F, false), // entry opens
        }
        check!(F, sym::same(&got, &d[j])); // its bytes
    }
}

/// Seekable reader: the future that opens or reads an entry is dropped at any point where the source is not ready.
pub fn h_ind_cancel() {
    cut_short(Sched::pending(1), |r, i, got| run_or_drop(look(r, i, got)).is_some_and(|r| r.is_ok()));
}
/// The same after a short read.
pub fn h_ind_cancel_short() {
    cut_short(Sched { short: 1, short_max: 2, ..Sched::pending(1) }, |r, i, got| run_or_drop(look(r, i, got)).is_some_and(|r| r.is_ok()));
}
/// Seekable reader: the source fails any one operation while an entry is opened or read, and works again afterwards.
pub fn h_local_read_fault() {
    cut_short(Sched::error(), |r, i, got| {
        let ok = run(look(r, i, got)).is_ok();
        check!(F, ok != failed()); // reported
        ok
    });
}

/// Seekable reader: any sequence of three partial or complete reads of any entries.
pub fn h_ind_seek() {
    let (v, d) = three();
    let mut r = match run(seek::ZipFileReader::new(Cursor::new(v))) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // opens
            return;
        }
    };
    for _ in 0..3 {
        let i = sym::pick(3);
        let k = sym::pick(5); // bytes to read, 4 = all, checked
        match run(r.reader_with_entry(i)) {
            Ok(mut e) => {
                if k == 4 {
                    let mut got = Vec::new();
                    check!(F, run(e.read_to_end_checked(&mut got)).is_ok()); // verified
                    check!(F, sym::same(&got, &d[i])); // its bytes
                } else {
                    let mut buf = [0u8; 4];
                    match run(e.read(&mut buf[..k])) {
                        Ok(n) => check!(F, n <= k && n <= d[i].len() && sym::same(&buf[..n], &d[i][..n])), // its first bytes
                        Err(_) => check!(F, false), // reads
                    }
                }
            }
            Err(_) => check!(F, false), // entry opens
        }
    }
    // What is then read is as if nothing had happened.
    let j = sym::pick(3);
    let mut got = Vec::new();
    match run(r.reader_without_entry(j)) {
        Ok(mut e) => check!(F, run(e.read_to_end(&mut got)).is_ok()), // reads
        Err(_) => check!(F, false), // entry opens
    }
    check!(F, sym::same(&got, &d[j])); // its bytes
    sym::reach(1);
}

/// In-memory reader: two entry readers of any entries (possibly the same) interleaved byte by byte, one through a clone.
pub fn h_ind_mem() {
    let (v, d) = three();
    let r = match run(mem::ZipFileReader::new(v)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // opens
            return;
        }
    };
    let c = r.clone();
    let (i, j) = (sym::pick(3), sym::pick(3));
    let (mut a, mut b) = match (run(r.reader_without_entry(i)), run(c.reader_with_entry(j))) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            check!(F, false); // entries open
            return;
        }
    };
    let (mut ga, mut gb) = (Vec::new(), Vec::new());
    for _ in 0..4 {
        let mut x = [0u8; 2];
        if sym::flip() {
            if let Ok(n) = run(a.read(&mut x)) {
                ga.extend_from_slice(&x[..n]);
            } else {
                check!(F, false); // reads
            }
        } else if let Ok(n) = run(b.read(&mut x)) {
            gb.extend_from_slice(&x[..n]);
        } else {
            check!(F, false); // reads
        }
    }
    check!(F, run(a.read_to_end(&mut ga)).is_ok()); // rest of the first
    check!(F, run(b.read_to_end_checked(&mut gb)).is_ok()); // rest of the second, its hash unaffected
    check!(F, sym::same(&ga, &d[i]) && sym::same(&gb, &d[j])); // each its own bytes
    sym::reach(1);
}

/// Cloned seekable readers do not affect each other; listings do not change.
pub fn h_ind_clone() {
    let (v, d) = three();
    let mut r = match run(seek::ZipFileReader::new(Cursor::new(v))) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // opens
            return;
        }
    };
    let (i, j) = (sym::pick(3), sym::pick(3));
    let mut c = r.clone();
    let mut ga = Vec::new();
    let mut gb = Vec::new();
    match (run(r.reader_without_entry(i)), run(c.reader_with_entry(j))) {
        (Ok(mut a), Ok(mut b)) => {
            let mut x = [0u8; 1];
            for _ in 0..3 {
                if sym::flip() {
                    if let Ok(n) = run(a.read(&mut x)) {
                        ga.extend_from_slice(&x[..n]);
                    }
                } else if let Ok(n) = run(b.read(&mut x)) {
                    gb.extend_from_slice(&x[..n]);
                }
            }
            check!(F, run(a.read_to_end(&mut ga)).is_ok()); // rest of the first
            check!(F, run(b.read_to_end_checked(&mut gb)).is_ok()); // rest of the second
        }
        _ => check!(F, false), // entries open
    }
    check!(F, sym::same(&ga, &d[i]) && sym::same(&gb, &d[j])); // each its own bytes
    check!(F, r.file().entries().len() == 3 && c.file().entries().len() == 3); // listings unchanged
    sym::reach(1);
}

/// Polling two entry readers of one in-memory archive alternately, as concurrent tasks would.
pub fn h_ind_join() {
    let (v, d) = three();
    let r = match run(mem::ZipFileReader::new(v)) {
        Ok(r) => r,
        Err(_) => {
            check!(F, false); // opens
            return;
        }
    };
    let (i, j) = (sym::pick(3), sym::pick(3));
    let read = |i: usize| {
        let r = r.clone();
        async move {
            let mut got = Vec::new();
            let mut e = r.reader_with_entry(i).await?;
            futures_lite::future::yield_now().await;
            e.read_to_end_checked(&mut got).await?;
            Ok::<_, ZipError>(got)
        }
    };
    match run_yield(futures_lite::future::try_zip(read(i), read(j))) {
        Ok((a, b)) => check!(F, sym::same(&a, &d[i]) && sym::same(&b, &d[j])), // each its own bytes
        Err(_) => check!(F, false), // both succeed
    }
    sym::reach(1);
}
