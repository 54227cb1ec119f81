//! 64-bit sizes, offsets and counts when writing (P04), over contents-free data of symbolic length.
use crate::oracle::*;
use crate::p_write::{dos, Spec, METHODS, Z};
use crate::{check, io::*, sym};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::{Zip64ErrorCase, ZipError};
use async_zip::*;
use futures_lite::io::AsyncWriteExt;
const F: u32 = 5;
const M: u64 = 0xFFFF_FFFF;

fn writer(z: Z) -> ZipFileWriter<Sink> {
    let w = ZipFileWriter::new(Sink::new(Sched::NONE));
    match z {
        Z::Auto => w,
        Z::Forced => w.force_zip64(),
        Z::Forbidden => w.force_no_zip64(),
    }
}

/// Reads a sink as a sequence: real bytes at index `i`, virtual position = `i` plus the gaps before it.
struct View<'a> {
    s: &'a Sink,
}

impl View<'_> {
    fn voff(&self, i: usize) -> u64 {
        let mut v = i as u64;
        for (at, n) in self.s.gaps.iter() {
            if *at <= i {
                v += n;
            }
        }
        v
    }
    /// Virtual position of the byte at `i`, when a gap right at `i` comes after what is there.
    fn voff_before(&self, i: usize) -> u64 {
        let mut v = i as u64;
        for (at, n) in self.s.gaps.iter() {
            if *at < i {
                v += n;
            }
        }
        v
    }
    fn gap(&self, i: usize) -> u64 {
        self.voff(i) - self.voff_before(i)
    }
}

struct Want {
    streamed: bool,
    csize: u64,
    usize_: u64,
    full: Option<Full>,
}
/// What else an entry has.
struct Full {
    spec: Spec,
    extra: Vec<u8>,
}
/// Name, method, timestamp and extra data of the local header (`local`) or the directory record at `i`.
fn verify_full(b: &[u8], i: usize, local: bool, w: &Want) {
    if let Some(f) = &w.full {
        let o = if local { 0 } else { 2 };
        check!(F, le16(b, i + o + 6) == 0x800 | if w.streamed { 8 } else { 0 }); // flags
        check!(F, le16(b, i + o + 8) == METHODS[f.spec.method].1); // method
        check!(F, le16(b, i + o + 10) == f.spec.time && le16(b, i + o + 12) == f.spec.date); // timestamp
        let (nl, xl) = (sym::conc(le16(b, i + o + 26) as u64) as usize, sym::conc(le16(b, i + o + 28) as u64) as usize);
        let n = if local { i + 30 } else { i + 46 };
        check!(F, sym::same(&b[n..n + nl], f.spec.name.as_bytes())); // name
        let mut own = Vec::new();
        for (id, d) in extras(&b[n + nl..n + nl + xl]) {
            if id != 1 {
                p16(&mut own, id);
                p16(&mut own, d.len() as u16);
                own.extend_from_slice(&d);
            }
        }
        check!(F, sym::same(&own, &f.extra)); // its own extra fields
        if !local {
            let cl = sym::conc(le16(b, i + 32) as u64) as usize;
            check!(F, sym::same(&b[n + nl + xl..n + nl + xl + cl], f.spec.comment.as_bytes())); // comment
            check!(F, le16(b, i + 34) == 0 && le16(b, i + 36) == f.spec.iattr && le32(b, i + 38) == f.spec.eattr); // attributes
        }
    }
}

/// Every true value must be recoverable from the finished archive, by the rules of APPNOTE 4.5.3 and 4.3.14 to 4.3.16.
fn verify(s: &Sink, want: &[Want], z: Z) {
    verify_with(s, want, z, b"")
}
fn verify_with(s: &Sink, want: &[Want], z: Z, comment: &[u8]) {
    let v = View { s };
    let b = &s.data[..];
    check!(F, s.len == b.len() as u64 + s.gaps.iter().map(|g| g.1).sum::<u64>()); // sink accounting
    // Local headers, forwards.
    let mut i = 0usize;
    let mut offs = Vec::new();
    let mut crcs = Vec::new();
    for w in want {
        offs.push(v.voff(i));
        check!(F, i + 30 <= b.len() && le32(b, i) == LFH); // local header
        verify_full(b, i, true, w);
        let (nl, xl) = (sym::conc(le16(b, i + 26) as u64) as usize, sym::conc(le16(b, i + 28) as u64) as usize);
        let x = extras(&b[i + 30 + nl..i + 30 + nl + xl]);
        let (lc, lu) = (le32(b, i + 18) as u64, le32(b, i + 22) as u64);
        let mut has = false;
        for (id, d) in x.iter() {
            if *id == 1 {
                has = true;
                check!(F, z != Z::Forbidden); // no zip64 field when forbidden
                check!(F, lc == M && lu == M && (d.len() == 16 || d.len() == 24)); // local zip64 field has both sizes
                check!(F, w.streamed || le64(d, 0) == w.usize_); // local uncompressed size
                check!(F, w.streamed || le64(d, 8) == w.csize); // local compressed size
            }
        }
        if !w.streamed && !has {
            check!(F, lc == w.csize && lc != M); // local compressed size fits
            check!(F, lu == w.usize_ && lu != M); // local uncompressed size fits
        }
        let crc = le32(b, i + 14);
        i += 30 + nl + xl;
        check!(F, v.gap(i) == w.csize); // all the data, and nothing but the data
        if w.streamed {
            check!(F, le32(b, i) == DD); // descriptor
            crcs.push(le32(b, i + 4));
            if has {
                check!(F, le64(b, i + 8) == w.csize && le64(b, i + 16) == w.usize_); // 64-bit descriptor
                i += 24;
            } else {
                let (dc, du) = (le32(b, i + 8) as u64, le32(b, i + 12) as u64);
                check!(F, dc == w.csize && du == w.usize_); // 32-bit descriptor
                i += 16;
            }
        } else {
            crcs.push(crc);
        }
    }
    // Directory.
    let cd = v.voff(i);
    for (k, w) in want.iter().enumerate() {
        check!(F, i + 46 <= b.len() && le32(b, i) == CDH); // directory record
        verify_full(b, i, false, w);
        let (nl, xl, cl) = (sym::conc(le16(b, i + 28) as u64) as usize, sym::conc(le16(b, i + 30) as u64) as usize, sym::conc(le16(b, i + 32) as u64) as usize);
        let x = extras(&b[i + 46 + nl..i + 46 + nl + xl]);
        let (mut c, mut u, mut o) = (le32(b, i + 20) as u64, le32(b, i + 24) as u64, le32(b, i + 42) as u64);
        let mut has = 0;
        for (id, d) in x.iter() {
            if *id == 1 {
                has += 1;
                check!(F, z != Z::Forbidden); // no zip64 field when forbidden
                let mut q = 0;
                for f in [&mut u, &mut c, &mut o] {
                    if *f == M {
                        check!(F, q + 8 <= d.len()); // value present
                        *f = le64(d, q);
                        q += 8;
                    }
                }
                check!(F, q == d.len()); // nothing else
            }
        }
        check!(F, has <= 1); // one zip64 field
        if has == 0 {
            check!(F, c != M && u != M && o != M); // nothing saturated without a zip64 field
        }
        check!(F, c == w.csize); // compressed size recoverable
        check!(F, u == w.usize_); // uncompressed size recoverable
        check!(F, o == offs[k]); // offset recoverable
        check!(F, le32(b, i + 16) == crcs[k]); // crc agrees
        i += 46 + nl + xl + cl;
    }
    let end = v.voff(i);
    ends(b, i, want.len() as u64, cd, end, z, comment);
}

/// The end records: `n` entries, directory from `cd` to `end` (virtual positions), records at index `i`.
fn ends(b: &[u8], mut i: usize, n: u64, cd: u64, end: u64, z: Z, comment: &[u8]) {
    let z64 = le32(b, i) == Z64EOCD;
    if z64 {
        check!(F, z != Z::Forbidden); // no zip64 end records when forbidden
        check!(F, le64(b, i + 4) == 44); // record size
        check!(F, le64(b, i + 24) == n && le64(b, i + 32) == n); // 64-bit counts
        check!(F, le64(b, i + 40) == end - cd); // 64-bit directory size
        check!(F, le64(b, i + 48) == cd); // 64-bit directory offset
        i += 56;
        check!(F, le32(b, i) == Z64LOC && le64(b, i + 8) == end && le32(b, i + 16) == 1); // locator
        i += 20;
    }
    check!(F, i + 22 + comment.len() == b.len() && le32(b, i) == EOCD); // end record last
    check!(F, le16(b, i + 20) as usize == comment.len() && sym::same(&b[i + 22..], comment)); // archive comment
    let (c, s, o) = (le16(b, i + 10) as u64, le32(b, i + 12) as u64, le32(b, i + 16) as u64);
    check!(F, le16(b, i + 8) as u64 == c); // both counts
    check!(F, c == n || z64 && c == 0xFFFF); // count recoverable
    check!(F, s == end - cd && s != M || z64 && s == M); // directory size recoverable
    check!(F, o == cd && o != M || z64 && o == M); // directory offset recoverable
}

/// A length up to 2^33.
fn len() -> u64 {
    let n = sym::u64();
    sym::assume(n <= 1 << 33);
    n
}

fn is_large(e: &ZipError) -> bool {
    matches!(e, ZipError::Zip64Needed(Zip64ErrorCase::LargeFile))
}

/// Writes entries of the given lengths; returns what a finished archive must contain, or checks the refusal.
fn go(z: Z, kinds: &[u8], lens: &[u64]) {
    let mut w = writer(z);
    let mut want: Vec<Want> = Vec::new();
    let mut pos = 0u64; // virtual position as the harness accounts for it
    for (k, (kind, n)) in kinds.iter().zip(lens).enumerate() {
        let name = ["a", "b", "c"][k];
        let e = ZipEntryBuilder::new(name.into(), Compression::Stored);
        let d = sym::phantom(*n);
        let before = w.inner_mut().len;
        check!(F, k == 0 || before == pos); // position
        let r = match kind {
            0 => run(w.write_entry_whole(e, d)),
            1 => run(async {
                let mut s = w.write_entry_stream(e).await?;
                s.write_all(d).await?;
                s.close().await
            }),
            // In two pieces
            _ => run(async {
                let mut s = w.write_entry_stream(e).await?;
                s.write_all(d).await?;
                s.write_all(sym::phantom(0x8000_0000)).await?;
                s.close().await
            }),
        };
        let total = if *kind == 2 { *n + 0x8000_0000 } else { *n };
        match r {
            Ok(()) => {
                want.push(Want { streamed: *kind > 0, csize: total, usize_: total, full: None });
                if z == Z::Forbidden {
                    check!(F, total < M && before < M); // forbidden: accepted only if it fits
                }
            }
            Err(e) => {
                check!(F, z == Z::Forbidden && is_large(&e)); // refused only when forbidden
                check!(F, total >= M || before >= M); // refused only if it does not fit
                sym::reach(2);
                return;
            }
        }
        pos = w.inner_mut().len;
    }
    let cd = w.inner_mut().len;
    match run(w.close()) {
        Ok(s) => {
            check!(F, z != Z::Forbidden || cd < M); // forbidden: finished only if the directory is in reach
            verify(&s, &want, z);
            sym::reach(1);
        }
        Err(e) => {
            check!(F, z == Z::Forbidden && is_large(&e) && cd >= M); // refused only if out of reach
            sym::reach(3);
        }
    }
}

/// One entry of any length, whole or streamed (in one or two pieces), all zip64 modes.
pub fn h_z64_one() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let kind = sym::pick(3) as u8;
    go(z, &[kind], &[len()]);
}

/// Two entries of any lengths: sizes, second entry's offset and the directory offset cross the limit independently.
pub fn h_z64_two() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let kinds = sym::pick(4) as u8;
    go(z, &[kinds & 1, kinds >> 1], &[len(), len()]);
}

/// Three entries.
pub fn h_z64_three() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let kinds = sym::pick(8) as u8;
    go(z, &[kinds & 1, kinds >> 1 & 1, kinds >> 2], &[len(), len(), len()]);
}

/// Precompressed data: compressed and declared uncompressed size cross the limit independently.
pub fn h_z64_pre() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let streamed = sym::flip();
    let n = len();
    let us = sym::u64();
    let crc = sym::u32();
    let mut w = writer(z);
    let e = ZipEntryBuilder::new("a".into(), Compression::Deflate).crc32(crc).uncompressed_size(us);
    let d = sym::phantom(n);
    let r = if streamed {
        run(async {
            let mut s = w.write_entry_stream_precompressed(e).await?;
            s.write_all(d).await?;
            s.close().await
        })
    } else {
        run(w.write_entry_whole_precompressed(e, d))
    };
    match r {
        Ok(()) => {
            check!(F, z != Z::Forbidden || n < M && us < M); // forbidden: accepted only if it fits
            match run(w.close()) {
                Ok(s) => {
                    verify(&s, &[Want { streamed, csize: n, usize_: us, full: None }], z);
                    sym::reach(1);
                }
                Err(e) => check!(F, z == Z::Forbidden && is_large(&e) && n + 31 + if streamed { 16 } else { 0 } >= M), // refused only if out of reach
            }
        }
        Err(e) => {
            check!(F, z == Z::Forbidden && is_large(&e) && (n >= M || us >= M)); // refused only if it does not fit
            sym::reach(2);
        }
    }
}

/// Everything else about an entry whose size or position is large: text, attributes, its own extra fields, the comments.
pub fn h_z64_full() {
    let z = [Z::Auto, Z::Forced][sym::pick(2)];
    let kind = sym::pick(4);
    let nx = 2 * sym::pick(2);
    let nc = sym::pick(2);
    let na = nc;
    // An entry with extra fields, as read from another archive.
    let mut extra = Vec::new();
    for k in 0..nx {
        p16(&mut extra, 0x4201 + k as u16);
        p16(&mut extra, k as u16);
        extra.extend_from_slice(&sym::bytes(k));
    }
    let mut e = Ent::plain(b"from", b"");
    e.extra = extra.clone();
    let e: ZipEntryBuilder = match run(async_zip::base::read::mem::ZipFileReader::new(archive(&mut [(e, Vec::new())], b""))) {
        Ok(r) => (*r.file().entries()[0]).clone().into(),
        Err(_) => return check!(F, false), // opens
    };
    let mut spec = Spec::plain("name", Vec::new()).attrs();
    spec.comment = ["", "cc"][nc].into();
    let e = e
        .filename(spec.name.clone())
        .comment(spec.comment.clone())
        .internal_file_attribute(spec.iattr)
        .external_file_attribute(spec.eattr)
        .last_modification_date(dos(spec.date, spec.time))
        .compressed_size(0u32)
        .uncompressed_size(0u32);
    let comment = &b"zzz"[..3 * na];
    let mut w = writer(z);
    if na > 0 {
        w.comment("zzz".into());
    }
    let (a, n) = (len(), len());
    let crc = sym::u32();
    let first = ZipEntryBuilder::new("a".into(), Compression::Stored).crc32(1u32).uncompressed_size(a);
    check!(F, run(w.write_entry_whole_precompressed(first, sym::phantom(a))).is_ok()); // accepted
    let us = if kind < 2 { n } else { sym::u64() };
    let e = if kind < 2 { e } else { e.crc32(crc).uncompressed_size(us) };
    let d = sym::phantom(n);
    let r = match kind {
        0 => run(w.write_entry_whole(e, d)),
        2 => run(w.write_entry_whole_precompressed(e, d)),
        _ => run(async {
            let mut s = if kind == 1 { w.write_entry_stream(e).await? } else { w.write_entry_stream_precompressed(e).await? };
            s.write_all(d).await?;
            s.close().await
        }),
    };
    check!(F, r.is_ok()); // accepted
    match run(w.close()) {
        Ok(s) => {
            let want = [
                Want { streamed: false, csize: a, usize_: a, full: None },
                Want { streamed: kind & 1 == 1, csize: n, usize_: us, full: Some(Full { spec, extra }) },
            ];
            verify_with(&s, &want, z, comment);
            sym::reach(1);
        }
        Err(_) => check!(F, false), // closes
    }
}

/// A large gap written through the inner writer is not counted; sizes near the limit after many small writes.
pub fn h_z64_pieces() {
    let z = [Z::Auto, Z::Forbidden][sym::pick(2)];
    let mut w = writer(z);
    let a = len();
    let b = len();
    let c = len();
    let r = run(async {
        let mut s = w.write_entry_stream(ZipEntryBuilder::new("a".into(), Compression::Stored)).await?;
        s.write_all(sym::phantom(a)).await?;
        s.flush().await?;
        s.write_all(sym::phantom(b)).await?;
        s.write_all(sym::phantom(c)).await?;
        s.close().await
    });
    let n = a + b + c;
    match r {
        Ok(()) => match run(w.close()) {
            Ok(s) => {
                verify(&s, &[Want { streamed: true, csize: n, usize_: n, full: None }], z);
                sym::reach(1);
            }
            Err(e) => check!(F, z == Z::Forbidden && is_large(&e) && n + 31 + 16 >= M), // refused only if out of reach
        },
        Err(e) => {
            check!(F, z == Z::Forbidden && is_large(&e) && n >= M); // refused only if it does not fit
            sym::reach(2);
        }
    }
}

/// Checks a finished archive of many entries, whose directory starts at `cd`.
fn finished(s: &Sink, n: u64, cd: u64, z: Z, comment: &[u8]) {
    let b = &s.data[..];
    let e = b.len() - 22 - comment.len();
    let z64 = e >= 76 && le32(b, e - 20) == Z64LOC && le32(b, e - 76) == Z64EOCD;
    ends(b, if z64 { e - 76 } else { e }, n, cd, (if z64 { e - 76 } else { e }) as u64, z, comment);
}

/// The entry beyond what a classic archive can have is refused, and the others make up an archive.
fn beyond(streamed: bool) {
    sym::alloc_limit(1 << 32);
    let mut w = writer(Z::Forbidden);
    let mut k = 0;
    while k <= 65535 {
        let e = ZipEntryBuilder::new("a".into(), Compression::Stored);
        let r = if streamed && k > 65533 {
            run(async { w.write_entry_stream(e).await?.close().await })
        } else {
            run(w.write_entry_whole(e, &[]))
        };
        check!(F, r.is_ok() == (k < 65535)); // exactly the one too many is refused
        k += 1;
    }
    let cd = w.inner_mut().len;
    match run(w.close()) {
        Ok(s) => finished(&s, 65535, cd, Z::Forbidden, b""),
        Err(_) => check!(F, false), // closes
    }
    sym::reach(1);
}
/// One entry too many for an archive without zip64: that one is refused, and the others stay.
pub fn h_local_count() {
    beyond(false)
}
/// The same with a streamed entry.
pub fn h_local_count_stream() {
    beyond(true)
}

/// Entry counts around 65535.
fn counts(z: Z, streamed: bool, n: usize) {
    sym::alloc_limit(1 << 32);
    let mut w = writer(z);
    let comment = if z == Z::Forbidden { "zz" } else { "" };
    if !comment.is_empty() {
        w.comment(comment.into());
    }
    let mut k = 0;
    while k < n {
        let e = ZipEntryBuilder::new("a".into(), Compression::Stored);
        let r = if streamed {
            run(async { w.write_entry_stream(e).await?.close().await })
        } else {
            run(w.write_entry_whole(e, &[]))
        };
        match r {
            Ok(()) => check!(F, z != Z::Forbidden || k < 65535), // forbidden: at most 65535 entries
            Err(e) => {
                check!(F, z == Z::Forbidden && k >= 65535 && matches!(e, ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles))); // refusal
                let cd = w.inner_mut().len;
                if let Ok(s) = run(w.close()) {
                    finished(&s, k as u64, cd, z, comment.as_bytes()); // no archive with a wrong count
                }
                sym::reach(2);
                return;
            }
        }
        k += 1;
    }
    let cd = w.inner_mut().len;
    match run(w.close()) {
        Ok(s) => {
            finished(&s, n as u64, cd, z, comment.as_bytes());
            sym::reach(1);
        }
        Err(_) => check!(F, false), // closes
    }
}

/// Any of the counts around the limit, zip64 automatic or forbidden.
pub fn h_z64_count() {
    let n = [65534usize, 65535, 65536, 65537][sym::pick(4)];
    let z = [Z::Auto, Z::Forbidden][sym::pick(2)];
    counts(z, false, n);
}
/// Streamed entries of the counts around the limit.
pub fn h_z64_count_stream() {
    let n = [65534usize, 65535, 65536, 65537][sym::pick(4)];
    let z = [Z::Auto, Z::Forbidden][sym::pick(2)];
    counts(z, true, n);
}
/// 65535 entries, zip64 automatic: every record up to the limit of the classic count.
pub fn h_z64_c1() {
    counts(Z::Auto, false, 65535)
}
/// 65536 entries, zip64 automatic.
pub fn h_z64_c2() {
    counts(Z::Auto, false, 65536)
}
/// 65535 entries, zip64 forbidden: refused or recorded exactly.
pub fn h_z64_c3() {
    counts(Z::Forbidden, false, 65535)
}
/// 65536 entries, zip64 forbidden.
pub fn h_z64_c4() {
    counts(Z::Forbidden, false, 65536)
}
/// 65535 streamed entries, zip64 forbidden.
pub fn h_z64_c5() {
    counts(Z::Forbidden, true, 65535)
}
/// 65536 streamed entries, zip64 forbidden.
pub fn h_z64_c6() {
    counts(Z::Forbidden, true, 65536)
}
/// 65536 streamed entries, zip64 automatic.
pub fn h_z64_c7() {
    counts(Z::Auto, true, 65536)
}
