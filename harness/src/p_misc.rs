//! Text and its encodings (P16), length limits (P17), timestamps (P18), extra fields (P20), builders (P25).
use crate::oracle::*;
use crate::p_write::{dos, finish, writer, METHODS, Z};
use crate::{check, io::*, sym};
use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::{compress, ZipFileWriter};
use async_zip::error::ZipError;
use async_zip::*;
use futures_lite::io::Cursor;
const F: u32 = 10;

fn is_text(s: &ZipString) -> bool {
    matches!(s.encoding(), StringEncoding::Utf8)
}

/// UTF-8 validity, written from the definition (Unicode 3.9, table 3-7).
pub fn valid_utf8(b: &[u8]) -> bool {
    let n = b.len();
    let mut i = 0;
    while i < n {
        let c = b[i];
        let (len, lo, hi) = if c < 0x80 {
            (1, 0, 0)
        } else if c >= 0xC2 && c <= 0xDF {
            (2, 0x80, 0xBF)
        } else if c == 0xE0 {
            (3, 0xA0, 0xBF)
        } else if c == 0xED {
            (3, 0x80, 0x9F)
        } else if c >= 0xE1 && c <= 0xEF {
            (3, 0x80, 0xBF)
        } else if c == 0xF0 {
            (4, 0x90, 0xBF)
        } else if c >= 0xF1 && c <= 0xF3 {
            (4, 0x80, 0xBF)
        } else if c == 0xF4 {
            (4, 0x80, 0x8F)
        } else {
            return false;
        };
        if i + len > n {
            return false;
        }
        if len > 1 && (b[i + 1] < lo || b[i + 1] > hi) {
            return false;
        }
        let mut k = 2;
        while k < len {
            if b[i + k] & 0xC0 != 0x80 {
                return false;
            }
            k += 1;
        }
        i += len;
    }
    true
}

fn ascii(b: &[u8]) -> bool {
    let mut o = 0u8;
    for x in b {
        o |= *x;
    }
    o < 0x80
}

/// The accessors of a string agree with its encoding and bytes.
fn accessors(s: &ZipString, text: bool, raw: &[u8], alt: Option<&[u8]>) {
    check!(F, is_text(s) == text); // encoding
    check!(F, sym::same(s.as_bytes(), raw)); // bytes
    match s.as_str() {
        Ok(t) => check!(F, text && sym::same(t.as_bytes(), raw)), // offered as text
        Err(ZipError::StringNotUtf8) => check!(F, !text), // not text
        Err(_) => check!(F, false), // no other reason
    }
    match s.clone().into_string() {
        Ok(t) => check!(F, text && sym::same(t.as_bytes(), raw)), // converted to text
        Err(ZipError::StringNotUtf8) => check!(F, !text), // not text
        Err(_) => check!(F, false), // no other reason
    }
    match (s.alternative(), alt) {
        (Some(a), Some(b)) => check!(F, sym::same(a, b)), // alternative
        (None, None) => {}
        _ => check!(F, false), // alternative present or absent
    }
    match (s.clone().into_alternative(), alt) {
        (Some(a), Some(b)) => check!(F, sym::same(&a, b)), // alternative by value
        (None, None) => {}
        _ => check!(F, false), // alternative present or absent by value
    }
    check!(F, s.is_utf8_without_alternative() == (text && alt.is_none())); // text without alternative
}

// ------------------------------------------------------------------------------------------------------------- P16

/// Every constructor with every string of 0 to 4 bytes.
pub fn h_text_new() {
    let n = sym::pick(5);
    let b = sym::bytes(n);
    match sym::pick(4) {
        0 => {
            let ok = valid_utf8(&b);
            accessors(&ZipString::new(b.clone(), StringEncoding::Utf8), ok, &b, None);
            sym::reach(1);
        }
        1 => accessors(&ZipString::new(b.clone(), StringEncoding::Raw), false, &b, None),
        2 => {
            if let Ok(t) = String::from_utf8(b.clone()) {
                let k = sym::pick(3);
                let alt = sym::bytes(k);
                accessors(&ZipString::new_with_alternative(t, alt.clone()), true, &b, Some(&alt));
                sym::reach(2);
            }
        }
        _ => {
            if let Ok(t) = std::str::from_utf8(&b) {
                accessors(&ZipString::from(t), true, &b, None);
                accessors(&ZipString::from(t.to_string()), true, &b, None);
                sym::reach(3);
            }
        }
    }
}

/// One Unicode extra field.
struct Uni {
    version: u8,
    crc: u32,
    text: Vec<u8>,
}
impl Uni {
    fn any(n: usize) -> Uni {
        Uni { version: sym::u8(), crc: sym::u32(), text: sym::bytes(n) }
    }
    fn put(&self, v: &mut Vec<u8>, id: u16) {
        p16(v, id);
        p16(v, 5 + self.text.len() as u16);
        v.push(self.version);
        p32(v, self.crc);
        v.extend_from_slice(&self.text);
    }
}

/// How bytes with the given flag and (at most one) Unicode field must be presented.
fn expect_text(s: &ZipString, basic: &[u8], flag: bool, u: Option<&Uni>) {
    if flag {
        let ok = valid_utf8(basic);
        accessors(s, ok, basic, None);
        return;
    }
    if let Some(u) = u {
        if u.version == 1 && u.crc == crc32(basic) && valid_utf8(&u.text) {
            accessors(s, true, &u.text, Some(basic));
            sym::reach(2);
            return;
        }
    }
    let a = ascii(basic);
    accessors(s, a, basic, None);
    sym::reach(3);
}

fn detect(name: Vec<u8>, comment: Vec<u8>, flags: u16, up: Option<Uni>, uc: Option<Uni>, order: bool, how: usize) {
    let mut x = Vec::new();
    if order {
        if let Some(u) = &uc {
            u.put(&mut x, 0x6375);
        }
    }
    if let Some(u) = &up {
        u.put(&mut x, 0x7075);
    }
    if !order {
        if let Some(u) = &uc {
            u.put(&mut x, 0x6375);
        }
    }
    let mut e = Ent::plain(&name, b"");
    e.flags = flags;
    e.extra = x;
    e.comment = comment.clone();
    let v = archive(&mut [(e, Vec::new())], b"");
    let flag = flags & 0x800 != 0;
    if how == 2 {
        match run(stream::ZipFileReader::new(Cursor::new(v)).next_with_entry()) {
            Ok(Some(e)) => {
                let e = e.reader().entry();
                expect_text(e.filename(), &name, flag, up.as_ref());
                check!(F, e.comment().as_bytes().is_empty()); // no comment in a local header
            }
            _ => check!(F, flags & 9 != 0), // only encrypted entries and stored entries with a descriptor are refused
        }
        return;
    }
    match crate::p_read::open(v, how == 1) {
        Ok(f) => {
            check!(F, f.entries().len() == 1); // one entry
            let e = &f.entries()[0];
            expect_text(e.filename(), &name, flag, up.as_ref());
            expect_text(e.comment(), &comment, flag, uc.as_ref());
            sym::reach(1);
        }
        Err(_) => check!(F, false), // archive opens
    }
}

/// Names of 0 to 3 bytes and comments of 0 to 2, any flags, no Unicode fields; all readers.
pub fn h_text_flags() {
    let how = sym::pick(3);
    let n = sym::pick(4);
    let c = if how == 2 { 0 } else { sym::pick(3) };
    detect(sym::bytes(n), sym::bytes(c), sym::u16(), None, None, false, how);
}

/// A Unicode path field with any version, checksum and 0 to 2 bytes of text for a name of 0 to 2 bytes.
pub fn h_text_path() {
    let how = sym::pick(3);
    let n = sym::pick(3);
    let k = sym::pick(3);
    detect(sym::bytes(n), Vec::new(), sym::u16(), Some(Uni::any(k)), None, false, how);
}

/// A Unicode comment field.
pub fn h_text_comment() {
    let how = sym::pick(2);
    let n = sym::pick(3);
    let k = sym::pick(3);
    detect(b"a".to_vec(), sym::bytes(n), sym::u16(), None, Some(Uni::any(k)), false, how);
}

/// Both fields, in either order: each applies to its own string.
pub fn h_text_both() {
    let how = sym::pick(3);
    let order = sym::flip();
    detect(sym::bytes(1), sym::bytes(1), sym::u16(), Some(Uni::any(1)), Some(Uni::any(1)), order, how);
}

/// Two Unicode path fields, or two Unicode comment fields: whatever is presented as text has one of the grounds for it, and a
/// matching one is honoured though the other does not match.
pub fn h_text_two() {
    let n = sym::pick(3);
    let comment = sym::flip();
    let basic = sym::bytes(n);
    let (a, b) = (Uni::any(1), Uni::any(2));
    let mut e = Ent::plain(if comment { b"a" } else { &basic }, b"");
    if comment {
        e.comment = basic.clone();
    }
    e.flags = sym::u16();
    a.put(&mut e.extra, if comment { 0x6375 } else { 0x7075 });
    b.put(&mut e.extra, if comment { 0x6375 } else { 0x7075 });
    let flag = e.flags & 0x800 != 0;
    let v = archive(&mut [(e, Vec::new())], b"");
    match crate::p_read::open(v, sym::flip()) {
        Ok(f) => {
            let s = if comment { f.entries()[0].comment() } else { f.entries()[0].filename() };
            let g = |u: &Uni| u.version == 1 && u.crc == crc32(&basic) && valid_utf8(&u.text) && sym::same(s.as_bytes(), &u.text);
            let same = sym::same(s.as_bytes(), &basic);
            let hit = |u: &Uni| u.version == 1 && u.crc == crc32(&basic);
            if !flag && (hit(&a) && valid_utf8(&a.text) || !hit(&a) && hit(&b) && valid_utf8(&b.text)) {
                check!(F, s.alternative().is_some()); // honoured
            }
            if flag {
                check!(F, same && s.alternative().is_none() && is_text(s) == valid_utf8(&basic)); // by the flag alone
            } else if s.alternative().is_some() {
                check!(F, is_text(s) && sym::same(s.alternative().unwrap(), &basic)); // raw bytes kept
                check!(F, g(&a) || g(&b)); // from a field whose checksum matches
                sym::reach(1);
            } else {
                check!(F, same && is_text(s) == ascii(&basic)); // ASCII or raw
                sym::reach(2);
            }
        }
        Err(_) => check!(F, false), // archive opens
    }
}

/// A string of one of the kinds a user can build, not empty where it has an alternative.
fn kind(k: usize, n: usize, alt: usize) -> Option<ZipString> {
    Some(match k {
        0 => ZipString::new(sym::bytes(n), StringEncoding::Utf8),
        1 => ZipString::new(sym::bytes(n), StringEncoding::Raw),
        _ => {
            let t = String::from_utf8(sym::bytes(n + 1)).ok()?;
            ZipString::new_with_alternative(t, sym::bytes(alt))
        }
    })
}

/// Read back: same text or same raw bytes, and both forms where there were two.
fn kept(got: &ZipString, want: &ZipString) {
    if is_text(want) {
        check!(F, is_text(got)); // text stays text
    } else {
        check!(F, !is_text(got) || ascii(want.as_bytes())); // raw stays raw, unless plain ASCII
    }
    check!(F, sym::same(got.as_bytes(), want.as_bytes())); // same bytes
    match want.alternative() {
        Some(a) => {
            check!(F, got.alternative().is_some()); // alternative kept
            if let Some(b) = got.alternative() {
                check!(F, sym::same(a, b)); // same alternative
            }
            sym::reach(2);
        }
        // A checksum ground may repeat the same bytes as the alternative, nothing else.
        None => check!(F, got.alternative().map_or(true, |b| sym::same(b, want.as_bytes()))), // no invented alternative
    }
}

/// Writes a (dataless) entry, whole or streamed, precompressed or not.
fn put(w: &mut ZipFileWriter<Vec<u8>>, b: ZipEntryBuilder, how: usize) -> Result<(), ZipError> {
    match how {
        0 => run(w.write_entry_whole(b, b"")),
        1 => run(w.write_entry_whole_precompressed(b, b"")),
        2 => run(run(w.write_entry_stream(b))?.close()),
        _ => run(run(w.write_entry_stream_precompressed(b))?.close()),
    }
}

fn written(name: ZipString, comment: ZipString, how: usize, z: Z) -> Vec<u8> {
    let mut w = writer(z);
    let b = ZipEntryBuilder::new(name, Compression::Stored).comment(comment);
    check!(F, put(&mut w, b, how).is_ok()); // entry accepted
    finish(w)
}

fn alt_case(k: usize, n: usize, c: usize, na: usize, ca: usize, how: usize, z: Z) {
    let (name, comment) = match (kind(k % 3, n, na), kind(k / 3, c, ca)) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    let v = written(name.clone(), comment.clone(), how, z);
    sym::observe_bytes(&v);
    match crate::p_read::open(v.clone(), false) {
        Ok(f) => {
            let e = &f.entries()[0];
            kept(e.filename(), &name);
            kept(e.comment(), &comment);
            sym::reach(1);
            // Read and written again: still the same.
            let mut w = writer(Z::Auto);
            check!(F, put(&mut w, (**e).clone().into(), 0).is_ok()); // entry as read accepted
            match crate::p_read::open(finish(w), true) {
                Ok(f) => {
                    kept(f.entries()[0].filename(), &name);
                    kept(f.entries()[0].comment(), &comment);
                }
                Err(_) => check!(F, false), // second archive opens
            }
        }
        Err(_) => check!(F, false), // archive opens
    }
    if how < 2 {
        match run(stream::ZipFileReader::new(Cursor::new(v)).next_with_entry()) {
            Ok(Some(e)) => kept(e.reader().entry().filename(), &name),
            _ => check!(F, false), // streams
        }
    }
}

/// Names and comments of every kind (text, raw, text with alternative), every way of writing.
pub fn h_text_alt() {
    let k = sym::pick(9);
    let how = sym::pick(4);
    alt_case(k, 1, 1, 1, 1, how, Z::Auto);
}

/// The same with other lengths, and in an archive without zip64.
pub fn h_text_alt_lengths() {
    let k = sym::pick(9);
    let n = sym::pick(2);
    let na = sym::pick(3);
    let how = 2 * sym::pick(2);
    alt_case(k, n, 1 - n, na, 2 - na, how, Z::Forbidden);
}
/// The same with all lengths independent.
pub fn h_text_alt_deep() {
    let k = sym::pick(9);
    let n = sym::pick(3);
    let c = sym::pick(2);
    let na = sym::pick(3);
    let ca = sym::pick(2);
    let how = sym::pick(4);
    alt_case(k, n, c, na, ca, how, Z::Auto);
}

/// Lengths around what internal limits tend to be.
pub const LONGS: [usize; 22] =
    [15, 16, 17, 31, 63, 64, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 65520];

/// `n` bytes of text, of characters of one to four bytes at any alignment; with `broken`, one byte that makes it invalid.
pub fn long_text(n: usize, broken: bool) -> Vec<u8> {
    let w = 1 + sym::pick(4);
    let c: &[u8] = [&b"x"[..], b"\xC3\xA9", b"\xE2\x82\xAC", b"\xF0\x9F\x98\x80"][w - 1];
    let lead = sym::pick(w as u8);
    let mut v = Vec::with_capacity(n + 4);
    v.resize(lead, b'a');
    while v.len() + w <= n {
        v.extend_from_slice(c);
    }
    v.resize(n, b'z');
    if broken {
        v[n - 1] = 0xFF;
    }
    v
}

/// Names and comments of many lengths, by flag or by a Unicode field: text exactly if valid, and all of it.
pub fn h_text_long() {
    let n = LONGS[sym::pick(22)];
    let broken = sym::flip();
    let t = long_text(n, broken);
    let by = sym::pick(4);
    let mut e = Ent::plain(b"\x80n", b"");
    e.comment = b"\x80c".to_vec();
    match by {
        0 => {
            e.flags = 0x800;
            e.name = t.clone();
            e.comment = Vec::new();
        }
        1 => {
            e.flags = 0x800;
            e.name = b"n".to_vec();
            e.comment = t.clone();
        }
        _ => {
            let u = Uni { version: 1, crc: crc32(if by == 2 { &e.name } else { &e.comment }), text: t.clone() };
            u.put(&mut e.extra, if by == 2 { 0x7075 } else { 0x6375 });
        }
    }
    let r = run(mem::ZipFileReader::new(archive(&mut [(e, Vec::new())], b"")));
    match r {
        Ok(r) => {
            let e = &r.file().entries()[0];
            let s = if by & 1 == 0 { e.filename() } else { e.comment() };
            check!(F, is_text(s) != broken); // text exactly if valid
            if !broken {
                check!(F, sym::same(s.as_bytes(), &t)); // all of it
                check!(F, by < 2 || s.alternative() == Some(if by == 2 { b"\x80n" } else { b"\x80c" })); // and the raw form
            } else if by < 2 {
                check!(F, sym::same(s.as_bytes(), &t)); // the raw bytes
            }
            sym::reach(1);
        }
        Err(_) => {
            check!(F, broken); // valid text is accepted
            sym::reach(2);
        }
    }
}

/// The archive comment is offered as text only if it is UTF-8.
pub fn h_text_archive() {
    let n = sym::pick(4);
    let c = sym::bytes(n);
    let mut v = Vec::new();
    put_eocd(&mut v, 0, 0, 0, 0, 0, 0, &c);
    sym::assume(n < 3 || le32(&v, 18) != EOCD);
    match crate::p_read::open(v, sym::flip()) {
        Ok(f) => {
            let ok = valid_utf8(&c);
            accessors(f.comment(), ok, &c, None);
            sym::reach(1);
        }
        Err(_) => check!(F, false), // archive opens
    }
}

// ------------------------------------------------------------------------------------------------------------- P17

const LENS: [usize; 10] = [0, 1, 255, 256, 65534, 65535, 65536, 65537, 131071, 131072];

/// `n` bytes of text; two-byte characters when `wide`, all but the last byte fixed.
fn long(n: usize, wide: bool) -> String {
    let mut v = vec![b'x'; n];
    if wide {
        let mut i = 0;
        while i + 1 < n {
            v[i] = 0xC3;
            v[i + 1] = 0xA9;
            i += 2;
        }
    } else if n > 0 {
        v[n - 1] = sym::u8() & 0x7F;
    }
    // SAFETY: pairs of C3 A9 and ASCII only.
    unsafe { String::from_utf8_unchecked(v) }
}

/// The outcome of writing one entry with the given name and comment: accepted exactly if all fit.
fn limits(name: ZipString, comment: ZipString, how: usize, n: usize, c: usize) {
    let z = if sym::flip() { Z::Auto } else { Z::Forbidden };
    let mut w = writer(z);
    let b = ZipEntryBuilder::new(name.clone(), Compression::Stored).comment(comment.clone());
    match put(&mut w, b, how) {
        Ok(()) => {
            check!(F, n <= 65535 && c <= 65535); // fits
            let v = finish(w);
            let mut at = 0;
            // Local name length, and the directory record right behind the entry.
            check!(F, le32(&v, at) == LFH && le16(&v, at + 26) as usize == n); // local name length
            check!(F, v[at + 30..at + 30 + n] == *name.as_bytes()); // local name
            at += 30 + n + le16(&v, at + 28) as usize;
            if how >= 2 {
                at += if z == Z::Forbidden { 16 } else { 24 };
            }
            check!(F, le32(&v, at) == CDH); // directory follows
            check!(F, le16(&v, at + 28) as usize == n && le16(&v, at + 32) as usize == c); // lengths in the directory
            check!(F, v[at + 46..at + 46 + n] == *name.as_bytes()); // name in the directory
            let x = le16(&v, at + 30) as usize;
            check!(F, v[at + 46 + n + x..at + 46 + n + x + c] == *comment.as_bytes()); // comment in the directory
            sym::reach(1);
        }
        Err(ZipError::FileNameTooLarge) => {
            check!(F, n > 65535); // name too long
            sym::reach(2);
        }
        Err(ZipError::CommentTooLarge) => {
            check!(F, c > 65535); // comment too long
            sym::reach(3);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

/// Names of lengths around the limit, every way of writing.
pub fn h_len_name() {
    let n = LENS[sym::pick(10)];
    let how = sym::pick(4);
    limits(long(n, false).into(), "c".into(), how, n, 1);
}
/// Names whose characters take two bytes: the limit counts bytes.
pub fn h_len_wide() {
    let n = [65534usize, 65535, 65536, 131070][sym::pick(4)];
    let how = 2 * sym::pick(2);
    limits(long(n, true).into(), long(n, true).into(), how, n, n);
}
/// Comments.
pub fn h_len_comment() {
    let n = LENS[sym::pick(10)];
    let how = sym::pick(4);
    limits("n".into(), long(n, false).into(), how, 1, n);
}
/// Both, raw.
pub fn h_len_raw() {
    let n = [65535usize, 65536][sym::pick(2)];
    let c = [65535usize, 65536][sym::pick(2)];
    let how = 2 * sym::pick(2);
    let name = ZipString::new(long(n, false).into_bytes(), StringEncoding::Raw);
    let comment = ZipString::new(long(c, false).into_bytes(), StringEncoding::Raw);
    limits(name, comment, how, n, c);
}

/// Archive comments.
pub fn h_len_archive() {
    let n = LENS[sym::pick(10)];
    let mut w = writer(Z::Auto);
    let c = long(n, sym::flip());
    w.comment(c.clone());
    match run(w.close()) {
        Ok(v) => {
            check!(F, n <= 65535); // fits
            check!(F, v.len() == 22 + n && le16(&v, 20) as usize == n); // recorded
            check!(F, v[22..] == *c.as_bytes()); // verbatim
            sym::reach(1);
        }
        Err(ZipError::CommentTooLarge) => {
            check!(F, n > 65535); // too long
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

/// Extra data that fits, or would with what the writer adds to it: read from one archive, written to another.
pub fn h_len_extra() {
    let how = sym::pick(4);
    let z = if sym::flip() { Z::Auto } else { Z::Forbidden };
    let n = [65535usize, 65534, 65516, 65515, 65514, 65508, 65507, 65506, 65000][sym::pick(9)];
    let mut e = Ent::plain(b"a", b"");
    p16(&mut e.extra, 0x4242);
    p16(&mut e.extra, (n - 4) as u16);
    e.extra.extend_from_slice(&vec![7u8; n - 5]);
    e.extra.push(sym::u8());
    let want = e.extra.clone();
    let v = archive(&mut [(e, Vec::new())], b"");
    let entry = match crate::p_read::open(v, false) {
        Ok(f) => (*f.entries()[0]).clone(),
        Err(_) => {
            check!(F, false); // archive opens
            return;
        }
    };
    // What a streamed entry gets in addition: a zip64 field with two sizes, and in the directory the offset too.
    let total = n + if how >= 2 && z == Z::Auto { 28 } else { 0 };
    let mut w = writer(z);
    match put(&mut w, entry.into(), how) {
        Ok(()) => {
            check!(F, total <= 65535); // fits
            let v = finish(w);
            check!(F, le16(&v, 28) as usize >= n && v[31..31 + n] == *want); // local extra data
            let at = v.len() - 22 - if z == Z::Auto && how >= 2 { 76 } else { 0 } - 47 - total;
            check!(F, le32(&v, at) == CDH && le16(&v, at + 30) as usize == total); // length in the directory
            check!(F, v[at + 47..at + 47 + n] == *want); // extra data in the directory
            sym::reach(1);
        }
        Err(ZipError::ExtraFieldTooLarge) => {
            check!(F, total > 65535); // too long
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

/// A name whose text form goes into an extra field: refused when that does not fit.
pub fn h_len_unicode() {
    let n = [65526usize, 65527, 65535, 65536, 70000][sym::pick(5)];
    let how = 2 * sym::pick(2);
    let as_comment = sym::flip();
    let s = ZipString::new_with_alternative(long(n, false), sym::bytes(1));
    let b = if as_comment {
        ZipEntryBuilder::new("n".into(), Compression::Stored).comment(s)
    } else {
        ZipEntryBuilder::new(s, Compression::Stored)
    };
    let other = if as_comment { 10 } else { 0 }; // the ASCII name of an entry with such a comment gets a field as well
    let mut w = writer(Z::Forbidden);
    match put(&mut w, b, how) {
        Ok(()) => {
            check!(F, n + 9 + other <= 65535); // fits
            check!(F, le16(&finish(w), 28) as usize == n + 9 + other); // recorded
            sym::reach(1);
        }
        Err(ZipError::ExtraFieldTooLarge) => {
            check!(F, n + 9 + other > 65535); // too long
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
}

// ------------------------------------------------------------------------------------------------------------- P18

type Parts = (i32, u32, u32, u32, u32, u32);
fn parts(d: &ZipDateTime) -> Parts {
    (d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second())
}

/// What the timestamp words mean.
fn meaning(date: u16, time: u16) -> Parts {
    (
        1980 + (date >> 9) as i32,
        (date >> 5 & 15) as u32,
        (date & 31) as u32,
        (time >> 11) as u32,
        (time >> 5 & 63) as u32,
        (time & 31) as u32 * 2,
    )
}

/// A timestamp as an archive brings it: every bit pattern.
fn stored(date: u16, time: u16) -> ZipDateTime {
    let mut e = Ent::plain(b"a", b"");
    e.date = date;
    e.time = time;
    match crate::p_read::open(archive(&mut [(e, Vec::new())], b""), false) {
        Ok(f) => *f.entries()[0].last_modification_date(),
        Err(_) => {
            check!(F, false); // archive opens
            ZipDateTime::default()
        }
    }
}

/// Any component of any timestamp set to any value at all: no other component moves, and a value in range is kept.
pub fn h_date_set() {
    let (date, time) = (sym::u16(), sym::u16());
    let d = stored(date, time);
    let p = parts(&d);
    check!(F, p == meaning(date, time)); // what the archive says
    let k = sym::pick(6);
    let v = sym::u32();
    let q = parts(&set(d.into(), k, v).build());
    check!(F, same_but(&p, &q, k)); // other components untouched
    if in_range(k, v) {
        check!(F, component(&q, k) == if k == 5 { v & !1 } else { v }); // value kept, to two seconds
        sym::reach(1);
    }
}

fn set(b: ZipDateTimeBuilder, k: usize, v: u32) -> ZipDateTimeBuilder {
    match k {
        0 => b.year(v as i32),
        1 => b.month(v),
        2 => b.day(v),
        3 => b.hour(v),
        4 => b.minute(v),
        _ => b.second(v),
    }
}
fn component(p: &Parts, k: usize) -> u32 {
    [p.0 as u32, p.1, p.2, p.3, p.4, p.5][k]
}
fn same_but(p: &Parts, q: &Parts, k: usize) -> bool {
    (k == 0 || p.0 == q.0)
        & (k == 1 || p.1 == q.1)
        & (k == 2 || p.2 == q.2)
        & (k == 3 || p.3 == q.3)
        & (k == 4 || p.4 == q.4)
        & (k == 5 || p.5 == q.5)
}
fn in_range(k: usize, v: u32) -> bool {
    match k {
        0 => v >= 1980 && v <= 2107,
        1 => v <= 15,
        2 => v <= 31,
        3 => v <= 31,
        4 => v <= 63,
        _ => v <= 63,
    }
}

/// Any three settings in a row on a fresh builder: the last one of each component counts.
pub fn h_date_history() {
    let mut b = if sym::flip() { ZipDateTimeBuilder::new() } else { ZipDateTimeBuilder::default() };
    let mut want = (1980i32, 0u32, 0u32, 0u32, 0u32, 0u32);
    for _ in 0..3 {
        let k = sym::pick(6);
        let v = sym::u32();
        sym::assume(in_range(k, v));
        b = set(b, k, v);
        match k {
            0 => want.0 = v as i32,
            1 => want.1 = v,
            2 => want.2 = v,
            3 => want.3 = v,
            4 => want.4 = v,
            _ => want.5 = v & !1,
        }
    }
    let d = if sym::flip() { b.build() } else { b.into() };
    check!(F, parts(&d) == want); // exactly what was set
    sym::reach(1);
}

/// Written, whole or streamed: the words in the archive mean the components, and read back the same.
pub fn h_date_archive() {
    let (date, time) = (sym::u16(), sym::u16());
    let how = sym::pick(4);
    let mut w = writer(Z::Auto);
    let b = ZipEntryBuilder::new("a".into(), Compression::Stored).last_modification_date(dos(date, time));
    check!(F, put(&mut w, b, how).is_ok()); // entry accepted
    let v = finish(w);
    check!(F, le16(&v, 10) == time && le16(&v, 12) == date); // local words
    match crate::p_read::open(v, sym::flip()) {
        Ok(f) => {
            check!(F, parts(f.entries()[0].last_modification_date()) == meaning(date, time)); // read back
            check!(F, *f.entries()[0].last_modification_date() == dos(date, time)); // equal
            sym::reach(1);
        }
        Err(_) => check!(F, false), // archive opens
    }
}

fn days(y: i32, m: u32) -> u32 {
    match m {
        2 => 28 + (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// To a calendar date-time: every timestamp that is one, and only those, component by component.
fn to_chrono(date: u16, time: u16) {
    use chrono::{Datelike, LocalResult, Timelike};
    let d = dos(date, time);
    let p = parts(&d);
    let exists = p.1 >= 1 && p.1 <= 12 && p.2 >= 1 && p.2 <= days(p.0, p.1) && p.3 < 24 && p.4 < 60 && p.5 < 60;
    match d.as_chrono() {
        LocalResult::Single(c) => {
            check!(F, exists); // a real date
            check!(F, c.year() == p.0 && c.month() == p.1 && c.day() == p.2); // same date
            check!(F, c.hour() == p.3 && c.minute() == p.4 && c.second() == p.5 && c.nanosecond() == 0); // same time
            check!(F, ZipDateTime::from_chrono(&c) == d); // and back
            check!(F, ZipDateTime::from(c) == d); // by value
            sym::reach(1);
        }
        LocalResult::None => {
            check!(F, !exists); // not a date
            sym::reach(2);
        }
        LocalResult::Ambiguous(..) => check!(F, false), // never ambiguous
    }
}
/// All dates of leap, common and century years, at two times of day, one of them not existing.
pub fn h_date_to_chrono() {
    let year = [0u16, 1, 20, 120, 127][sym::pick(5)];
    let md = sym::conc((sym::u16() & 0x1FF) as u64) as u16;
    to_chrono(year << 9 | md, [0xBF7D, 0xC000][sym::pick(2)]);
}
/// All times, existing or not, on a date that exists and on one that does not.
pub fn h_date_to_chrono_time() {
    let hm = sym::conc((sym::u16() & 0x7FF) as u64) as u16;
    to_chrono([20 << 9 | 2 << 5 | 29, 120 << 9 | 2 << 5 | 29][sym::pick(2)], hm << 5 | sym::u16() & 31);
}
/// All dates of all years.
pub fn h_date_to_chrono_deep() {
    let md = sym::conc((sym::u16() & 0x1FF) as u64) as u16;
    to_chrono((sym::pick(128) as u16) << 9 | md, 0xBF7D);
}

fn from_chrono(year: i32, m: u32, day: u32, h: u32, mi: u32, s: u32, n: u32) {
    use chrono::{NaiveDate, TimeZone, Utc};
    let c = match NaiveDate::from_ymd_opt(year, m, day).and_then(|d| d.and_hms_nano_opt(h, mi, s, n)) {
        Some(c) => Utc.from_utc_datetime(&c),
        None => {
            check!(F, day > days(year, m)); // every real date-time exists
            return;
        }
    };
    let p = parts(&ZipDateTime::from_chrono(&c));
    check!(F, p.1 == m && p.2 == day && p.3 == h && p.4 == mi && p.5 == s & !1); // components
    if year >= 1980 && year <= 2107 {
        check!(F, p.0 == year); // year
        sym::reach(1);
    }
}
/// From calendar dates, years outside the range included: no panic, and the other components as they are.
pub fn h_date_from_chrono() {
    let year = [1980i32, 2000, 2023, 2024, 2107, 1979, 2108, 0, -1, 262142, -262143][sym::pick(11)];
    from_chrono(year, 1 + sym::pick(12) as u32, 1 + sym::pick(31) as u32, 23, 59, 58, 0);
}
/// From times of day, odd seconds and leap seconds included.
pub fn h_date_from_chrono_time() {
    let leap = sym::flip();
    let (h, mi) = (sym::pick(24) as u32, sym::pick(60) as u32);
    let s = if leap { 59 } else { sym::below(60) as u32 };
    from_chrono(2024, 2, 29, h, mi, s, if leap { 1_500_000_000 } else { 5 });
}

// ------------------------------------------------------------------------------------------------------------- P20

/// One raw extra field.
fn put_field(v: &mut Vec<u8>, id: u16, b: &[u8]) {
    p16(v, id);
    p16(v, b.len() as u16);
    v.extend_from_slice(b);
}

/// Reads the only entry of an archive: in-memory, seekable or streaming.
fn read_entry(v: Vec<u8>, how: usize) -> Option<ZipEntry> {
    match how {
        0 => run(mem::ZipFileReader::new(v)).ok().map(|r| (*r.file().entries()[0]).clone()),
        1 => run(seek::ZipFileReader::new(Cursor::new(v))).ok().map(|r| (*r.file().entries()[0]).clone()),
        _ => match run(stream::ZipFileReader::new(Cursor::new(v)).next_with_entry()) {
            Ok(Some(e)) => Some(e.reader().entry().clone()),
            _ => None,
        },
    }
}

/// Rewrites an entry that was read with the given extra fields and compares what arrives; `drop` fields are the writer's.
fn rewrite(fields: &[(u16, Vec<u8>)], e: Ent, from: usize, how: usize, z: Z, writers: fn(u16, &[u8]) -> bool) {
    let mut e = e;
    for (id, b) in fields {
        put_field(&mut e.extra, *id, b);
    }
    let v = archive(&mut [(e, Vec::new())], b"");
    let entry = match read_entry(v, from) {
        Some(e) => e,
        None => {
            check!(F, false); // archive opens
            return;
        }
    };
    check!(F, entry.extra_fields().len() == fields.len()); // every field reported
    let mut w = writer(z);
    check!(F, put(&mut w, entry.into(), how).is_ok()); // entry accepted
    let v = finish(w);
    sym::observe_bytes(&v);
    let a = strict(&v, 0);
    check!(F, a.recs.len() == 1); // one record
    for got in [&a.recs[0].extra, &a.recs[0].lextra] {
        let mut k = 0;
        for (id, b) in fields {
            if writers(*id, b) {
                continue;
            }
            // Skip what the writer regenerates.
            while k < got.len() && writers(got[k].0, &got[k].1) {
                k += 1;
            }
            check!(F, k < got.len() && got[k].0 == *id && sym::same(&got[k].1, b)); // field written back, in order
            k += 1;
        }
        while k < got.len() {
            check!(F, writers(got[k].0, &got[k].1)); // nothing invented
            k += 1;
        }
    }
    sym::reach(1);
}

fn zip64_only(id: u16, _: &[u8]) -> bool {
    id == 1
}
fn other_id() -> u16 {
    let id = sym::u16();
    sym::assume(id != 1 && id != 0x6375 && id != 0x7075);
    id
}

/// Up to two fields of unknown ids with 0 to 3 bytes each; every reader, every way of writing, both modes.
pub fn h_extra_any() {
    let from = sym::pick(3);
    let how = sym::pick(4);
    let z = if sym::flip() { Z::Auto } else { Z::Forbidden };
    let (a, b) = (sym::pick(4), sym::pick(3));
    let mut f = vec![(other_id(), sym::bytes(a))];
    if b > 0 {
        f.push((other_id(), sym::bytes(b - 1)));
    }
    rewrite(&f, Ent::plain(b"n", b""), from, how, z, zip64_only);
}
/// Three fields; an entry with attributes and a comment.
pub fn h_extra_three() {
    let how = sym::pick(4);
    let (a, b, c) = (sym::pick(3), sym::pick(3), sym::pick(3));
    let f = vec![(other_id(), sym::bytes(a)), (other_id(), sym::bytes(b)), (other_id(), sym::bytes(c))];
    let mut e = Ent::plain(b"na", b"");
    e.comment = b"co".to_vec();
    e.iattr = sym::u16();
    e.eattr = sym::u32();
    rewrite(&f, e, sym::pick(2), how, Z::Auto, zip64_only);
}

/// Unicode fields next to names and comments that leave them alone: text by flag or ASCII.
pub fn h_extra_unicode() {
    let from = sym::pick(3);
    let how = sym::pick(4);
    let mut e = Ent::plain(b"n", b"");
    e.flags = if sym::flip() { 0x800 } else { 0 };
    let id = if sym::flip() { 0x7075 } else { 0x6375 };
    let n = sym::pick(4);
    let mut b = sym::bytes(1);
    b.extend_from_slice(&sym::bytes([0, 4, 5, 7][n]));
    sym::assume(b[0] != 1 || b.len() >= 5);
    // A field that applies (matching checksum) makes the entry's text the writer's to regenerate.
    if b.len() >= 5 {
        sym::assume(e.flags != 0 || le32(&b, 1) != crc32(if id == 0x7075 { b"n" } else { b"" }) || b[0] != 1);
    }
    let f = vec![(0x4242, sym::bytes(1)), (id, b), (0x4343, sym::bytes(1))];
    rewrite(&f, e, from, how, Z::Auto, zip64_only);
}

/// A Unicode field that applies: the text survives, other fields stay, the field is there once.
pub fn h_extra_unicode_used() {
    let from = sym::pick(3);
    let how = sym::pick(4);
    let t = sym::bytes(2);
    sym::assume(valid_utf8(&t));
    let name = sym::bytes(1);
    let mut b = vec![1u8];
    p32(&mut b, crc32(&name));
    b.extend_from_slice(&t);
    let f = vec![(0x4242u16, sym::bytes(1)), (0x7075, b.clone()), (0x4343, sym::bytes(2))];
    let mut e = Ent::plain(&name, b"");
    for (id, b) in f.iter() {
        put_field(&mut e.extra, *id, b);
    }
    let v = archive(&mut [(e, Vec::new())], b"");
    let entry = match read_entry(v, from) {
        Some(e) => e,
        None => {
            check!(F, false); // archive opens
            return;
        }
    };
    let mut w = writer(Z::Forbidden);
    check!(F, put(&mut w, entry.into(), how).is_ok()); // entry accepted
    let v = finish(w);
    let a = strict(&v, 0);
    for got in [&a.recs[0].extra, &a.recs[0].lextra] {
        check!(F, got.len() == 3); // no field lost or doubled
        check!(F, got[0].0 == 0x4242 && sym::same(&got[0].1, &f[0].1)); // first kept
        check!(F, got[1].0 == 0x7075 && sym::same(&got[1].1, &b)); // still the same text
        check!(F, got[2].0 == 0x4343 && sym::same(&got[2].1, &f[2].1)); // third kept
    }
    sym::reach(1);
}

/// An entry gets a new name or comment with an alternative while it has Unicode fields already: those of versions unknown to
/// the crate stay, and exactly one of version 1 says what the new text is.
pub fn h_extra_unicode_new() {
    let from = sym::pick(3);
    let how = sym::pick(4);
    let path = sym::flip();
    let id = if path { 0x7075u16 } else { 0x6375 };
    let mut b = vec![sym::u8()];
    let n = sym::pick(3);
    b.extend_from_slice(&sym::bytes([1, 4, 6][n]));
    sym::assume(b[0] != 1 || b.len() >= 5);
    let mut e = Ent::plain(b"n", b"");
    // A field that applies to the text there was needs to be valid.
    if b.len() >= 5 {
        sym::assume(b[0] != 1 || le32(&b, 1) != crc32(if path { b"n" } else { b"" }));
    }
    let f = vec![(0x4242u16, sym::bytes(1)), (id, b.clone()), (0x4343, sym::bytes(2))];
    for (id, b) in f.iter() {
        put_field(&mut e.extra, *id, b);
    }
    let v = archive(&mut [(e, Vec::new())], b"");
    let entry = match read_entry(v, from) {
        Some(e) => e,
        None => {
            check!(F, false); // archive opens
            return;
        }
    };
    let t = "\u{e9}";
    let raw = sym::bytes(1);
    let new = ZipString::new_with_alternative(t.to_owned(), raw.clone());
    let e: ZipEntryBuilder = entry.into();
    let mut w = writer(Z::Auto);
    check!(F, put(&mut w, if path { e.filename(new) } else { e.comment(new) }, how).is_ok()); // entry accepted
    let v = finish(w);
    let a = strict(&v, 0);
    let mut want = vec![1u8];
    p32(&mut want, crc32(&raw));
    want.extend_from_slice(t.as_bytes());
    for (k, got) in [&a.recs[0].extra, &a.recs[0].lextra].into_iter().enumerate() {
        let mut rest: Vec<&(u16, Vec<u8>)> = Vec::new();
        let mut ours = 0;
        for x in got.iter() {
            if x.0 == 1 {
                continue;
            }
            if path && x.0 == 0x6375 {
                check!(F, false); // there is no comment to tell of
            } else if !path && x.0 == 0x7075 {
                let mut other = vec![1u8];
                p32(&mut other, crc32(b"n"));
                other.push(b'n');
                check!(F, sym::same(&x.1, &other)); // of the name as it is
            } else if x.0 == id && x.1[0] == 1 {
                ours += 1;
                check!(F, sym::same(&x.1, &want)); // says the new text
            } else {
                rest.push(x);
            }
        }
        // The local header has no comment to tell of, so the field is optional there.
        check!(F, ours == 1 || (k == 1 && !path && ours == 0)); // once
        let stays = f[1].1[0] != 1;
        check!(F, rest.len() == 2 + stays as usize); // nothing else is lost or invented
        check!(F, rest[0].0 == 0x4242 && sym::same(&rest[0].1, &f[0].1)); // first
        if stays {
            check!(F, rest[1].0 == id && sym::same(&rest[1].1, &b)); // second
        }
        let l = rest.len() - 1;
        check!(F, rest[l].0 == 0x4343 && sym::same(&rest[l].1, &f[2].1)); // third
        sym::reach(if stays { 1 } else { 2 });
    }
}

/// A zip64 field of the source archive says nothing about the new one, and does not stay.
pub fn h_extra_zip64() {
    let from = sym::pick(3);
    let how = sym::pick(4);
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let mut e = Ent::plain(b"n", b"");
    let k = sym::pick(3);
    let mut b = Vec::new();
    if k > 0 {
        // Sizes of the (empty) contents in the field; streamed writing takes declared sizes from the entry.
        e.csize = 0xFFFF_FFFF;
        e.usize_ = 0xFFFF_FFFF;
        p64(&mut b, 0);
        p64(&mut b, 0);
    }
    if k == 2 {
        p64(&mut b, sym::u64());
    }
    let first = sym::flip();
    let o = (other_id(), sym::bytes(2));
    let f = if first { vec![(1, b), o] } else { vec![o, (1, b)] };
    rewrite(&f, e, from, how, z, zip64_only);
}

/// Fields as long as they get.
pub fn h_extra_long() {
    let how = sym::pick(4);
    let n = [255usize, 256, 4095, 65000][sym::pick(4)];
    let mut b = vec![3u8; n];
    b[0] = sym::u8();
    b[n - 1] = sym::u8();
    rewrite(&[(other_id(), b)], Ent::plain(b"n", b""), sym::pick(3), how, Z::Auto, zip64_only);
}

// ------------------------------------------------------------------------------------------------------------- P25

#[derive(Clone)]
struct Model {
    name: Vec<u8>,
    method: usize,
    crc: u32,
    csize: u64,
    usize_: u64,
    date: (u16, u16),
    iattr: u16,
    eattr: u32,
    comment: Vec<u8>,
    extra: usize,
}

fn agrees(e: &ZipEntry, m: &Model) {
    check!(F, sym::same(e.filename().as_bytes(), &m.name)); // name
    check!(F, e.compression() == METHODS[m.method].0); // method
    check!(F, e.crc32() == m.crc); // crc
    check!(F, e.compressed_size() == m.csize); // compressed size
    check!(F, e.uncompressed_size() == m.usize_); // uncompressed size
    check!(F, *e.last_modification_date() == dos(m.date.0, m.date.1)); // timestamp
    check!(F, e.internal_file_attribute() == m.iattr); // internal attributes
    check!(F, e.external_file_attribute() == m.eattr); // external attributes
    check!(F, e.unix_permissions() == Some((m.eattr >> 16) as u16)); // permissions
    check!(F, sym::same(e.comment().as_bytes(), &m.comment)); // comment
    check!(F, e.extra_fields().len() == m.extra); // extra fields
    check!(F, e.attribute_compatibility() == AttributeCompatibility::Unix); // host
}

/// An entry whose every attribute is arbitrary, as an archive brings it, with one extra field.
fn any_entry() -> (ZipEntry, Model) {
    let mut e = Ent::plain(b"n", b"");
    let method = sym::pick(2);
    e.name = sym::bytes(1);
    e.method = METHODS[method].1;
    e.crc = sym::u32();
    e.csize = sym::u32();
    e.usize_ = sym::u32();
    e.date = sym::u16();
    e.time = sym::u16();
    e.iattr = sym::u16();
    e.eattr = sym::u32();
    e.comment = sym::bytes(1);
    put_field(&mut e.extra, 0x4242, b"x");
    let m = Model {
        name: e.name.clone(),
        method,
        crc: e.crc,
        csize: e.csize as u64,
        usize_: e.usize_ as u64,
        date: (e.date, e.time),
        iattr: e.iattr,
        eattr: e.eattr,
        comment: e.comment.clone(),
        extra: 1,
    };
    let v = archive(&mut [(e, Vec::new())], b"");
    (read_entry(v, 0).unwrap(), m)
}

fn apply(b: ZipEntryBuilder, m: &mut Model, k: usize) -> ZipEntryBuilder {
    match k {
        0 => {
            m.name = sym::bytes(2);
            b.filename(ZipString::new(m.name.clone(), StringEncoding::Raw))
        }
        1 => {
            m.method = sym::pick(6);
            b.compression(METHODS[m.method].0)
        }
        2 => {
            m.crc = sym::u32();
            b.crc32(m.crc)
        }
        3 => {
            m.csize = sym::u64();
            b.compressed_size(m.csize)
        }
        4 => {
            m.usize_ = sym::u64();
            b.uncompressed_size(m.usize_)
        }
        5 => {
            m.date = (sym::u16(), sym::u16());
            b.last_modification_date(dos(m.date.0, m.date.1))
        }
        6 => {
            m.iattr = sym::u16();
            b.internal_file_attribute(m.iattr)
        }
        7 => {
            m.eattr = sym::u32();
            b.external_file_attribute(m.eattr)
        }
        8 => {
            m.comment = sym::bytes(2);
            b.comment(ZipString::new(m.comment.clone(), StringEncoding::Raw))
        }
        9 => {
            let p = sym::u16();
            m.eattr = m.eattr & 0xFFFF | (p as u32) << 16;
            b.unix_permissions(p)
        }
        10 => {
            m.extra = 0;
            b.extra_fields(Vec::new())
        }
        11 => b.attribute_compatibility(AttributeCompatibility::Unix),
        _ => b.deflate_option(DeflateOption::Other(sym::u32() as i32)),
    }
}

/// Any setting on an arbitrary entry changes that attribute and nothing else.
pub fn h_build_one() {
    let (e, mut m) = any_entry();
    agrees(&e, &m);
    let b = apply(e.into(), &mut m, sym::pick(13));
    agrees(b.current(), &m);
    agrees(&b.build(), &m);
    sym::reach(1);
}

/// Any three settings in a row on a new builder, repetitions included: later ones win.
pub fn h_build_three() {
    let name = sym::bytes(1);
    let method = sym::pick(2);
    let mut b = ZipEntryBuilder::new(ZipString::new(name.clone(), StringEncoding::Raw), METHODS[method].0);
    let mut m =
        Model { name, method, crc: 0, csize: 0, usize_: 0, date: (0, 0), iattr: 0, eattr: 0, comment: Vec::new(), extra: 0 };
    agrees(b.current(), &m);
    for _ in 0..3 {
        b = apply(b, &mut m, sym::pick(13));
    }
    let e: ZipEntry = b.into();
    agrees(&e, &m);
    sym::reach(1);
}

/// The level reaches the encoder, for every option, whatever is set around it.
pub fn h_build_level() {
    let method = 1 + sym::pick(5);
    let how = sym::pick(5);
    let l = sym::u32() as i32;
    let o = match how {
        0 => DeflateOption::Normal,
        1 => DeflateOption::Maximum,
        2 => DeflateOption::Fast,
        3 => DeflateOption::Super,
        _ => DeflateOption::Other(l),
    };
    let mut m = Model {
        name: b"n".to_vec(),
        method,
        crc: 0,
        csize: 0,
        usize_: 0,
        date: (0, 0),
        iattr: 0,
        eattr: 0,
        comment: Vec::new(),
        extra: 0,
    };
    let k = sym::pick(12);
    let b = ZipEntryBuilder::new("n".into(), METHODS[method].0).deflate_option(o);
    let b = apply(b, &mut m, k).compression(METHODS[method].0);
    let d = sym::bytes(1);
    let e = b.build();
    let c = run(compress(&e, &d));
    let level = if how == 4 { (l as u8) | 0x80 } else { 3 };
    check!(F, sym::same(&c, &toy(METHODS[method].2, level, &d))); // encoder and level
    sym::reach(1);
}

/// Directory exactly if the textual name ends in a slash.
pub fn h_build_dir() {
    let n = sym::pick(5);
    let b = sym::bytes(n);
    let raw = sym::flip();
    let s = ZipString::new(b.clone(), if raw { StringEncoding::Raw } else { StringEncoding::Utf8 });
    let text = !raw && valid_utf8(&b);
    let e = ZipEntryBuilder::new(s, crate::p_read::IDS[sym::pick(7)].1)
        .crc32(sym::u32())
        .compressed_size(sym::u64())
        .uncompressed_size(sym::u64())
        .internal_file_attribute(sym::u16())
        .external_file_attribute(sym::u32())
        .comment(["", "/"][sym::pick(2)].into())
        .attribute_compatibility(AttributeCompatibility::Unix)
        .build();
    match e.dir() {
        Ok(d) => {
            check!(F, text); // only for text
            check!(F, d == (n > 0 && b[n - 1] == b'/')); // ends in a slash
            sym::reach(1);
        }
        Err(ZipError::StringNotUtf8) => {
            check!(F, !text); // not text
            sym::reach(2);
        }
        Err(_) => check!(F, false), // no other reason
    }
    let alt = sym::bytes(1);
    let a = ZipEntryBuilder::new(ZipString::new_with_alternative("d/".into(), alt), Compression::Stored).build();
    check!(F, matches!(a.dir(), Ok(true))); // the text counts, not the alternative
}

/// The archive builder's comment, and conversions back and forth.
pub fn h_build_file() {
    let n = sym::pick(3);
    let c = sym::bytes(n);
    let f = ZipFileBuilder::new().comment(ZipString::new(c.clone(), StringEncoding::Raw)).build();
    check!(F, f.entries().is_empty() && !f.zip64()); // nothing else
    check!(F, sym::same(f.comment().as_bytes(), &c)); // comment
    let d = sym::bytes(1);
    let f: ZipFile = ZipFileBuilder::from(f).comment(ZipString::new(d.clone(), StringEncoding::Raw)).into();
    check!(F, sym::same(f.comment().as_bytes(), &d)); // later one wins
    sym::reach(1);
}
