//! Independent oracles: CRC-32, a strict ZIP parser for what the writer emits, and a builder for archives to read.
use crate::{check, sym};
pub const F: u32 = 3;

pub fn crc32(b: &[u8]) -> u32 {
    // Written independently of the crate and of the crc32fast stand-in, but as the same linear function of the bytes.
    let mut s = !0u32;
    for x in b {
        s ^= *x as u32;
        s = NIB[(s & 15) as usize] ^ (s >> 4);
        s = NIB[(s & 15) as usize] ^ (s >> 4);
    }
    !s
}
const NIB: [u32; 16] = [
    0x00000000, 0x1db71064, 0x3b6e20c8, 0x26d930ac, 0x76dc4190, 0x6b6b51f4, 0x4db26158, 0x5005713c, 0xedb88320, 0xf00f9344, 0xd6d6a3e8,
    0xcb61b38c, 0x9b64c2b0, 0x86d3d2d4, 0xa00ae278, 0xbdbdf21c,
];

pub fn le16(b: &[u8], o: usize) -> u16 {
    b[o] as u16 | (b[o + 1] as u16) << 8
}
pub fn le32(b: &[u8], o: usize) -> u32 {
    le16(b, o) as u32 | (le16(b, o + 2) as u32) << 16
}
pub fn le64(b: &[u8], o: usize) -> u64 {
    le32(b, o) as u64 | (le32(b, o + 4) as u64) << 32
}

pub const LFH: u32 = 0x04034b50;
pub const CDH: u32 = 0x02014b50;
pub const EOCD: u32 = 0x06054b50;
pub const Z64EOCD: u32 = 0x06064b50;
pub const Z64LOC: u32 = 0x07064b50;
pub const DD: u32 = 0x08074b50;

/// One entry as the strict parser found it.
pub struct Rec {
    pub made: u16,
    pub need: u16,
    pub lneed: u16,
    pub flags: u16,
    pub method: u16,
    pub time: u16,
    pub date: u16,
    pub crc: u32,
    pub csize: u64,
    pub usize_: u64,
    pub name: Vec<u8>,
    pub extra: Vec<(u16, Vec<u8>)>,
    pub comment: Vec<u8>,
    pub iattr: u16,
    pub eattr: u32,
    pub off: u64,
    pub data: Vec<u8>,
    pub lextra: Vec<(u16, Vec<u8>)>,
    pub zip64: bool,
    pub lzip64: bool,
    pub llen: u64,
}

pub struct Arch {
    pub recs: Vec<Rec>,
    pub zip64: bool,
}

/// Splits an extra field block; every byte must belong to a complete field.
pub fn extras(b: &[u8]) -> Vec<(u16, Vec<u8>)> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        check!(F, i + 4 <= b.len()); // extra field header complete
        let id = le16(b, i);
        let n = sym::conc(le16(b, i + 2) as u64) as usize;
        check!(F, i + 4 + n <= b.len()); // extra field contents complete
        v.push((id, b[i + 4..i + 4 + n].to_vec()));
        i += 4 + n;
    }
    v
}

fn is_z64(id: u16) -> bool {
    id == 1
}

/// Parses an archive strictly: every byte accounted for, every field consistent.  `clen` is the archive comment length.
pub fn strict(b: &[u8], clen: usize) -> Arch {
    check!(F, b.len() >= 22 + clen); // room for the end record
    let e = b.len() - 22 - clen;
    check!(F, le32(b, e) == EOCD); // end record where the comment says
    check!(F, le16(b, e + 20) as usize == clen); // archive comment length
    check!(F, le16(b, e + 4) == 0 && le16(b, e + 6) == 0); // single disk
    check!(F, le16(b, e + 8) == le16(b, e + 10)); // entry counts agree
    let mut n = le16(b, e + 10) as u64;
    let mut cd_size = le32(b, e + 12) as u64;
    let mut cd_off = le32(b, e + 16) as u64;
    let mut cd_end = e as u64;
    let zip64 = e >= 20 && le32(b, e - 20) == Z64LOC;
    if zip64 {
        let l = e - 20;
        check!(F, le32(b, l + 4) == 0 && le32(b, l + 16) == 1); // zip64 locator disks
        check!(F, l >= 56 && le64(b, l + 8) == (l - 56) as u64); // zip64 locator offset
        let z = l - 56;
        check!(F, le32(b, z) == Z64EOCD); // zip64 end record signature
        check!(F, le64(b, z + 4) == 44); // zip64 end record size
        check!(F, le16(b, z + 14) >= 45); // zip64 end record version
        check!(F, le32(b, z + 16) == 0 && le32(b, z + 20) == 0); // zip64 end record disks
        check!(F, le64(b, z + 24) == le64(b, z + 32)); // zip64 counts agree
        check!(F, n == 0xFFFF || n == le64(b, z + 32)); // classic count saturated or equal
        check!(F, cd_size == 0xFFFF_FFFF || cd_size == le64(b, z + 40)); // classic size saturated or equal
        check!(F, cd_off == 0xFFFF_FFFF || cd_off == le64(b, z + 48)); // classic offset saturated or equal
        n = le64(b, z + 32);
        cd_size = le64(b, z + 40);
        cd_off = le64(b, z + 48);
        cd_end = z as u64;
    }
    check!(F, cd_off.wrapping_add(cd_size) == cd_end); // directory ends at the end records
    let cd_off = sym::conc(cd_off) as usize;
    check!(F, cd_off <= b.len()); // directory inside the archive
    let n = sym::conc(n);
    let mut recs = Vec::new();
    let mut p = cd_off;
    let mut lp = 0usize;
    let mut k = 0;
    while k < n {
        check!(F, p + 46 <= cd_end as usize); // directory record complete
        check!(F, le32(b, p) == CDH); // directory record signature
        let (nl, xl, cl) = (sym::conc(le16(b, p + 28) as u64) as usize, sym::conc(le16(b, p + 30) as u64) as usize, sym::conc(le16(b, p + 32) as u64) as usize);
        check!(F, p + 46 + nl + xl + cl <= cd_end as usize); // directory record contents complete
        let extra = extras(&b[p + 46 + nl..p + 46 + nl + xl]);
        check!(F, le16(b, p + 34) == 0); // disk number
        let mut r = Rec {
            made: le16(b, p + 4),
            need: le16(b, p + 6),
            lneed: 0,
            flags: le16(b, p + 8),
            method: le16(b, p + 10),
            time: le16(b, p + 12),
            date: le16(b, p + 14),
            crc: le32(b, p + 16),
            csize: le32(b, p + 20) as u64,
            usize_: le32(b, p + 24) as u64,
            name: b[p + 46..p + 46 + nl].to_vec(),
            comment: b[p + 46 + nl + xl..p + 46 + nl + xl + cl].to_vec(),
            iattr: le16(b, p + 36),
            eattr: le32(b, p + 38),
            off: le32(b, p + 42) as u64,
            extra,
            data: Vec::new(),
            lextra: Vec::new(),
            zip64: false,
            lzip64: false,
            llen: 0,
        };
        // ZIP64: the field holds exactly the saturated values, in order.
        let mut seen = 0;
        for (id, d) in r.extra.iter() {
            if is_z64(*id) {
                seen += 1;
                let mut q = 0;
                if r.usize_ == 0xFFFF_FFFF {
                    check!(F, q + 8 <= d.len()); // zip64 uncompressed size present
                    r.usize_ = le64(d, q);
                    q += 8;
                }
                if r.csize == 0xFFFF_FFFF {
                    check!(F, q + 8 <= d.len()); // zip64 compressed size present
                    r.csize = le64(d, q);
                    q += 8;
                }
                if r.off == 0xFFFF_FFFF {
                    check!(F, q + 8 <= d.len()); // zip64 offset present
                    r.off = le64(d, q);
                    q += 8;
                }
                check!(F, q == d.len()); // nothing else in the zip64 field
                r.zip64 = true;
            }
        }
        check!(F, seen <= 1); // at most one zip64 field
        p += 46 + nl + xl + cl;
        // Local header: contiguous, and agreeing with the directory.
        check!(F, r.off == lp as u64); // local header right after the previous entry
        check!(F, lp + 30 + nl <= cd_off); // local header complete
        check!(F, le32(b, lp) == LFH); // local header signature
        r.lneed = le16(b, lp + 4);
        check!(F, le16(b, lp + 6) == r.flags); // flags agree
        check!(F, le16(b, lp + 8) == r.method); // method agrees
        check!(F, le16(b, lp + 10) == r.time && le16(b, lp + 12) == r.date); // timestamp agrees
        check!(F, le16(b, lp + 26) as usize == nl); // name length agrees
        let lx = sym::conc(le16(b, lp + 28) as u64) as usize;
        check!(F, lp + 30 + nl + lx <= cd_off); // local header contents complete
        check!(F, sym::same(&b[lp + 30..lp + 30 + nl], &r.name)); // name agrees
        r.lextra = extras(&b[lp + 30 + nl..lp + 30 + nl + lx]);
        let dd = r.flags & 8 != 0;
        let (lc, lu) = (le32(b, lp + 18), le32(b, lp + 22));
        let mut l64 = None;
        let mut lseen = 0;
        r.llen = (lx + nl + 30) as u64;
        for (id, d) in r.lextra.iter() {
            if is_z64(*id) {
                lseen += 1;
                check!(F, lc == 0xFFFF_FFFF && lu == 0xFFFF_FFFF); // local zip64 field needs both sizes saturated
                check!(F, d.len() == 16 || d.len() == 24); // local zip64 field holds both sizes (and possibly the offset)
                l64 = Some((le64(d, 8), le64(d, 0)));
            }
        }
        check!(F, lseen <= 1); // at most one local zip64 field
        r.lzip64 = lseen == 1;
        let csize = sym::conc(r.csize) as usize;
        let ds = lp + 30 + nl + lx;
        check!(F, csize <= cd_off && ds + csize <= cd_off); // data inside the archive
        if !dd {
            check!(F, le32(b, lp + 14) == r.crc); // crc agrees
            match l64 {
                Some((c, u)) => check!(F, c == r.csize && u == r.usize_), // local zip64 sizes agree
                None => check!(F, lc as u64 == r.csize && lu as u64 == r.usize_), // local sizes agree
            }
        }
        r.data = b[ds..ds + csize].to_vec();
        lp = ds + csize;
        if dd {
            let w = if l64.is_some() { 8 } else { 4 };
            check!(F, lp + 8 + 2 * w <= cd_off); // data descriptor complete
            check!(F, le32(b, lp) == DD); // data descriptor signature
            check!(F, le32(b, lp + 4) == r.crc); // data descriptor crc agrees
            let (dc, du) =
                if w == 8 { (le64(b, lp + 8), le64(b, lp + 16)) } else { (le32(b, lp + 8) as u64, le32(b, lp + 12) as u64) };
            check!(F, dc == r.csize); // data descriptor compressed size agrees
            check!(F, du == r.usize_); // data descriptor uncompressed size agrees
            lp += 8 + 2 * w;
        }
        recs.push(r);
        k += 1;
    }
    check!(F, p == cd_end as usize); // no bytes left in the directory
    check!(F, lp == cd_off); // no bytes between the last entry and the directory
    Arch { recs, zip64 }
}

// ---------------------------------------------------------------------------------------------- building archives

#[derive(Clone)]
pub struct Ent {
    pub made: u16,
    pub need: u16,
    pub flags: u16,
    pub method: u16,
    pub time: u16,
    pub date: u16,
    pub crc: u32,
    pub csize: u32,
    pub usize_: u32,
    pub name: Vec<u8>,
    pub extra: Vec<u8>,
    pub comment: Vec<u8>,
    pub disk: u16,
    pub iattr: u16,
    pub eattr: u32,
    pub off: u32,
}

impl Ent {
    pub fn plain(name: &[u8], data: &[u8]) -> Ent {
        Ent {
            made: 0x031e,
            need: 20,
            flags: 0,
            method: 0,
            time: 0x6000,
            date: 0x5821,
            crc: crc32(data),
            csize: data.len() as u32,
            usize_: data.len() as u32,
            name: name.to_vec(),
            extra: Vec::new(),
            comment: Vec::new(),
            disk: 0,
            iattr: 0,
            eattr: 0,
            off: 0,
        }
    }
}

pub fn p16(v: &mut Vec<u8>, x: u16) {
    v.push(x as u8);
    v.push((x >> 8) as u8);
}
pub fn p32(v: &mut Vec<u8>, x: u32) {
    p16(v, x as u16);
    p16(v, (x >> 16) as u16);
}
pub fn p64(v: &mut Vec<u8>, x: u64) {
    p32(v, x as u32);
    p32(v, (x >> 32) as u32);
}

pub fn put_lfh(v: &mut Vec<u8>, e: &Ent) {
    put_lfh_x(v, e, &e.name, &e.extra)
}
/// Local header with its own name and extra field.
pub fn put_lfh_x(v: &mut Vec<u8>, e: &Ent, name: &[u8], extra: &[u8]) {
    p32(v, LFH);
    p16(v, e.need);
    p16(v, e.flags);
    p16(v, e.method);
    p16(v, e.time);
    p16(v, e.date);
    p32(v, e.crc);
    p32(v, e.csize);
    p32(v, e.usize_);
    p16(v, name.len() as u16);
    p16(v, extra.len() as u16);
    v.extend_from_slice(name);
    v.extend_from_slice(extra);
}
pub fn put_cdh(v: &mut Vec<u8>, e: &Ent) {
    p32(v, CDH);
    p16(v, e.made);
    p16(v, e.need);
    p16(v, e.flags);
    p16(v, e.method);
    p16(v, e.time);
    p16(v, e.date);
    p32(v, e.crc);
    p32(v, e.csize);
    p32(v, e.usize_);
    p16(v, e.name.len() as u16);
    p16(v, e.extra.len() as u16);
    p16(v, e.comment.len() as u16);
    p16(v, e.disk);
    p16(v, e.iattr);
    p32(v, e.eattr);
    p32(v, e.off);
    v.extend_from_slice(&e.name);
    v.extend_from_slice(&e.extra);
    v.extend_from_slice(&e.comment);
}
pub fn put_eocd(v: &mut Vec<u8>, disk: u16, cd_disk: u16, n_disk: u16, n: u16, size: u32, off: u32, comment: &[u8]) {
    p32(v, EOCD);
    p16(v, disk);
    p16(v, cd_disk);
    p16(v, n_disk);
    p16(v, n);
    p32(v, size);
    p32(v, off);
    p16(v, comment.len() as u16);
    v.extend_from_slice(comment);
}
pub struct Z64 {
    pub made: u16,
    pub need: u16,
    pub disk: u32,
    pub cd_disk: u32,
    pub n_disk: u64,
    pub n: u64,
    pub size: u64,
    pub off: u64,
}
/// Zip64 end record and locator; returns nothing, `at` is the record's offset.
pub fn put_z64(v: &mut Vec<u8>, at: u64, z: &Z64) {
    p32(v, Z64EOCD);
    p64(v, 44);
    p16(v, z.made);
    p16(v, z.need);
    p32(v, z.disk);
    p32(v, z.cd_disk);
    p64(v, z.n_disk);
    p64(v, z.n);
    p64(v, z.size);
    p64(v, z.off);
    p32(v, Z64LOC);
    p32(v, 0);
    p64(v, at);
    p32(v, 1);
}
/// A complete archive of stored entries.
pub fn archive(ents: &mut [(Ent, Vec<u8>)], comment: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(1024);
    for (e, d) in ents.iter_mut() {
        e.off = v.len() as u32;
        put_lfh(&mut v, e);
        v.extend_from_slice(d);
    }
    let off = v.len();
    for (e, _) in ents.iter() {
        put_cdh(&mut v, e);
    }
    let size = v.len() - off;
    put_eocd(&mut v, 0, 0, ents.len() as u16, ents.len() as u16, size as u32, off as u32, comment);
    v
}

/// The toy codec of the async-compression stand-in, from the outside.
pub fn toy(tag: u8, level: u8, data: &[u8]) -> Vec<u8> {
    let mut v = vec![tag, level];
    for b in data {
        v.push(1);
        v.push(b ^ 0xA5);
    }
    v.push(0);
    v
}
