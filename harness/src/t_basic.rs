use crate::{check, io::*, sym};
use async_zip::base::read::mem;
use async_zip::base::write::ZipFileWriter;
use async_zip::*;
const F: u32 = 2;

pub fn h_write1() {
    let data = sym::bytes(3);
    let ext = sym::u32();
    let mut w = ZipFileWriter::new(Vec::<u8>::new());
    let e = ZipEntryBuilder::new("a".into(), Compression::Stored).external_file_attribute(ext);
    check!(F, run(w.write_entry_whole(e, &data)).is_ok());
    let v = match run(w.close()) {
        Ok(v) => v,
        Err(_) => panic!(),
    };
    sym::observe_bytes(&v);
    check!(F, v.len() == 30 + 1 + 3 + 46 + 1 + 22);
    check!(F, v[31] == data[0]);
    let r = match run(mem::ZipFileReader::new(v)) {
        Ok(r) => r,
        Err(_) => panic!(),
    };
    check!(F, r.file().entries().len() == 1);
    check!(F, r.file().entries()[0].external_file_attribute() == ext);
    sym::reach(1);
}
