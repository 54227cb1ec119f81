//! Readers made from their parts (P29); what flushing and closing do to the writer's sink (P30).
use crate::oracle::toy;
use crate::p_sched::{agree, sample};
use crate::p_write::{finish, put_stream, put_whole, writer, Spec, Z};
use crate::{check, io::*, sym, transcript};
use async_zip::base::read::{mem, seek};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::Compression;
use async_zip::ZipEntryBuilder;
use futures_lite::io::{AsyncWrite, AsyncWriteExt, Cursor};
use std::cell::RefCell;
use std::io::Error;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use tokio_util::compat::TokioAsyncReadCompatExt;
const F: u32 = 13;

// ------------------------------------------------------------------------------------------------------------- P29

/// In-memory reader from the bytes and a directory obtained by any reader.
pub fn h_parts_mem() {
    let v = sample(sym::pick(7));
    let a = transcript!(run(mem::ZipFileReader::new(v.clone())));
    let file = match sym::flip() {
        true => run(mem::ZipFileReader::new(v.clone())).map(|r| r.file().clone()),
        false => run(seek::ZipFileReader::new(Cursor::new(v.clone()))).map(|r| r.file().clone()),
    };
    if let Ok(f) = file {
        let r = mem::ZipFileReader::from_raw_parts(v.clone(), f);
        check!(F, sym::same(r.data(), &v)); // the bytes given
        let r = if sym::flip() { r.clone() } else { r };
        agree(&a, &transcript!(Ok::<_, ZipError>(r)));
        sym::reach(2);
    }
}

/// Seekable reader from a source left at any position and a directory obtained by any reader; the source comes back.
pub fn h_parts_seek() {
    let v = sample(sym::pick(7));
    let a = transcript!(run(mem::ZipFileReader::new(v.clone())));
    let file = match sym::flip() {
        true => run(mem::ZipFileReader::new(v.clone())).map(|r| r.file().clone()),
        false => run(seek::ZipFileReader::new(Src::new(v.clone(), Sched::NONE))).map(|r| {
            let f = r.file().clone();
            let s = r.into_inner();
            check!(F, sym::same(&s.data, &v)); // the source given
            f
        }),
    };
    if let Ok(f) = file {
        let mut s = Src::new(v.clone(), Sched::NONE);
        s.pos = sym::pick(200) as u64;
        let pos = s.pos;
        let mut r = seek::ZipFileReader::from_raw_parts(s, f.clone());
        check!(F, r.inner_mut().pos == pos && sym::same(&r.inner_mut().data, &v)); // the source given, untouched
        check!(F, r.file().entries().len() == f.entries().len()); // the directory given
        agree(&a, &transcript!(Ok::<_, ZipError>(r)));
        sym::reach(2);
    }
}

/// The same with a source of tokio's traits.
pub fn h_parts_tokio() {
    let v = sample(sym::pick(7));
    let a = transcript!(run(mem::ZipFileReader::new(v.clone())));
    if let Ok(r) = run(seek::ZipFileReader::with_tokio(Src::new(v.clone(), Sched::NONE))) {
        let f = r.file().clone();
        let mut s = r.into_inner().into_inner();
        check!(F, sym::same(&s.data, &v)); // the source given
        s.pos = sym::pick(200) as u64;
        agree(&a, &transcript!(Ok::<_, ZipError>(seek::ZipFileReader::from_raw_parts(TokioAsyncReadCompatExt::compat(s), f))));
        sym::reach(2);
    }
}

// ------------------------------------------------------------------------------------------------------------- P30

/// A sink that can be looked at while the writer has it.
struct Shared(Rc<RefCell<Tap>>);
struct Tap {
    s: Sink,
    /// Length when last flushed successfully.
    flushed: usize,
}
impl AsyncWrite for Shared {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize, Error>> {
        Pin::new(&mut self.0.borrow_mut().s).poll_write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        let mut t = self.0.borrow_mut();
        let r = Pin::new(&mut t.s).poll_flush(cx);
        if let Poll::Ready(Ok(())) = r {
            t.flushed = t.s.data.len();
        }
        r
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Pin::new(&mut self.0.borrow_mut().s).poll_close(cx)
    }
}
fn shared(s: Sched) -> (Rc<RefCell<Tap>>, Shared) {
    let t = Rc::new(RefCell::new(Tap { s: Sink::new(s), flushed: 0 }));
    (t.clone(), Shared(t))
}

fn flush(s: Sched, method: usize, fails: bool) {
    let (t, sink) = shared(Sched::NONE);
    let mut w = ZipFileWriter::new(sink);
    let n = sym::pick(4);
    let mut x = Spec::plain("a", sym::bytes(n));
    x.method = method;
    let k = sym::pick(n as u8 + 1);
    let mut e = match run(w.write_entry_stream(x.entry())) {
        Ok(e) => e,
        Err(_) => {
            check!(F, false); // accepted
            return;
        }
    };
    let start = t.borrow().s.data.len();
    t.borrow_mut().s.s = s;
    let ok = run(e.write_all(&x.data[..k])).is_ok() && run(e.flush()).is_ok();
    check!(F, ok != failed()); // a failure is reported, and only a failure
    if ok {
        let t = t.borrow();
        check!(F, t.flushed == t.s.data.len() && t.s.flushes > 0); // the sink was flushed, with everything in it
        let got = &t.s.data[start..];
        if method == 0 {
            check!(F, sym::same(got, &x.data[..k])); // everything written so far
        } else {
            let enc = toy(0xD8, 0, &x.data[..k]);
            check!(F, k == 0 || sym::same(&got[got.len().saturating_sub(2 * k)..], &enc[enc.len() - 1 - 2 * k..enc.len() - 1])); // everything, coded
        }
        check!(F, t.s.closes == 0); // not closed
        sym::reach(1);
    } else {
        check!(F, fails); // failed
        sym::reach(2);
        return;
    }
    t.borrow_mut().s.s = Sched::NONE;
    check!(F, run(e.write_all(&x.data[k..])).is_ok() && run(e.close()).is_ok()); // goes on
    check!(F, run(w.close()).is_ok()); // closes
    let mut u = writer(Z::Auto);
    put_stream(&mut u, &x, &[], None);
    check!(F, sym::same(&t.borrow().s.data, &finish(u))); // the archive it would be without the flush
    check!(F, t.borrow().s.closes == 0); // the sink stays open
}
/// Flushing an entry being streamed: everything written so far is in the sink, and the sink was flushed after it.
pub fn h_sink_flush() {
    flush(Sched::NONE, sym::pick(2), false)
}
/// The same where the sink is not ready at any one operation.
pub fn h_sink_flush_pend() {
    flush(Sched::pending(1), sym::pick(2), false)
}
/// The same where the sink takes one to three bytes only at any one operation.
pub fn h_sink_flush_short() {
    flush(Sched::short(1, 3), sym::pick(2), false)
}
/// The same with a sink that fails at any one operation, the flush included: reported.
pub fn h_sink_flush_fault() {
    flush(Sched::error(), sym::pick(2), true)
}

/// Closing entries, in either or both of the two ways, never closes the sink; closing the archive hands it back, open.
pub fn h_sink_close() {
    let z = [Z::Auto, Z::Forced, Z::Forbidden][sym::pick(3)];
    let mut s = Vec::new();
    for i in 0..2 {
        let mut x = Spec::plain(["a", "bc"][i], sym::bytes(2 - i));
        x.method = sym::pick(2 + 4 * i as u8);
        s.push(x);
    }
    let how = sym::pick(4);
    let (t, sink) = shared(Sched::NONE);
    let mut w = match z {
        Z::Auto => ZipFileWriter::new(sink),
        Z::Forced => ZipFileWriter::new(sink).force_zip64(),
        Z::Forbidden => ZipFileWriter::new(sink).force_no_zip64(),
    };
    let mut u = writer(z);
    for (i, x) in s.iter().enumerate() {
        if how >> i & 1 == 0 {
            check!(F, run(w.write_entry_whole(x.entry(), &x.data)).is_ok()); // accepted
            put_whole(&mut u, x);
        } else {
            match run(w.write_entry_stream(x.entry())) {
                Ok(mut e) => {
                    check!(F, run(e.write_all(&x.data)).is_ok()); // written
                    if sym::flip() {
                        check!(F, run(AsyncWriteExt::close(&mut e)).is_ok()); // closed as a writer
                    }
                    check!(F, t.borrow().s.closes == 0); // the sink stays open
                    check!(F, run(e.close()).is_ok()); // closed as an entry
                }
                Err(_) => check!(F, false), // accepted
            }
            put_stream(&mut u, x, &[], None);
        }
        check!(F, t.borrow().s.closes == 0); // the sink stays open
    }
    match run(w.close()) {
        Ok(back) => check!(F, Rc::ptr_eq(&back.0, &t)), // the sink given
        Err(_) => check!(F, false), // closes
    }
    check!(F, t.borrow().s.closes == 0); // still open
    check!(F, sym::same(&t.borrow().s.data, &finish(u))); // with the whole archive
    sym::reach(1);
}

/// A sink that has something in it already, or gets something between entries through the writer: the library neither
/// reads nor changes what is there.
pub fn h_sink_inner() {
    let (t, sink) = shared(Sched::NONE);
    let mut w = ZipFileWriter::new(sink);
    let x = Spec::plain("a", sym::bytes(2));
    check!(F, run(w.write_entry_whole(x.entry(), &x.data)).is_ok()); // accepted
    check!(F, Rc::ptr_eq(&w.inner_mut().0, &t)); // the sink given
    let before = t.borrow().s.data.clone();
    let e = ZipEntryBuilder::new("b".into(), Compression::Stored);
    check!(F, run(w.write_entry_whole(e, &[])).is_ok()); // accepted
    check!(F, sym::same(&t.borrow().s.data[..before.len()], &before)); // append only
    check!(F, run(w.close()).is_ok()); // closes
    check!(F, sym::same(&t.borrow().s.data[..before.len()], &before)); // append only
    sym::reach(1);
}
