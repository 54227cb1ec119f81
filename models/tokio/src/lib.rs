//! The real tokio, except for `fs::File`, which is a model: the file system holds one file, whose bytes, readiness, short
//! reads and failures the harness decides.  (The real one hands each operation to a thread pool.)
pub use real::*;

pub mod fs {
    pub use real::fs::*;

    use real::io::{AsyncRead, AsyncSeek, ReadBuf};
    use std::future::poll_fn;
    use std::io::{Error, ErrorKind, Result, SeekFrom};
    use std::path::{Path, PathBuf};
    use std::pin::Pin;
    use std::task::{ready, Context, Poll};

    /// The one file there is.
    pub struct Disk {
        pub path: PathBuf,
        pub data: Vec<u8>,
        /// Consulted before every operation.
        pub gate: fn(&mut Context<'_>) -> Poll<Result<()>>,
        /// How many of the bytes that could be transferred are.
        pub clip: fn(usize) -> usize,
        pub opened: u32,
        pub closed: u32,
    }
    static mut DISK: Option<Disk> = None;

    /// Installs the file (harnesses are single-threaded).
    pub fn install(d: Disk) {
        unsafe { DISK = Some(d) }
    }
    pub fn disk() -> &'static mut Disk {
        unsafe { (*std::ptr::addr_of_mut!(DISK)).as_mut().expect("no file installed") }
    }

    #[derive(Debug)]
    pub struct File {
        pos: u64,
    }

    impl File {
        pub async fn open(path: impl AsRef<Path>) -> Result<File> {
            poll_fn(|cx| (disk().gate)(cx)).await?;
            if path.as_ref() != disk().path {
                return Err(ErrorKind::NotFound.into());
            }
            disk().opened += 1;
            Ok(File { pos: 0 })
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub async fn try_clone(&self) -> Result<File> {
            unimplemented!("shared positions are not modelled")
        }
    }

    impl Drop for File {
        fn drop(&mut self) {
            disk().closed += 1;
        }
    }

    #[derive(Clone, Debug, Default)]
    pub struct OpenOptions(());

    impl OpenOptions {
        pub fn new() -> OpenOptions {
            OpenOptions(())
        }
        pub fn read(&mut self, _: bool) -> &mut OpenOptions {
            self
        }
        pub async fn open(&self, path: impl AsRef<Path>) -> Result<File> {
            File::open(path).await
        }
    }

    impl AsyncRead for File {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            let d = disk();
            ready!((d.gate)(cx))?;
            let len = d.data.len() as u64;
            let at = if self.pos < len { self.pos } else { len } as usize;
            let rest = &d.data[at..];
            let n = (d.clip)(rest.len().min(out.remaining()));
            out.put_slice(&rest[..n]);
            self.pos += n as u64;
            Poll::Ready(Ok(()))
        }
    }

    impl AsyncSeek for File {
        fn start_seek(mut self: Pin<&mut Self>, to: SeekFrom) -> Result<()> {
            let p = match to {
                SeekFrom::Start(p) => Some(p),
                SeekFrom::End(d) => (disk().data.len() as u64).checked_add_signed(d),
                SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            };
            // lseek(2) refuses positions that are negative as an off_t.
            self.pos = p.filter(|p| *p <= i64::MAX as u64).ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
            Ok(())
        }
        fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
            ready!((disk().gate)(cx))?;
            Poll::Ready(Ok(self.pos))
        }
    }
}
