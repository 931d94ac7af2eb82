//! In-memory stand-in for async-std's file operations: a table of named files, each operation may
//! report "not ready" once. Compiled instead of async-std for C20's bitcode (threads and system
//! calls cannot be encoded); the native replay uses the real async-std and real files.
pub mod io {
    pub use futures_lite::io::{AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, AsyncWrite, BufReader, Cursor};
    pub use std::io::{Error, ErrorKind, Result, SeekFrom};
}
pub mod path {
    pub use std::path::{Path, PathBuf};
}
pub mod fs {
    use futures_lite::io::{AsyncRead, AsyncSeek};
    use std::future::poll_fn;
    use std::io::{Error, ErrorKind, Result, SeekFrom};
    use std::path::Path;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    struct Entry {
        path: String,
        data: Option<Vec<u8>>,
    }
    static mut FILES: Vec<Entry> = Vec::new();
    static mut BUSY: u64 = 0;

    #[allow(static_mut_refs)]
    fn find(p: &Path) -> Result<Option<Vec<u8>>> {
        let p = p.to_str().unwrap();
        unsafe { FILES.iter().find(|e| e.path == p).map(|e| e.data.clone()).ok_or(Error::from(ErrorKind::NotFound)) }
    }
    /// Is the next operation to report "not ready" first? (one bit of the schedule each)
    fn busy(cx: &mut Context<'_>) -> bool {
        unsafe {
            let b = BUSY & 1 == 1;
            BUSY >>= 1;
            if b {
                cx.waker().wake_by_ref();
            }
            b
        }
    }
    async fn maybe_later() {
        poll_fn(|cx| if busy(cx) { Poll::Pending } else { Poll::Ready(()) }).await
    }

    /// A file (`None`: a directory) of this name.
    #[allow(static_mut_refs)]
    pub fn install(path: &str, data: Option<Vec<u8>>) {
        unsafe { FILES.push(Entry { path: path.to_string(), data }) }
    }
    pub fn schedule(bits: u64) {
        unsafe { BUSY = bits }
    }
    #[allow(static_mut_refs)]
    pub fn clear() {
        unsafe { FILES.clear() }
    }

    #[derive(Debug, Clone)]
    pub struct Metadata {
        len: u64,
        dir: bool,
    }
    impl Metadata {
        pub fn len(&self) -> u64 {
            self.len
        }
        pub fn is_file(&self) -> bool {
            !self.dir
        }
        pub fn is_dir(&self) -> bool {
            self.dir
        }
    }
    fn meta(d: &Option<Vec<u8>>) -> Metadata {
        Metadata { len: d.as_ref().map_or(4096, |d| d.len() as u64), dir: d.is_none() }
    }
    pub async fn metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
        maybe_later().await;
        find(p.as_ref()).map(|d| meta(&d))
    }
    pub async fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
        maybe_later().await;
        find(p.as_ref())?.ok_or(Error::from(ErrorKind::IsADirectory))
    }

    #[derive(Debug, Clone)]
    pub struct File {
        data: Option<Vec<u8>>,
        pos: u64,
    }
    impl File {
        pub async fn open<P: AsRef<Path>>(p: P) -> Result<File> {
            maybe_later().await;
            find(p.as_ref()).map(|data| File { data, pos: 0 })
        }
        pub async fn metadata(&self) -> Result<Metadata> {
            maybe_later().await;
            Ok(meta(&self.data))
        }
    }
    impl AsyncRead for File {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
            if busy(cx) {
                return Poll::Pending;
            }
            let pos = self.pos;
            let Some(d) = &self.data else { return Poll::Ready(Err(Error::from(ErrorKind::IsADirectory))) };
            let left = &d[(pos as usize).min(d.len())..];
            let k = left.len().min(buf.len());
            buf[..k].copy_from_slice(&left[..k]);
            self.pos += k as u64;
            Poll::Ready(Ok(k))
        }
    }
    impl AsyncSeek for File {
        fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, to: SeekFrom) -> Poll<Result<u64>> {
            if busy(cx) {
                return Poll::Pending;
            }
            let base = match to {
                SeekFrom::Start(n) => Some(n),
                SeekFrom::End(n) => (self.data.as_ref().map_or(0, |d| d.len() as u64)).checked_add_signed(n),
                SeekFrom::Current(n) => self.pos.checked_add_signed(n),
            };
            Poll::Ready(match base {
                Some(n) => {
                    self.pos = n;
                    Ok(n)
                }
                None => Err(Error::from(ErrorKind::InvalidInput)),
            })
        }
    }
}
