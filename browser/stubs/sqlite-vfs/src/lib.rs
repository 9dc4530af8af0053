//! Stand-in for the traits a file system implements for sqlite
use std::ffi::CStr;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct VfsError(pub i32);
pub const SQLITE_IOERR: VfsError = VfsError(10);
pub type VfsResult<T> = Result<T, VfsError>;
#[derive(Debug, Clone, Default)]
pub struct OpenOptions;
pub trait File {
    fn read(&mut self, start: u64, buf: &mut [u8]) -> VfsResult<usize>;
    fn write(&mut self, start: u64, buf: &[u8]) -> VfsResult<usize>;
    fn file_size(&self) -> VfsResult<u64>;
    fn truncate(&mut self, size: u64) -> VfsResult<()>;
    fn sync(&mut self) -> VfsResult<()>;
}
pub trait Vfs {
    type File;
    fn open(&mut self, path: &CStr, opts: OpenOptions) -> VfsResult<Self::File>;
    fn delete(&mut self, path: &CStr) -> VfsResult<()>;
    fn exists(&mut self, path: &CStr) -> VfsResult<bool>;
}
pub fn register<V: Vfs>(_: &str, _: V) -> Result<(), VfsError> {
    Ok(())
}
