//! Stand-in for rusqlite, which only the demo program uses: nothing works
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "no sqlite")
    }
}
impl std::error::Error for Error {}
type R<T> = Result<T, Error>;
pub struct OpenFlags;
impl OpenFlags {
    pub const SQLITE_OPEN_READ_WRITE: OpenFlags = OpenFlags;
    pub const SQLITE_OPEN_CREATE: OpenFlags = OpenFlags;
    pub const SQLITE_OPEN_NO_MUTEX: OpenFlags = OpenFlags;
}
impl std::ops::BitOr for OpenFlags {
    type Output = OpenFlags;
    fn bitor(self, _: OpenFlags) -> OpenFlags {
        OpenFlags
    }
}
pub struct Row;
impl Row {
    pub fn get<T>(&self, _: usize) -> R<T> {
        Err(Error)
    }
}
pub struct Connection;
impl Connection {
    pub fn open_with_flags_and_vfs(_: &str, _: OpenFlags, _: &str) -> R<Self> {
        Err(Error)
    }
    pub fn execute_batch(&self, _: &str) -> R<()> {
        Err(Error)
    }
    pub fn execute(&self, _: &str, _: [(); 0]) -> R<usize> {
        Err(Error)
    }
    pub fn query_row<T>(&self, _: &str, _: [(); 0], _: impl FnOnce(&Row) -> R<T>) -> R<T> {
        Err(Error)
    }
    pub fn cache_flush(&self) -> R<()> {
        Err(Error)
    }
}
