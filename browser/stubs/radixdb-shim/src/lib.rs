//! radixdb with the name under which it used to export its blobs
pub use radixdb_real::*;
pub mod store {
    pub use radixdb_real::store::*;
    pub type OwnedBlob = Blob<'static>;
}
