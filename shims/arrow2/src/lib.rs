//! Stand-in for the parts of the `arrow2` fork that the repository uses (the
//! fork cannot be fetched offline). Same names, same observable semantics; the
//! file format is its own (magic, pages, footer), not Parquet.
pub mod array;
pub mod bitmap;
pub mod chunk;
pub mod compute;
pub mod datatypes;
pub mod error;
pub mod ffi;
pub mod io;
pub mod offset;
pub mod pq;
pub mod types;
