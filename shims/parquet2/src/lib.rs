pub use arrow2::pq::*;
