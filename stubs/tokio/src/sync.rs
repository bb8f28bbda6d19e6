pub use real_tokio::sync::*;
