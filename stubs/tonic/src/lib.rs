//! Stand-in for tonic: messages, codecs, client and server halves are tonic's own code; the
//! network between them is a queue in the process whose faults the harness decides.
#![allow(clippy::all)]
pub use real_tonic::*;
pub mod transport;
