//! Stand-in for tokio: the channels, locks, `join!`, io adapters are tokio's own code; tasks,
//! timers, `select!`'s starting branch, files and processes are decided by the `sym` scheduler.
#![allow(clippy::all)]
pub use real_tokio::{join, pin, try_join};
pub use real_tokio::io;
#[doc(hidden)]
pub use real_tokio::{select_priv_clean_pattern, select_priv_declare_output_enum};
#[macro_use]
mod select;
pub mod fs;
pub mod process;
pub mod runtime;
pub mod sync;
pub mod sx;
pub mod task;
pub mod time;
pub use task::spawn;

#[doc(hidden)]
pub mod macros {
    pub mod support {
        pub use real_tokio::macros::support::{maybe_done, poll_fn, ready, BiasedRotator, Context, Future, IntoFuture, Pin, Poll, Result, Rotator, RotatorSelect, SelectBiased, SelectNormal};
        /// which branch `select!` looks at first
        pub fn thread_rng_n(n: u32) -> u32 { crate::sx::select_from(n) }
        pub fn poll_budget_available(_: &mut Context<'_>) -> Poll<()> { Poll::Ready(()) }
    }
}
