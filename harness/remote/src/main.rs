#![allow(clippy::all, dead_code)]
mod rm;
/// every harness entry by name (kept alive for the linker; used by the native replay)
pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("sx_remote_one", rm::sx_remote_one),
    ("sx_remote_one2", rm::sx_remote_one2),
    ("sx_remote_burst", rm::sx_remote_burst),
    ("sx_remote_many", rm::sx_remote_many),
    ("sx_remote_many3", rm::sx_remote_many3),
    ("sx_remote_faults", rm::sx_remote_faults),
    ("sx_remote_none", rm::sx_remote_none),
    ("sx_remote_cancel", rm::sx_remote_cancel),
    ("sx_remote_cancel80", rm::sx_remote_cancel80),
    ("sx_remote_timeout", rm::sx_remote_timeout),
    ("sx_remote_version", rm::sx_remote_version),
    ("sx_remote_register", rm::sx_remote_register),
    ("sx_remote_six", rm::sx_remote_six),
    ("sx_remote_metadata", rm::sx_remote_metadata),
    ("sx_remote_events", rm::sx_remote_events),
    ("sx_remote_lag", rm::sx_remote_lag),
    ("sx_remote_before", rm::sx_remote_before),
    ("sx_msg_context", rm::sx_msg_context),
    ("sx_msg_context2", rm::sx_msg_context2),
    ("sx_msg_command", rm::sx_msg_command),
    ("sx_msg_reply", rm::sx_msg_reply),
    ("sx_msg_event", rm::sx_msg_event),
    ("sx_remote_rounds", rm::sx_remote_rounds),
    ("sx_remote_rounds4", rm::sx_remote_rounds4),
    ("sx_remote_signal_runs", rm::sx_remote_signal_runs),
    ("sx_remote_signal_step", rm::sx_remote_signal_step),
    ("sx_remote_signal_again", rm::sx_remote_signal_again),
    ("sx_remote_signal_ends", rm::sx_remote_signal_ends),
    ("sx_remote_signal_jobs", rm::sx_remote_signal_jobs),
    ("sx_remote_content", rm::sx_remote_content),
    ("sx_msg_rich", rm::sx_msg_rich),
    ("sx_remote_hiccup", rm::sx_remote_hiccup),
    ("sx_remote_slow_events", rm::sx_remote_slow_events),
    ("sx_remote_default", rm::sx_remote_default),
    ("sx_remote_default2", rm::sx_remote_default2),
    ("sx_remote_grumpy", rm::sx_remote_grumpy),
];
fn main() {
    let n = std::env::args().nth(1).expect("entry");
    let f = std::hint::black_box(ENTRIES).iter().find(|e| e.0 == n).expect("unknown entry").1;
    f();
    sym::end();
}
#[path = "../../core/src/common.rs"]
mod common;
