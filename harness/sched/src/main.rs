#![allow(clippy::all, dead_code)]
mod sd;
/// every harness entry by name (kept alive for the linker; used by the native replay)
pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("sx_sched_one", sd::sx_sched_one),
    ("sx_sched_one5", sd::sx_sched_one5),
    ("sx_sched_two", sd::sx_sched_two),
    ("sx_sched_two3", sd::sx_sched_two3),
    ("sx_sched_history", sd::sx_sched_history),
    ("sx_sched_history6", sd::sx_sched_history6),
    ("sx_sched_load", sd::sx_sched_load),
    ("sx_sched_history5", sd::sx_sched_history5),
    ("sx_sched_history7", sd::sx_sched_history7),
    ("sx_sched_threads", sd::sx_sched_threads),
    ("sx_sched_threads2", sd::sx_sched_threads2),
    ("sx_sched_wide", sd::sx_sched_wide),
    ("sx_sched_wide2", sd::sx_sched_wide2),
    ("sx_sched_together", sd::sx_sched_together),
    ("sx_sched_together3", sd::sx_sched_together3),
];
fn main() {
    let n = std::env::args().nth(1).expect("entry");
    let f = std::hint::black_box(ENTRIES).iter().find(|e| e.0 == n).expect("unknown entry").1;
    f();
    sym::end();
}
