#![allow(clippy::all, dead_code)]
mod fsx;
mod rn;
/// every harness entry by name (kept alive for the linker; used by the native replay)
pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("sx_run_output", rn::sx_run_output),
    ("sx_run_output6", rn::sx_run_output6),
    ("sx_run_bytes", rn::sx_run_bytes),
    ("sx_run_pipe", rn::sx_run_pipe),
    ("sx_run_exit", rn::sx_run_exit),
    ("sx_run_fs_fail", rn::sx_run_fs_fail),
    ("sx_run_signal_host", rn::sx_run_signal_host),
    ("sx_run_signal_docker", rn::sx_run_signal_docker),
    ("sx_docker_again", rn::sx_docker_again),
    ("sx_docker_command", rn::sx_docker_command),
    ("sx_run_paths", rn::sx_run_paths),
    ("sx_run_paths_two", rn::sx_run_paths_two),
    ("sx_run_paths4", rn::sx_run_paths4),
    ("sx_run_apart", rn::sx_run_apart),
    ("sx_run_names", rn::sx_run_names),
    ("sx_run_names_long", rn::sx_run_names_long),
    ("sx_run_ids", rn::sx_run_ids),
    ("sx_run_share", rn::sx_run_share),
    ("sx_run_plugins", rn::sx_run_plugins),
    ("sx_host_command", rn::sx_host_command),
    ("sx_run_where", rn::sx_run_where),
    ("sx_run_long", rn::sx_run_long),
    ("sx_run_many_lines", rn::sx_run_many_lines),
    ("sx_run_crowd", rn::sx_run_crowd),
    ("sx_run_crowd_free", rn::sx_run_crowd_free),
    ("sx_run_cancel_job", rn::sx_run_cancel_job),
    ("sx_docker_full", rn::sx_docker_full),
    ("sx_run_repos", rn::sx_run_repos),
    ("sx_run_repos_all", rn::sx_run_repos_all),
];
fn main() {
    let n = std::env::args().nth(1).expect("entry");
    let f = std::hint::black_box(ENTRIES).iter().find(|e| e.0 == n).expect("unknown entry").1;
    sym::prepare();
    fsx::guard();
    f();
    sym::end();
}
#[path = "../../core/src/common.rs"]
mod common;
