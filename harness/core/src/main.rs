#![allow(clippy::all, dead_code)]
mod big;
mod cfg;
mod common;
mod id;
mod mt;
mod pl;
mod st;
mod t0;
mod wf;
/// every harness entry by name (kept alive for the linker; used by the native replay)
pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("sx_job_long", big::sx_job_long),
    ("sx_wf_large", big::sx_wf_large),
    ("sx_verdict_wide", big::sx_verdict_wide),
    ("sx_logs_odd", big::sx_logs_odd),
    ("sx_logs_signal", big::sx_logs_signal),
    ("sx_two_runs", big::sx_two_runs),
    ("sx_cancel_moments", big::sx_cancel_moments),
    ("sx_timeout_ms", big::sx_timeout_ms),
    ("sx_same_runs", big::sx_same_runs),
    ("sx_wf_verdict_steps", big::sx_wf_verdict_steps),
    ("sx_cancel_jobs", big::sx_cancel_jobs),
    ("sx_cancel_jobs5", big::sx_cancel_jobs5),
    ("sx_cancel_hook", big::sx_cancel_hook),
    ("sx_timeout_cancel", big::sx_timeout_cancel),
    ("sx_logs_slow", big::sx_logs_slow),
    ("sx_cfg_small", cfg::sx_cfg_small),
    ("sx_cfg_rel3", cfg::sx_cfg_rel3),
    ("sx_cfg_rel4", cfg::sx_cfg_rel4),
    ("sx_cfg_runs", cfg::sx_cfg_runs),
    ("sx_cfg_top", cfg::sx_cfg_top),
    ("sx_cfg_step", cfg::sx_cfg_step),
    ("sx_cfg_timeout", cfg::sx_cfg_timeout),
    ("sx_cfg_container", cfg::sx_cfg_container),
    ("sx_cfg_ids", cfg::sx_cfg_ids),
    ("sx_actions", cfg::sx_actions),
    ("sx_actions_same", cfg::sx_actions_same),
    ("sx_actions3", cfg::sx_actions3),
    ("sx_actions_names", cfg::sx_actions_names),
    ("sx_cfg_ring", cfg::sx_cfg_ring),
    ("sx_cfg_many", cfg::sx_cfg_many),
    ("sx_cfg_texts", cfg::sx_cfg_texts),
    ("sx_cfg_texts2", cfg::sx_cfg_texts2),
    ("sx_cfg_large", cfg::sx_cfg_large),
    ("sx_id_roundtrip", id::sx_id_roundtrip),
    ("sx_id_roundtrip4", id::sx_id_roundtrip4),
    ("sx_id_parse", id::sx_id_parse),
    ("sx_id_parse6", id::sx_id_parse6),
    ("sx_id_sizes", id::sx_id_sizes),
    ("sx_cond_glob", mt::sx_cond_glob),
    ("sx_cond_glob4", mt::sx_cond_glob4),
    ("sx_cond_lists", mt::sx_cond_lists),
    ("sx_cond_lists2", mt::sx_cond_lists2),
    ("sx_cond_events", mt::sx_cond_events),
    ("sx_cond_world", mt::sx_cond_world),
    ("sx_cond_asked", mt::sx_cond_asked),
    ("sx_cond_pages", mt::sx_cond_pages),
    ("sx_cond_multi", mt::sx_cond_multi),
    ("sx_cond_jobs", mt::sx_cond_jobs),
    ("sx_cond_two_runs", mt::sx_cond_two_runs),
    ("sx_cond_many", mt::sx_cond_many),
    ("sx_cond_names", mt::sx_cond_names),
    ("sx_cond_deep", mt::sx_cond_deep),
    ("sx_cond_deep3", mt::sx_cond_deep3),
    ("sx_cond_deep4", mt::sx_cond_deep4),
    ("sx_hook_fail", pl::sx_hook_fail),
    ("sx_hook_fail2", pl::sx_hook_fail2),
    ("sx_hook_fail_once", pl::sx_hook_fail_once),
    ("sx_before_chain", pl::sx_before_chain),
    ("sx_before_chain5", pl::sx_before_chain5),
    ("sx_step_fields", pl::sx_step_fields),
    ("sx_before_fields", pl::sx_before_fields),
    ("sx_trigger_payload", pl::sx_trigger_payload),
    ("sx_trigger_fields", pl::sx_trigger_fields),
    ("sx_closure_plugin", pl::sx_closure_plugin),
    ("sx_stream_hist", st::sx_stream_hist),
    ("sx_stream_hist7", st::sx_stream_hist7),
    ("sx_stream_threads", st::sx_stream_threads),
    ("sx_stream_threads4", st::sx_stream_threads4),
    ("sx_stream_ends", st::sx_stream_ends),
    ("sx_signal_hist", st::sx_signal_hist),
    ("sx_signal_hist8", st::sx_signal_hist8),
    ("sx_signal_threads", st::sx_signal_threads),
    ("sx_signal_threads4", st::sx_signal_threads4),
    ("sx_stream_long", st::sx_stream_long),
    ("sx_stream_huge", st::sx_stream_huge),
    ("sx_t0_basic", t0::sx_t0_basic),
    ("sx_wf_deps3", wf::sx_wf_deps3),
    ("sx_wf_deps4", wf::sx_wf_deps4),
    ("sx_wf_deps4_all", wf::sx_wf_deps4_all),
    ("sx_wf_multistep", wf::sx_wf_multistep),
    ("sx_wf_many", wf::sx_wf_many),
    ("sx_wf_sched", wf::sx_wf_sched),
    ("sx_wf_dep_skipped", wf::sx_wf_dep_skipped),
    ("sx_job_verdict3", wf::sx_job_verdict3),
    ("sx_job_verdict2c", wf::sx_job_verdict2c),
    ("sx_job_verdict4", wf::sx_job_verdict4),
    ("sx_job_verdict3c", wf::sx_job_verdict3c),
    ("sx_wf_verdict2", wf::sx_wf_verdict2),
    ("sx_wf_verdict3", wf::sx_wf_verdict3),
    ("sx_life", wf::sx_life),
    ("sx_life_all", wf::sx_life_all),
    ("sx_logs", wf::sx_logs),
    ("sx_logs_deep", wf::sx_logs_deep),
    ("sx_logs_burst", wf::sx_logs_burst),
    ("sx_timeout", wf::sx_timeout),
    ("sx_timeout_long", wf::sx_timeout_long),
    ("sx_cancel", wf::sx_cancel),
    ("sx_cancel_deep", wf::sx_cancel_deep),
    ("sx_cancel_two_runs", wf::sx_cancel_two_runs),
];
fn main() {
    let n = std::env::args().nth(1).expect("entry");
    let f = std::hint::black_box(ENTRIES).iter().find(|e| e.0 == n).expect("unknown entry").1;
    f();
    sym::end();
}
