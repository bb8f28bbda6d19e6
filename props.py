"""Which harness entries decide which property, within which bounds."""
CRATES = ['core', 'sched', 'remote', 'runner']
PROPS = {}
def P(id, **k): PROPS[id] = k

P('W01', crate='core',
  quick=['sx_wf_deps3', 'sx_wf_deps4', 'sx_wf_multistep', 'sx_wf_many', 'sx_wf_sched', 'sx_wf_dep_skipped', 'sx_wf_large'],
  thorough=['sx_wf_deps4_all'],
  reach={e: ['completed'] for e in ['sx_wf_deps3', 'sx_wf_deps4', 'sx_wf_multistep', 'sx_wf_many', 'sx_wf_sched', 'sx_wf_dep_skipped', 'sx_wf_large']},
  bounds='every acyclic relation on 3 jobs with every completion order and every outcome; six shapes on 4 jobs (thorough: every acyclic relation on 4 jobs); jobs with 2 steps; 14 independent jobs finishing at once plus one that waits for all; free order of all tasks for the first 9 (thorough 14) scheduling decisions of a 3-job run; a skipped dependency; chains, ladders, trees, fans and funnels of 10 jobs (and of 17) in two or three orders of completion, under four sets of names (one the prefix of the next, differing in one character); 1-4 hash seeds',
  outside='more than 4 jobs in arbitrary relations; preemption inside synchronous code; cycles (rejected at build time, see C01)')
P('W02', crate='core',
  quick=['sx_wf_deps3', 'sx_wf_deps4', 'sx_wf_multistep', 'sx_wf_many', 'sx_wf_sched', 'sx_wf_dep_skipped', 'sx_wf_large', 'sx_two_runs', 'sx_same_runs', 'sx_job_long', 'sx_verdict_wide'],
  thorough=['sx_wf_deps4_all'],
  reach={e: ['completed'] for e in ['sx_wf_deps3', 'sx_wf_deps4', 'sx_wf_multistep', 'sx_wf_many', 'sx_wf_sched', 'sx_wf_dep_skipped', 'sx_wf_large', 'sx_two_runs', 'sx_same_runs', 'sx_verdict_wide']},
  bounds='as W01; also two concurrent runs with the same job names, two concurrent runs of the very same workflow (the second begun at any moment), a job of 20 steps, 12 and 40 independent jobs of which one ends in any way', outside='as W01; which of two runs of the very same workflow a cancellation reaches')
P('W03', crate='core', quick=['sx_job_verdict3', 'sx_job_verdict2c', 'sx_job_long', 'sx_wf_verdict_steps'], thorough=['sx_job_verdict4', 'sx_job_verdict3c'],
  reach={'sx_wf_verdict_steps': ['succeeded', 'failed', 'cancelled'], 'sx_job_long': ['succeeded', 'failed', 'cancelled'], 'sx_job_verdict3': ['succeeded', 'failed', 'cancelled'], 'sx_job_verdict2c': ['succeeded', 'failed', 'cancelled']},
  bounds='a job of 3 steps (thorough 4), and of 2 steps with conditions (thorough 3); every outcome of every step with every 32-bit exit code, every combination of continue-on-error flags, every subset of steps the runner refuses, every subset of steps whose condition fails; a job of 20 steps of which any one ends in any way and one other continues on error, and one of 70 with five such positions; two jobs of two steps side by side with every outcome and order',
  outside='longer jobs')
P('W04', crate='core', quick=['sx_wf_verdict2', 'sx_wf_verdict3', 'sx_verdict_wide', 'sx_two_runs', 'sx_wf_verdict_steps'],
  reach={'sx_wf_verdict_steps': ['succeeded', 'failed', 'cancelled'], 'sx_wf_verdict2': ['succeeded', 'failed', 'cancelled'], 'sx_wf_verdict3': ['succeeded', 'failed', 'cancelled'], 'sx_verdict_wide': ['completed'], 'sx_two_runs': ['completed']},
  bounds='2 and 3 jobs, with and without a dependency, any subset skipped by its condition, every outcome, every completion order, 2 hash seeds; 12 and 40 jobs of which one ends in any way; two concurrent runs; two jobs of two steps with every outcome and order', outside='more than 3 jobs with several that do not succeed')
P('W05', crate='core', quick=['sx_life', 'sx_two_runs', 'sx_verdict_wide'], thorough=['sx_life_all'], reach={'sx_life': ['completed'], 'sx_two_runs': ['completed'], 'sx_verdict_wide': ['completed']},
  bounds='two jobs (2 steps and 1 step) with or without a dependency; the run, a job or a step skipped; a step refused by the runner; every outcome and completion order; log lines before the end; three observers (the runner and two plugins); two concurrent runs with the same job names; 12 independent jobs',
  outside='more jobs and steps')
P('W06', crate='core', quick=['sx_logs', 'sx_logs_burst', 'sx_logs_odd', 'sx_logs_signal', 'sx_logs_slow', 'sx_two_runs'], thorough=['sx_logs_deep'], reach={'sx_logs_slow': ['completed', 'timed out'], 'sx_logs_signal': ['completed', 'cancelled', 'timed out'], 'sx_logs': ['completed'], 'sx_logs_burst': ['completed'], 'sx_logs_odd': ['completed'], 'sx_two_runs': ['completed']},
  bounds='every sequence of 4 (thorough 5) actions (log, error, end; consumer runs or not in between) over two concurrent steps, two-character symbolic messages; a burst of 70 lines and the end before the consumer runs once; empty, repeated, blank, non-ASCII, multi-line and 70000-character lines and 300 lines; lines before and after a cancellation or timeout; two concurrent runs; two observers; observers that take 0, 4 or 30 s for a line of a step whose timeout is 10 s',
  outside='longer sequences in arbitrary order')
P('W07', crate='core', quick=['sx_timeout', 'sx_timeout_long', 'sx_timeout_ms', 'sx_timeout_cancel'], reach={'sx_timeout_cancel': ['cancelled', 'after a timeout'], 'sx_timeout_ms': ['completed', 'timed out'], 'sx_timeout': ['completed', 'timed out'], 'sx_timeout_long': ['timed out']}, time=300,
  bounds='symbolic timeout in 1..100 s and three symbolic gaps of 1..100 s between log lines; first and second step of a job; long timeouts (1 h, 30 d, 544 y); symbolic timeouts of 1..255 ms beyond 0, 1 and 59 s; steps that time out or not before a cancelled one, and a timed-out one that is cancelled',
  outside='the exact instant of expiry (neither demanded nor forbidden)')
P('W08', crate='core', quick=['sx_cancel', 'sx_cancel_two_runs', 'sx_cancel_moments', 'sx_cancel_jobs', 'sx_cancel_hook', 'sx_timeout_cancel'], thorough=['sx_cancel_deep', 'sx_cancel_jobs5'], reach={'sx_timeout_cancel': ['cancelled', 'after a timeout'], 'sx_cancel_hook': ['cancelled', 'not running'], 'sx_cancel_jobs': ['cancelled', 'completed'], 'sx_cancel_moments': ['cancelled', 'not running'], 'sx_cancel': ['cancelled'], 'sx_cancel_two_runs': ['both running', 'one finished']},
  bounds='a 3-step job and a second job whose name it is a prefix of; cancel before any step, during the first, second or third step, or while the first step is being queued, through the instance or the run\'s context; every outcome of every step; after each of the first 40 scheduling steps of a run whose steps wait for their signal; two concurrent runs; every history of 4 (thorough 5) cancellations and ends of steps over four jobs of two runs, with hooks that work or fail; from within every hook of a plugin',
  outside='cancellation from another operating system thread in the middle of synchronous code')
P('S01', crate='core', quick=['sx_stream_hist', 'sx_stream_threads', 'sx_stream_ends', 'sx_stream_long', 'sx_stream_huge'], thorough=['sx_stream_hist7', 'sx_stream_threads4'],
  reach={'sx_stream_long': ['completed'], 'sx_stream_huge': ['completed'], 'sx_stream_hist': ['ended', 'woken'], 'sx_stream_threads': ['completed'], 'sx_stream_ends': ['completed']},
  bounds='every sequence of 6 (thorough 7) operations (line, error line, end with any outcome, poll) from two senders on one stream, with symbolic one-character lines and outcomes; two threads that each print and end the stream and the consumer with every interleaving at lock granularity and 2 (thorough 4) preemptions; 300 lines read in four rhythms; 1100 lines read at the end',
  outside='longer histories; interleavings finer than the operations on the stream\'s locks (data races are excluded by the types)')
P('S02', crate='core', quick=['sx_signal_hist', 'sx_signal_threads'], thorough=['sx_signal_hist8', 'sx_signal_threads4'],
  reach={'sx_signal_hist': ['received', 'woken'], 'sx_signal_threads': ['completed']},
  bounds='every sequence of 6 (thorough 8) operations (cancel, time out, poll; all queries after each) through two handles of one signal; two signalling threads and a waiter with every interleaving at lock granularity and 2 (thorough 4) preemptions',
  outside='several tasks waiting for one signal at once (the signal keeps one waker); longer histories')
P('P01', crate='core', quick=['sx_hook_fail', 'sx_hook_fail_once', 'sx_closure_plugin'], thorough=['sx_hook_fail2'],
  reach={e: ['completed'] for e in ['sx_hook_fail', 'sx_hook_fail_once', 'sx_closure_plugin']},
  bounds='two plugins and the runner around a one-step run; every subset of the hooks of one plugin failing (thorough: together with every outcome), and any single call failing; plugins built from closures',
  outside='hooks that panic or never return')
P('P02', crate='core', quick=['sx_before_chain', 'sx_before_fields', 'sx_step_fields'], thorough=['sx_before_chain5'],
  reach={'sx_before_fields': ['completed'], 'sx_before_chain': ['completed'], 'sx_step_fields': ['completed']},
  bounds='three (thorough five) plugins in registration order, each any of: changes the step, leaves it, fails; each field set, cleared, left alone or refused by two plugins and the runner; the executed command compared field by field with symbolic texts, numbers and flags', outside='hooks that panic or never return')
P('P03', crate='core', quick=['sx_trigger_payload', 'sx_trigger_fields'], reach={'sx_trigger_fields': ['completed'], 'sx_trigger_payload': ['completed']},
  bounds='a run of one and two jobs with and without trigger event and payload, symbolic texts; each text, or all of them, empty or one of five odd ones; pull request numbers 0, -1, 2^40 and the largest', outside='longer texts')
P('M01', crate='core', quick=['sx_cond_glob', 'sx_cond_lists', 'sx_cond_events', 'sx_cond_glob4', 'sx_cond_lists2', 'sx_cond_many', 'sx_cond_names', 'sx_cond_deep', 'sx_cond_deep3'], thorough=['sx_cond_deep4'],
  reach={'sx_cond_deep': ['holds', 'does not hold'], 'sx_cond_deep3': ['holds', 'does not hold'], 'sx_cond_many': ['holds', 'does not hold'], 'sx_cond_names': ['completed'], 'sx_cond_glob': ['holds', 'does not hold'], 'sx_cond_lists': ['completed'], 'sx_cond_events': ['holds', 'does not hold']},
  bounds='every pattern of up to 4 and value of up to 4 characters over letters, `/`, `*`, `?`; up to 2 patterns and 2 changed files, branch and path restrictions together, for push and pull request separately; event lists with symbolic names; six patterns and six files of which any one pair can fit, 40 of each, with seven kinds of malformed patterns among them; patterns of up to 3 (thorough: 4) pieces among text, `*`, `?`, `**` and sets of characters, against values of up to 4 (5) characters; names of up to 3 characters with dots, blanks, dashes, upper case, alone or after `refs/heads/`, `./`, `origin/` or `/`',
  outside='a pattern that ends in `**/`; longer texts')
P('M02', crate='core', quick=['sx_cond_world', 'sx_cond_multi', 'sx_cond_two_runs', 'sx_cond_jobs', 'sx_cond_pages'], reach={'sx_cond_jobs': ['completed'], 'sx_cond_pages': ['failed', 'listed'], 'sx_cond_world': ['undecided', 'holds', 'does not hold'], 'sx_cond_multi': ['completed'], 'sx_cond_two_runs': ['completed']},
  bounds='every combination of: an event or none, credentials or none, each GitHub request failing or answering; conditions on the run, a job and a step; two runs with different events; three jobs whose conditions are decided at the same moment; up to 650 changed files in pages of 1 to 300 with any request failing', outside='more jobs at the same moment', trusts='(the GitHub client is replaced by octocrate stand-in)')
P('M03', crate='core', quick=['sx_cond_world', 'sx_cond_multi', 'sx_cond_two_runs', 'sx_cond_asked', 'sx_cond_jobs', 'sx_cond_pages'], reach={'sx_cond_jobs': ['completed'], 'sx_cond_pages': ['failed', 'listed'], 'sx_cond_world': ['undecided', 'holds', 'does not hold'], 'sx_cond_multi': ['completed'], 'sx_cond_two_runs': ['completed'], 'sx_cond_asked': ['completed']},
  bounds='as M02; owners, names, commits, branches and credentials of any one character, empty, with blanks or 300 characters long, pull request numbers 0, 1, -4 and 2^33, app ids up to 2^64-1; 1, 12 and 29 changed files of which any of four decides', outside='as M02')
P('C01', crate='core', quick=['sx_cfg_small', 'sx_cfg_rel3', 'sx_cfg_rel4', 'sx_cfg_runs', 'sx_cfg_timeout', 'sx_cfg_ring', 'sx_cfg_large'],
  reach={'sx_cfg_large': ['accepted', 'rejected'], 'sx_cfg_ring': ['accepted', 'rejected'], 'sx_cfg_small': ['accepted', 'rejected'], 'sx_cfg_rel3': ['accepted', 'rejected'], 'sx_cfg_rel4': ['accepted', 'rejected'], 'sx_cfg_runs': ['completed'], 'sx_cfg_timeout': ['accepted', 'rejected']},
  bounds='every dependency relation on up to 4 jobs, with unknown and repeated names, empty jobs and steps; every two-digit timeout text with each unit, and malformed ones; rings and chains of 2 to 8 jobs with up to 2 free jobs; chains, stars and ladders of 9, 17 and 40 jobs, one with 30 steps, with repeated dependencies and one fault or none', outside='more jobs in arbitrary relations; YAML syntax errors (handled by serde_yaml)')
P('C02', crate='core', quick=['sx_cfg_small', 'sx_cfg_rel3', 'sx_cfg_top', 'sx_cfg_step', 'sx_cfg_container', 'sx_cfg_timeout', 'sx_cfg_many', 'sx_cfg_texts', 'sx_cfg_texts2'],
  reach={'sx_cfg_many': ['completed'], 'sx_cfg_top': ['completed'], 'sx_cfg_step': ['completed'], 'sx_cfg_container': ['completed'], 'sx_cfg_timeout': ['accepted', 'rejected']},
  bounds='every presence pattern of the configurable fields of run, job, step and container, with symbolic texts, numbers and flags; every printable character and 18 odd texts at any of twelve places; 8 jobs of up to 12 steps', outside='longer texts; numbers beyond 2^53 in environments')
P('C03', crate='core', quick=['sx_cfg_ids', 'sx_cfg_top', 'sx_actions', 'sx_cfg_many', 'sx_cfg_texts2'], reach={'sx_cfg_texts2': ['completed'], 'sx_cfg_ids': ['completed'], 'sx_cfg_top': ['completed'], 'sx_actions': ['built', 'refused']},
  bounds='given or generated identifiers, up to 3 jobs of up to 3 steps, steps expanded from actions; 8 jobs of 12 steps; six odd workflow ids and twelve odd job keys', outside='more jobs and steps')
P('C04', crate='core', quick=['sx_actions', 'sx_actions_names', 'sx_actions_same'], thorough=['sx_actions3'], reach={'sx_actions_same': ['built'], 'sx_actions': ['built', 'refused'], 'sx_actions_names': ['built', 'refused']},
  bounds='every arrangement of plain steps, actions of each shape (main step, pre and post steps, none) and unknown actions over 2 (thorough 3) steps; up to five actions of eight similar names, any subset of four of them registered; up to four uses of two actions whose steps may read the same', outside='more steps in arbitrary arrangements')
P('I01', crate='core', quick=['sx_id_roundtrip', 'sx_id_parse', 'sx_id_parse6', 'sx_id_sizes'], thorough=['sx_id_roundtrip4'], reach={'sx_id_roundtrip': ['run', 'job', 'step'], 'sx_id_parse': ['read', 'refused']},
  bounds='every identifier with parts of up to 2 (thorough 4) printable characters without `/`; step numbers below 128 and 26 others up to the largest; parts of 300 characters and non-ASCII ones; every text of up to 6 characters over `/`, letters, digits, `-` and blank', outside='longer parts; parts that contain `/`')

SD = ['sx_sched_one', 'sx_sched_one5', 'sx_sched_two', 'sx_sched_history5', 'sx_sched_load', 'sx_sched_wide', 'remote:sx_remote_default', 'sx_sched_threads', 'sx_sched_threads2', 'sx_sched_together', 'sx_sched_together3']
SDB = 'any one step over up to 5 runners and any two steps of a job over 2 (thorough 3) runners, with symbolic operating system, architecture and support flags and any subset of the runners gone in between; every history of 5 (thorough 7) operations (steps of two jobs, completions, ends of jobs, runners leaving and returning) over 3 runners; 8 steps over 3 runners; steps of 14 jobs of two runs over 5 runners, one of which leaves in between; completions in any state, and reported twice; requests for hosts of up to 3 odd characters; whole runs of up to four workflows of two steps of any kind over three remote runners of different abilities and the default scheduler of the coordinator; two threads scheduling and completing with every interleaving at lock granularity and 2-3 preemptions; up to three steps scheduled at the same moment, with up to two running before of which one ends, in every such interleaving'
for i, r in (('D01', ['completed', 'refused']), ('D02', ['stayed', 'host stayed']), ('D03', ['least loaded'])):
    P(i, crate='sched', quick=SD, thorough=['sx_sched_two3', 'sx_sched_history7', 'sx_sched_wide2', 'remote:sx_remote_default2'], reach={'sx_sched_two': r}, bounds=SDB, outside='more runners and longer histories; runners whose capabilities change')

RO = 'what the transport below gRPC does (TCP, HTTP/2, TLS) is replaced by a network of the harness; '
P('R01', crate='remote', quick=['sx_remote_one', 'sx_remote_burst', 'sx_remote_many', 'sx_remote_faults', 'sx_remote_none', 'sx_remote_rounds'], thorough=['sx_remote_one2', 'sx_remote_many3', 'sx_remote_rounds4'], time=400,
  reach={'sx_remote_one': ['completed'], 'sx_remote_burst': ['completed'], 'sx_remote_many': ['completed'], 'sx_remote_faults': ['fine', 'broken'], 'sx_remote_none': ['completed'], 'sx_remote_rounds': ['completed']},
  bounds='one (thorough two) lines of symbolic text and kind and every outcome with symbolic or extreme exit codes; 70 lines at once; two (thorough three) steps over two runners with every assignment and order of completion; every combination of: call refused or lost, reply stream cut or ended after 0-3 messages, runner refuses, event delivery failing, server gone at one of five moments; two (thorough three) runs of three steps one after another over three runners, with equal or different identifiers, lines of 2000 characters', outside=RO + 'longer texts; more runners')
P('R02', crate='remote', quick=['sx_remote_cancel', 'sx_remote_timeout', 'sx_remote_signal_runs', 'sx_remote_signal_step', 'sx_remote_signal_again', 'sx_remote_signal_jobs', 'sx_remote_signal_ends'], thorough=['sx_remote_cancel80'],
  reach={'sx_remote_signal_again': ['lost', 'completed'], 'sx_remote_cancel': ['cancelled', 'not yet running'], 'sx_remote_timeout': ['in time', 'timed out'], 'sx_remote_signal_runs': ['cancelled', 'timed out', 'completed'], 'sx_remote_signal_step': ['cancelled', 'timed out'], 'sx_remote_signal_jobs': ['cancelled', 'timed out'], 'sx_remote_signal_ends': ['cancelled', 'timed out']},
  bounds='cancellation after each of the first 24 (thorough 80) scheduling steps of a run of two jobs on one or two runners, and when all is quiet; timeout of a step on one or two runners followed by cancellation of the next step of its job; two runs with the same job keys at once and one of them again on one runner; each step of a job of four cancelled or timed out; up to three runs with the same identifiers after each other with lost events; each of four jobs that run side by side, with another run beside them or none, cancelled or timed out after half a second or two hours, with or without some of the others done; two runs with odd, empty or prefix identifiers of which one has ended', outside=RO + 'a signal sent while the connection fails')
P('R03', crate='remote', quick=['sx_remote_version', 'sx_remote_register', 'sx_remote_six', 'sx_remote_metadata'],
  reach={'sx_remote_six': ['completed'], 'sx_remote_version': ['same', 'other'], 'sx_remote_register': ['completed'], 'sx_remote_metadata': ['completed']},
  bounds='every version differing from the coordinator\'s in one printable character (changed, or one more or missing anywhere) and typical others; every mixture over three addresses of: good, unreachable, failing, foreign version, malformed address, equal or similar identifier; six addresses of which none or one is bad; every support flag, limits of one digit and extreme ones, three identifiers', outside=RO + 'more than six addresses')
P('R04', crate='remote', quick=['sx_remote_events', 'sx_remote_lag', 'sx_remote_content', 'sx_remote_hiccup', 'sx_remote_grumpy', 'sx_remote_rounds', 'sx_remote_slow_events'], time=400, reach={'sx_remote_slow_events': ['completed'], 'sx_remote_grumpy': ['completed'], 'sx_remote_content': ['completed'], 'sx_remote_hiccup': ['completed'], 'sx_remote_rounds': ['completed'], 'sx_remote_events': ['completed'], 'sx_remote_lag': ['buffered', 'burst']},
  bounds='a run of two jobs (2 steps and 1 step) with every outcome and log lines, two runners of which one may be unreachable; bursts of 10, 29, 30, 31, 45 and 100 events; the full content of every report of a run of five richly configured steps with or without event and payload; each of the first 12 messages to one runner lost; a runner or a plugin of one runner whose every hook fails; each of the first 14 messages to either runner delayed by 3 or 80 moments', outside=RO + 'events dropped when more than the buffer holds arrive at once (only order and continuation are required then)')
P('R05', crate='remote', quick=['sx_msg_context', 'sx_msg_context2', 'sx_msg_command', 'sx_msg_reply', 'sx_msg_event', 'sx_msg_rich', 'sx_remote_content'],
  reach={e: ['completed'] for e in ['sx_msg_context', 'sx_msg_context2', 'sx_msg_command', 'sx_msg_reply', 'sx_msg_event', 'sx_msg_rich', 'sx_remote_content']},
  bounds='every message of the protocol with every presence pattern of its fields, texts that are empty, one symbolic ASCII character, two with quotes, backslashes or line ends, or not ASCII; numbers at the ends of their range or symbolic small; four richly filled steps, workflows of three jobs and results of nine steps; a run of five such steps from the coordinator to runners and hooks', outside='longer texts; numbers in environments that are not finite')
P('R06', crate='remote', quick=['sx_remote_before'], reach={'sx_remote_before': ['void', 'applied']},
  bounds='two runners with a plugin each, every combination of: plugin and runner leave, change or refuse the step (with three kinds of error text), one runner unreachable', outside=RO + 'more runners')

# ---- the runner
XO = 'the real shell, file system and container engine (child processes, files and pipes follow a model whose scripts are chosen symbolically); scheduling orders beyond those driven by the scripts and moments; '
P('X01', crate='runner', quick=['sx_run_output', 'sx_run_bytes', 'sx_run_pipe', 'sx_run_long', 'sx_run_many_lines'], thorough=['sx_run_output6'],
  reach={e: ['completed'] for e in ['sx_run_output', 'sx_run_bytes', 'sx_run_pipe', 'sx_run_long', 'sx_run_many_lines']},
  bounds='five (thorough six) events of the process in every order: one symbolic byte (text or line end) on either output, closing either output, a pause; four with bytes that are not text; five that do not fit the pipe; lines of 8 KiB to 70 kB cut at each place around a character of two bytes, with up to 120 lines on the other output; 150 lines on both outputs with either closed first', outside=XO + 'longer outputs')
P('X02', crate='runner', quick=['sx_run_exit', 'sx_run_fs_fail', 'sx_run_output', 'sx_run_many_lines', 'sx_run_crowd'],
  reach={'sx_run_exit': ['killed', 'not started', 'completed'], 'sx_run_fs_fail': ['failed', 'fine'], 'sx_run_output': ['completed']},
  bounds='every exit code 0-255, killed, or not startable, on the host or in a container; each of the first eight file operations of two steps failing', outside=XO + 'several file operations failing at once')
P('X03', crate='runner', quick=['sx_run_signal_host', 'sx_run_signal_docker', 'sx_run_cancel_job'],
  reach={'sx_run_signal_host': ['cancelled', 'ended itself', 'killed', 'completed'], 'sx_run_signal_docker': ['cancelled', 'ended itself', 'killed', 'completed'], 'sx_run_cancel_job': ['early', 'killed', 'completed']},
  bounds='a cancellation or a timeout before the step and after each of its first 12 (host) or 20 (container) scheduling steps, with a process that ends or does not, with and without suspended file operations and hooks; the cancellation of one of two jobs of a run after each of its first 32 (host) or 48 (container) scheduling steps', outside=XO + 'a container that survives being killed')
P('X04', crate='runner', quick=['sx_docker_command', 'sx_docker_again', 'sx_host_command', 'sx_run_where', 'sx_docker_full', 'sx_run_names', 'sx_run_crowd'],
  reach={'sx_docker_again': ['left behind', 'completed'], 'sx_docker_full': ['completed'], 'sx_run_names': ['completed'], 'sx_docker_command': ['completed'], 'sx_host_command': ['completed'], 'sx_run_where': ['host', 'container']},
  bounds='one printable symbolic character in each value, volume, image, security option, job key and command, 16 characters in a name of a variable, nine kinds of image names, volumes and options with `~`, plus values with line ends, empty or not ASCII; every one-character change of the name that selects the host; a container with four volumes, three security options and five variables at once; a step that runs twice with other commands, over a script left behind or not', outside=XO + 'images that start with a dash, names of variables with an equals sign')
P('X05', crate='runner', quick=['sx_run_paths', 'sx_run_paths_two', 'sx_run_repos'], thorough=['sx_run_paths4', 'sx_run_repos_all'], reach={'sx_run_repos': ['completed'], 'sx_run_paths_two': ['ran', 'completed'], 'sx_run_paths': ['ran', 'completed'], 'sx_run_paths4': ['ran', 'completed']},
  bounds='workflow id, job key, owner or name of the repository of up to two (thorough four) symbolic characters out of . / a % - or \\, and typical longer ones that leave a directory; every two of them odd at once, out of six; the two runs of X06', outside=XO + 'links inside the working directory')
P('X06', crate='runner', quick=['sx_run_apart', 'sx_run_share', 'sx_run_crowd', 'sx_run_names', 'sx_run_names_long', 'sx_run_ids', 'sx_run_repos'], thorough=['sx_run_crowd_free', 'sx_run_repos_all'], reach={'sx_run_names_long': ['completed'], 'sx_run_ids': ['completed'], 'sx_run_repos': ['completed'], 'sx_run_crowd': ['one before the other', 'completed'], 'sx_run_crowd_free': ['completed'], 'sx_run_names': ['completed'], 'sx_run_apart': ['same job', 'different jobs', 'another run'], 'sx_run_share': ['timed out', 'completed']},
  bounds='every two steps of one or of two runs whose job keys have up to two symbolic characters out of - / . a A % _; runs of three steps on the host or in containers that succeed, fail or time out; two runs at once with two jobs of two steps each, started together or one later; all pairs out of five run identifiers and ten job keys with dashes and dots; four identifiers of parts of 8 to 600 characters that read the same; every two out of eleven run identifiers that differ little; two runs with three identifiers and one (thorough three) job keys each, of no or one of three repositories, the first one again for another or for none', outside=XO + 'longer names')
P('X07', crate='runner', quick=['sx_run_plugins', 'sx_run_signal_host', 'sx_run_signal_docker'], reach={'sx_run_plugins': ['completed'], 'sx_run_signal_host': ['completed'], 'sx_run_signal_docker': ['completed']},
  bounds='three plugins that each leave, change or refuse a step, a step that runs or cannot be started; and the cancellations of X03', outside=XO + 'more plugins')
