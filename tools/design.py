#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the properties, props.py, HOW below, and tools/design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
HOW = {
'W01': 'Real: YAML parsing, `Workflow::run`, `Job::run`, `ExecutionContext::run`, stream, signals, plugin driver. The harness is the runner; it holds every started step open and a symbolic choice decides which running step ends next and how. At each start of a step it compares with the set of jobs finished so far (oracle: the dependency relation as the harness chose it); when the world is quiet, a job whose dependencies are all done must be running.',
'W02': 'Same executions as W01. Counted per step: starts; per job: results in the returned map, order and identity of the steps, final states; the run must have returned exactly when the last job ended (a deadlock is a violation).',
'W03': 'One job; outcome and 32-bit exit code of every step, the continue-on-error flags, refusals by the runner and the truth of every condition are symbolic. Oracle: the rule of the statement, written as a fold over the steps, compared with what ran, the step results and the job result. Exit codes stay symbolic to the end.',
'W04': 'Two or three jobs with symbolic outcomes, skips and order of completion; oracle: a function of the set of job verdicts. The last workflow state reported to observers must equal the one returned.',
'W05': 'A two-job run with the runner and two plugins recording everything; a checker replays the record of each observer against the grammar of the statement (announced, in progress, final; nesting; completion equal to result; skipped only by state) and compares the times.',
'W06': 'Two concurrent steps whose senders act in a symbolic order interleaved with the consumer; the record of each observer must be, per step, the list of lines sent before the end, and lie between in-progress and final. A burst of 70 lines plus the end before the consumer runs.',
'W07': 'Virtual clock: `tokio::time` is a model whose deadlines are terms; timeout and gaps are symbolic seconds and Z3 decides the comparisons. Signalled iff start + timeout has passed, at any line the step prints.',
'W08': 'A run is driven one scheduling step at a time; `cancel_job` is called at a symbolic moment through either handle. Checked: result of the call, the signal seen by each step of the job and of other jobs and runs, that the run returns.',
'S01': 'Histories: every sequence of operations of two senders and the consumer, compared with a reference list. Threads: senders and consumer are engine threads, preempted at every lock operation; checked that a parked consumer is woken, nothing is lost or repeated, first end wins.',
'S02': 'As S01 for `AstroRunSignal`: all histories against a three-state reference, and two threads with preemption at lock operations.',
'P01': 'Runs with a symbolic set of failing hooks (or a single failing call, its number symbolic) are compared with the run without failures: same result, same records at all other observers.',
'P02': 'Each plugin and the runner symbolically change, leave or refuse the step; oracle: left fold. The `Command` that reaches the runner is compared field by field with symbolic content, and a changed timeout must be the one that fires.',
'P03': 'Symbolic owner, name, ref, sha, numbers and payload; what each hook and each `Context` holds is compared byte by byte.',
'M01': 'The real `Condition::is_match` and the real `glob` crate on symbolic patterns and values; oracle: a dynamic-programming matcher for `*` and `?` in the harness; for lists the any/all rule.',
'M02': 'GitHub is a stand-in (octocrate interface) that answers or fails each request symbolically; the run/job/step must be skipped iff the oracle can decide the condition and it is false.',
'M03': 'Same executions: the record of requests (which endpoint, repository, commit or pull request, with which token) is compared with what the event and credentials demand, and counted.',
'C01': 'The harness prints a configuration as YAML for every relation on up to 4 jobs and defect; oracle: acyclicity by its own closure computation; what is accepted is then run to its end. Timeouts: symbolic two-character texts against an independent reading of the humantime syntax.',
'C02': 'Presence pattern and content of every field symbolic; the built `Workflow` is compared field by field with the choices.',
'C03': 'Identifiers of the built workflow, jobs and steps compared with keys and positions, also after expansion of actions and for generated identifiers.',
'C04': 'Arrangement and shape of actions symbolic, with registered and plugin-resolved ones; oracle: concatenation pre, main, reversed post.',
'I01': 'Round trip of symbolic identifiers and reading of every short text, against a splitter in the harness.',
'D01': 'The real `DefaultScheduler` on symbolic runner descriptions and container names; oracle: ability predicate of the statement, for the runner chosen and for refusals.',
'D02': 'Histories of schedule/complete/end operations; reference: last container runner per job, compared as long as that runner is offered.',
'D03': 'Reference count of unfinished steps per runner kept by the harness; the first container step of a job must go to a minimum. Two threads schedule and complete at once: afterwards the counts (observed through later decisions) must fit.',
'R01': 'Coordinator and servers are the real client and server code including the generated gRPC service, JSON codec and tonic\'s encoder and decoder; only the connection below is a harness network (a queue of frames per call) with symbolic faults. Lines and outcome at the coordinator\'s observers are compared with what the remote runner emitted; with a fault the step must end failed with a message.',
'R02': 'The same world stepped one task at a time; cancellation after the n-th step with n symbolic; at quiescence the signal of each remote step is compared with the cancellation, and only that step.',
'R03': 'Servers with symbolic versions and metadata behind a symbolic mixture of addresses; the list the scheduler is offered is compared with the good ones.',
'R04': 'Events of the coordinator recorded locally and by every remote runner, remote plugin and the scheduler; compared as sequences. Bursts around the size of the broadcast buffer.',
'R05': 'Every message type with symbolic content passes through the real serde code, JSON text and frame coding in both directions and is compared field by field.',
'R06': 'Two servers, each with a plugin and a runner that change, leave or refuse the step; oracle: fold in the order in which they were asked, or the original step if one failed.',
'X01': 'The process is a script of symbolic events on two pipes; the real reader (`Command::run`, tokio\'s `BufReader`/`split` over the model\'s pipes) is compared with a line splitter in the harness.',
'X02': 'Symbolic wait status, failure to start, and failure of the n-th file operation; outcome compared with the statement, and the step must end.',
'X03': 'The world is stepped; the signal comes after the n-th step, n symbolic. Checked: outcome, process killed (or `docker kill` with exactly this container name), own files removed, nothing started after the signal, nobody else killed.',
'X04': 'What reaches `sh -c` is parsed by a POSIX shell word-splitter in the harness (quotes, backslash, `$`, backquote) into an argument list and compared with the configured values, one character of each symbolic. The script file must be closed and complete when the process starts.',
'X05': 'All paths of file operations, working directories and mounts are recorded, normalised and must be below the working directory; removals at the end only below the directory of the run.',
'X06': 'Two symbolic step identities: same directory iff same run and job; scripts and container names always different. File life cycle over a three-step run.',
'X07': 'Three plugins, symbolic behaviour; order, arguments and count of the calls, and the command executed.',
}
PL = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
o = open(os.path.join(V, 'tools', 'design_head.md')).read()
o += '\n## The properties\n\nFor each: how it is decided, the bounds, and what is outside them. "Quick" entries run on every change; "thorough" adds the entries named after "thorough". Every entry is executed on all paths; a check that could not finish exits with an error instead of success.\n'
for p in PL:
    q = PROPS[p['id']]
    o += '\n### %s %s\n\n%s\n\n*How*: %s\n\n*Bounds*: %s.\n\n*Outside*: %s.\n\n*Entries* (crate `%s`): %s%s.\n' % (p['id'], p['title'], p['statement'], HOW[p['id']], q['bounds'], q['outside'], q['crate'], ', '.join('`%s`' % e for e in q['quick']), ('; thorough also ' + ', '.join('`%s`' % e for e in q['thorough'])) if q.get('thorough') else '')
o += '\n' + open(os.path.join(V, 'tools', 'design_tail.md')).read()
import re
fx = ''.join('| %s | %s | %s |\n' % re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups() for l in open(os.path.join(V, 'known-findings.txt')) if l.startswith('fixed:'))
C = dict(l.split(' ', 1) for l in open(os.path.join(V, 'tools', 'caught.txt')).read().splitlines() if l)
sd = '| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n'
for s, D in sorted((s, D) for D in ('seeded', 'planted-more') if os.path.isdir(os.path.join(V, D)) for s in os.listdir(os.path.join(V, D))):
    m = json.load(open(os.path.join(V, D, s, 'meta.json')))
    sd += '| %s | %s | %s | %s | %s |\n' % (s, m['property'], m['what_it_breaks'], m['needs'], C.get(s, '-'))
o = o.replace('@FIXES@\n', fx).replace('@SEEDS@\n', sd)
open(os.path.join(V, 'DESIGN.md'), 'w').write(o)
