#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/properties.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
A = 'crates/astro-run/src/'
L = []
def p(id, title, statement, over, text, why, files, mech):
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))

p('W01', 'A job starts once, and only after, every job it depends on has finished',
  'No step of a job starts before every job it depends on has reached a final state (skipped jobs count as finished). Once they all have, the job starts without waiting for any unrelated job.',
  'configurations schedules histories', 'for every acyclic dependency relation, every completion order and outcome of the running jobs, and every order in which ready tasks run',
  'tests run two or three jobs in one order with instantly finishing steps; whether a dependant starts too early, late or never depends on the relation and on the order of completions.',
  [A+'workflow/mod.rs', A+'workflow/job.rs'], [('waiting jobs are re-examined whenever a job finishes', A+'workflow/mod.rs run'), ('a job runs when its dependency list is satisfied', A+'workflow/mod.rs run')])
p('W02', 'A run executes every step once, and returns complete results when all is done',
  'Every job of a run gets exactly one result and no step is executed twice; the run returns exactly when its last job has finished. The returned result lists every job and every step in order, under its own identity and in a final state.',
  'configurations schedules histories', 'for every acyclic dependency relation, completion order, outcome and task order',
  'a duplicate start or a lost completion only shows when several jobs become ready or finish at particular moments; the tests use few jobs with one fixed timing.',
  [A+'workflow/mod.rs', A+'workflow/job.rs'], [('started-job bookkeeping', A+'workflow/mod.rs run'), ('result channel sized and drained by the run', A+'workflow/mod.rs run')])
p('W03', 'Steps run one by one under the failure rules, and give the job its verdict',
  'Steps of a job run one after another; a step is skipped if an earlier step was cancelled, if an earlier step failed and this step does not continue on error, or if its condition does not hold. A job is cancelled if a step was cancelled, otherwise failed if a step failed, otherwise succeeded; each step reports the outcome and exit code its runner gave, and a runner that refuses a step makes it failed.',
  'inputs histories configurations', 'for every combination of step outcomes, exit codes, continue-on-error flags, refusals and conditions',
  'the tests cover a handful of outcome combinations; the rule is a function of the whole history of the job.',
  [A+'workflow/job.rs', A+'execution_context/mod.rs', A+'runner.rs'], [('step loop with skip rules', A+'workflow/job.rs run'), ('outcome to state', A+'execution_context/mod.rs run')])
p('W04', 'The verdict of a run follows from the verdicts of its jobs',
  'A run succeeds exactly when none of its jobs failed or was cancelled; it is reported failed only if a job failed and cancelled only if a job was cancelled. Skipped jobs do not change the verdict, and the last state reported for a run is the state it returns.',
  'histories schedules', 'for every assignment of verdicts to jobs and every completion order',
  'tests have at most one failing job; the combination and order of verdicts decides.',
  [A+'workflow/mod.rs'], [('aggregation of job states', A+'workflow/mod.rs run')])
p('W05', 'Every observer sees the complete life cycle, once and in order',
  'Every observer sees each run, job and step announced, in progress and final exactly once and in this order, nested properly, with completion reports equal to the returned results; what is skipped is reported only by a skipped state. Times reported for a job lie within those of its run.',
  'schedules histories configurations', 'for every outcome, skip and refusal pattern, with several jobs interleaved and several observers',
  'the tests compare event sequences of single-job runs; interleavings of jobs, skips and refusals multiply.',
  [A+'execution_context/mod.rs', A+'workflow/mod.rs', A+'workflow/job.rs', A+'plugins/plugin_driver.rs'], [('hooks called around each level', A+'execution_context/mod.rs')])
p('W06', 'Log lines reach every observer exactly once, unchanged and in order',
  'Every line a step emits before its end reaches every observer exactly once, unchanged, in the order of emission and with its kind (output or error), under the identity of its own step. All lines arrive while the step is in progress, before its final state.',
  'schedules inputs histories', 'for every interleaving of emissions, ends and consumer runs over concurrent steps, every content, and bursts without the consumer running',
  'tests emit a few lines with the consumer always keeping up; loss, reordering or mixing appears only under particular interleavings.',
  [A+'stream.rs', A+'execution_context/mod.rs', A+'runner.rs'], [('shared stream buffer', A+'stream.rs'), ('forwarding loop', A+'execution_context/mod.rs run')])
p('W07', 'A step is told to time out exactly when its timeout has passed since its start',
  'A timeout is signalled to a step once its configured timeout has passed since it started, no earlier, and whatever the step prints meanwhile. It concerns that step only, is not a cancellation, and a step that ends by it is failed.',
  'inputs schedules histories', 'for every timeout and every timing of the step\'s output',
  'tests use one short sleep and no output; whether output postpones the timeout or a boundary is off depends on timing the tests do not vary.',
  [A+'execution_context/mod.rs', A+'signals/signal.rs', A+'stream.rs'], [('timer in the step loop', A+'execution_context/mod.rs run'), ('timeout signal', A+'signals/signal.rs')])
p('W08', 'Cancelling a job reaches its running and all later steps, and nothing else',
  'Cancelling a running job succeeds once, tells the step that is running and every step of that job that starts later to cancel, and leaves every other job and run alone; cancelling a job that is not running is an error. The run still completes.',
  'schedules histories', 'for every moment of cancellation in the life of a job, concurrent jobs and runs with similar names, and every outcome of the steps',
  'tests cancel one job in the middle of one step; the window between steps and the start-up window are never hit.',
  [A+'astro_run.rs', A+'signals/mod.rs', A+'signals/signal.rs', A+'execution_context/mod.rs', A+'workflow/job.rs'], [('job signal table', A+'signals/mod.rs'), ('step signal fed from the job signal', A+'execution_context/mod.rs run')])

EXEC = os.path.join(V, 'tools', 'more_properties.py')
if os.path.exists(EXEC): exec(open(EXEC).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in L:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
NA = globals().get('NOT_APPLICABLE', {})
checks = []
for x in L:
    i = x['id']
    if i not in PROPS: continue
    P = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
        technique='symbolic execution of the compiled repository code (rustc LLVM bitcode) with an SMT solver (Z3) deciding every branch and assertion over symbolic inputs and schedules; counterexamples replayed natively',
        level='other', level_note='Bounded: holds for every value and schedule within: %s. Outside: %s. Trusts rustc\'s lowering, the engine (/verif/engine), Z3 and the stand-ins for tokio, parking_lot, octocrate%s in /verif/stubs.' % (P['bounds'], P['outside'], P.get('trusts', ''))))
na = [dict(property=x['id'], reason=NA.get(x['id'], 'the check for this property is not built yet')) for x in L if x['id'] not in PROPS]
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
