# executed by properties.py
W = A + 'workflow/'
X = A + 'execution_context/'
p('S01', 'A stream delivers every line once, in order, and ends with the first result',
  'A step\'s stream yields exactly the lines sent to it before its end, once, unchanged, in order and with their kind; then it ends with the first result it was given, which never changes. A consumer waiting for it is woken by every line and by the end.',
  'histories schedules inputs', 'for every sequence and every interleaving of sends, ends and polls by several holders of the stream, on several threads',
  'the tests send a few lines in a fixed order; lost wake-ups, a result overwritten by a second end and lines lost around the end need a particular interleaving.',
  [A+'stream.rs'], [('shared buffer, result and waker', A+'stream.rs poll_next'), ('end', A+'stream.rs end')])
p('S02', 'A signal is accepted once, received once, and wakes whoever waits for it',
  'Of all cancel and timeout calls on a signal exactly the first is accepted, and its kind is what the receiver gets and what the signal reports from then on. A receiver that waits is woken, and the signal is received at most once.',
  'histories schedules', 'for every sequence and interleaving of cancellations, timeouts, queries and waits',
  'tests send one signal and then wait for it; the race of cancellation with timeout and the wake-up of a receiver that already waits depend on the interleaving.',
  [A+'signals/signal.rs'], [('state and waker', A+'signals/signal.rs')])
p('P01', 'A failing plugin or hook changes nothing for the run or any other observer',
  'If any hook of a plugin or of the runner returns an error, at any of its calls, the run completes with the same result and every other observer is told exactly the same.',
  'histories configurations inputs', 'for every subset of hooks that fail, every single failing call, and every outcome of the steps',
  'the tests let one or two hooks fail in one run; each hook has its own error path.',
  [A+'plugins/plugin_driver.rs', A+'runner.rs', X+'mod.rs'], [('errors of hooks are logged and dropped', A+'plugins/plugin_driver.rs')])
p('P02', 'The runner executes the step as changed by the plugins in order, nothing else',
  'Before a step is run, each plugin in order of registration and then the runner may replace it; a failing hook changes nothing and keeps earlier changes. Exactly the resulting step, in all its fields and with its timeout, is announced and executed.',
  'configurations inputs histories', 'for every chain of changing, passive and failing plugins and every value of every field of the step',
  'tests use one plugin changing one field; order, failure in the middle and dropped fields show only in combinations.',
  [A+'plugins/plugin_driver.rs', X+'mod.rs'], [('chain of before-run hooks', A+'plugins/plugin_driver.rs on_before_run_step'), ('the changed step becomes the command', X+'mod.rs run')])
p('P03', 'The trigger event and payload of a run reach every hook and step unchanged',
  'Every run, job and step hook of every observer, and the runner with every step, get exactly the trigger event and the payload given to the run, or none if it was given none.',
  'inputs configurations', 'for every presence and content of event and payload', 'tests pass one event to one hook.',
  [X+'mod.rs', X+'context_payload.rs', X+'builder.rs', A+'types/trigger_event.rs'], [('event and payload copied into each hook event', X+'mod.rs')])
p('M01', 'A condition holds exactly when the event fits its kind, branches and paths',
  'A condition holds for an event exactly if it lists the kind of event, the branch matches one of its branch patterns (if any are given) and one of the changed files matches one of its path patterns (if any are given), by the usual meaning of `*` and `?`.',
  'inputs configurations', 'for every event, pattern and value', 'the tests sample some patterns; the meaning is a function of all of the pattern and all of the value.',
  [A+'types/condition.rs'], [('matching', A+'types/condition.rs is_match')])
p('M02', 'What a condition excludes is skipped; what cannot be decided runs',
  'A run, job or step is skipped exactly when its condition is known not to hold; if there is no event, no credentials, or a request to GitHub fails, it runs. Each condition is decided on its own: a failure for one does not decide another.',
  'configurations histories', 'for every event, kind of credentials, failing request and level of the condition, and several conditions in one run',
  'the repository cannot talk to GitHub in its tests; the failure paths of each request are never run.',
  [X+'condition_matcher.rs', X+'mod.rs', A+'workflow/job.rs', A+'workflow/mod.rs'], [('decision', X+'condition_matcher.rs is_match')])
p('M03', 'Changed files are fetched for the right commit, with the right credentials, once',
  'The changed files come from the commit of a push or the files of a pull request, of the repository of the run\'s own event, with the personal token or the token of the app\'s installation for it. They are fetched once per run, not at all if they cannot matter, and runs do not share them.',
  'configurations histories', 'for every event, kind of credentials, number of conditions and two runs of one instance',
  'tests cannot talk to GitHub; sharing between runs needs two runs with different events.',
  [X+'condition_matcher.rs'], [('cached payload', X+'condition_matcher.rs')])
p('C01', 'A configuration is accepted exactly if it can be run to its end',
  'A workflow is built only if it has jobs, each job has steps, each dependency names another job of the workflow, there is no cycle and each timeout is well-formed; all such configurations are accepted, and an accepted one completes when run.',
  'configurations inputs', 'for every dependency relation, including unknown, repeated, self and cyclic dependencies, and every timeout text',
  'tests have a few valid and invalid samples; a cycle that slips through makes a run wait for ever.',
  [W+'parser.rs', A+'user_config.rs'], [('validation', A+'user_config.rs'), ('building', W+'parser.rs')])
p('C02', 'A built workflow says exactly what its configuration says',
  'Every configured field of run, job, step and container (names, conditions, commands, environments, secrets, dependencies, timeouts, flags, directories, volumes) appears unchanged at its own place, steps inherit the container of their job unless they have one, and what is not configured has its default.',
  'configurations inputs', 'for every presence pattern and every value of the fields',
  'tests parse a few documents; a field that goes to the wrong step or a default that wins shows only in particular combinations.',
  [W+'parser.rs', A+'user_config.rs', A+'types/envs.rs'], [('conversion', W+'parser.rs')])
p('C03', 'Jobs and steps are identified by their workflow, key and position, uniquely',
  'A workflow has the identifier it was given, or a fresh one different from all others; each of its jobs and steps carries it with the job\'s key, and steps are numbered from zero in the order they run, also when actions were expanded.',
  'configurations inputs', 'for every arrangement of jobs, steps and actions, with and without a given identifier',
  'identifiers are how logs, results and cancellation are addressed; tests check one id in one document.',
  [W+'parser.rs', A+'types/id.rs'], [('ids built while parsing', W+'parser.rs')])
p('C04', 'Actions expand to their pre, main and post steps in the right order',
  'Each action of a job is replaced by its main step in place; all pre steps run first in order and all post steps last in reverse order. A registered action comes before one resolved by a plugin, earlier plugins before later ones; an unknown action, or one that refuses, makes the build fail.',
  'configurations inputs', 'for every arrangement of plain steps and actions of each shape',
  'tests use one action; the order of pre and post steps needs several.',
  [W+'parser.rs', A+'actions.rs', A+'plugins/plugin_driver.rs'], [('expansion', W+'parser.rs'), ('lookup', A+'actions.rs')])
p('I01', 'Identifiers survive their text form, and malformed text is refused',
  'An identifier of a run, job or step, turned into text and read back, is the same identifier; text is read exactly if it has one, two or three parts separated by `/` with a number as the third, and then names exactly these parts.',
  'inputs', 'for every identifier with parts free of `/` and every text', 'tests round-trip one sample; identifiers travel as text between coordinator and runners.',
  [A+'types/id.rs'], [('Display and TryFrom', A+'types/id.rs')])
SC = 'crates/scheduler/src/default.rs'
p('D01', 'A step is given only to a runner able to run it, and refused only if none is',
  'A host step goes only to a connected runner that supports host steps and has the requested operating system (and architecture, if given); any other step only to one that supports containers. A step is refused only if no connected runner is able to run it.',
  'configurations histories inputs', 'for every set of runners, every step and every history of earlier steps',
  'tests schedule a few steps over fixed runners; capability is checked on several paths, one of them only after earlier steps of the job.',
  [SC], [('capability filters', SC + ' pick_host_runner, pick_docker_runner, schedule')])
p('D02', 'The steps of a job stay on the runner that ran its previous container step',
  'While that runner is connected, all later container steps of the job go to it, and host steps too if it can run them. The end of the job ends this; other jobs are not affected.',
  'histories configurations', 'for every history of steps of several jobs, completions and runners leaving and returning',
  'tests follow one job; interference of jobs and of host steps needs mixed histories.',
  [SC], [('last used runner per job', SC + ' schedule, on_job_completed')])
p('D03', 'A new job starts on a runner with the fewest unfinished steps',
  'The first container step of a job goes to a runner that has the fewest unfinished steps among those able to run it. Every step counts on its runner from being scheduled until it is completed, exactly once.',
  'histories schedules', 'for every history of scheduling and completion, also from several threads',
  'a count that drifts (double release, wrong runner, lost update) shows only after particular histories.',
  [SC], [('run counts per runner', SC + ' schedule, on_step_completed')])
R = 'crates/remote-runner/src/'
p('R01', 'A step on a remote runner behaves as on a local one, or fails with a reason',
  'A step given to a remote runner is run once by the runner the scheduler chose; its lines arrive once, unchanged, in order and under that step, and its outcome is the runner\'s. If the runner cannot be reached, refuses it or is lost, the step ends failed with a message.',
  'histories fault_sequences schedules inputs', 'for every outcome, text, interleaving of steps and runners, and every failure of the connection at every moment',
  'the tests run against a healthy server; a step whose connection breaks must not hang its run, lose lines silently or report success.',
  [R+'client.rs', R+'runner_server.rs', 'crates/protocol/src/lib.rs'], [('call and reply stream on the coordinator', R+'client.rs run'), ('execution on the runner', R+'runner_server.rs run')])
p('R02', 'Cancellations and timeouts reach the remote step they are meant for, only that',
  'When a job is cancelled or a step times out while it runs on a remote runner, the signal of exactly that step on that runner is raised, with its kind, whenever it happens; earlier and other steps do not prevent it or receive it.',
  'schedules histories configurations', 'for every moment of the cancellation, every assignment of steps to runners and later steps of the same job',
  'tests cancel one step after a fixed delay; the table of running steps is changed from several tasks.',
  [R+'client.rs', R+'runner_server.rs'], [('forwarding of signals', R+'client.rs run'), ('signals of running steps', R+'runner_server.rs send_event')])
p('R03', 'Every reachable runner of the same version is used, as it describes itself',
  'A coordinator offers to its scheduler each runner it was given that can be reached and has exactly the same version, once per identifier and with the description it was configured with; failing or foreign runners do not affect the others.',
  'configurations fault_sequences inputs', 'for every version text, description, and mixture of good, failing, foreign and duplicate runners',
  'tests connect to one matching runner; that a foreign one is refused is checked for one sample.',
  [R+'client.rs', R+'runner_server.rs'], [('registration', R+'client.rs start'), ('description', R+'runner_server.rs get_runner_metadata')])
p('R04', 'Remote runners and the scheduler are told what happens to every run',
  'Every event, state and log line of a run is reported to each connected runner and its plugins once and in order, and every start and end of run, job and step to the scheduler. A runner that cannot be told does not keep others from it, and forwarding continues after a burst that exceeds its buffer.',
  'histories fault_sequences configurations', 'for every outcome of the run, each runner failing, and bursts around the size of the buffer',
  'tests look for some events in some order; the end of forwarding after a burst shows only under load.',
  [R+'client.rs', R+'runner_server.rs'], [('broadcast of events', R+'client.rs'), ('dispatch to plugins', R+'runner_server.rs send_event')])
p('R05', 'Messages between coordinator and runners arrive as they were sent',
  'Every step, command, event, log line, result and signal that crosses the connection has the same content on the other side in every field, including trigger events and custom payloads.',
  'inputs configurations', 'for every message and every value of its fields', 'tests send typical messages; a field skipped or defaulted by the encoding is noticed only if a test sets it.',
  ['crates/protocol/src/lib.rs', 'crates/protocol/src/common/json_codec.rs', A+'types/', X+'context_payload.rs'], [('encoding', 'crates/protocol/src/common/json_codec.rs'), ('messages', 'crates/protocol/src/lib.rs')])
p('R06', 'Remote runners may change a step before it runs, and failing ones do not',
  'A step is run with the changes made by the plugins and runners of all connected runners, everything else unchanged. If one of the connected runners cannot be asked, or its runner refuses, the step is run as it was before any of them was asked.',
  'configurations fault_sequences', 'for every combination of changing, passive and failing plugins and runners, reachable or not',
  'tests change a step on one runner.', [R+'client.rs', R+'runner_server.rs'], [('hook on the coordinator', R+'client.rs on_before_run_step'), ('hook on the runner', R+'runner_server.rs call_before_run_step_hook')])
U = 'crates/runner/src/'
p('X01', 'Every line a step prints arrives as a log line',
  'Each line a process writes to its output or error output arrives once, in order, unchanged and marked with where it was written, including an unfinished last line, whatever bytes it contains and whichever output ends first.',
  'inputs schedules', 'for every sequence of writes, closings and pauses of both outputs and their bytes',
  'tests print one line; the two outputs are read concurrently and end in either order.',
  [U+'command.rs'], [('reading of outputs', U+'command.rs run')])
p('X02', 'A step succeeds exactly if its process exits with code 0',
  'The outcome of a step is the exit of its process: success for 0, failure with exactly that code for another, and failure if it was killed, could not be started, or its files could not be prepared. A step always ends.',
  'inputs fault_sequences', 'for every exit code and every single failure of a file operation or of starting the process',
  'tests run commands that succeed or fail with one code.',
  [U+'command.rs', U+'executors/host.rs', U+'executors/docker.rs', U+'utils.rs'], [('exit', U+'command.rs run'), ('preparation', U+'executors/docker.rs execute')])
p('X03', 'A cancelled or timed-out step is stopped, at whatever moment',
  'A step that is cancelled or times out ends as such, its process or container is stopped and its own files are removed; if it had not begun it never runs. A step that is left alone is not disturbed, and only its own container is killed.',
  'schedules histories', 'for every moment of the signal, before, during and at the end of the step, on the host and in a container',
  'tests cancel while a sleep runs; signals at the start or end need exact moments.',
  [U+'executors/host.rs', U+'executors/docker.rs', U+'command.rs', U+'astro_runner.rs'], [('container', U+'executors/docker.rs execute'), ('host', U+'executors/host.rs execute'), ('process', U+'command.rs run')])
p('X04', 'A step runs where and as it was configured',
  'A step with an image runs in a container of that image, one for the host on the host, with exactly its command, environment, volumes and security options; nothing in its configuration is interpreted by the runner\'s shell. Its script is complete before it is started.',
  'inputs configurations schedules', 'for every character in every part of the configuration',
  'tests use plain words; a quote, dollar sign or space in a value is one unusual input away.',
  [U+'docker.rs', U+'executors/docker.rs', U+'executors/host.rs', U+'utils.rs', U+'astro_runner.rs'], [('command line', U+'docker.rs generate_docker_command'), ('options', U+'executors/docker.rs into_command'), ('script', U+'utils.rs create_executable_file'), ('choice', U+'astro_runner.rs create_executor')])
p('X05', 'A runner touches only files inside its working directory',
  'Whatever the names of runs, jobs and repositories are, the runner creates, mounts and removes only paths below its working directory, and at the end of a run removes only what belongs to that run.',
  'inputs', 'for every workflow id, job key and repository name',
  'a name with separators or dots reaches the recursive removal of directories; tests use plain names.',
  [U+'metadata.rs', U+'astro_runner.rs', U+'executors/docker.rs', U+'executors/host.rs'], [('paths', U+'metadata.rs build'), ('clean-up', U+'astro_runner.rs cleanup_workflow_working_directory')])
p('X06', 'Steps of a job share a directory, others are kept apart',
  'The steps of a job work in the same directory, which persists until its run is over, however steps end; it is then removed. Different jobs and runs never share directories, scripts or container names, and the end of one run does not touch another.',
  'inputs histories', 'for every pair of runs, jobs and steps and every mixture of step outcomes',
  'tests run one job with one step; names are built by joining parts.',
  [U+'metadata.rs', U+'astro_runner.rs', U+'executors/host.rs', U+'executors/docker.rs'], [('paths and names', U+'metadata.rs build'), ('clean-up', U+'astro_runner.rs on_workflow_completed')])
p('X07', 'Plugins of the runner see every step before and after it runs',
  'The plugins of a runner are called in order before each step, each with the changes of those before it, and the step runs as they leave it; after the step, however it ends, each is called once. A failing plugin affects neither the step nor the others.',
  'configurations fault_sequences', 'for every combination of passive, changing and failing plugins and every end of the step',
  'tests use one plugin and a step that succeeds.',
  [U+'plugin.rs', U+'astro_runner.rs'], [('dispatch', U+'plugin.rs'), ('calls', U+'astro_runner.rs run')])
NOT_APPLICABLE = {}
