#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python so that it stays readable)."""
import json, os
A = "crates/astro-run/src/"
R = "crates/remote-runner/src/"
H = "crates/runner/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [dict(name=m, where=files[0]) for m in mech]}
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))

prop("C01", "Jobs start once, and only after all jobs they depend on have completed",
 "In every run of a workflow each job starts exactly once. A job starts only after every job named in its depends-on list has completed (whatever its outcome), and a job whose dependencies have completed is started without waiting for unrelated jobs.",
 ["configurations", "schedules"], "every dependency graph up to the bound, every order in which running jobs finish and every interleaving of the job tasks with the workflow loop",
 "The tests run two or three fixed graphs with instantly finishing steps; a job finishing while another dependent is still running (the case that re-evaluates the waiting list) never happens.",
 [A+"workflow/mod.rs"], ["Workflow::run waiting_jobs scan after each job result", "Workflow::run_job"])

prop("C02", "Every run of an accepted workflow terminates with a result for every job",
 "When every started step eventually ends or is refused by the runner, running any workflow configuration the parser accepts terminates. The returned workflow result contains exactly one terminal result per job, with one terminal step result per step of each job that was not skipped as a whole.",
 ["configurations", "schedules", "fault_sequences"], "every accepted dependency graph up to the bound, every mix of step outcomes including refusal by the runner, hooks that fail, every completion order",
 "A hang only appears for particular graphs (cycles beside a free job), more jobs than the channel holds, or particular overlaps; tests use a handful of graphs.",
 [A+"workflow/mod.rs", A+"workflow/job.rs", A+"user_config.rs"], ["Workflow::run receive loop", "UserWorkflow::validate"])

prop("C03", "A configuration is accepted exactly when its jobs form a runnable graph",
 "Parsing a workflow configuration succeeds exactly when it has at least one job, every job has at least one step, every dependency names a defined job, and the dependencies contain no cycle (including a job depending on itself). Otherwise it is rejected with a configuration error, never with a panic or a workflow that cannot finish.",
 ["configurations", "inputs"], "every job graph over up to four job names (plus an undefined one), every choice of empty/non-empty jobs and steps",
 "The tests try one missing dependency and one all-dependent pair.",
 [A+"user_config.rs"], ["UserWorkflow::validate"])

prop("C04", "Steps run one at a time in order, and skipping follows earlier outcomes exactly",
 "The steps of a job run one after another in declared order. After a step has failed, later steps are skipped unless they are marked continue-on-error; after a step was cancelled all later steps are skipped; a skipped step never reaches the runner. The job is Cancelled if its last non-successful executed step was cancelled, Failed if a step failed otherwise, and Succeeded when none did.",
 ["programs", "inputs", "schedules"], "every sequence of steps up to the bound, each with every continue-on-error flag and every outcome (succeeded, failed with any code, cancelled, refused)",
 "The tests check single failing steps; combinations of continue-on-error, cancellation and failure orderings are not exercised.",
 [A+"workflow/job.rs", A+"execution_context/mod.rs"], ["Job::run", "ExecutionContext::run"])

prop("C05", "A workflow's final state reflects its jobs' results",
 "The final state of a workflow that was run is Succeeded exactly when no job failed or was cancelled; it is Failed only if some job failed and Cancelled only if some job was cancelled. Skipped jobs do not make a workflow fail; a workflow with a failed or cancelled step is never Succeeded.",
 ["configurations", "schedules"], "every combination of job outcomes for up to four jobs and every completion order",
 "Tests look at single-job failures only; aggregation depends on the order in which results arrive.",
 [A+"workflow/mod.rs"], ["Workflow::run result aggregation"])

prop("C06", "Lifecycle notifications are well ordered, complete, and agree with the results",
 "For every run, plugins and the runner see for each workflow, job and step: its start notification, then state changes in order (step: Queued, then InProgress when the runner accepted it, then one terminal state), then one completion notification carrying the same result that is returned. A child's notifications lie between its parent's start and completion; something skipped produces a single Skipped state change and nothing else; nothing is reported after its completion. The steps of a job are reported one after the other in their order.",
 ["programs", "schedules", "fault_sequences"], "every workflow up to the bound, all step outcomes, all interleavings of jobs",
 "Tests assert the presence of a few events in single-job runs, never the order across concurrent jobs or agreement with the returned result.",
 [A+"workflow/mod.rs", A+"workflow/job.rs", A+"execution_context/mod.rs"], ["call_on_* methods", "WorkflowStateEvent emission"])

prop("C07", "Every plugin sees every notification in order, and a failing one harms nobody",
 "Every registered plugin receives every notification, in registration order, and before the runner does. A plugin or runner hook that returns an error changes neither what the others receive nor the results of the run. Before-run-step hooks are chained: each receives the previous one's output, a failing one is passed over, and the command that runs is the output of the chain.",
 ["programs", "fault_sequences"], "every assignment of failing/succeeding behaviour to hooks of up to three plugins and the runner",
 "Tests use at most one failing plugin and do not check what the others or the run observe.",
 [A+"plugins/plugin_driver.rs", A+"execution_context/mod.rs", A+"plugins/plugin.rs"], ["PluginDriver::on_*", "ExecutionContext::call_on_before_run_step"])

prop("C08", "Every log line is delivered exactly once, in order, before the result",
 "A consumer of a step's output stream receives every line sent before the stream was ended, exactly once, with its type, in the order sent, and then the end of the stream with the result. A consumer that waits is always woken when a line or the end arrives. Through a workflow run, each plugin sees exactly those lines.",
 ["schedules", "histories"], "every interleaving at lock granularity of one or two producers and a consumer, every sequence of sends up to the bound, consumers that poll with changing wakers",
 "Lost wakeups and duplicated or dropped lines need particular interleavings of poll and send.",
 [A+"stream.rs", A+"execution_context/mod.rs"], ["StreamReceiver::poll_next", "StreamSender::log/error/end", "SharedState.waker"])

prop("C09", "The first result given to a step's stream is final",
 "Once a step's output stream has been ended with a result, that result never changes, whichever parties later try to end it. Everybody who asks sees the same result, and the step is reported with it.",
 ["schedules", "histories"], "two or three concurrent parties ending the same stream with different results, with a reader sampling the result, all interleavings at lock granularity",
 "The existing test ends a stream twice sequentially; two concurrent parties (cancellation versus normal end) race.",
 [A+"stream.rs"], ["StreamSender::end", "StreamReceiver::result"])

prop("C10", "A signal is set at most once and delivered once to whoever waits for it",
 "Of any number of concurrent cancel and timeout requests on one signal exactly one succeeds and the others report an error; the signal's value never changes afterwards and exactly one of cancelled/timed-out is reported. A waiter is always woken, and receives exactly the value that was set, exactly once.",
 ["schedules", "histories"], "all interleavings at lock granularity of up to three setters and one waiter, every sequence of operations up to the bound",
 "The tests signal sequentially from one task.",
 [A+"signals/signal.rs"], ["AstroRunSignal::cancel/timeout", "Receiver::poll"])

prop("C11", "Cancelling a running job is honoured, and cancels only that job",
 "A cancel request for a job is accepted exactly while that job is running (from its start notification until its completion notification; between its final state and its completion notification either is allowed) and not already signalled, and is refused otherwise. After it is accepted, the running step's runner sees the cancel (unless that step was already signalled or has ended), and no later step of the job runs without having been told; other jobs are not affected.",
 ["schedules", "histories"], "cancel requests at every point of runs with up to two jobs and three steps, in every interleaving with step completion, step timeout and logs",
 "Tests cancel one long running single-step job from a timer.",
 [A+"signals/mod.rs", A+"execution_context/mod.rs", A+"astro_run.rs"], ["SignalManager::cancel_job", "ExecutionContext::run select loop", "call_on_run_job / call_on_job_completed registration"])

prop("C12", "A step that exceeds its timeout is told so, on time and only then",
 "A step that is still running when its configured timeout has elapsed since it started receives the timeout signal at that moment, however often it has logged in the meantime (a log line that plugins are just being told of may be finished first, but not all those waiting). A step that ends earlier, or was cancelled first, never receives a timeout signal; every step is measured against its own timeout.",
 ["schedules", "inputs"], "every sequence of log/advance/cancel/end events up to the bound under a virtual clock, for every small timeout",
 "The tests use one silent sleeping step; activity during the step is never combined with the timeout.",
 [A+"execution_context/mod.rs"], ["ExecutionContext::run select loop timeout branch"])

prop("C13", "Trigger conditions decide exactly which workflows, jobs and steps run",
 "With GitHub authorization and a push or pull_request trigger event whose changed files can be determined, a condition matches exactly when the event is listed, or when the push/pull_request section for that event exists and both its branch patterns and its path patterns (if given) match by glob; a list of nothing but invalid patterns matches nothing. A workflow, job or step whose condition does not match is skipped as a whole without reaching the runner; without authorization, event or changed files, everything runs.",
 ["inputs", "configurations"], "every condition and payload over a small alphabet of events, branches, paths and patterns, at each of the three levels",
 "The end-to-end tests for conditions need network access to GitHub; unit tests cover about ten combinations.",
 [A+"types/condition.rs", A+"execution_context/condition_matcher.rs", A+"workflow/job.rs", A+"workflow/mod.rs"], ["Condition::is_match", "ConditionMatcher::is_match", "should_skip"])

prop("C14", "Actions expand into pre, run and post steps in the documented order",
 "A job's action steps expand so that all pre steps come first in declaration order, then every step's run in place, then all post steps in reverse declaration order. An action registered by name takes precedence over plugins; the first plugin that resolves an action wins and failing plugins are passed over; unknown or nested actions are rejected with an error.",
 ["programs", "configurations"], "every sequence of up to four command/action steps with every presence of pre/post, every resolver arrangement up to the bound",
 "Tests use one action at a time, so relative order of several actions' pre/post steps is never observed.",
 [A+"workflow/parser.rs", A+"actions.rs", A+"plugins/plugin_driver.rs"], ["try_normalize_user_steps", "try_normalize_action", "on_resolve_dynamic_action"])

prop("C15", "What the configuration says is what the runner gets",
 "The command handed to the runner for each step carries exactly the configured command line, container (the step's own, else the job's), environment values, secrets, continue-on-error flag and timeout (60 minutes when absent), and the identifier workflow/job/index of its position. Start notifications of workflows, jobs and steps carry just what was built and is run. An invalid timeout is rejected when the workflow is built.",
 ["configurations", "inputs"], "every combination of present/absent fields at job and step level over a small alphabet of values, for jobs of up to three steps",
 "Tests check one full and one minimal step.",
 [A+"workflow/parser.rs", A+"user_config.rs", A+"workflow/step.rs", A+"types/envs.rs"], ["WorkflowParser::parse", "From<Step> for Command"])

prop("C16", "The default scheduler picks a runner able to run the step whenever one exists",
 "For every set of runners and history of earlier placements, the default scheduler places a host step only on a runner that supports host execution with the requested system (and architecture, if given), and a container step that is the first of its job only on a runner that supports docker. It declines exactly when no such runner exists.",
 ["configurations", "histories"], "all fleets of up to three runners over the capability lattice, all sequences of placements/completions up to the bound",
 "The tests use fixed fleets and two-step histories.",
 ["crates/scheduler/src/default.rs"], ["DefaultScheduler::schedule", "pick_runner"])

prop("C17", "The scheduler balances load, keeps jobs together, and forgets finished work",
 "A new container step goes to a capable runner with the fewest steps currently placed and not completed; further container steps of the same job go to that same runner while the job lasts and the runner is present. Placement counts are exact after every sequence of placements and completions, so when everything placed has completed the scheduler's bookkeeping is back to empty, even under concurrent calls.",
 ["histories", "schedules"], "all sequences of schedule/step-completed/job-completed operations up to the bound over two jobs and three runners; all interleavings of two concurrent callers",
 "The tests run short fixed histories sequentially.",
 ["crates/scheduler/src/default.rs"], ["SchedulerState.runs_count/job_runners/step_runners"])

prop("C18", "The remote client keeps its scheduler informed",
 "A scheduler used by the remote runner client is told of every workflow, job and step start and completion of the runs it schedules for. With the default scheduler, the load and affinity it holds after a workflow has finished are what they were before it started.",
 ["histories", "programs"], "every run up to the bound with one or two remote runners",
 "No test looks at the scheduler after a remote run.",
 [R+"client.rs", "crates/scheduler/src/lib.rs"], ["AstroRunRemoteRunnerClient on_* hooks", "Scheduler trait hooks"])

prop("C19", "Running remotely gives the same output and result as locally, and always ends",
 "A step run through a remote runner yields exactly the log lines (content, type, order) and result that the remote side's runner produced, given to exactly one connected runner. Whatever the remote side or the connection does (refusing, erroring mid-stream, ending without a result, disconnecting), the step ends with a failure rather than hanging or succeeding.",
 ["fault_sequences", "histories"], "every response script up to the bound (logs, result, stream error, early end, connection refusal) for the client; every runner behaviour up to the bound for the server",
 "Tests only use a well-behaved server in the same process.",
 [R+"client.rs", R+"runner_server.rs"], ["AstroRunRemoteRunnerClient::run", "AstroRunRemoteRunnerServer::run"])

prop("C20", "Cancel and timeout signals reach exactly the remote step they are for",
 "A signal raised on a remotely running step is raised on the remote side's step with the same kind, exactly once, and on no other step. A signal for a step that is unknown or completed has no effect. A signal is not lost when the same step runs again on a runner where an earlier run of it, whose client was lost, still goes on.",
 ["histories", "schedules"], "all sequences of run/signal/complete operations over two steps up to the bound",
 "Tests signal one step once.",
 [R+"client.rs", R+"runner_server.rs"], ["server signals map", "client signal forwarding"])

prop("C21", "Every connected remote runner receives every lifecycle event, in order",
 "Each lifecycle event and log line of a run is delivered exactly once, in the order produced and with unchanged content, to the plugins and runner behind every connected remote runner, however many are produced in a burst. A runner that fails to take an event does not keep the others from receiving it or later events.",
 ["histories", "fault_sequences"], "every event kind; bursts around the client's internal queue bound; every pattern of failing deliveries over two runners up to the bound",
 "Tests emit fewer events than the internal queue holds and never fail a delivery.",
 [R+"client.rs", R+"runner_server.rs"], ["event_sender broadcast channel", "start receive loop", "send_event"])

prop("C22", "Everything sent over the remote protocol arrives unchanged",
 "Every value that a client and a runner exchange (run contexts, commands, events, responses, metadata) decodes to a value equal to the one that was encoded, for all field combinations that the configuration language can produce, and encoding never fails.",
 ["inputs"], "all combinations over a small alphabet of field values (absent/empty/unicode/control characters, numeric extremes, nested options) for each message type",
 "The protocol tests send one representative of each message.",
 ["crates/protocol/src/lib.rs", "crates/protocol/src/common/json_codec.rs", A+"types/envs.rs", A+"types/context.rs"], ["JsonEncoder/JsonDecoder", "serde derives of the message types"])

prop("C23", "Remote before-run-step hooks are all applied, or the step runs unchanged",
 "The step that runs is the result of chaining the before-run-step hooks (plugins in order, then runner) of every connected remote runner, with all other fields kept. If any remote side fails, the step runs as it was before.",
 ["fault_sequences", "histories"], "every assignment of identity/rewrite/failure to hooks on up to two remote runners",
 "One test rewrites one field with one runner.",
 [R+"client.rs", R+"runner_server.rs", A+"workflow/step.rs"], ["on_before_run_step", "call_before_run_step_hook", "From<Step> for Command"])

prop("C24", "A host command's output, exit status and environment are reported faithfully",
 "A command run by the runner reports every line it writes to stdout and to stderr, each stream in order and with the right type, whichever stream is closed first and however much is written. Its result is Succeeded exactly for exit code 0, otherwise Failed with that code (1 when killed by a signal), and it sees exactly the configured environment values.",
 ["programs", "schedules", "inputs"], "all short scripts of writes/closes on the two streams with every exit status; all orders in which the streams become readable",
 "Tests run single-line commands on one stream.",
 [H+"command.rs", H+"executors/host.rs"], ["Command::run select loop over stdout/stderr", "HostExecutor::into_command"])

prop("C25", "A step signalled on the runner ends as cancelled or timed out accordingly",
 "A step that is cancelled ends Cancelled and one that times out ends Failed with the timeout code, whether the signal arrives before its command starts or while it runs; its command has been stopped by the time the step ends, and does not keep the step open. A command that finished first keeps its own result.",
 ["schedules", "fault_sequences"], "signal kind x arrival point (before start, while running, after the command ended) for host and docker executors",
 "Tests cancel one long running docker step (needs docker).",
 [H+"executors/host.rs", H+"executors/docker.rs", H+"astro_runner.rs"], ["execute select on ctx.signal.recv()", "is_completed pre-check"])

prop("C26", "Runner plugins wrap every run exactly once",
 "For every step given to the runner, each runner plugin's before-run hook is called once, in registration order and chained (failures passed over), and what executes is the chain's output. After the step has ended, for whatever reason, each plugin's after-run hook is called exactly once, a failing one not affecting the others.",
 ["programs", "fault_sequences"], "every step outcome (success, failure, cannot start, cancelled, timed out) x every assignment of failing hooks for up to two plugins",
 "The tests check the hooks are invoked by calling the driver directly.",
 [H+"astro_runner.rs", H+"plugin.rs", H+"executors/host.rs", H+"executors/docker.rs"], ["AstroRunner::run spawned task", "PluginDriver"])

prop("C27", "The runner keeps to its working directory, shares it within a job, and cleans up",
 "Steps of the same job share one data directory under the runner's working directory, distinct for different jobs, workflows and repositories. When a workflow completes, exactly that workflow's files are removed, whether or not any of its steps ran on this runner. Nothing outside the configured working directory is created or removed, whatever the identifiers contain.",
 ["inputs", "histories"], "all identifier combinations over a small alphabet (plain, dotted, path-like), histories of steps and completions up to the bound",
 "Tests use one plain identifier.",
 [H+"metadata.rs", H+"astro_runner.rs", H+"executors/host.rs"], ["MetadataBuilder::build", "cleanup_workflow_working_directory", "workflow_events"])

prop("C28", "Docker is invoked with exactly the configured options",
 "For a container step docker receives, as separate arguments, exactly the configured image, environment values, volumes, security options and working directory, byte for byte. The container has a name that docker accepts and that no container of another step has. No configured value is interpreted by a shell on the runner's host. The container executes exactly the configured script, which is complete when docker starts.",
 ["inputs", "configurations"], "all combinations of option presence, with values over an alphabet of shell-significant characters",
 "One unit test compares a single generated command string with plain values.",
 [H+"docker.rs", H+"executors/docker.rs"], ["Docker::generate_docker_command", "DockerExecutor::into_command"])

prop("C29", "Identifiers survive their textual form",
 "For every workflow, job and step identifier built from non-empty parts without a slash, printing it and parsing the text gives the same identifier back, and distinct identifiers print differently. Text that is not of the right shape is rejected with an error.",
 ["inputs"], "all identifiers with parts over a small alphabet up to the bound; all short strings over {letter, digit, slash, dot, minus}",
 "Tests use one identifier of each kind.",
 [A+"types/id.rs"], ["Display and TryFrom<&str> for WorkflowId/JobId/StepId"])

prop("C30", "Concurrent runs sharing one AstroRun do not disturb each other",
 "Several workflows (or several runs of the same workflow) executing concurrently through one AstroRun each terminate with the results and notifications they would have alone. A job cancel affects only runs that contain that job. Workflows built without an identifier are different ones. A run started after a cancel of an earlier, still running run of the same workflow is not affected by that cancel.",
 ["schedules", "histories"], "all interleavings of two runs, with distinct or equal workflow identifiers, with and without a cancel",
 "Tests run one workflow at a time per AstroRun.",
 [A+"signals/mod.rs", A+"execution_context/mod.rs", A+"workflow/mod.rs"], ["SignalManager registration by JobId", "expect(\"Missing job signal\")"])

prop("C31", "Trigger event and payload reach every hook and the runner unchanged",
 "The trigger event and the payload attached to an execution context are delivered unchanged to every workflow, job and step start notification and to the runner's run call, in every job, also across a remote runner. A run without them delivers none.",
 ["programs", "inputs"], "every presence combination, small alphabet of payload values, workflows up to two jobs of two steps, local and remote",
 "Tests check the payload at one hook of one run.",
 [A+"execution_context/mod.rs", A+"execution_context/context_payload.rs", A+"types/context.rs"], ["payload_string", "ContextPayload::clone", "RunEvent"])

prop("C32", "Connecting to remote runners tolerates bad ones",
 "Of the addresses given to the remote client, exactly the reachable ones with the compatible version become available, one per runner id. Unreachable, incompatible, failing or duplicate ones neither prevent the others from being used nor receive steps.",
 ["configurations", "fault_sequences"], "every list of up to three addresses over {good, duplicate id, wrong version, metadata error, refused connection}",
 "Tests connect to one good runner or one bad one.",
 [R+"client.rs"], ["AstroRunRemoteRunnerClient::start", "connect version check"])

prop("C33", "A step runs where its container says: on this host or in docker, never elsewhere",
 "A step given to the runner is executed as a process of the host exactly when its container, as left by the before-run hooks, names this machine: host/<os> or host/<os>-<arch>. Every other step, including one without a container (image ubuntu), is executed only in docker with the image of that name, and nothing of its script is given to the host's shell. A runner server describes its machine and abilities so that the default scheduler gives it a host step exactly when it supports host execution and would execute that step on the host.",
 ["inputs", "configurations"], "every container name put together from near misses of prefix, system and architecture, configured or set by a plugin; every combination of job and step containers in workflows up to two jobs of two steps",
 "Tests run one docker step (skipped without docker) and one host step.",
 [H+"astro_runner.rs", H+"executors/host.rs", H+"executors/docker.rs", R+"runner_server.rs"], ["AstroRunner::create_executor", "DockerExecutor::into_command", "get_runner_metadata"])

prop("C34", "Times in results and logs are those at which things happened",
 "Every workflow, job and step that ran is reported with a start and a completion time, a skipped one with neither. Start is not after completion; a step lies within its job, a job within its workflow, steps of a job do not overlap, and a job does not begin before the jobs it depends on have completed. A step's times enclose the runner's work on it. Log lines of a step carry non-decreasing times, the same for every observer, between being sent and being reported.",
 ["schedules", "programs"], "all job graphs of up to three jobs, step sequences with skipped, refused, failed and cancelled steps, schedules with yielding hooks",
 "Tests do not look at the times.",
 [A+"workflow/mod.rs", A+"workflow/job.rs", A+"execution_context/mod.rs"], ["started_at", "completed_at", "WorkflowLog time"])

prop("C35", "A workflow on remote runners fares as it does on a local one",
 "Run through the remote client on servers whose runner is the host and docker runner, a workflow gives what it gives with that runner used directly: the same states and exit codes of workflow, jobs and steps, the same log lines per step, the same answers to requests to cancel, each command started exactly once with the same script, environment, container options and directory (relative to the runner's), the same event and payload in the contexts that the runner's plugins see. Afterwards no command is left running on any remote runner and the same files, if any, are left in their directories.",
 ["programs", "schedules", "configurations"], "all workflows of one and two jobs with every fate of each command (success, failure, killed, timeout, abrupt), on host and docker, one and two remote runners, cancelled at every phase, run again; task orders within the deviation bound",
 "Tests of the remote runner use a scripted runner; nothing runs commands behind a remote client.",
 [R+"client.rs", R+"runner_server.rs", H+"astro_runner.rs", H+"executors/host.rs", H+"executors/docker.rs"], ["AstroRunRemoteRunnerClient::run", "AstroRunRemoteRunnerServer::run", "AstroRunner::run"])

prop("C36", "Conditions are judged by everything GitHub reports as changed",
 "For a push event the changed files are those of the commit that the event names, for a pull-request event those of that pull request, in the event's repository: all of them, however many pages GitHub answers with. Requests carry the configured personal token, or the token of the installation of the GitHub App for that repository, obtained with the App's credentials. When the changes cannot be had (refused, failing, unreadable answer or connection, unusable key or number), every job and step runs, and the run ends.",
 ["inputs", "fault_sequences"], "all events, both ways of authentication, up to four pages with the deciding file anywhere, every answer of GitHub replaced by every kind of failure, several conditions asked at once",
 "Tests replace the request's result by a fixed list of files.",
 [A+"execution_context/condition_matcher.rs", A+"types/github_auth.rs", A+"astro_run.rs"], ["ConditionMatcher::is_match", "get_changed_files", "github_personal_token / github_app"])

prop("C37", "The logger writes every record that matters once, and may be set up from anywhere",
 "Once the logger has been set up, every log record at least as important as its level is written to standard output exactly once, in the order logged, with the time, the level, where it was logged and its whole text; others are not written, nor is anything else. The level is the one given or, by the environment, the one that RUST_LOG names in whatever letter case, or info if it is not set or does not name one. Setting the logger up again, also from several threads at once, is harmless: the first level stays, and whoever has returned from setting it up can log.",
 ["inputs", "histories", "schedules"], "all sequences of set-ups up to the bound with every level and way of naming it, records of all levels with every kind of text and place before, between and after them; one thread stopped at every point of setting up while others set up and log",
 "The logger is global to a process, so that the existing tests, which look at nothing that is written, only ever set it up once.",
 ["crates/logger/src/lib.rs"], ["init_logger", "init_logger_with_level", "Logger::log"])

prop("C38", "A remote runner says truthfully what it can do, and every step goes to one able to run it",
 "A remote runner announces the identity, the number of runs and the abilities that it was set up with. Support for docker that is not set is announced exactly when docker works on its machine, support for host steps unless it is refused; the system and architecture are those of its machine. A server without an identity or a runner cannot be built. Every step of a workflow is run once, by a connected runner that announced that it can run such a step (in docker, or on a host of the named system), and fails, saying so, if there is none. A custom scheduler is offered all connected runners as they announced themselves, for every step once, and the step is run by the one that it chooses.",
 ["configurations", "inputs"], "all combinations of a server's settings and states of docker on its machine; all fleets of up to two or three runners of six kinds with all pairs of seven kinds of container; all choices of a scheduler for up to three steps",
 "Tests start one server with docker or host support set by whether docker is on the test machine.",
 [R+"runner_server.rs", R+"client.rs", "crates/scheduler/src/default.rs"], ["AstroRunRemoteRunnerServerBuilder::build", "get_runner_metadata", "AstroRunRemoteRunnerClient::run", "DefaultScheduler::pick_runner"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
