"""Source of properties.jsonl: python3 tools/properties_src.py writes it."""
import json
import os

L = 'src/lib/sup/oac-tree/'
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    if len(title) > 80:
        print('title too long', len(title), title)
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [f if f.startswith('src/') else L + f for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(obs), 'hook_needed': hook}})


P('C01', 'Command queue: linearizable FIFO, atomic priority interrupts, no lost wakeup',
  'Commands handed to a job command queue by any number of threads come out exactly once, in first-in first-out order, except that a '
  'priority command is accepted, and placed in front, exactly when the queue is empty or it is strictly more important than the command '
  'in front. The interrupt action of a priority command runs exactly once if the command is accepted and not at all if it is refused, atomically '
  'with its insertion, before anyone can take the command; if the action throws nothing is inserted. A thread waiting for the next command '
  'never stays blocked while a command remains in the queue.',
  'schedules histories', 'All interleavings of any number of threads calling push, priority push, try-pop, wait and the size queries.',
  'The tests call the queue from one thread (one test uses two) in one order; lost wakeups, broken atomicity and ordering under contention '
  'appear only under particular interleavings.',
  ['runner/job_command_queue.cpp', 'job_command_queue.h', 'runner/job_commands.cpp', 'job_commands.h'],
  [('mutex and condition variable around the deque', 'runner/job_command_queue.cpp: JobCommandQueue::Push, PriorityPush, TryPop, WaitForNextCommand'),
   ('importance order of commands', 'job_commands.h: operator<=')],
  [('m_command_queue', 'pending commands, front first', 'job_command_queue.h')],
  ['return values of Push, PriorityPush, TryPop, WaitForNextCommand, IsEmpty, GetSize', 'the interrupt action'])

P('C02', 'Job: state changes and command effects follow the job state machine',
  'Whatever commands are sent to a job, in whatever order and at whatever moment, the sequence of states it reports is a path of the documented state '
  'machine: it starts as initial; start and step only act on initial or paused jobs, pause only on running ones, halt on initial, running '
  'and paused ones, reset only on finished ones; anything else is ignored. A job whose procedure completes reports success or failure (or halted/failure after a halt), and '
  'commands are handled in the order in which they were sent, halt and terminate first.',
  'schedules histories programs', 'All sequences of commands from several threads against all procedures, at every moment of the execution.',
  'Tests issue a handful of scripted command sequences, and wait for the effect of each before issuing the next.',
  ['runner/async_runner.cpp', 'async_runner.h', 'runner/runner.cpp', 'runner/local_job.cpp'],
  [('command handlers per state', 'runner/async_runner.cpp: HandleInitial, HandlePaused, HandleFinished, HandleRunning, RunProcedure, StepProcedure'),
   ('execution loop', 'runner/runner.cpp: Runner::ExecuteProcedure')],
  [('job state', 'state last reported', 'runner/async_runner.cpp: m_state')],
  ['IJobStateMonitor::OnStateChange', 'UserInterface::UpdateInstructionStatus'])

P('C03', 'Job: halt and destruction always end execution, and nothing runs afterwards',
  'After halt is requested on an initial, running or paused job it reaches a finished state without ever starting another instruction than those '
  'already being executed, whatever the procedure is doing and however often halt is requested. Destroying a job in any state returns once all of its threads, also those of '
  'asynchronous instructions, have ended; no instruction is ticked and no report is made after that.',
  'schedules programs', 'Every moment of halting or destroying relative to the execution of every procedure, including endless, blocking and parallel ones.',
  'Tests halt after fixed sleeps, at one point of a few procedures.',
  ['runner/async_runner.cpp', 'runner/runner.cpp', 'instructions/instruction.cpp', 'instructions/wait.cpp', 'instructions/async_wrapper.cpp'],
  [('priority push with interrupt action', 'runner/async_runner.cpp: AsyncRunner::Halt, ~AsyncRunner'),
   ('halt flags', 'runner/runner.cpp: Runner::Halt; instructions/instruction.cpp: Instruction::Halt')],
  [('m_halt', 'stop requested', 'runner.h'), ('m_halt_requested', 'instruction told to stop', 'instruction.h')],
  ['job state', 'instruction status updates', 'termination of the destructor'])

P('C04', 'Job: pause takes effect at tick boundaries and step executes exactly one tick',
  'A paused job executes nothing until it is started or stepped again, and continues exactly where it stopped: pausing, stepping and starting in any '
  'order yields the same instruction statuses, results and variable effects as an uninterrupted run. One step command executes exactly one tick of the procedure and '
  'leaves the job paused unless the procedure finished.',
  'schedules histories programs', 'All interleavings of pause, step and start with the execution of all procedures.',
  'Tests pause at a few fixed points of one or two procedures.',
  ['runner/async_runner.cpp', 'runner/runner.cpp'],
  [('pause handling between ticks', 'runner/async_runner.cpp: ProcessCommandsWhenRunning, StepProcedure'),
   ('single step', 'runner/runner.cpp: Runner::ExecuteSingle')],
  [], ['job state', 'procedure ticks', 'instruction status updates'])

P('C05', 'Breakpoints stop the job once before each execution of a marked instruction',
  'Whenever a running job is about to execute a tick of a procedure that is ready for it (not started or not finished) and that tick would execute an instruction with a breakpoint, it pauses before it; on continuation it executes that instruction without '
  'stopping again there until it is next anew, in loops in every iteration and after a reset from the beginning. Setting is idempotent, removing a breakpoint prevents further stops, and breakpoints set, '
  'removed or hit never change what the procedure does.',
  'programs histories configurations', 'All trees, all sets of breakpoints, all sequences of set, remove, start and step.',
  'Tests use a handful of breakpoints in three fixed trees.',
  ['runner/breakpoint_manager.cpp', 'runner/breakpoint.cpp', 'breakpoint.h', 'runner/runner.cpp', 'runner/local_job.cpp', 'instructions/instruction_tree.cpp'],
  [('breakpoint bookkeeping', 'runner/breakpoint_manager.cpp: HandleBreakpoints, ResetBreakpoints, SetBreakpoint, RemoveBreakpoint'),
   ('check before a tick', 'runner/runner.cpp: Runner::ExecuteProcedure'), ('next leaves', 'instructions/instruction_tree.cpp: GetNextLeaves')],
  [('breakpoint status', 'set or released (being passed)', 'breakpoint.h')],
  ['Runner::GetBreakpointInstructions', 'JobInterface::OnBreakpointChange', 'job state'])

P('C06', 'Reset restores the initial situation, and a second run repeats the first',
  'Resetting a finished job puts every instruction back to not started, every variable back to its initial value and the job back to initial, whatever way the run ended; '
  'running it again then behaves exactly like the first run.',
  'programs histories', 'All procedures, all ways of ending (success, failure, halt at any point), any number of repetitions.',
  'Tests reset a few procedures once, after success.',
  ['runner/async_runner.cpp', 'procedure/procedure.cpp', 'instructions/instruction.cpp', 'procedure/workspace.cpp'],
  [('procedure reset', 'procedure/procedure.cpp: Procedure::Reset'), ('instruction reset', 'instructions/instruction.cpp: Instruction::Reset and ResetHook overrides'),
   ('workspace teardown and setup', 'procedure/workspace.cpp: Teardown, Setup')],
  [], ['instruction status', 'workspace values', 'job state'])

P('C07', 'Waiting for a job returns exactly when it is finished, for every waiter',
  'A thread that waits for a job to finish returns once the last reported state is a finished one, with that state, and never before; a thread that waits for a given state returns true once that state is the last reported one, and false only when its time is over. '
  'Several threads may wait at once, and none is left waiting when what it waits for is there.',
  'schedules', 'All interleavings of state reports with any number of waiting threads.',
  'Tests have one waiter and one order.',
  ['application_utils.h', 'base/application_utils.cpp', 'runner/job_states.cpp', 'runner/job_state_monitor.cpp', 'job_states.h'],
  [('state under mutex, condition variable', 'base/application_utils.cpp: SimpleJobStateMonitor::OnStateChange, WaitForFinished'),
   ('which states are finished', 'runner/job_states.cpp: IsFinishedJobState')],
  [('m_state', 'last reported state', 'application_utils.h')], ['return of WaitForFinished, WaitForState'])

P('C08', 'Instruction life cycle: legal status changes, each reported once and in order',
  'Every instruction starts as not started, is initialised exactly once before its first execution, then only moves between not finished and running until it ends as success or failure, '
  'and never executes again until it is reset. Each change of status, and nothing else, is reported exactly once and in order to the user interface, with the status the instruction then has; '
  'a failing initialisation ends in failure without execution.',
  'programs histories', 'All instruction trees and all histories of ticks, halts and resets.',
  'Tests look at the status of single instructions in chosen situations.',
  ['instructions/instruction.cpp', 'instruction.h', 'procedure/execution_status.cpp', 'execution_status.h'],
  [('template method', 'instructions/instruction.cpp: Preamble, ExecuteSingle, Postamble, Reset'),
   ('status classification', 'procedure/execution_status.cpp: NeedsExecute, IsFinishedStatus, ReadyForExecute')],
  [('m_status', 'execution status', 'instruction.h')], ['UserInterface::UpdateInstructionStatus', 'Instruction::GetStatus'])

P('C09', 'Sequence and fallback execute children in order and stop at the deciding one',
  'A sequence executes its children strictly from first to last, at most one per tick, a child only after all earlier ones succeeded; it succeeds when all have, fails as soon as one fails and then executes no other. '
  'A fallback does the same with success and failure exchanged. Their status reflects a running or unfinished child.',
  'programs inputs', 'All trees and all outcome sequences of the children.',
  'Tests cover two or three children with constant outcomes.',
  ['instructions/sequence.cpp', 'instructions/fallback.cpp', 'instructions/compound_instruction.cpp'],
  [('tick of one child', 'instructions/sequence.cpp: Sequence::ExecuteSingleImpl; instructions/fallback.cpp: Fallback::ExecuteSingleImpl'),
   ('status calculation', 'CalculateCompoundStatus in both')],
  [], ['status updates', 'order of child executions'])

P('C10', 'Reactive compounds re-evaluate earlier children while a later one runs',
  'A reactive sequence or fallback re-evaluates, on every tick, from its first child on; whenever the executed child is running, all other children are reset, so that earlier '
  'conditions are evaluated anew on the next tick. Otherwise it behaves as the plain sequence or fallback.',
  'programs inputs', 'All trees and all outcome sequences of the children.',
  'Tests cover two fixed scenarios.',
  ['instructions/reactive_sequence.cpp', 'instructions/reactive_fallback.cpp'],
  [('reset of the other children', 'instructions/reactive_sequence.cpp, instructions/reactive_fallback.cpp: ExecuteSingleImpl, ResetOtherChildren')],
  [], ['status updates', 'order of child executions'])

P('C11', 'Parallel sequence: thresholds decide the outcome, children stopped and joined',
  'A parallel sequence runs all its children concurrently and ends with success as soon as the configured number of children succeeded, or failure as soon as '
  'the configured number failed, as defined by its thresholds (defaults: all successes, one failure); it then halts the remaining children, and no child is ever executed by two threads at once or after the instruction was reset or destroyed.',
  'schedules programs configurations', 'All thresholds, numbers and outcomes of children, and all interleavings of their threads.',
  'Tests use a few thresholds with children finishing in a fixed order.',
  ['instructions/parallel_sequence.cpp', 'instructions/async_wrapper.cpp', 'instructions/async_wrapper.h'],
  [('threshold computation', 'instructions/parallel_sequence.cpp: ParallelSequence::InitHook, CalculateCompoundStatus'),
   ('one thread per child', 'instructions/async_wrapper.cpp: AsyncWrapper')],
  [], ['status updates', 'child executions'])

P('C12', 'Repeat and for execute the child the prescribed number of times',
  'A repeat executes its child until it succeeded the configured number of times (zero: not at all; negative: for ever), resetting it in between, and fails at once when '
  'the child fails. A for executes its child once per element of the array, in order and with the element variable set to that element, and fails at once when the child or the assignment fails.',
  'programs inputs configurations', 'All counts, arrays, children and outcome sequences, including halts and resets in between.',
  'Tests use a few small counts and children that always end the same way.',
  ['instructions/repeat.cpp', 'instructions/for.cpp'],
  [('counting', 'instructions/repeat.cpp: Repeat::ExecuteSingleImpl, InitHook'), ('iteration', 'instructions/for.cpp: ForInstruction')],
  [('m_count', 'completed iterations', 'instructions/repeat.h, for.h')], ['status updates', 'values seen by the child'])

P('C13', 'Inverter and force-success map the outcome of their child and nothing else',
  'An inverter ends with the opposite outcome of its child, a force-success always with success once its child ended, and both show not finished or running as long as the child does; neither executes the child again after it ended.',
  'programs inputs', 'All children and outcome sequences.',
  'Tests cover constant children.',
  ['instructions/inverter.cpp', 'instructions/force_success.cpp', 'instructions/decorator_instruction.cpp'],
  [('status mapping', 'CalculateStatus in both files')], [], ['status updates'])

P('C14', 'Choice executes exactly the selected children, in the selected order',
  'A choice executes exactly the children selected by the index, or list of indices, in its variable, in that order and as a sequence (an index that is repeated executes its child again), and no other; a selector that is missing, not an integer '
  '(or array of integers) or out of range makes it fail without executing anything.',
  'programs inputs', 'All selectors (types, values, lists with repetition) and children.',
  'Tests use a few valid selectors.',
  ['instructions/choice.cpp'],
  [('index list', 'instructions/choice.cpp: CreateIndexList, ExecuteSingleImpl')], [('m_instruction_list', 'selected children', 'instructions/choice.h')],
  ['status updates', 'child executions'])

P('C15', 'Listen re-executes its child whenever a variable changes, losing no change',
  'A listen executes its child once at the start and again whenever the value of one of its variables differs from the one it saw last, however the changes and the executions interleave (changes while the child executes lead to one more execution); it ends with the child\'s failure, unless it is configured to ignore it, and otherwise only when halted.',
  'schedules programs', 'All interleavings of variable updates with executions of the child.',
  'Tests update one variable from one thread after a sleep.',
  ['instructions/listen.cpp'],
  [('update flag under mutex', 'instructions/listen.cpp: InitHook callbacks, ExecuteSingleImpl, ConditionSatisfied')],
  [('m_var_changed', 'change not yet served', 'instructions/listen.h')], ['status updates', 'child executions'])

P('C16', 'Async execution: one thread per child, joined before reuse or destruction',
  'An asynchronous child is executed by at most one thread at a time, to completion, and its outcome becomes the outcome of the async instruction; halting it stops it, and resetting or destroying the '
  'tree returns only after its thread has ended.',
  'schedules programs', 'All interleavings of the child\'s thread with ticks, halts and resets of its parent.',
  'Tests tick until done.',
  ['instructions/async.cpp', 'instructions/async_wrapper.cpp', 'instructions/async_wrapper.h'],
  [('future per execution', 'instructions/async_wrapper.cpp: AsyncWrapper::Tick, UpdateStatus, Wait')], [('m_child_result', 'future of the running execution', 'instructions/async_wrapper.h')],
  ['status updates', 'child executions'])

P('C17', 'Halting an instruction stops its whole subtree and every blocking wait in it',
  'Halting any instruction makes every descendant that is executing end promptly: waits, variable waits and pending user inputs are abandoned with failure instead of running to their timeout, and no further descendant starts executing.',
  'schedules programs', 'All trees, and every moment of halting.',
  'Tests halt single instructions after a fixed sleep.',
  ['instructions/instruction.cpp', 'instructions/compound_instruction.cpp', 'instructions/decorator_instruction.cpp', 'instructions/wait.cpp', 'instructions/wait_for_variable.cpp', 'instructions/instruction_helper.cpp', 'instructions/user_choice.cpp'],
  [('halt propagation', 'HaltImpl in compound_instruction.cpp, decorator_instruction.cpp and overrides'), ('abort predicates', 'instructions/wait.cpp, wait_for_variable.cpp, input.cpp, user_confirmation.cpp')],
  [], ['status updates', 'time until they end'])

P('C18', 'Included procedures and instruction trees behave as if written in place',
  'An include behaves exactly like the included instruction tree with its parameters substituted, each include working on its own copy; included procedures share the variables of their own file and keep them '
  'apart from others. Unknown paths, missing parameters and recursive inclusion are rejected at setup.',
  'programs configurations', 'All nestings of includes, parameters and files.',
  'Tests cover single-level includes.',
  ['instructions/include.cpp', 'instructions/include_procedure.cpp', 'instructions/instruction_helper.cpp', 'procedure/procedure_store.cpp', 'procedure/procedure_context.cpp'],
  [('cloning and placeholder substitution', 'instructions/include.cpp: SetupImpl; instructions/instruction_utils.cpp: CloneInstructionTree, InitialisePlaceholderAttributes'),
   ('sub-procedures', 'procedure/procedure_store.cpp')],
  [], ['status updates', 'Setup exceptions'])

P('C19', 'Variables: successful writes are read back exactly, and each is notified once',
  'Reading a variable returns the value last written successfully, in its declared type; a write that does not fit the type, or to a missing field, or before setup or after teardown, is refused and changes nothing. Every successful write is notified exactly '
  'once, with the value written, in the order of the writes, also when several threads read and write.',
  'histories inputs schedules', 'All sequences and interleavings of reads and writes of whole values and fields, for all types.',
  'Tests write a few values to a few types in one thread.',
  ['variables/variable.cpp', 'variables/local_variable.cpp', 'procedure/workspace.cpp', 'variable.h'],
  [('locking and notification', 'variables/variable.cpp: Variable::GetValue, SetValue, Notify'), ('storage and conversion', 'variables/local_variable.cpp')],
  [('value', 'current value', 'variables/local_variable.h')], ['GetValue, SetValue results', 'notification callbacks'])

P('C20', 'Workspace: setup and teardown balanced, once per variable and action',
  'Setting up a workspace sets up every variable and executes each registered setup action exactly once until it is torn down, and teardown undoes both exactly once; variable names are unique, names are reported in order of addition, variables can only be read or written while the workspace is set up, and a notification always names the variable that changed.',
  'histories', 'All sequences of adding, setup, teardown, reading, writing and registering of actions and callbacks.',
  'Tests run one setup/teardown cycle.',
  ['procedure/workspace.cpp', 'workspace.h', 'setup_teardown_actions.h'],
  [('setup state', 'procedure/workspace.cpp: Setup, Teardown, RegisterSetupTeardownActions, AddVariable')], [('m_setup_done', 'set up and not torn down', 'workspace.h')],
  ['calls of SetupImpl/TeardownImpl', 'action callbacks', 'exceptions'])

P('C21', 'Waiting for variables ends exactly on condition, timeout or halt',
  'Waiting for a variable succeeds when the variable is available (and, if asked for, equal to the other one) at some moment of the wait, never otherwise, and fails once its timeout has passed or it is halted; it never waits beyond its timeout, whatever updates happen meanwhile.',
  'schedules inputs', 'All interleavings of variable updates, time and halts with the wait.',
  'Tests use one thread that updates after a sleep.',
  ['instructions/wait_for_variable.cpp', 'instructions/wait_for_variables.cpp', 'procedure/workspace.cpp', 'variables/variable.cpp', 'instructions/wait.cpp'],
  [('wait with predicate', 'procedure/workspace.cpp: Workspace::WaitForVariable; instructions/wait_for_variable.cpp')], [],
  ['status and virtual time at the end'])

P('C22', 'Callback manager: each registered callback runs once per event, in order',
  'Each event runs all callbacks that are registered for everything, then those registered for its name, each exactly once, in order of registration and with the event\'s arguments, and no others. Registration of empty callbacks is refused; unregistering a listener removes all and only '
  'its callbacks, after which none of them runs, and a callback guard does so when it goes, also with several threads.',
  'histories schedules', 'All sequences and interleavings of registration, events and removal.',
  'Tests register two or three callbacks from one thread.',
  ['named_callback_manager.h'],
  [('lists under a mutex', 'named_callback_manager.h: RegisterGenericCallback, RegisterCallback, UnregisterListener, ExecuteCallbacks, GetCallbackGuard')], [],
  ['callback invocations', 'return values'])

P('C23', 'Scope guard: its action runs exactly once, at the right moment',
  'The action of a scope guard runs exactly once, when the guard that finally owns it is destroyed or overwritten; moving transfers it, a moved-from or empty guard does nothing and says so, and an action is neither lost nor run twice in any chain of moves.',
  'histories', 'All sequences of construction, moves, assignments (also to itself) and destruction of several guards.',
  'Tests move once.',
  ['scope_guard.h', 'base/scope_guard.cpp'],
  [('ownership of the action', 'base/scope_guard.cpp: ScopeGuard move constructor, move assignment, destructor')], [('m_callback', 'action to run', 'scope_guard.h')],
  ['action invocations', 'IsValid'])

P('C24', 'User input requests: answered once, by the right reply, never blocking',
  'Each user input request gets exactly the reply that was produced for it and at most once; requests are served one at a time in the order in which they were made; abandoned requests are cancelled; and once the reply is there every wait for it returns, '
  'also with several requests from several threads and when the interface is shut down.',
  'schedules histories', 'All interleavings of requests, replies, waits, cancellations and destruction.',
  'Tests have one request at a time.',
  ['base/async_input_adapter.cpp', 'async_input_adapter.h', 'i_user_input_future.h', 'base/user_input_request.cpp', 'base/user_input_reply.cpp'],
  [('handler thread, request queue, reply map', 'base/async_input_adapter.cpp: AddRequest, HandleRequestQueue, WaitForReply, CancelRequest')],
  [('m_requests, m_replies', 'pending and answered requests', 'async_input_adapter.h')], ['futures', 'provider calls'])

P('C25', 'User interaction instructions deliver the answer to the right place',
  'An input instruction writes the user\'s value to its variable and succeeds only if that worked; a choice executes exactly the child the user picked, offering the option texts in the order of the children; a confirmation succeeds exactly on the affirmative answer. Any invalid, missing or abandoned answer makes them fail without side effects.',
  'inputs programs schedules', 'All answers (valid, out of range, wrong type, refused) and halts at every moment.',
  'Tests use one or two valid answers.',
  ['instructions/input.cpp', 'instructions/user_choice.cpp', 'instructions/user_confirmation.cpp'],
  [('use of the reply', 'ExecuteSingleImpl in the three files')], [], ['status updates', 'workspace values'])

P('C26', 'Writing a procedure and reading it back yields the same procedure',
  'Serialising any procedure and parsing the result yields the same preamble, instruction tree, names and attributes in the same order, and the same variables, also after instructions were inserted, taken out or reordered and variables added. Reading a document gives exactly the elements it contains, in their order; a document that is malformed or has another root element, an unknown type of instruction or variable, children where none are allowed, an unnamed or duplicate variable or an incomplete preamble element is rejected with an exception.',
  'inputs programs', 'All procedures and documents.',
  'Tests use a few fixed documents.',
  ['parser/sequence_parser.cpp', 'parser/procedure_parser.cpp', 'parser/instruction_parser.cpp', 'parser/variable_parser.cpp', 'parser/procedure_to_treedata_utils.cpp'],
  [('parsing', 'parser/*_parser.cpp'), ('serialisation', 'parser/procedure_to_treedata_utils.cpp')], [], ['structure of the parsed procedure'])

P('C27', 'Attribute checking accepts exactly the attribute sets that meet the definitions',
  'An instruction or variable is accepted at setup exactly when all mandatory attributes are there, every literal attribute value can be read as its declared type and all declared constraints (presence, exclusive, alternative, combined, negated) hold; each violated one is reported.',
  'inputs configurations', 'All attribute definitions, constraints and attribute values.',
  'Tests use a few combinations.',
  ['attributes/attribute_handler.cpp', 'attributes/attribute_validator.cpp', 'attributes/concrete_constraints.cpp', 'attributes/attribute_utils.cpp', 'attributes/attribute_definition.cpp'],
  [('constraint evaluation', 'attributes/concrete_constraints.cpp'), ('validation', 'attributes/attribute_validator.cpp')], [], ['ValidateAttributes', 'GetFailedConstraints'])

P('C28', 'The root instruction and its setup are determined by the procedure alone',
  'A procedure executes its only top-level instruction, or the first one that is marked as root when there are several. Setup succeeds exactly when there is such an instruction, every attribute in its tree (and in what it includes) is acceptable, every instruction has the number of children it needs, everything included can be found and is not included recursively, and the types and variables of the workspace are acceptable; otherwise it is refused with an exception before anything executes.',
  'programs configurations', 'All procedures.',
  'Tests use a few.',
  ['procedure/procedure.cpp'],
  [('root selection', 'procedure/procedure.cpp: RootInstruction, Setup')], [], ['Procedure::RootInstruction', 'exceptions of Setup'])

P('C29', 'Job information mirrors the instruction tree and variables with stable indices',
  'The description of a job lists every instruction of the tree and every variable exactly once, with its attributes and children, under indices that are consecutive, the same ones used in all later status, value and breakpoint reports, and independent of the run.',
  'programs', 'All procedures.',
  'Tests use fixed small trees.',
  ['runner/job_info.cpp', 'runner/job_info_utils.cpp', 'runner/instruction_map.cpp', 'runner/variable_map.cpp', 'runner/job_map.cpp', 'runner/instruction_info.cpp', 'runner/instruction_info_utils.cpp', 'runner/workspace_info.cpp'],
  [('index assignment', 'runner/instruction_map.cpp, variable_map.cpp'), ('description', 'runner/job_info_utils.cpp, instruction_info_utils.cpp')], [], ['JobInfo', 'IJobInfoIO callbacks'])

P('C30', 'Local job: reported states, statuses and values match the execution',
  'What a local job reports to its observer — state, instruction status and breakpoints, variable values and their connection, next instructions — is, at every moment when nothing is executing, exactly the situation of the procedure, and the reports of one entity arrive in the order of its changes.',
  'schedules programs histories', 'All procedures and command histories.',
  'Tests check final states.',
  ['runner/local_job.cpp', 'runner/job_interface.cpp', 'runner/job_interface_adapter.cpp'],
  [('forwarding of updates', 'runner/job_interface_adapter.cpp; runner/local_job.cpp')], [], ['IJobInfoIO callbacks'])

P('C31', 'Names of states, severities and statuses are one-to-one and total',
  'Every execution status, job state and log severity has a name of its own, converting a name back yields the same value, and unknown values or names are handled as documented without failing; the classification of statuses and job states into finished, running and executable ones is total and consistent, and log levels are ordered.',
  'inputs', 'All values and strings.',
  'Tests sample some.',
  ['procedure/execution_status.cpp', 'runner/job_states.cpp', 'base/log_severity.cpp', 'execution_status.h', 'job_states.h', 'log_severity.h'],
  [('name tables', 'base/log_severity.cpp, procedure/execution_status.cpp, runner/job_states.cpp')], [], ['return values'])

P('C32', 'Data instructions compute what they say, or fail and change nothing',
  'Copying, incrementing, decrementing, comparing, adding members or elements, resetting and checking variables give the result defined for the values and types of their operands; when an operand is missing or does not fit they fail and leave all variables as they were.',
  'inputs', 'All operand values and types.',
  'Tests sample some.',
  ['instructions/copy.cpp', 'instructions/increment.cpp', 'instructions/decrement.cpp', 'instructions/condition.cpp', 'instructions/equals.cpp', 'instructions/lessthan.cpp', 'instructions/greaterthan.cpp', 'instructions/add_member.cpp', 'instructions/add_element.cpp', 'instructions/reset_variable.cpp', 'instructions/var_exists.cpp'],
  [('effect', 'ExecuteSingleImpl of each')], [], ['status', 'workspace values'])

P('C33', 'Console interface offers, validates and returns exactly what was entered',
  'The console interface shows the options in order and returns the index of the option the user picked, refusing anything out of range; a requested value of any supported type that the user enters is returned as that value of that type, and unreadable input is refused.',
  'inputs', 'All option lists, types and entered texts.',
  'Tests cover few types.',
  ['src/app/oac-tree-cli/cl_interface.cpp'],
  [('parsers per type', 'src/app/oac-tree-cli/cl_interface.cpp')], [], ['replies'])

P('C34', 'Synchronous runner executes a procedure to its end and stops only when told to',
  'The synchronous runner executes ticks until the procedure ended, a breakpoint is reached, or it is paused or halted, and calls the tick callback exactly once after each; it never executes a finished or halted procedure again.',
  'programs histories', 'All procedures, and pauses, halts and breakpoints at every tick.',
  'Tests use a few.',
  ['runner/runner.cpp', 'runner.h'],
  [('loop', 'runner/runner.cpp: ExecuteProcedure, ExecuteSingle, IsFinished, Halt, Pause')], [], ['tick callback', 'Runner::IsFinished, IsRunning'])

P('C35', 'Preamble and registries keep what was registered, in order, without duplicates',
  'A procedure preamble reports the plugins and type registrations it was given, completely and in order; the instruction and variable registries create exactly the registered kinds, refuse duplicates and unknown names.',
  'histories inputs', 'All sequences of registrations and lookups.',
  'Tests register one or two.',
  ['procedure/procedure_preamble.cpp', 'procedure_preamble.h', 'instructions/instruction_registry.cpp', 'variables/variable_registry.cpp'],
  [('ordered lists', 'procedure/procedure_preamble.cpp'), ('maps', 'instructions/instruction_registry.cpp, variables/variable_registry.cpp')], [], ['return values', 'exceptions'])

P('C36', 'File variables persist what was written last',
  'A file variable reads the value stored in its file, and a successful write is in the file in full when it returns, readable by any later variable on that file; a missing, unreadable or malformed file makes reading fail and nothing else.',
  'histories inputs', 'All values, and all sequences of writes, reads and re-openings.',
  'Tests write once.',
  ['variables/file_variable.cpp'],
  [('file access', 'variables/file_variable.cpp: GetValueImpl, SetValueImpl')], [], ['GetValue, SetValue', 'the file'])

P('C37', 'Programs: what they show and how they end follows from options, file and input',
  'oac-tree-cli and oac-tree-daemon, given a procedure file, end with exit code 0 exactly when the procedure could be read and set up, execute it exactly once unless only asked to validate it, and report the final state of its root; the verbosity level hides messages that are less important and changes nothing else; the CLI asks for input where an instruction does and gives it what was entered, and shows variable updates, messages and outputs in the order of execution; the daemon never asks.',
  'programs inputs schedules', 'All procedure files, options, and lines entered; all interleavings of execution and reporting.',
  'Tests do not run the programs.',
  ['src/app/oac-tree-cli/main.cpp', 'src/app/oac-tree-daemon/main.cpp', 'src/app/oac-tree-cli/cl_interface.cpp', 'src/app/oac-tree-daemon/daemon_interface.cpp', 'base/application_utils.cpp'],
  [('command line', 'src/app/oac-tree-cli/main.cpp: main; src/app/oac-tree-daemon/main.cpp: main'), ('levels', 'base/log_severity.cpp; base/application_utils.cpp')], [],
  ['standard output and error', 'exit code'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
