"""What each check does."""
import os

import graph
import vlib


class Spec:
    def __init__(self, targets, run, technique, note, assumptions=()):
        self.targets, self.run, self.technique, self.note = targets, run, technique, note
        self.assumptions = list(assumptions)


CHECKS = {}
SCHED = ('threads are serialised by a deterministic scheduler that switches at synchronisation calls and, in part of '
         'the runs, at any memory access of the code under test (sequential consistency; weak memory orders are not explored)')
SHIM = ('SUP-DTO and SUP-UTILS are not available offline: stand-ins in /verif/shim take their place '
        '(the 440 upstream unit tests pass against them)')


def check(prop, targets, technique, note, assumptions=()):
    def deco(f):
        CHECKS[prop] = Spec(targets, f, technique, note, assumptions)
        return f
    return deco


@check('C01', ['queue_driver'],
       'TLA+ spec of the queue (TLC, refinement + liveness) and linearizability trace validation of the real queue',
       'TLC shows that the mutex/condition-variable design refines the abstract queue and loses no wakeup for 3 threads; '
       'recorded executions of the real class under a deterministic scheduler (bounded-exhaustive for small programs, '
       'randomised beyond) are checked to be behaviours of the abstract queue.',
       [SCHED])
def c01(c):
    c.design('queue/CmdQueueImpl', 'CmdQueueImplQuick' if c.quick else 'CmdQueueImpl', timeout=500,
             never_ok=('PrioThrow', 'PrioNoAction', 'LookEmpty', 'LookSize', 'Call'))
    if c.quick:
        c.conform('queue_driver', ['--seconds=8', '--dfs=300', '--traces=5000'], 'queue/CmdQueueTrace')
    else:
        c.conform('queue_driver', ['--seconds=120', '--dfs=20000', '--bound=3', '--traces=60000'],
                  'queue/CmdQueueTrace', timeout=400)


def replay_graph(c, module, cfg, sep=' '):
    """Programs that cover the state graph of the specification; returns the file."""
    progs, r, edges = graph.programs(module, cfg, c.scratch, sep=sep)
    path = os.path.join(c.scratch, os.path.basename(module) + '.progs')
    with open(path, 'w') as f:
        f.write('\n'.join(progs) + '\n')
    c.cov['states'] += r.states
    c.cov['transitions'] += r.transitions
    c.parts.append({'kind': 'generation', 'module': module, 'cfg': cfg, 'states': r.states, 'edges': edges, 'programs': len(progs)})
    vlib.log(f'[generate] {module}: {r.states} states, {edges} edges, {len(progs)} programs')
    return path


@check('C23', ['guard_driver'],
       'TLA+ spec of guard ownership (TLC); its state graph replayed edge by edge on the real class and trace-validated',
       'Every edge of the state graph of the specification (2 guards and 2 actions; thorough: 3 and 3) is executed on the real class, '
       'plus random longer programs on 4 guards; the actions that ran in each operation must be exactly those of the specification.')
def c23(c):
    f = replay_graph(c, 'core/ScopeGuardGen', 'ScopeGuardGen' if c.quick else 'ScopeGuardGenBig')
    c.conform('guard_driver', [f'--progs={f}', '--random=500' if c.quick else '--random=5000'], 'core/ScopeGuardTrace')


@check('C22', ['callback_driver'],
       'TLA+ spec of the callback manager (TLC) and trace validation of concurrent executions of the real class',
       'TLC explores registration, removal and events of 2 threads exhaustively (removed callbacks never run); recorded executions '
       'with up to 4 threads must be explained by the specification, in which events and removals are atomic.', [SCHED])
def c22(c):
    c.design('core/CallbacksMC', never_ok=('RegEmpty', 'DropNothing'))
    c.conform('callback_driver', ['--seconds=8', '--traces=6000'] if c.quick else ['--seconds=100', '--traces=80000'],
              'core/CallbacksTrace')


@check('C31', ['core_driver'],
       'TLA+ tables of names and classes (ASSUMEs checked by TLC); the answers of the real functions validated against them',
       'All defined values, a range of undefined ones and perturbed names are looked up in the real code; TLC compares every answer with the '
       'specification, whose tables it proves one-to-one and whose classes it proves total and consistent.')
def c31(c):
    c.conform('core_driver', ['--mode=names', '--random=20' if c.quick else '--random=2000'], 'core/NamesTrace')


@check('C35', ['core_driver', 'registry_driver'],
       'TLA+ specs of preamble, breakpoint objects and registries (TLC: all histories of two small registries); traces of random histories validated with TLC',
       'Random histories of additions, copies and lookups on the real objects must be behaviours of the specification.')
def c35(c):
    c.design('setup/RegistryMC')
    c.conform('registry_driver', ['--seconds=5', '--traces=4000'] if c.quick else ['--seconds=60', '--traces=60000'], 'setup/RegistryTrace')
    c.conform('core_driver', ['--mode=preamble', '--random=800' if c.quick else '--random=15000'], 'core/PreambleTrace')


@check('C07', ['monitor_driver'],
       'TLA+ spec of state reports and waits (TLC, refinement + liveness) and trace validation of the real monitor',
       'TLC shows that mutex, condition variable and notify-all refine the abstract monitor and forget no waiter (with notify-one they do); '
       'recorded executions with up to 5 threads must be behaviours of the abstract monitor.', [SCHED, SHIM])
def c07(c):
    c.design('runner/StateMonitorImpl', never_ok=('Call', 'Due', 'Done', 'Ret', 'RetReport'))
    c.conform('monitor_driver', ['--seconds=6', '--traces=6000'] if c.quick else ['--seconds=100', '--traces=60000'],
              'runner/StateMonitorTrace')


TREE_TECH = 'TLA+ spec of instruction trees (TLC: invariants over all small trees, halts and resets at any moment) and trace validation of random trees executed by the real code'
TREE_NOTE = ('TLC explores small trees exhaustively (any leaf outcome, halt and reset at any moment); thousands of random trees, run by the real '
             'instructions under a deterministic scheduler with every status report, leaf execution and next-instruction query recorded, '
             'must be behaviours of the same specification.')


def tree_design(c, only, big=True):
    """Small trees with one of the given node types: quick, without the bigger trees."""
    with open(os.path.join(vlib.VERIF, 'spec', 'tree', 'TreeMC.cfg' if c.quick else 'TreeMCBig.cfg')) as f:
        text = f.read()
    cfg = os.path.join(c.scratch, 'TreeMC')
    with open(cfg + '.cfg', 'w') as f:
        f.write(text.replace('Only = {}', 'Only = {%s}' % ', '.join(f'"{x}"' for x in only)))
    c.design('tree/TreeMC', cfg, timeout=600, never_ok=('DoSet', 'Others', 'Halting'))


def tree_check(prop, modes, only, title=''):
    def run(c):
        tree_design(c, only)
        if not c.quick and not only:
            c.design('tree/TreeMC', 'TreeMCLive', timeout=400)
        n = 3000 // len(modes) if c.quick else 40000 // len(modes)
        for m in modes:
            c.conform('tree_driver', [f'--mode={m}', f'--traces={n}', '--seconds=6' if c.quick else '--seconds=100'],
                      'tree/TreeTrace', timeout=300, tag='-' + m)
        if prop == 'C18':
            document(c, 'incl', 2)
        if prop == 'C17':
            c.conform('user_driver', ['--mode=halt', f'--traces={n // 3}', '--seconds=6' if c.quick else '--seconds=100'],
                      'ui/UserInstrTrace', timeout=300, tag='-user')
    CHECKS[prop] = Spec(['tree_driver'] + {'C17': ['user_driver'], 'C18': ['doc_driver']}.get(prop, []), run, TREE_TECH, TREE_NOTE, [SCHED, SHIM])


tree_check('C08', ['c08', 'c08t'], ['Seq', 'Inv', 'Async'])
tree_check('C09', ['c09'], ['Seq', 'Fb'])
tree_check('C10', ['c10'], ['RSeq', 'RFb'])
tree_check('C11', ['c11'], ['Par'])
tree_check('C12', ['c12'], ['Rep', 'For'])
tree_check('C13', ['c13'], ['Inv', 'FS'])
tree_check('C14', ['c14'], ['Choice'])
tree_check('C15', ['c15'], ['Lis'])
tree_check('C16', ['c16'], ['Async', 'Par'])
tree_check('C17', ['c17'], [])
tree_check('C18', ['c18'], ['Inc'])


def document(c, cfg, share=1):
    cfgs = [cfg] if c.quick else [cfg, cfg + 'Big']
    for x in cfgs:
        c.design('setup/DocumentMC', 'DocumentMC_' + x, timeout=850, coverage=False)
    c.conform('doc_driver', ['--seconds=10', f'--traces={3000 // share}'] if c.quick else ['--seconds=120', f'--traces={50000 // share}'],
              'setup/DocumentTrace', timeout=500, tag='-doc')


DOC_TECH = 'TLA+ spec of procedure documents, setup and descriptions (TLC: all small systems of documents) and trace validation of the real parser, writer, setup and description'
DOC_NOTE = ('TLC builds all small systems of documents element by element and compares what the specification says about them with other ways to say it (writing and reading are inverse, '
            'inclusion is evaluation in place); thousands of random systems of files, wellformed and broken, are parsed, edited, written, set up and described by the real code, and every '
            'tree, text, verdict and description must be that of the specification.')


@check('C26', ['doc_driver'], DOC_TECH, DOC_NOTE, [SHIM])
def c26(c):
    document(c, 'content')


@check('C28', ['doc_driver'], DOC_TECH, DOC_NOTE, [SHIM])
def c28(c):
    document(c, 'content')


@check('C29', ['doc_driver'], DOC_TECH, DOC_NOTE, [SHIM])
def c29(c):
    document(c, 'content')


JOB_TECH = 'TLA+ spec of jobs (TLC: safety and liveness over small procedures and every interleaving of commands) and trace validation of real jobs'
JOB_NOTE = ('TLC explores small procedures with one or two controlling threads exhaustively; thousands of real jobs (random procedures, commands and '
            'breakpoints from up to three threads, under a deterministic scheduler), with every report to the observer, every call and return and the '
            'situation whenever nothing moves recorded, must be behaviours of the same specification.')


def job_check(prop, cfgs, modes):
    def run(c):
        for cfg in cfgs:
            c.design('job/JobMC', cfg if c.quick else cfg + 'Big', timeout=600)
        n = 2400 // len(modes) if c.quick else 40000 // len(modes)
        for m in modes:
            c.conform('job_driver', [f'--mode={m}', f'--traces={n}', '--seconds=10' if c.quick else '--seconds=120'],
                      'job/JobTrace', timeout=300, tag='-' + m)
    CHECKS[prop] = Spec(['job_driver'], run, JOB_TECH, JOB_NOTE, [SCHED, SHIM])


job_check('C02', ['JobMC02', 'JobMC02B'], ['c02'])
job_check('C03', ['JobMC03'], ['c03'])
job_check('C04', ['JobMC04'], ['c04'])
job_check('C05', ['JobMC05', 'JobMC05L'], ['c05'])
job_check('C06', ['JobMC06'], ['c06'])
job_check('C30', ['JobMC30'], ['c30'])


VARS_TECH = 'TLA+ spec of a workspace and its variables (TLC: safety and liveness over small workspaces) and trace validation of the real workspace'
VARS_NOTE = ('TLC explores two threads that read, write, reset, wait and set up small workspaces exhaustively; thousands of recorded random programs with up to '
             'five threads, on variables of random types, must be behaviours of the same specification: every value read, every refusal, every notification '
             'with its value, every setup and teardown, and when waits end.')


def vars_check(prop, cfgs, modes):
    def run(c):
        for cfg in cfgs:
            c.design('vars/VarsMC', 'VarsMC_' + cfg + ('' if c.quick else 'Big'), timeout=600, never_ok=('Actions', 'Time', 'Spurious'))
        if prop == 'C21':
            c.design('vars/WaitVar', never_ok=('Again',))
        n = 5000 // len(modes) if c.quick else 50000 // len(modes)
        for m in modes:
            c.conform('vars_driver', [f'--mode={m}', f'--traces={n}', '--seconds=10' if c.quick else '--seconds=120'],
                      'vars/VarsTrace', timeout=400, tag='-' + m)
    CHECKS[prop] = Spec(['vars_driver'], run, VARS_TECH, VARS_NOTE, [SCHED, SHIM])


vars_check('C19', ['local', 'struct', 'any'], ['c19'])
vars_check('C20', ['test'], ['c20'])
vars_check('C21', ['wait', 'equal'], ['c21', 'c21i'])


@check('C24', ['input_driver'],
       'TLA+ spec of input requests (TLC: the locking design refines it, and liveness) and trace validation of the real adapter',
       'TLC shows that the design with one mutex and two condition variables refines the abstract service and loses no wakeup; recorded executions '
       'of the real class (up to 5 threads that request, wait, fetch, drop; providers that answer at once, late, or only when interrupted; shutdown '
       'at any moment) must be behaviours of the abstract service, including its timing: nobody waits longer than needed.', [SCHED, SHIM])
def c24(c):
    c.design('ui/InputImpl', 'InputImpl' if c.quick else 'InputImplBig', timeout=600)
    c.conform('input_driver', ['--seconds=6', '--traces=1200'] if c.quick else ['--seconds=100', '--traces=25000'], 'ui/InputTrace')


@check('C25', ['user_driver'],
       'TLA+ spec of the instructions that ask the user (TLC: any answers, halts and resets at any moment) and trace validation of the real ones',
       'TLC explores small instructions exhaustively; recorded executions of the real ones with random attributes, options, children and answers (in time, late, '
       'never, refused, out of range, of a wrong type) and up to two threads that halt at any moment must be behaviours of the same specification: what is asked, '
       'what is written, which child runs, every status and when requests are dropped.', [SCHED, SHIM])
def c25(c):
    c.design('ui/UserInstrMC', 'UserInstrMC' if c.quick else 'UserInstrMCBig', timeout=600)
    for m in ('all', 'halt'):
        c.conform('user_driver', [f'--mode={m}'] + (['--seconds=8', '--traces=2500'] if c.quick else ['--seconds=100', '--traces=40000']),
                  'ui/UserInstrTrace', timeout=400, tag='-' + m)


@check('C32', ['data_driver'],
       'TLA+ spec of the data instructions (TLC: laws of comparison, copying and stepping) and trace validation of the real instructions',
       'TLC explores all short programs over a small memory (failures change nothing, types are kept, only the target changes, comparisons are orders); thousands of '
       'random programs on variables of random types, with fields, dynamic types and a second procedure, executed by the real instructions, must give '
       'exactly the statuses, values and outputs of the specification.', [SHIM])
def c32(c):
    c.design('data/DataMC', 'DataMC' if c.quick else 'DataMCBig', timeout=800, never_ok=())
    c.conform('data_driver', ['--seconds=8', '--traces=4000'] if c.quick else ['--seconds=100', '--traces=60000'], 'data/DataTrace', timeout=500)


@check('C27', ['attr_driver'],
       'TLA+ spec of attribute definitions, constraints and values with the catalog of built-in instructions (TLC), and trace validation of the real handlers, instructions and variables',
       'TLC explores all short histories for all small sets of definitions and constraints against a direct statement of acceptability; thousands of random definitions, '
       'nested constraints and texts on the real attribute handler, on instructions and on variables, and random attributes of every built-in instruction, must give '
       'exactly the verdicts, reports and values of the specification.', [SHIM])
def c27(c):
    c.design('setup/AttributesMC', 'AttributesMC' if c.quick else 'AttributesMCBig', timeout=600, never_ok=())
    c.conform('attr_driver', ['--seconds=8', '--traces=9000'] if c.quick else ['--seconds=100', '--traces=120000'], 'setup/AttributesTrace', timeout=500)


@check('C34', ['runner_driver'],
       'TLA+ spec of the synchronous runner on top of the tree spec (TLC, with liveness) and trace validation of the real runner under random schedules',
       'TLC explores all short programs of runs, steps, resets and breakpoints with pauses and halts from the callback and another thread at any moment; '
       'thousands of random programs on random trees, executed by the real runner under explored schedules, must be behaviours of the specification.', [SCHED])
def c34(c):
    c.design('runner/RunnerMC', 'RunnerMC' if c.quick else 'RunnerMCBig', timeout=800, never_ok=())
    c.design('runner/RunnerMC', 'RunnerMCLive', timeout=300, never_ok=())
    c.conform('runner_driver', ['--seconds=10', '--traces=3000'] if c.quick else ['--seconds=120', '--traces=60000'], 'runner/RunnerTrace', timeout=500)


@check('C36', ['file_driver'],
       'TLA+ spec of file variables and the files they name (TLC: what is read is what was stored last) and trace validation of the real variables on real files',
       'TLC explores all short programs on two workspaces in different directories with three variables on shared and separate files, with files that appear, disappear and '
       'get damaged; thousands of random programs on the real variables with values of random types must give exactly the values, refusals, reports and '
       'file contents of the specification.', [SHIM])
def c36(c):
    c.design('files/FileVarsMC', 'FileVarsMC' if c.quick else 'FileVarsMCBig', timeout=800)
    c.conform('file_driver', ['--seconds=10', '--traces=5000'] if c.quick else ['--seconds=100', '--traces=60000'], 'files/FileVarsTrace', timeout=500)


@check('C33', ['console_driver'],
       'TLA+ spec of the console interface (TLC: the meaning of all short lines against a statement that does not parse) and trace validation of the real interface',
       'TLC compares what the specification makes of all short lines with all ways to write down a value; thousands of random dialogs with the real interface (all types, '
       'lines at and around the limits of the types, damaged lines, end of input, choices) must show what was asked, consume one line per request and give exactly the '
       'answers of the specification.', [SHIM])
def c33(c):
    c.design('ui/ConsoleMC', 'ConsoleMC' if c.quick else 'ConsoleMCBig', timeout=800)
    c.conform('console_driver', ['--seconds=10', '--traces=6000'] if c.quick else ['--seconds=100', '--traces=80000'], 'ui/ConsoleTrace', timeout=500)


@check('C37', ['program_driver'],
       'TLA+ spec of the two programs from options and files to output and exit code (TLC: small procedures, all levels and inputs) and trace validation of the real programs',
       'TLC executes all small procedures with both programs at all levels with everything entered, against statements that know nothing of lines and levels; the real main '
       'functions of both programs run on thousands of random files with random options and input under a deterministic scheduler, and everything they show and their exit '
       'codes must be those of the specification.', [SHIM])
def c37(c):
    c.design('setup/ProgramMC', 'ProgramMC' if c.quick else 'ProgramMCBig', timeout=800, coverage=False)
    c.conform('program_driver', ['--seconds=15', '--traces=4000'] if c.quick else ['--seconds=150', '--traces=60000'], 'setup/ProgramTrace', timeout=600)
