"""The registry of the checks: property -> where its scenario is, how many
runs the quick tier makes, and what the evidence says about it."""

REAL_CORE = ['profiling.profiler', 'profiling.tracing', 'profiling.tracing.timers',
             'profiling.stats', 'profiling.utils', 'profiling.sortkeys']


class Check(object):

    def __init__(self, module, runs, rule, real, stub, faults, note=''):
        self.module, self.runs, self.rule = module, runs, rule
        self.real, self.stub, self.faults = real, stub, faults
        self.note = note


STUB_CORE = ['thread scheduler, locks, thread start and idents', 'CPU, wall and monotonic clocks',
             'sys.setprofile registry (real interpreter events behind it)']

TRACE_RULE = ('a seeded program (call tree, recursion, generators, exceptions, closures, threads, sleeps), '
              'configuration, start/stop instants and schedule; non-trivial: at least one profiling window '
              'and two calls; distinct: different choice sequences')

REAL_SAMPLING = ['profiling.profiler', 'profiling.sampling', 'profiling.sampling.samplers', 'profiling.stats',
                 'profiling.utils']
STUB_SAMPLING = STUB_CORE + ['signal delivery and the profiling interval timer']
SAMPLE_RULE = ('a seeded program, sampler (interval timer or tracing), interval, configuration, sampling instants '
               'and schedule; non-trivial: at least one window with a sample; distinct: different choice sequences')

STUB_NET = ['thread scheduler, clocks', 'network: sockets, select']

REAL_SERVER = ['profiling.remote', 'profiling.remote.select', 'profiling.profiler (Profiler, ProfilerWrapper)']
STUB_SERVER = ['profiler (numbered results of any size)', 'clients (scripted)']
SERVER_RULE = ('a seeded set of clients with arrival, behaviour and end, on a network with seeded delays, '
               'fragmentation and buffer sizes; non-trivial: one round; distinct: different choice sequences')
SERVER_FAULTS = ['client closes, resets, half-closes, sends junk, stalls, vanishes, aborts before accept',
                 'connection errors', 'fragmentation, delay, tiny buffers', 'events in the same instant']

REAL_VIEW = ['profiling.viewer', 'profiling.sortkeys', 'profiling.stats', 'profiling.remote.client',
             'table classes of profiling.tracing and profiling.sampling', 'urwid (widgets, main loop)']
STUB_VIEW = STUB_NET + ['terminal (keys, size; the drawn canvas is read)', 'server (scripted)']
VIEW_RULE = ('a seeded history of results (functions appear, vanish, reorder), connections, profiler kinds and key '
             'presses; non-trivial: one result; distinct: different choice sequences')
VIEW_FAULTS = ['connection closed and reset at any point', 'reconnection with another profiler kind',
               'fragmentation, delay', 'key presses at any instant']

CHECKS = {
    'T01': Check('checks.tracing', 8000, TRACE_RULE, REAL_CORE, STUB_CORE,
                 ['preemption inside the callback and program', 'start/stop in the middle of calls']),
    'T02': Check('checks.tracing', 8000, TRACE_RULE, REAL_CORE, STUB_CORE,
                 ['profiler overhead per clock read/store', 'clock steps back, stalls, is coarse or zero',
                  'preemption between program steps']),
    'T03': Check('checks.tracing', 7000, TRACE_RULE, REAL_CORE, STUB_CORE,
                 ['preemption inside the callback and program', 'blocking of threads']),
    'L01': Check('checks.tracing', 8000, TRACE_RULE, REAL_CORE + REAL_SAMPLING[1:3],
                 STUB_CORE + STUB_SAMPLING[len(STUB_CORE):],
                 ['start/stop at any call depth', 'threads outliving a window', 'frames and idents reused',
                  'sampling signals at arbitrary points']),
    'S01': Check('checks.sampling', 6000, SAMPLE_RULE, REAL_SAMPLING, STUB_SAMPLING,
                 ['signals at arbitrary points, nested and inside the handler', 'preemption while sampling',
                  'start/stop at any call depth']),
    'S02': Check('checks.sampling', 6000, SAMPLE_RULE, REAL_SAMPLING, STUB_SAMPLING,
                 ['preemption while sampling', 'thread identifiers reused', 'internal clean-up periods passed']),
    'L02': Check('checks.lifecycle', 8000,
                 'a seeded history of start, stop, with-block, double start/stop and thread operations over 1-7 '
                 'profilers, timers and samplers, on a host with hooks of its own; non-trivial: two operations; '
                 'distinct: different choice sequences',
                 REAL_CORE + REAL_SAMPLING, STUB_CORE + ['signals, interval timer', 'greenlet module'],
                 ['failing setprofile/settrace/setitimer/signal at the nth step of start or stop',
                  'exceptions leaving with-blocks', 'SIGPROF pending at any instant', 'failing undo actions']),
    'L03': Check('checks.background', 6000,
                 'a seeded program with threads and blocking calls, a wrapped profiler, rounds of start and stop '
                 'requested by another thread at arbitrary instants; non-trivial: one request; distinct: different '
                 'choice sequences',
                 REAL_CORE + REAL_SAMPLING + ['profiling.remote.background'],
                 STUB_CORE + ['signals, os.kill of the own process'],
                 ['control signal at any point of the program, of its callbacks and blocking calls',
                  'other signals nested', 'failing steps of start and stop in the signal handler', 'preemption']),
    'R01': Check('checks.wire', 8000,
                 'a seeded sequence of messages (any size, content, protocol) over a connection with seeded '
                 'fragmentation, delays, buffer sizes, signals and end; non-trivial: all; distinct: different choice '
                 'sequences',
                 ['profiling.remote (pack_msg, recv, recv_msg)'], STUB_NET,
                 ['fragmentation', 'delay', 'short receive by a signal', 'close at any byte', 'reset at any byte',
                  'tiny buffers']),
    'R02': Check('checks.server', 7000, SERVER_RULE, REAL_SERVER, STUB_NET + STUB_SERVER, SERVER_FAULTS),
    'R03': Check('checks.server', 7000, SERVER_RULE, REAL_SERVER, STUB_NET + STUB_SERVER, SERVER_FAULTS),
    'R04': Check('checks.server', 7000, SERVER_RULE, REAL_SERVER, STUB_NET + STUB_SERVER, SERVER_FAULTS + [
        'EMFILE while accepting', 'getpeername errors', 'descriptors beyond FD_SETSIZE', 'EINTR']),
    'R05': Check('checks.server', 7000, SERVER_RULE, REAL_SERVER, STUB_NET + STUB_SERVER, SERVER_FAULTS + [
        'EINTR', 'wall clock steps']),
    'D01': Check('checks.snapshot', 3000,
                 'a seeded tree of any depth and width, or a seeded program with threads and snapshots taken at '
                 'arbitrary instants of its recording; any pickle protocol; non-trivial: one snapshot; '
                 'distinct: different choice sequences',
                 REAL_CORE + REAL_SAMPLING, STUB_CORE + ['signals, interval timer', 'inspect.getmodule (cached)'],
                 ['preemption inside of freezing and recording', 'signals inside of freezing']),
    'R06': Check('checks.reconnect', 7000,
                 'a seeded timeline of server states (refusing, unreachable, missing, stale, closing, resetting or '
                 'greeting in part, mute, slow, flaky, restarted, up), network delays and fragmentation; non-trivial: '
                 'one accepted connection; distinct: different choice sequences',
                 ['profiling.remote.client', 'profiling.remote (recv_msg)', 'urwid SelectEventLoop'],
                 STUB_NET + ['viewer (recording)', 'server (scripted)'],
                 ['every connect error', 'reset and close at any byte', 'restart', 'slow and mute servers',
                  'name resolution failure', 'fragmentation, delay']),
    'V01': Check('checks.viewer', 2500, VIEW_RULE, REAL_VIEW, STUB_VIEW, VIEW_FAULTS),
    'V02': Check('checks.viewer', 2500, VIEW_RULE, REAL_VIEW, STUB_VIEW, VIEW_FAULTS + [
        'odd statistics (unnamed, huge, recursive, control characters)', 'odd screen sizes']),
    'D02': Check('checks.dump', 2000,
                 'a seeded history of dumps of results of any kind and size over the same files, with faults, crashes '
                 'and views; non-trivial: one dump and view; distinct: different choice sequences',
                 ['profiling.profiler (dump)', 'profiling.__main__ (view)', 'profiling.stats', 'profiling.viewer',
                  'click', 'urwid (widgets, main loop)', 'io (buffers)'],
                 STUB_NET + ['file system (bytes handed to the system survive the process)', 'terminal'],
                 ['crash at any system call and byte', 'ENOSPC, EIO, EDQUOT and others at any call', 'full disk',
                  'short writes and reads', 'failing close', 'interrupt at any instant']),
    'X01': Check('checks.command', 4000,
                 'a seeded script (file, module, -c or timeit statement), options, arguments and end (return, '
                 'exception, exit, interrupt at any instant); non-trivial: one result; distinct: different choice '
                 'sequences',
                 REAL_CORE + REAL_SAMPLING + ['profiling.__main__ (profile, timeit)', 'profiling.viewer', 'click',
                                              'urwid (widgets, main loop)', 'io (buffers)'],
                 STUB_NET + ['signals, interval timer', 'file system', 'terminal'],
                 ['interrupt at any instant of the script and of profiling callbacks',
                  'every exception, exit, BaseException', 'threads outliving the script', 'failing and short writes']),
    'E01': Check('checks.session', 1500,
                 'a seeded script (file, module or -c) under remote-profile with any options, its end, and 0-3 clients '
                 'which come and go; non-trivial: one result; distinct: different choice sequences',
                 REAL_CORE + REAL_SAMPLING + ['profiling.__main__ (remote-profile)', 'profiling.remote.background',
                                              'profiling.remote.select', 'profiling.remote', 'click'],
                 STUB_NET + ['signals, interval timer, os.kill of the own process', 'file system', 'clients (scripted)'],
                 ['preemption', 'control signal at any point of the program', 'interrupt at any instant',
                  'clients leaving by close, reset, half close, stalled, sending junk', 'fragmentation, delay',
                  'tiny buffers', 'every exception, exit, BaseException']),
    'X02': Check('checks.live', 700,
                 'a seeded script under live-profile with any options, how it ends (return, exception, exit, _exit, '
                 'killed by a signal, never), what it writes to stderr, and what its user does when (keys, quit, '
                 'interrupt, failing or stuck terminal); non-trivial: one result shown; distinct: different choice '
                 'sequences',
                 REAL_CORE + REAL_SAMPLING + ['profiling.__main__ (live-profile)', 'profiling.remote.background',
                                              'profiling.remote.select', 'profiling.remote.client', 'profiling.remote',
                                              'profiling.viewer', 'click', 'urwid (widgets, main loop)'],
                 STUB_NET + ['processes: fork (by re-execution), wait, exit, descriptors, pipes', 'signals',
                             'file system', 'terminal'],
                 ['program dying at any instant (exit, _exit, SIGKILL, SIGSEGV)', 'user quitting at any instant',
                  'interrupt of both processes', 'failing terminal', 'stuck terminal', 'full stderr pipe',
                  'preemption', 'tiny socket buffers, fragmentation, delay']),
}
