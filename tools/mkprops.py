#!/usr/bin/env python3
"""Emits /verif/properties.jsonl (the editable source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop('T01', 'Tracing counts every call exactly once, at its chain of callers',
 'While a tracing profiler runs, every call made by the profiled program in the starting thread, or in any thread started meanwhile, adds exactly one to the call count of the called function at the chain of callers it was made through; this holds also when threads call the same functions concurrently and when calls recurse, resume generators or end by an exception. '
 'A function that was merely active when profiling started shows no calls of its own until it is called again, and from then on its calls and times are counted like any other function\'s. '
 'Frames at or below the configured base, and functions or frames told to be ignored, never appear as nodes on the chain; the callees of an ignored function hang off its nearest visible caller.',
 ['schedules', 'programs', 'configurations'],
 'all programs (call trees, recursion, exceptions, generators, threads), all thread interleavings including preemption inside the profiling callback, every instant at which profiling starts',
 'The tests profile one or two straight-line calls in one thread; call-count loss needs a preemption between two steps of the callback or profiling that starts in the middle of a call.',
 ['profiling/tracing/__init__.py', 'profiling/stats.py', 'profiling/profiler.py', 'profiling/utils.py'],
 [('profile callback walks the stack and finds/creates the node', 'profiling/tracing/__init__.py TracingProfiler._profile'),
  ('find-or-create of a child node', 'profiling/stats.py RecordingStatistics.ensure_child'),
  ('stack walk', 'profiling/utils.py frame_stack')],
 [('statistics tree', 'one node per chain of callers, with call count and inclusive time', 'Profiler.stats')],
 ['profiler.stats / profiler.result()'])

prop('T02', 'Inclusive and exclusive times are exact and exclude profiler overhead',
 'Every call that both starts and ends while profiling adds to its function\'s inclusive time exactly the CPU-clock time between its entry and its exit, minus the time the profiler itself spent in its callback meanwhile, whether the call returns, raises, recurses or is a generator resumption. '
 'Exclusive time is inclusive time minus that of the direct callees and never negative; a function only active at start shows the total of its observed callees. '
 'The total CPU time of a result excludes the profiler\'s overhead, and no time or total is ever negative, even if a clock steps backwards or stands still.',
 ['schedules', 'programs', 'fault_sequences'],
 'all programs, all thread schedules, all amounts of bookkeeping overhead, all clock behaviours (stalls, jumps, steps backwards)',
 'The tests assert only "deep_time > 0" or orderings on a real clock; exactness, overhead subtraction and clock faults cannot be observed without controlling the clock.',
 ['profiling/tracing/__init__.py', 'profiling/stats.py', 'profiling/profiler.py', 'profiling/tracing/timers.py'],
 [('overhead accounting around the callback', 'profiling/tracing/__init__.py TracingProfiler._profile'),
  ('clamping', 'record_leaving, Statistics.own_time, Profiler.result')],
 [('overhead', 'CPU time spent in the callback since start', 'TracingProfiler.overhead'), ('entry times', 'entry time of every unfinished call', 'TracingProfiler')],
 ['profiler.stats', 'profiler.result()'])

prop('T03', 'Thread and greenlet timers charge a call only for its own context',
 'With the thread timer (or the greenlet timer) a completed call is charged exactly the CPU time its own thread (or greenlet) ran between its entry and exit: time while other threads or greenlets ran, and profiler overhead of any context, is not charged, whatever the order of switches. '
 'This also holds after the profiler is stopped and started again, no matter what switched while it was stopped, and for short-lived contexts whose identity is reused.',
 ['schedules', 'histories'],
 'all interleavings of threads/greenlets, all start/stop histories, all reuse of thread/greenlet identities',
 'The tests compare one light and one heavy worker on the real clock and accept any "<"; the restart and identity-reuse histories are not exercised.',
 ['profiling/tracing/timers.py', 'profiling/tracing/__init__.py', 'profiling/utils.py'],
 [('pause/resume on every greenlet switch', 'profiling/tracing/timers.py GreenletTimer._trace'), ('per thread CPU clock', 'profiling/utils.py thread_clock')],
 [('contextual times', 'paused/resumed time per greenlet', 'ContextualTimer')],
 ['profiler.stats', 'timer()'])

prop('S01', 'Every delivered sample is counted once, on exactly the interrupted stack',
 'While a sampling profiler runs, each sample the sampler takes adds exactly one own hit to the node of the interrupted stack and to no other, regardless of which instant is interrupted (also inside the profiler\'s own handler), of whether the interrupted function was seen before only as a caller, and of concurrent sampling threads; an ignored function counts for its nearest visible caller, and a wholly invisible stack is not counted. '
 'Hence the own hits of all nodes sum to the number of samples taken and the inclusive hits of a node are the own hits of its subtree; frames below the base and ignored functions never appear.',
 ['schedules', 'programs', 'histories'],
 'all programs, all sampling instants and nesting of signals, all thread interleavings',
 'The one sampling test checks the ratio of two functions on the real profiling clock with a 20% tolerance and ten reruns; single lost or misplaced samples are invisible to it.',
 ['profiling/sampling/__init__.py', 'profiling/sampling/samplers.py', 'profiling/stats.py'],
 [('sample recording', 'profiling/sampling/__init__.py SamplingProfiler.sample'), ('SIGPROF handler', 'profiling/sampling/samplers.py ItimerSampler.handle_signal')],
 [('statistics tree', 'own hits per stack', 'Profiler.stats')],
 ['profiler.stats / profiler.result()'])

prop('S02', 'The tracing sampler samples each thread once per interval of its CPU time',
 'With the tracing sampler, two samples of the same thread are always at least one sampling interval of that thread\'s own CPU time apart, and once a thread has consumed at least one interval since its start or its previous sample, its next profiling event is sampled. '
 'Neither other threads, nor how many samples were taken before, nor a finished thread whose identifier is reused changes this; the signal sampler takes one sample per interval of process CPU time for as long as it runs.',
 ['schedules', 'histories'],
 'all thread interleavings, thread lifetimes and identifier reuse, runs of any length (beyond the internal clean-up period)',
 'The tests of this sampler are skipped here and only look at three events in one thread.',
 ['profiling/sampling/samplers.py', 'profiling/utils.py'],
 [('per thread last-sampled time', 'profiling/sampling/samplers.py TracingSampler._profile'), ('clean-up of finished threads', 'TracingSampler._clear_for_dead_threads')],
 [('sampled times', 'last sampled CPU time per thread', 'TracingSampler')],
 ['SamplingProfiler.sample calls', 'profiler.stats'])

prop('L01', 'A result covers exactly one profiling window',
 'Starting a profiler discards everything recorded before, and the result contains only activity between the latest start and the stop: once stop has returned no later activity of any thread changes the statistics (a signal handler that stops profiling inside a profiling callback lets that one callback finish). '
 'A call that began before the window contributes no call and no time of its own to it, in any number of start/stop cycles while other threads keep running.',
 ['schedules', 'histories'],
 'all histories of start/stop cycles, all interleavings of the profiled threads with start and stop',
 'No test restarts a profiler or keeps a thread alive across stop().',
 ['profiling/profiler.py', 'profiling/tracing/__init__.py', 'profiling/sampling/samplers.py', 'profiling/utils.py'],
 [('start clears the tree, the entry times and the overhead', 'Profiler.start, TracingProfiler.run'), ('stop unregisters hooks', 'deferral() in run()')],
 [('profile hook per thread', 'remains installed in threads that were started in the window', 'sys.setprofile')],
 ['profiler.stats', 'profiler.result()'])

prop('L02', 'Start/stop are truthful and always restore the host\'s hooks',
 'A profiler, timer or sampler reports running exactly from a successful start to the next stop; starting a running one and stopping a stopped one raise and change nothing, and a start that fails at any step leaves it not running and startable again. '
 'After every stop, failed start or with-block left by an exception, the interpreter and thread profiling hooks, the greenlet switch hook and the profiling interval timer are as before, and the SIGPROF handler is the one found before, except that the process-killing default becomes "ignore", so that a late SIGPROF never kills the process.',
 ['histories', 'fault_sequences', 'configurations'],
 'all sequences of operations on several profilers, a failure injected at every system-level step of start and stop, signals pending at any instant',
 'The tests check one start/stop and one conflicting hook; no step of start or stop ever fails in them.',
 ['profiling/utils.py', 'profiling/tracing/__init__.py', 'profiling/tracing/timers.py', 'profiling/sampling/samplers.py', 'profiling/sampling/__init__.py'],
 [('generator based start/stop', 'profiling/utils.py Runnable'), ('deferred undo actions', 'profiling/utils.py deferral')],
 [('running generator', 'not None while running', 'Runnable')],
 ['is_running()', 'sys.getprofile()', 'signal.getsignal(SIGPROF)', 'signal.getitimer'])

prop('L03', 'A background thread starts and stops the profiler in the main thread',
 'When another thread starts (stops) a profiler through the background profiler, the call returns only after the wrapped profiler has really been started (stopped) in the main thread by the control signal, at whatever instant and in whatever blocking call the signal finds the main thread, and it always returns. '
 'An error while starting or stopping is reported to the requesting thread: it neither hangs that thread nor surfaces inside the profiled program.',
 ['schedules', 'fault_sequences'],
 'all instants of signal delivery, all interleavings of requester and main thread, failures of the wrapped profiler',
 'The background profiler has no test.',
 ['profiling/remote/background.py', 'profiling/utils.py'],
 [('signal to self plus event', 'profiling/remote/background.py BackgroundProfiler._send_signal'), ('handler in the main thread', 'BackgroundProfiler._signal_handler')],
 [('event', 'set when the handler has acted', 'BackgroundProfiler.event')],
 ['is_running() of wrapper and wrapped profiler'])

prop('D01', 'A frozen result is a faithful, always obtainable snapshot',
 'Serializing the result of a stopped profiler with any pickle protocol and loading it gives a tree with the same functions, nesting, call counts and times, for trees of any depth and width, and freezing a loaded result again changes nothing. '
 'Serializing while profiled threads are still recording never fails, and every count and time in the snapshot lies between its values before and after the serialization.',
 ['schedules', 'histories', 'programs'],
 'all recorded trees, all pickle protocols, all interleavings of serialization with recording threads',
 'The tests pickle two-node trees of a stopped profiler; the broken CodeType helper even disables the frozen test here.',
 ['profiling/stats.py', 'profiling/profiler.py'],
 [('flattening before pickling', 'profiling/stats.py make_frozen_stats_tree'), ('rebuilding', 'profiling/stats.py frozen_stats_from_tree')],
 [('frozen statistics', 'plain copy of the tree', 'FrozenStatistics')],
 ['pickle.dumps(result)', 'pickle.loads'])

prop('D02', 'A dump that succeeds is durable and complete; a damaged one is never shown',
 'When dumping a result to a file returns normally, the file already holds the complete result outside the process, so that it survives an immediate crash, and viewing it shows exactly that result and profiler kind, also over a previous longer dump; if the storage fails at any point (full disk, I/O error, short writes), dumping raises instead. '
 'A dump cut short at any byte by a crash or fault is rejected with an error when viewed and never displayed as a result.',
 ['crash_points', 'fault_sequences', 'inputs'],
 'all results, pickle protocols, storage faults at any byte, crash at any byte of the dump',
 'The test dumps one empty result to a healthy disk.',
 ['profiling/profiler.py', 'profiling/__main__.py', 'profiling/stats.py'],
 [('dump', 'profiling/profiler.py Profiler.dump'), ('view of a dump', 'profiling/__main__.py view')],
 [('dump file', 'pickle of (profiler class, result)', 'the file')],
 ['dump()', 'profiling view FILE'])

prop('R01', 'Messages survive any fragmentation; a cut stream is a connection error',
 'However the byte stream of packed messages is fragmented, delayed or interrupted by signals, receiving yields exactly the messages that were packed, in order, with equal method and content, for every message size and pickle protocol, consuming exactly their bytes. '
 'If the stream ends or the connection breaks inside or between messages, receiving raises a socket error and never yields a partial or altered message.',
 ['fault_sequences', 'inputs', 'schedules'],
 'all message sequences and sizes, all fragmentations, short reads caused by signals, all cut points',
 'The wire protocol has no test.',
 ['profiling/remote/__init__.py'],
 [('size-prefixed framing', 'profiling/remote/__init__.py pack_msg / recv_msg'), ('exact receive', 'profiling/remote/__init__.py recv')],
 [('stream', 'method byte, size, pickle', 'socket')],
 ['recv_msg()'])

prop('R02', 'Every client gets greeting, profiler kind, then all results, whole and in order',
 'On every server implementation each client receives first a greeting with the server\'s pickle protocol and version, then the profiler kind, then, if a result exists, the latest one immediately, and from then on every broadcast result exactly once in order, until it disconnects. '
 'Messages to one client are never interleaved, torn or merged: whatever happens, its byte stream is a sequence of whole messages, of which only the last may be cut, by the end of the connection.',
 ['schedules', 'fault_sequences', 'histories'],
 'all histories of connects, disconnects and stalls, all interleavings of broadcast and greeting, any socket buffer size, all three server implementations',
 'No server implementation has a test.',
 ['profiling/remote/__init__.py', 'profiling/remote/select.py', 'profiling/remote/gevent.py', 'profiling/remote/asyncio.py'],
 [('greeting', 'ProfilingServer.connected'), ('broadcast', 'ProfilingServer.profiling')],
 [('clients', 'the connected clients', 'ProfilingServer.clients'), ('latest result', 'packed latest result', 'ProfilingServer')],
 ['bytes received by each client'])

prop('R03', 'The server profiles exactly while clients are connected',
 'Without clients the profiler is not running and nothing is profiled; when a first client connects profiling starts without delay, goes on (stopped and restarted once per round) while at least one client is connected, and ends within one interval after the last one left, in every order of connects and disconnects including both in the same instant. '
 'At most one profiling loop is active at any time, and it starts again for later clients as often as needed.',
 ['histories', 'schedules'],
 'all histories of connects and disconnects, all orders of simultaneous socket events, all three server implementations',
 'No server implementation has a test.',
 ['profiling/remote/__init__.py', 'profiling/remote/select.py', 'profiling/remote/gevent.py', 'profiling/remote/asyncio.py'],
 [('loop while clients exist', 'ProfilingServer.profiling'), ('start on first client', 'ProfilingServer.connected')],
 [('clients', 'the connected clients', 'ProfilingServer.clients')],
 ['profiler start/stop calls', 'is_running()'])

prop('R04', 'A broken, stalled or vanished client never harms the server or other clients',
 'Whatever a client does (reset or close at any instant including during the greeting, half-close, send junk, stop reading, vanish behind the network) and whatever error the operating system reports for it or for accepting it, the server keeps serving, every healthy client keeps receiving every result, and later clients are served; a client that stops reading holds up the others at most once, by at most one interval. '
 'The broken client is dropped and its connection closed, at the latest soon after results can no longer be delivered to it (the asyncio server buffers for a client that only stopped reading).',
 ['fault_sequences', 'schedules', 'histories'],
 'all client failures at any instant, all operating-system errors of accept, receive, send and peer lookup, all three server implementations',
 'No server implementation has a test, and no fault is injected anywhere.',
 ['profiling/remote/__init__.py', 'profiling/remote/select.py', 'profiling/remote/gevent.py', 'profiling/remote/asyncio.py'],
 [('drop on send error', 'ProfilingServer.profiling / connected'), ('drop on readable', 'SelectProfilingServer.dispatch_sockets')],
 [('clients', 'the connected clients', 'ProfilingServer.clients')],
 ['server liveness', 'bytes received by healthy clients', 'closed sockets'])

prop('R05', 'Results arrive at the configured cadence',
 'While clients are connected and undisturbed, consecutive results are one interval apart on every server implementation; socket events may end a round early, but no client ever waits longer than one interval for the next result (a client stalled meanwhile aside, see R04), also if waiting is interrupted by signals any number of times. '
 'Waiting does not spin: without socket events no two results are closer than one interval.',
 ['schedules', 'fault_sequences', 'configurations'],
 'all intervals, all interruption patterns, all connect/disconnect histories, all three server implementations',
 'No server implementation has a test, and time is never controlled.',
 ['profiling/remote/select.py', 'profiling/remote/gevent.py', 'profiling/remote/asyncio.py', 'profiling/remote/__init__.py'],
 [('interrupt-safe select with decreasing timeout', 'SelectProfilingServer.select_sockets'), ('sleeping loops', 'profile_periodically')],
 [('interval', 'configured round length', 'ProfilingServer.interval')],
 ['arrival times of results'])

prop('R06', 'The viewer client reconnects until it shows the server\'s latest result again',
 'Whatever happens to the server or network (refused, unreachable, missing or stale socket file, reset or close at any byte, restart), the remote viewer client never fails with an error; while disconnected it tries again about once per second, without spinning against a server that refuses or closes before it greets, and without leaking connections. '
 'It is marked active exactly while greeted by a connected server, and once the server is reachable again it shows the latest result within a few seconds.',
 ['fault_sequences', 'histories'],
 'all sequences of server outages and reported connection errors (not packets swallowed without any error), TCP and local sockets, all fragmentations of results',
 'The clients have no test.',
 ['profiling/remote/client.py', 'profiling/remote/__init__.py'],
 [('retrying connect', 'FailoverProfilingClient.connect/disconnect'), ('error handling', 'ProfilingClient.handle/erred')],
 [('socket', 'current connection attempt', 'FailoverProfilingClient')],
 ['viewer state', 'connection attempts', 'open sockets'])

prop('V01', 'The viewer shows the latest result, or the paused one until resumed',
 'After every result, pause, resume, activation change or profiler-kind change, in any order, the screen shows the latest received result, or, while paused, the result shown when pausing; resuming shows the latest one at once and no result received while paused is shown before. '
 'The header reflects paused, inactive or active state and the CPU and wall time, title and time of receipt of exactly the displayed result, and its rows show that result\'s numbers.',
 ['histories', 'schedules'],
 'all interleavings of incoming results, connection changes and key presses',
 'The viewer tests only check number formatting.',
 ['profiling/viewer.py', 'profiling/remote/client.py'],
 [('pause/resume bookkeeping', 'profiling/viewer.py StatisticsViewer')],
 [('final/paused result', 'what to show', 'StatisticsViewer')],
 ['rendered screen'])

prop('V02', 'Cursor, expanded nodes, layout and sort column survive result updates',
 'When a new result arrives, the cursor stays on the same function chain if it still exists (else on its nearest existing ancestor), functions expanded by the user stay expanded and others folded, and layout and sort column stay as chosen; exactly the functions below expanded ones have rows, and rows of one parent are always ordered by the chosen column. '
 'No sequence of results and key presses, on any statistics whatsoever, makes the viewer fail.',
 ['histories', 'inputs'],
 'all interleavings of results (functions appearing, vanishing, reordering, unnamed, in unknown modules) with key presses',
 'The viewer tests only check number formatting.',
 ['profiling/viewer.py', 'profiling/sortkeys.py', 'profiling/stats.py'],
 [('path of the focused node', 'StatisticsTable.get_path/find_node'), ('expanded set', 'StatisticsTable._expanded_stat_hashes')],
 [('focus, expanded set, order, layout', 'view state', 'StatisticsTable')],
 ['rendered screen'])

prop('X01', 'The profile command keeps the result however and whenever the script ends',
 'Under the profile and timeit commands a script sees its own argument vector, name and globals and behaves as unprofiled; when it ends by returning, raising, exiting or being interrupted at any instant, profiling is stopped, all hooks are removed, the error is printed and the dump holds exactly the calls made until then; a timeit statement runs exactly as often as asked. '
 'The profiling command\'s own frames never appear in the result.',
 ['crash_points', 'programs'],
 'all scripts, an exception or interrupt injected at any instant of the script',
 'The command-line tests only look at usage texts and options; no script is run.',
 ['profiling/__main__.py', 'profiling/profiler.py'],
 [('run and stop', 'profiling/__main__.py __profile__')],
 [],
 ['dump file', 'stderr', 'sys.getprofile()'])

prop('X02', 'Live profiling passes on the program\'s fate and cleans up',
 'With live-profile the viewer shows results of the running program; when the program ends its last state stays on screen marked inactive, and after the viewer quits, the command exits with the program\'s exit code if it had ended and prints what it wrote to stderr. '
 'If the viewer quits first (or fails or is interrupted), the still running program is told to terminate and none is left behind.',
 ['schedules', 'crash_points'],
 'all orders of program end, viewer quit, interrupt and viewer failure, all exit statuses',
 'The command is never run by a test.',
 ['profiling/__main__.py', 'profiling/remote/client.py', 'profiling/remote/select.py'],
 [('fork, socket pair and wait', 'profiling/__main__.py live_profile')],
 [],
 ['signals sent', 'exit code', 'stderr', 'screen'])

prop('E01', 'What a connected viewer shows is what the program did in that round',
 'In a running remote or live profiling session every result a viewer receives counts exactly the calls the program\'s main thread made during one round, rounds do not overlap, and the program\'s own behaviour and output are the same as without profiling, no matter when clients come and go or how program, server thread and control signals interleave. '
 'Reports reach the viewer as long as the program runs, and the program can always run to its end.',
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of the program\'s threads, the server thread, control signals and network events',
 'No test combines program, background profiler, server and client.',
 ['profiling/__main__.py', 'profiling/remote/background.py', 'profiling/remote/select.py', 'profiling/remote/__init__.py', 'profiling/tracing/__init__.py'],
 [('server thread controls the profiler by signals', 'BackgroundProfiler + SelectProfilingServer')],
 [],
 ['results decoded by the client', 'program output'])

prop('N01', 'The flat layout conserves hits and times',
 'Flattening any statistics tree yields one row per function whose own and inclusive hits and times are the sums over all nodes of that function.',
 ['inputs'], 'all statistics trees', 'Tests flatten one small tree.',
 ['profiling/stats.py'], [('flatten', 'FlatFrozenStatistics.flatten')], (), ['flatten()'])
prop('N02', 'Numbers are formatted within their column and rounded correctly',
 'Every count, percentage and time is shown in its unit, rounded to the shown precision, within the width of its column.',
 ['inputs'], 'all numbers', 'Tests check a few dozen values.',
 ['profiling/viewer.py'], [('Formatter', 'profiling/viewer.py')], (), ['fmt.format_*'])
prop('N03', 'Options come from the command line, then .profiling, then setup.cfg',
 'An option given on the command line wins over .profiling, which wins over setup.cfg, which wins over the documented default, for every option.',
 ['configurations', 'inputs'], 'all option and configuration combinations', 'Tests check two options.',
 ['profiling/__main__.py'], [('config_default/config_flag', 'profiling/__main__.py')], (), ['parsed options'])
prop('N04', 'The C stack walk equals the Python stack walk',
 'The accelerated stack walk returns the same frames as the pure Python one for every stack, base and ignore set.',
 ['inputs'], 'all stacks and arguments', 'The extension is never built in the test environment.',
 ['profiling/speedup.c', 'profiling/utils.py'], [('frame_stack', 'profiling/speedup.c')], (), ['frame_stack()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
