"""The property list; tools/gen.py turns it into properties.jsonl and MANIFEST.json."""
Z = 'core/modules/zmq_mdlw/include/klepsydra/zmq_core/'
CORE = 'core/modules/core/include/klepsydra/core/'
MEM = 'core/modules/mem_mdlw/include/klepsydra/mem_core/'
HP = 'high_performance/modules/high_performance/include/klepsydra/high_performance/'
DIS = HP + 'disruptor4cpp/'
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


prop('C01', 'The lock-free stack is a linearizable bounded LIFO, losing and doubling nothing',
     'Concurrent pushes and pops on the lock-free stack behave as if executed one at a time on a LIFO of the declared capacity: a push fails only when the stack is '
     'full, a pop fails only when it is empty, and every element pushed is popped exactly once, whole. No operation may race on an element, and a thread stopped '
     'inside an operation for any number of other operations must not corrupt the stack. Any capacity representable by the interface can be filled completely.',
     ['schedules', 'programs', 'inputs'], 'every interleaving of any number of pushing and popping threads, any suspension length, any capacity and payload type',
     'lock_free_stack tests run a handful of single-threaded scripts and one stress loop; they sample a few schedules and never suspend a thread inside an operation.',
     [CORE + 'lock_free_stack.h'],
     [('tagged compare-and-swap of the head of two linked lists', CORE + 'lock_free_stack.h')],
     observe=['push/pop results, payload contents, thread sanitizer reports'])
prop('C02', 'The object pool hands out each object to one holder and gets every one back',
     'At any moment an object of the pool is held by at most one holder, and once dropped it returns to the pool so that exactly the configured number of objects can be '
     'out at once; acquisitions beyond that fail and are counted exactly. Objects that outlive the pool stay valid until dropped, and are then destroyed exactly once. '
     'All of this holds when several threads acquire and drop objects and while the pool itself is being destroyed.',
     ['schedules', 'histories', 'configurations'], 'every interleaving of acquire, drop and pool destruction, every pool size and initialiser',
     'The pool tests are not built here and are single-threaded scripts on pools of a few objects.',
     [CORE + 'smart_object_pool.h', CORE + 'lock_free_stack.h'],
     [('custom deleter returning objects to a shared stack held by weak pointer', CORE + 'smart_object_pool.h')],
     observe=['object identity, construction/destruction counts, failure counter'])
prop('C03', 'A published event keeps the content it was published with',
     'Every event that leaves a pooled publisher holds exactly the content given by that publication (by copy, by pointer, or by a processing function applied to a freshly initialised event), and keeps it '
     'for as long as any recipient holds it, whatever is published later by any thread. When the pool is exhausted the publication still delivers a correct, '
     'freshly created event rather than losing it or reusing one in use.',
     ['schedules', 'inputs', 'histories'], 'every sequence of publications by any number of threads, every pool size including none, every holding pattern',
     'Existing (unbuilt) tests check a few publications with events dropped at once.',
     [CORE + 'object_pool_publisher.h', CORE + 'smart_object_pool.h'],
     [('acquire from pool, fall back to allocation, copy or process, then publish', CORE + 'object_pool_publisher.h')],
     observe=['payload of every event held after each later publication'])
prop('C04', 'Every event reaches each registered listener once, in order of registration',
     'Whatever sequence of registrations, removals, emissions and discards is applied to an event emitter or a subscriber, also from inside a running listener, an emitted event reaches each listener registered for '
     'that name throughout the emission exactly once, in order of registration, and none removed before or registered for another name; a one-off listener runs for one event only. '
     'The statistics of each listener count exactly its own events, and a container holds exactly those of the listeners registered with it.',
     ['histories', 'inputs'], 'every sequence of operations on each kind of emitter, any nesting of operations inside listeners, any names',
     'The emitter tests are not built here and are short fixed scripts that never act from inside a listener.',
     [CORE + 'safe_event_emitter.h', CORE + 'unsafe_multi_listener_event_emitter.h', CORE + 'unsafe_single_listener_event_emitter.h', CORE + 'event_emitter_subscriber.h'],
     [('listener maps keyed by name and id', CORE + 'safe_event_emitter.h'), ('name to id map of the subscriber', CORE + 'event_emitter_subscriber.h')],
     observe=['listener calls, statistics, objects attached to the container'])
prop('C05', 'The thread-safe emitter delivers exactly under concurrent registration',
     'When several threads emit, discard, register, remove and ask for statistics on the thread-safe event emitter at once, a listener receives exactly once every event emitted entirely between its registration and its removal and none '
     'emitted entirely outside. A one-off listener runs at most once, and does run if an event is emitted after its registration; emitting never fails, and no operation races.',
     ['schedules', 'histories'], 'every interleaving of emitting, registering, removing, clearing and asking threads',
     'The emitter tests are not built here and are single-threaded.',
     [CORE + 'safe_event_emitter.h'], [('mutex around the listener map, snapshot before delivery', CORE + 'safe_event_emitter.h')],
     observe=['listener calls with the times of emission, registration and removal; thread sanitizer reports'])
prop('C06', 'The thread-safe queue is a linearizable FIFO within its limit',
     'Every history of concurrent operations on the thread-safe queue (blocking, try, timed and forcing push and pop, front/back access, size, emptiness, swap, assignment) is equivalent to one of a FIFO that never '
     'holds more than its limit; items are delivered once and in order, and a forcing push discards exactly the oldest items it must and reports them. Copies and '
     'queues moved to have the items and the limit of the original, swaps and assignments transfer the items and leave each queue its limit, and all queues stay usable.',
     ['schedules', 'programs', 'inputs'], 'every interleaving of any threads and operations on one or more queues, every limit including none',
     'The queue tests are not built here and exercise operations one after another.',
     [MEM + 'safe_queue.h'], [('mutex and condition variable around std::queue', MEM + 'safe_queue.h')],
     observe=['results of every operation, thread sanitizer reports'])
prop('C07', 'Blocked and timed queue operations end exactly when they should',
     'A blocked pop ends once an item is available to it and a blocked push once there is room, however that comes about, and no wake-up is ever lost. A timed operation fails only '
     'after its time has passed with nothing available, and does fail then. A successful timed or try operation really transferred the item.',
     ['schedules'], 'every relative timing of the blocked operation and of the operations that should end it',
     'Tests use single delays, far larger than any race window.',
     [MEM + 'safe_queue.h'], [('condition variable waits and notifications', MEM + 'safe_queue.h')],
     observe=['return of each blocked operation, watchdog on lack of progress'])
prop('C08', 'In-memory middleware delivers each accepted event once, in order, to everyone',
     'Every event accepted by an in-memory publisher is delivered exactly once, with the content published, to every listener registered throughout, and events of one publisher arrive in the order '
     'published. A blocking publisher loses nothing however slow the listener; a discarding one loses only the oldest queued events, and delivered plus discarded always equals '
     'published. A listener that throws costs no other event, and the direct-call middleware loses nothing either.',
     ['schedules', 'configurations', 'histories'], 'every number of publishers and listeners, queue and pool size, discard mode and schedule',
     'The middleware tests are not built here and send a few events with generous sleeps.',
     [MEM + 'in_memory_middleware_provider.h', MEM + 'basic_middleware_provider.h', MEM + 'basic_publisher.h', MEM + 'safe_queue_poller.h', MEM + 'concurrent_queue_publisher.h',
      MEM + 'concurrent_queue_poller.h', CORE + 'event_emitter_middleware_provider.h'],
     [('publisher pushes to queue, poller thread pops and emits', MEM + 'safe_queue_poller.h')],
     observe=['per-listener event logs, publisher counters'])
prop('C09', 'In-memory middleware starts, stops, restarts and is destroyed safely',
     'Starting, stopping (also from a listener), restarting or destroying an in-memory middleware at any moment, with events in flight, completes without hanging and without any use of destroyed objects. '
     'While stopped nothing is delivered; once stop has returned no listener is running, other than one that called it, and after a restart delivery resumes with what is queued. A start that cannot come up in time or an immediate stop leaves the '
     'middleware stopped and restartable.',
     ['schedules', 'histories'], 'every sequence of start, stop, publish and destruction, at every point of the delivery thread',
     'The lifecycle tests are not built here and run one start/stop each with sleeps.',
     [MEM + 'in_memory_middleware_provider.h', MEM + 'in_memory_queue_poller.h', 'core/modules/mem_mdlw/src/in_memory_queue_poller.cpp', MEM + 'safe_queue_poller.h'],
     [('poller thread with running flags', 'core/modules/mem_mdlw/src/in_memory_queue_poller.cpp')],
     observe=['delivery log against start/stop marks, sanitizers, watchdog'])
prop('C14', 'The ring hands out each slot once and never overruns a consumer',
     'Claims on the ring, by one or several producers, and advances of a shared position return each sequence exactly once, contiguous and increasing, and no claim succeeds for a slot that a '
     'registered consumer has not finished with. A non-blocking claim fails only when there is really not enough room; reported remaining capacity, cursor and availability agree with what was '
     'claimed, published and consumed, at any sequence number. A blocked claim ends once room appears.',
     ['schedules', 'programs', 'inputs'], 'every interleaving of producers and consumers, batch size, ring size and starting sequence',
     'disruptor4cpp tests use single-threaded sequences near zero and a few threads with sleeps.',
     [DIS + 'single_producer_sequencer.h', DIS + 'multi_producer_sequencer.h', DIS + 'ring_buffer.h', DIS + 'sequence.h', DIS + 'utils/util.h', DIS + 'fixed_sequence_group.h'],
     [('claim against cached minimum gating sequence', DIS + 'multi_producer_sequencer.h')],
     observe=['claimed ranges, refused claims, thread sanitizer reports on slots'])
prop('C15', 'Each consumer sees every published event once, in order, after its dependencies',
     'Each event processor handles every event published from its start exactly once, in sequence order and with the content the producer wrote, and never one that is not yet '
     'published or that a processor it depends on has not finished. The end-of-batch mark is true exactly on the last event of each batch. An exception in a handler is reported for that event and does not '
     'stop, skip or repeat events.',
     ['schedules', 'configurations', 'histories'], 'every number of producers, every dependency graph, wait strategy and batch size, every handler behaviour',
     'Existing tests use one producer, a few events and hand-placed mocks.',
     [DIS + 'batch_event_processor.h', DIS + 'sequence_barrier.h', DIS + 'multi_producer_sequencer.h', DIS + 'single_producer_sequencer.h', DIS + 'ring_buffer.h'],
     [('barrier over cursor and dependent sequences; publish flags', DIS + 'sequence_barrier.h')],
     observe=['per-processor logs of sequence, content, end-of-batch and exceptions'])
prop('C16', 'Wait strategies wake every waiter, alert and time out as promised',
     'With every wait strategy a consumer waiting for a sequence returns once it is available, with a sequence that really is available (cursor and all dependencies), and no wake-up is ever lost. An alert ends the wait with '
     'an alert, and a time-out is reported by the timed strategy when, and only when, its time has passed with nothing available.',
     ['schedules', 'configurations'], 'every strategy, dependency set and timing of publication, alert and waiting',
     'Existing tests check one wait per strategy with a sleep in between.',
     [DIS + 'wait_strategies/' + s + '_wait_strategy.h' for s in ('blocking', 'busy_spin', 'lite_blocking', 'phased_backoff', 'sleeping', 'timeout_blocking', 'yielding')] + [DIS + 'sequence_barrier.h'],
     [('per-strategy waiting loop and signalling', DIS + 'wait_strategies/lite_blocking_wait_strategy.h')],
     observe=['outcome and time of each wait, watchdog'])
prop('C17', 'Event processors halt, restart and report exactly as asked',
     'A halt, whenever it is issued after the processor was asked to run, ends the run promptly; a processor can then be run again and continues with the first event not yet handled. Start and shutdown are notified once per run, a second concurrent '
     'run is refused without disturbing the first, and time-outs are notified to the handler.',
     ['schedules', 'histories'], 'every moment of halting and restarting, every handler behaviour including throwing',
     'Existing tests halt once after a sleep.',
     [DIS + 'batch_event_processor.h', DIS + 'no_op_event_processor.h', DIS + 'sequence_barrier.h'],
     [('running flag and barrier alert', DIS + 'batch_event_processor.h')],
     observe=['lifecycle notifications and event logs per run, watchdog'])
SOCK = 'core/modules/socket_mdlw/'
prop('C21', 'Messages over sockets arrive complete and unchanged, whatever the transport does',
     'A message sent over a socket connection is received byte for byte, whatever its size and content, however the transport splits, interrupts or delays it, and whatever other connections do. '
     'A read delivers at most what was asked for, stops exactly where the caller\'s end-of-message test says, and leaves the rest for the next read; when the connection ends or breaks, what had arrived is delivered. '
     'A transfer error is reported to the caller and never drops or repeats bytes silently.',
     ['inputs', 'fault_sequences', 'schedules'], 'every message, chunking, interruption and point of failure of the transport, any number of connections',
     'The repository has no tests of its socket classes, only an example client and server.',
     [SOCK + 'include/klepsydra/socket_core/data_socket.tpp', SOCK + 'src/data_socket.cpp', SOCK + 'src/protocol_simple.cpp', SOCK + 'src/server_socket.cpp', SOCK + 'src/connect_socket.cpp',
      SOCK + 'include/klepsydra/socket_core/string_resizer.h'],
     [('retry loops around read and write, growing receive buffer', SOCK + 'src/protocol_simple.cpp')], observe=['bytes received against bytes sent'])
prop('C22', 'Socket objects own their descriptor exclusively and report every failure',
     'A socket object closes its descriptor exactly once, on close or destruction, never one it does not own, and moving or swapping transfers ownership; using a closed or moved socket reports an error. '
     'Every failure to connect, listen, accept in time, read or write is reported by an exception that names it, leaks no descriptor, and never ends the process. Any descriptor number works, an address that does not fit is refused rather than changed into another, and a signal does not make waiting for a client fail.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of operations on socket objects, every failing system call, any descriptor number, concurrent use of other descriptors',
     'The repository has no tests of its socket classes.',
     [SOCK + 'src/base_socket.cpp', SOCK + 'src/data_socket.cpp', SOCK + 'src/server_socket.cpp', SOCK + 'src/connect_socket.cpp', SOCK + 'include/klepsydra/socket_core/data_socket.tpp'],
     [('single owner of the descriptor, move by swap', SOCK + 'src/base_socket.cpp')], observe=['open/close calls on descriptors', 'exceptions'])
SER = 'serialization/modules/serialization/include/klepsydra/serialization/'
prop('C23', 'Serialised events come back as they were and damaged messages are refused',
     'For every mapping offered (identity, raw bytes, JSON, portable binary), and through the channels to and from a middleware, an event converted to a message and back equals the original, independently of what the target event or message held before. '
     'A message that is too short or malformed is refused with an exception and never read beyond its end. Messages written one after another into a stream are read back one after another.',
     ['inputs', 'histories'], 'every event content, every prior content of the targets, every truncation or damage of a message',
     'One test converts one three-field structure to bytes and back.',
     [SER + 'void_caster_mapper.h', SER + 'json_cereal_mapper.h', SER + 'binary_cereal_mapper.h', SER + 'identity_mapper.h', CORE + 'to_middleware_channel.h', CORE + 'from_middleware_channel.h',
      CORE + 'non_copying_stream_buffer.h'],
     [('cereal archives over string streams, memcpy of plain structures', SER + 'json_cereal_mapper.h')], observe=['event before and after', 'address sanitizer'])
SMD = 'state_machine/modules/state_machine/'
prop('C24', 'The state machine follows its configuration and tells every observer',
     'Starting from the first configured state, each update takes the queued events in order, drops those that match no transition of the current state, and takes the first matching transition of the first one that does, at most one per update; events raised while '
     'stopped are ignored and a reset returns to the initial state with nothing queued. Every observer registered at that time is told exactly once per start or update, with the state reached and whether it changed. '
     'Observers may raise events, update the machine and register or unregister observers from inside a notification.',
     ['programs', 'inputs', 'histories'], 'every configuration and every sequence of operations, including those made from inside notifications',
     'Six scripted tests on one three-state configuration.',
     [SMD + 'src/state_machine_impl.cpp', SMD + 'src/sm_factory_impl.cpp', SMD + 'src/transition_impl.cpp', SMD + 'src/state_impl.cpp'],
     [('event queue and transition lookup', SMD + 'src/state_machine_impl.cpp')], observe=['notifications to each observer'])
prop('C25', 'State machine listeners run exactly the actions that are due',
     'When a state is entered a listener runs that state\'s one-off actions, then its entry actions, then its periodic actions, in the order they were added; on an update without change only the periodic ones. A one-off action runs at most once ever; removing the actions '
     'of a state, or all, removes every kind. Actions may add and remove actions, raise events and update the machine while they run.',
     ['programs', 'histories'], 'every sequence of additions, removals and notifications, including those made by the actions',
     'Three scripted tests with one action per state.',
     [SMD + 'src/state_machine_listener.cpp', SMD + 'src/state_machine_impl.cpp'], [('action tables per complete state name', SMD + 'src/state_machine_listener.cpp')], observe=['actions run per notification'])
prop('C26', 'State machine files are loaded exactly as written or refused',
     'Loading a state machine description gives exactly the identifier, states and transitions written in the file, in order, whatever its layout, key order, escapes or additional keys, and the machine and listener created from it behave accordingly. '
     'A missing, truncated, malformed or incomplete file is refused with an exception.',
     ['inputs', 'configurations'], 'every description and every textual form of it, every truncation or damage',
     'One well-formed file is loaded.',
     ['state_machine/modules/json_conf/src/json_config_loader.cpp', 'state_machine/modules/json_conf/include/klepsydra/state_machine/json_to_state_machine.h', 'state_machine/modules/json_conf/src/kpsr_state_machine.cpp'],
     [('cereal JSON archive with named fields', 'state_machine/modules/json_conf/include/klepsydra/state_machine/json_to_state_machine.h')], observe=['loaded configuration, behaviour of the machine'])
prop('C10', 'Scheduled tasks run once or at their period, never after being stopped',
     'A task scheduled once runs exactly once and a repeated one again and again, never before its delay or more often than its period (the time the task takes being part of the period), never overlapping itself and only on a thread of the scheduler; '
     'once a stop has returned the task is not running and never runs again, and setting the system clock changes none of it. Scheduling a name again replaces its task, destroying the scheduler ends them all, and tasks may stop, replace or start tasks; '
     'services are executed likewise, and all of this from several threads.',
     ['schedules', 'histories'], 'every sequence and interleaving of starting, stopping, replacing and destroying, every delay, period and duration, every step of the system clock',
     'The scheduler tests are not built here and run one task with sleeps.',
     [MEM + 'basic_scheduler.h', 'core/modules/mem_mdlw/src/basic_scheduler.cpp'], [('one thread per scheduled name', 'core/modules/mem_mdlw/src/basic_scheduler.cpp')],
     observe=['time, thread and overlap of every run against the scheduling calls'])
prop('C18', 'The event loop delivers every event once, in order, or counts it as discarded',
     'Every event published to an event loop is either delivered exactly once, with its content and under its name, to each listener of that name, on the single thread of the loop and in the order of acceptance, or counted as discarded by its '
     'publisher; exactly as many events as the ring has slots are accepted while the loop is busy, and an event is let go once delivered. Stopping (also by what runs on the loop), restarting or destroying the loop at any moment neither hangs nor delivers while stopped nor loses '
     'accepted events, and a listener that throws costs no other event.',
     ['schedules', 'histories', 'configurations'], 'every number of publishers, names and threads, ring and pool size, moment of stopping and restarting, listener behaviour',
     'The event loop tests are not built here, use a ring of four to a few slots with sleeps, and never restart with events pending.',
     [HP + 'event_loop.h', HP + 'event_loop_publisher.h', HP + 'event_loop_subscriber.h', HP + 'event_loop_event_handler.h', HP + 'event_loop_middleware_provider.h'],
     [('multi-producer ring, one batch processor re-emitting by name', HP + 'event_loop.h')], observe=['per-listener logs, discard counters, loop thread identity, statistics left in the container'])
prop('C19', 'Tasks scheduled on the event loop run on its thread, one at a time',
     'Tasks and services scheduled through an event loop run on the thread of that loop, never at the same time as another task or listener, once or repeatedly as asked and not before their delay; one that has been stopped does not run again after '
     'what was already queued has been processed. Tasks may stop themselves and schedule others, and the loop can be destroyed with tasks scheduled.',
     ['schedules', 'histories'], 'every sequence of scheduling operations from outside and inside tasks, with any event traffic',
     'Two scheduler tests, not built here, count runs after sleeps.',
     [HP + 'event_loop_scheduler.h', 'high_performance/modules/high_performance/src/event_loop_scheduler.cpp', HP + 'event_loop_function_exec_listener.h', HP + 'event_loop_middleware_provider.h'],
     [('timer threads publish functions to the loop', 'high_performance/modules/high_performance/src/event_loop_scheduler.cpp')], observe=['thread, time and overlap of every run'])
prop('C20', 'The data multiplexer gives each subscriber the newest event and accounts for all',
     'Each subscriber of a data multiplexer is given, on a thread of its own, an increasing selection of the accepted events, always the newest one published by the time it asks and in the end the last one, whole and unchanged while it looks at it, '
     'whatever way of publishing, initialiser, model event or cloner is used; skipped events are counted, so that delivered plus discarded equals accepted for each listener. The publisher never waits: it refuses and counts an event only when a '
     'subscriber still holds every slot of the ring, and a publication that fails while the event is filled in changes nothing. Creating, failing to start and destroying subscribers at any moment is safe.',
     ['schedules', 'histories', 'configurations'], 'every number and speed of subscribers and listeners, ring size, construction and publishing style',
     'The multiplexer tests are not built here, publish a few hundred events with sleeps and check only the last one.',
     [HP + 'data_multiplexer_publisher.h', HP + 'data_multiplexer_subscriber.h', HP + 'data_multiplexer_event_handler.h', HP + 'data_multiplexer_middleware_provider.h', HP + 'data_multiplexer_event_data.h'],
     [('one batch processor per subscriber, only the last event of a batch is emitted', HP + 'data_multiplexer_event_handler.h')], observe=['per-listener logs, content before and after each callback, discard counters'])
prop('C11', 'A callback handler answers every request once, with its own reply',
     'Each request is published once and its callback is run exactly once, with the first reply correlated to it after it was made and still unanswered, the oldest such request first; replies that match nothing change nothing. Callbacks and publications may '
     'make further requests and cause replies on the spot, and callbacks may throw. The thread-safe handler keeps this with any number of threads requesting and replying.',
     ['schedules', 'histories'], 'every sequence and interleaving of requests and replies, every correlation, including what happens inside callbacks',
     'The callback tests are not built here and answer a handful of requests one after another.',
     [CORE + 'callback_handler.h'], [('table of open requests searched by a correlation function', CORE + 'callback_handler.h')], observe=['callback runs against the requests made', 'deadlocks'])
prop('C12', 'A container holds exactly what is attached and starts and stops it',
     'After any history of attaching and detaching, a container holds exactly the services and statistics attached and not detached, whether or not names are shared; starting and stopping it reaches all of them, and one attached while it runs is '
     'started. This holds with several threads attaching, detaching, starting and stopping. Every component given a container removes all that it put there when it is destroyed or moved to another, and a destroyed service gets no system event.',
     ['histories', 'schedules', 'configurations'], 'every sequence and interleaving of attachments, starts, stops and destructions, equal names included',
     'The container tests are not built here and attach one object of each kind.',
     ['core/modules/core/src/core_container.cpp', CORE + 'core_container.h', CORE + 'manage_service.h', HP + 'event_loop_middleware_provider.h', MEM + 'in_memory_middleware_provider.h', CORE + 'event_emitter_middleware_provider.h'],
     [('raw pointers to statistics kept in vectors', 'core/modules/core/src/core_container.cpp')], observe=['contents and state of every statistic', 'use after free'])
prop('C13', 'Configuration is read, kept and written back exactly',
     'What is loaded from JSON or property files, or set, is what is returned, by type, name and section, with the default for what is absent; a later setting replaces an earlier one, loading adds only what is there, and exporting and loading again gives '
     'the same configuration. Malformed input is refused and leaves the configuration as it was. Shared environments can be read and written from several threads.',
     ['inputs', 'histories', 'schedules'], 'every content, layout and damage of a document, every sequence of settings, copies, loads and exports',
     'The environment tests are not built here and read a few well-formed keys.',
     ['core/modules/core/src/configuration_environment.cpp', CORE + 'configuration_environment.h', CORE + 'configuration_properties.h', CORE + 'property.h', 'core/modules/core/src/prop_file_environment.cpp', CORE + 'config_file.h',
      CORE + 'prop_file_convert.h', MEM + 'mem_env.h', 'core/modules/mem_mdlw/src/mem_env.cpp'],
     [('typed property tables loaded and stored by cereal', CORE + 'configuration_environment.h')], observe=['every property against a reference model', 'refusals'])
prop('C27', 'Events and settings cross ZeroMQ sockets whole, in order, whatever others send',
     'Events published to ZeroMQ topics in any of the three formats, by any threads and sockets, reach whoever has registered for the topic exactly once, unchanged and in the order of each publisher, also while receivers start, stop (also by their own listeners), register, unregister and are destroyed; nothing is delivered after stopping or unregistering returns. '
     'A message holds the topic and the encoded event, nothing else; malformed, truncated or foreign messages and interrupted system calls affect nothing else. '
     'Environments with the same key show every setting made in one of them, those with another key never do, for any threads that read and set.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'], 'every format, number of sockets, topics and threads, every sequence of lifecycle operations, every message another program may send, interrupts at any poll',
     'The ZeroMQ tests are not built here, and send a few events in one format over one socket; none sends a malformed message, restarts a receiver or publishes from two threads.',
     [Z + 'zmq_poller.h', Z + 'json_zmq_poller.h', Z + 'binary_zmq_poller.h', Z + 'void_caster_zmq_poller.h', Z + 'from_zmq_middleware_provider.h', Z + 'to_zmq_middleware_provider.h',
      Z + 'json_to_zmq_channel.h', Z + 'binary_to_zmq_channel.h', Z + 'void_caster_to_zmq_channel.h', Z + 'zmq_env.h', 'core/modules/zmq_mdlw/src/zmq_env.cpp'],
     [('polling thread that owns the receiving socket', Z + 'zmq_poller.h'), ('whole configuration published on every setting', 'core/modules/zmq_mdlw/src/zmq_env.cpp')],
     observe=['listeners of every topic', 'properties of every environment', 'use of every socket'])

prop('C28', 'Caches hold the last event, forwarders pass on every event',
     'A caching listener always returns the last event it received, whole, together with the right count, and events obtained earlier never change; the thread-safe one keeps counter and event together for any number of threads. '
     'Events forwarded through any chain of middlewares arrive at its end exactly once, unchanged and in the order of each publisher.',
     ['schedules', 'histories', 'configurations'], 'every sequence of events by value or pointer, every number of threads, every chain of middlewares',
     'The listeners are used in tests that are not built here, with one event at a time.',
     [CORE + 'cache_listener.h', CORE + 'event_forwarder.h', CORE + 'event_emitter_publisher.h', CORE + 'event_emitter_middleware_provider.h'],
     [('copy of the last event behind a mutex', CORE + 'cache_listener.h')], observe=['cached events and counters', 'end of the chain'])
