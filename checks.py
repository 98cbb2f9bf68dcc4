"""Which harness scenarios decide which property."""
SOURCES = {
    'stack': {},
    'pool': {},
    'disruptor': {},
    'mem': {'repo': ['core/modules/mem_mdlw/src/in_memory_queue_poller.cpp'], 'flags_tsan': ['-DNO_CONCURRENT=true']},
    'socket': {'repo': ['core/modules/socket_mdlw/src/%s.cpp' % x for x in ('base_socket', 'connect_socket', 'data_socket', 'protocol', 'protocol_simple', 'server_socket')],
               'wrap': ['-Wl,' + ','.join('--wrap=' + x for x in ('read', 'write', 'recv', 'send', 'close', 'socket', 'accept', 'accept4', 'bind', 'listen', 'connect'))]},
    'serial': {},
    'emitter': {},
    'mux': {},
    'zmq': {'repo': ['core/modules/zmq_mdlw/src/zmq_env.cpp', 'core/modules/core/src/configuration_environment.cpp'], 'libs': ['-lzmq']},
    'cache': {'repo': ['core/modules/mem_mdlw/src/in_memory_queue_poller.cpp', 'high_performance/modules/high_performance/src/event_loop_scheduler.cpp', 'core/modules/mem_mdlw/src/basic_scheduler.cpp'], 'flags_tsan': ['-DNO_CONCURRENT=true']},
    'config': {'repo': ['core/modules/core/src/configuration_environment.cpp', 'core/modules/core/src/prop_file_environment.cpp', 'core/modules/mem_mdlw/src/mem_env.cpp']},
    'callback': {'repo': ['core/modules/mem_mdlw/src/in_memory_queue_poller.cpp'], 'flags_tsan': ['-DNO_CONCURRENT=true']},
    'container': {'repo': ['core/modules/core/src/core_container.cpp', 'core/modules/mem_mdlw/src/in_memory_queue_poller.cpp', 'high_performance/modules/high_performance/src/event_loop_scheduler.cpp', 'core/modules/mem_mdlw/src/basic_scheduler.cpp']},
    'sched': {'repo': ['high_performance/modules/high_performance/src/event_loop_scheduler.cpp', 'core/modules/mem_mdlw/src/basic_scheduler.cpp']},
    'eloop': {'repo': ['high_performance/modules/high_performance/src/event_loop_scheduler.cpp', 'core/modules/mem_mdlw/src/basic_scheduler.cpp']},
    'sm': {'repo': ['state_machine/modules/state_machine/src/%s.cpp' % x for x in ('sm_factory_impl', 'state_impl', 'state_machine_impl', 'state_machine_listener', 'transition_impl')] +
           ['state_machine/modules/json_conf/src/%s.cpp' % x for x in ('json_config_loader', 'kpsr_state_machine')]},
}
PROPS = {
    'C01': dict(
        rule='stack_lin: random scripts on 1-4 slots and 2-4 threads, history checked against a LIFO model (non-trivial: at least two operations '
             'overlapped); stack_circulate: owned payloads circulating between 2-6 threads; stack_suspend: a thread stopped at an arbitrary '
             'instruction for exactly 2^16 operations of others; stack_model: sequential agreement with a vector. Distinct by script/parameters.',
        must_observe=['overlapping_pairs', 'circulate_pops', 'suspensions', 'model_full_answers', 'model_empty_answers'],
        jobs=[('stack', 'noise', 'stack_lin', 3000, 100000), ('stack', 'fast', 'stack_lin', 5000, 200000), ('stack', 'tsan', 'stack_lin', 600, 20000),
              ('stack', 'tsan', 'stack_circulate', 60, 1500), ('stack', 'asan', 'stack_circulate', 60, 1500), ('stack', 'fast', 'stack_circulate', 300, 8000),
              ('stack', 'fast', 'stack_suspend', 30, 600), ('stack', 'asan', 'stack_model', 60, 1000)]),
    'C02': dict(
        rule='pool_model: random acquire/release scripts against a counter of objects out (non-trivial: the pool was exhausted or objects outlived it); '
             'pool_stress: 2-6 threads acquire, write, hand over and release, half of the cases destroy the pool while objects are being returned. '
             'Distinct by parameters and outcome counts.',
        must_observe=['pool_exhaustions', 'objects_outliving_pool', 'failed_acquisitions', 'destroyed_while_returning'],
        jobs=[('pool', 'asan', 'pool_model', 800), ('pool', 'asan', 'pool_stress', 150), ('pool', 'tsan', 'pool_stress', 120), ('pool', 'fast', 'pool_stress', 1500)]),
    'C03': dict(
        rule='pub_content: 1-4 threads publish generated events by value, by processing function and by pointer; every event still held is compared with '
             'what was given after each later publication. Distinct by configuration.',
        must_observe=['publications', 'pool_overflow_allocations'],
        jobs=[('pool', 'asan', 'pub_content', 200), ('pool', 'tsan', 'pub_content', 80), ('pool', 'fast', 'pub_content', 1000)]),
    'C04': dict(
        rule='emit_model: random scripts of registrations, removals, emissions and discards on each emitter, half of them with listeners that register, remove and emit from inside; '
             'emit_subscriber: named listeners through the subscriber class. Non-trivial: something was delivered. Distinct by operation sequence.',
        must_observe=['deliveries', 'nested_emissions', 'acts_inside_listeners', 'safe_cases', 'multi_cases', 'single_cases', 'subscriber_emissions'], oracle='sequential reference model and container monitor',
        jobs=[('emitter', 'asan', 'emit_model', 4000), ('emitter', 'fast', 'emit_model', 20000), ('emitter', 'asan', 'emit_subscriber', 2000), ('emitter', 'fast', 'emit_subscriber', 10000)]),
    'C05': dict(
        rule='emit_threads: 1-3 emitting and 1-2 registering threads, each delivery judged against the times of registration, removal and emission; emit_clear: all listeners removed '
             'while others emit. Distinct by configuration.',
        must_observe=['concurrent_deliveries', 'one_off_runs', 'deliveries_racing_registration', 'clears'], oracle='interval-based delivery oracle',
        jobs=[('emitter', 'noise', 'emit_threads', 200), ('emitter', 'tsan', 'emit_threads', 80), ('emitter', 'asan', 'emit_threads', 60), ('emitter', 'fast', 'emit_threads', 500),
              ('emitter', 'tsan', 'emit_clear', 40), ('emitter', 'noise', 'emit_clear', 60), ('emitter', 'asan', 'emit_clear', 40)]),
    'C14': dict(
        rule='claim_model: random claim/publish/consume scripts from several starting sequences (past 2^31 too) against a model of the ring; '
             'claim_threads: 1-4 producers and 1-3 consumers on rings of 2-64 slots; sequence_ops: threads advancing one position. Non-trivial: the ring wrapped and refused a claim, or several producers or consumers.',
        must_observe=['refused_claims', 'wrapping_claims', 'cases_past_2^31', 'claimed_concurrently', 'positions_advanced', 'jumps_ahead_of_a_consumer'],
        jobs=[('disruptor', 'asan', 'claim_model', 2000), ('disruptor', 'fast', 'claim_model', 4000), ('disruptor', 'noise', 'claim_threads', 120),
              ('disruptor', 'tsan', 'claim_threads', 60), ('disruptor', 'fast', 'claim_threads', 400),
              ('disruptor', 'noise', 'sequence_ops', 150), ('disruptor', 'tsan', 'sequence_ops', 60)]),
    'C15': dict(
        rule='delivery: 1-3 producers, one consumer, independent consumers, a pipeline, a diamond or a wide fan-in, every wait strategy, handlers that are slow or throw. '
             'Distinct by configuration.',
        must_observe=['events_delivered', 'multi_event_batches', 'handler_exceptions', 'relays'],
        jobs=[('disruptor', 'noise', 'delivery', 120), ('disruptor', 'tsan', 'delivery', 80), ('disruptor', 'asan', 'delivery', 60), ('disruptor', 'fast', 'delivery', 400)]),
    'C16': dict(
        rule='wait_pingpong: two rings whose every publication (of 1-4 events) must wake the other side; wait_outcomes: a waiter that is served, alerted or times out, with 0-3 dependencies; wait_timed: a timeout of 0.4 s that must not be what wakes the waiter, and waits for nothing that must time out. '
             'Distinct by strategy and parameters.',
        must_observe=['wakeups', 'waits_completed', 'waits_alerted', 'wait_timeouts', 'timely_wakeups', 'batches_that_wake', 'timeouts_awaited', 'waits_behind_an_open_claim'],
        jobs=[('disruptor', 'fast', 'wait_sweep', 200), ('disruptor', 'fast', 'wait_pingpong', 300), ('disruptor', 'noise', 'wait_pingpong', 40), ('disruptor', 'tsan', 'wait_pingpong', 20),
              ('disruptor', 'noise', 'wait_outcomes', 800), ('disruptor', 'tsan', 'wait_outcomes', 200), ('disruptor', 'asan', 'wait_outcomes', 200),
              ('disruptor', 'noise', 'wait_timed', 60), ('disruptor', 'fast', 'wait_timed', 60)]),
    'C17': dict(
        rule='proc_lifecycle: a processor halted and restarted 1-6 times while events flow and handlers throw; proc_halt_race: halts right after start. '
             'Distinct by configuration.',
        must_observe=['runs_of_a_processor', 'foreign_exceptions', 'handler_exceptions', 'timeouts_notified', 'immediate_halts', 'alerts_while_running', 'runs_at_once'],
        jobs=[('disruptor', 'noise', 'proc_lifecycle', 200), ('disruptor', 'tsan', 'proc_lifecycle', 80), ('disruptor', 'asan', 'proc_lifecycle', 60),
              ('disruptor', 'noise', 'proc_halt_race', 60), ('disruptor', 'tsan', 'proc_halt_race', 20)]),
    'C06': dict(
        rule='queue_lin: random scripts of all sixteen operations, 2-4 threads, histories checked against a bounded FIFO; queue_stress/queue_force: producers and '
             'consumers of every kind; queue_values: copies, moves, swaps against deques; queue_exchange: swaps and assignments from several threads. Non-trivial: '
             'operations overlapped / items discarded / a queue was copied.',
        must_observe=['overlapping_pairs', 'items_through_queue', 'items_discarded', 'queues_copied_or_moved', 'exchanges'],
        jobs=[('mem', 'noise', 'queue_lin', 1500), ('mem', 'fast', 'queue_lin', 1500), ('mem', 'tsan', 'queue_lin', 300), ('mem', 'asan', 'queue_lin', 300),
              ('mem', 'asan', 'queue_values', 1500), ('mem', 'noise', 'queue_stress', 40), ('mem', 'tsan', 'queue_stress', 30), ('mem', 'asan', 'queue_stress', 30),
              ('mem', 'fast', 'queue_stress', 150), ('mem', 'tsan', 'queue_force', 20), ('mem', 'noise', 'queue_force', 60),
              ('mem', 'tsan', 'queue_exchange', 30), ('mem', 'noise', 'queue_exchange', 60)]),
    'C07': dict(
        rule='queue_wake: a blocked or timed operation and the event that must end it, at varying delays; queue_crowd: 2-5 operations blocked at once and a burst of what lets them go on, after which nobody may be blocked on a queue with room or items for him. Distinct by kind, capacity, burst and delay.',
        must_observe=['timeouts_observed', 'wakeups_observed', 'crowd_woken_by_burst'],
        jobs=[('mem', 'noise', 'queue_crowd', 1500), ('mem', 'fast', 'queue_crowd', 1500), ('mem', 'tsan', 'queue_crowd', 300),
              ('mem', 'noise', 'queue_wake', 1500), ('mem', 'tsan', 'queue_wake', 400), ('mem', 'fast', 'queue_wake', 1500), ('mem', 'fast', 'queue_stress', 100)]),
    'C08': dict(
        rule='mem_delivery: basic and concurrent middleware, blocking and discarding, 1-3 publishers and listeners, pools of every size; emitter_delivery: the same for '
             'direct delivery; mem_lifecycle: nothing accepted is lost over stops and starts. Distinct by configuration.',
        must_observe=['events_delivered', 'events_discarded', 'concurrent_cases', 'basic_cases', 'discarding_cases', 'blocking_cases', 'listener_failures', 'waits_measured', 'start_stop_rounds', 'long_stalls_of_listeners'],
        jobs=[('mem', 'noise', 'mem_delivery', 100), ('mem', 'tsan', 'mem_delivery', 60), ('mem', 'asan', 'mem_delivery', 60), ('mem', 'fast', 'mem_delivery', 150),
              ('mem', 'tsan', 'emitter_delivery', 30), ('mem', 'noise', 'emitter_delivery', 40),
              ('mem', 'fast', 'mem_lifecycle', 100), ('mem', 'noise', 'mem_lifecycle', 50),
              ('mem', 'fast', 'mem_throwing', 150), ('mem', 'noise', 'mem_throwing', 60), ('mem', 'tsan', 'mem_throwing', 30)]),
    'C09': dict(
        rule='mem_lifecycle: 1-6 start/stop rounds with events flowing, half destroyed while running; poller_race: starts that give up, immediate stops. Distinct by configuration.',
        must_observe=['start_stop_rounds', 'destroyed_while_running', 'poller_rounds', 'starts_given_up', 'events_delivered', 'stopped_by_listener'],
        jobs=[('mem', 'noise', 'mem_lifecycle', 150), ('mem', 'tsan', 'mem_lifecycle', 60), ('mem', 'asan', 'mem_lifecycle', 100),
              ('mem', 'noise', 'poller_race', 60), ('mem', 'tsan', 'poller_race', 20),
              ('mem', 'fast', 'mem_selfstop', 200), ('mem', 'noise', 'mem_selfstop', 100), ('mem', 'tsan', 'mem_selfstop', 50), ('mem', 'asan', 'mem_selfstop', 60)]),
    'C21': dict(
        rule='sock_message: 1-4 clients request and reply through a server (unix and tcp) with short, interrupted and refused transfers injected; sock_stream: a stream '
             'read in pieces with end predicates and connections that break at a chosen byte. Distinct by sizes, faults and break point.',
        must_observe=['messages_round_trip', 'short_transfers', 'interrupted_transfers', 'terminated_reads', 'broken_reads', 'failed_writes'],
        oracle='byte-exact comparison under injected transport faults',
        jobs=[('socket', 'asan', 'sock_message', 250), ('socket', 'noise', 'sock_message', 250), ('socket', 'tsan', 'sock_message', 80),
              ('socket', 'asan', 'sock_stream', 600), ('socket', 'fast', 'sock_stream', 1500)]),
    'C22': dict(
        rule='sock_own: random scripts over socket objects against a table of owned descriptors (non-trivial: closed or moved objects were used); sock_fail: ten kinds of '
             'failure; sock_churn: sockets opened and closed by 2-5 threads; sock_late: 5-9 servers waiting up to 6 s for clients that come late or never, under signals. Distinct by script.',
        must_observe=['uses_of_closed_sockets', 'closes_watched', 'failures_reported', 'churned_sockets', 'accepts_under_signals', 'accept_timeouts', 'late_clients', 'waits_without_a_client', 'failing_system_calls', 'descriptor_zero'],
        oracle='descriptor-ownership monitor over wrapped system calls',
        jobs=[('socket', 'asan', 'sock_own', 1500), ('socket', 'fast', 'sock_own', 3000), ('socket', 'asan', 'sock_fail', 200), ('socket', 'fast', 'sock_fail', 200),
              ('socket', 'noise', 'sock_churn', 60), ('socket', 'tsan', 'sock_churn', 30),
              ('socket', 'fast', 'sock_late', 3, 120, 3)]),
    'C23': dict(
        rule='generated events (extreme numbers, unicode, control characters, nested containers) through the raw, identity, JSON and binary mappers and both channel classes; every message '
             'also truncated and damaged. Distinct by message.',
        must_observe=['large_events', 'json_round_trips', 'binary_round_trips', 'identity_round_trips', 'short_messages_refused', 'truncated_refused', 'damaged_refused', 'channel_events', 'concurrent_round_trips'],
        oracle='round-trip comparison and refusal of damaged messages',
        jobs=[('serial', 'asan', 'serial_cast', 1500), ('serial', 'asan', 'serial_json', 500), ('serial', 'asan', 'serial_binary', 800), ('serial', 'asan', 'serial_channel', 500),
              ('serial', 'fast', 'serial_json', 2000), ('serial', 'fast', 'serial_channel', 2000), ('serial', 'fast', 'serial_binary', 2000), ('serial', 'tsan', 'serial_threads', 40)]),
    'C24': dict(
        rule='random machines (1-6 states, also transitions to undefined states) driven by random scripts of start, stop, reset, events and updates, observers coming and going, also from '
             'inside notifications; every observer compared with the reference model. Non-trivial: a transition was taken. Distinct by machine and script.',
        must_observe=['transitions', 'updates_without_transition', 'resets'], oracle='reference model of the configured machine',
        jobs=[('sm', 'asan', 'sm_model', 3000), ('sm', 'fast', 'sm_model', 15000)]),
    'C25': dict(
        rule='random machines and listeners; actions add and remove actions, raise events and update the machine from inside; each notification round checked against the actions '
             'registered. Non-trivial: an action ran. Distinct by machine and script.',
        must_observe=['actions_run', 'actions_added_inside', 'actions_removed_inside', 'nested_updates'], oracle='online monitor of each notification round',
        jobs=[('sm', 'asan', 'sm_listener', 3000), ('sm', 'fast', 'sm_listener', 15000)]),
    'C26': dict(
        rule='random configurations written as JSON with random layout, key order, escapes and foreign keys; loaded, run against the reference model, then truncated, damaged and made incomplete. '
             'Non-trivial: the loaded machine took a transition. Distinct by text.',
        must_observe=['configurations_loaded', 'configurations_refused', 'configurations_that_are_not_json', 'transitions_of_loaded_machines'], oracle='round trip through files and refusal of damaged ones',
        jobs=[('sm', 'asan', 'sm_json', 800), ('sm', 'fast', 'sm_json', 3000)]),
    'C10': dict(
        rule='sched_basic: random scripts of scheduling once/repeatedly, replacing, stopping, services and destruction, tasks that stop, replace or start tasks; sched_threads: 2-4 threads on one '
             'scheduler; sched_clash: the same under shared names; sched_pace: interval between runs against a control; sched_clock: the system clock set back and forth while tasks run. Non-trivial: a task ran. Distinct by script.',
        must_observe=['task_runs', 'tasks_replaced', 'stopped_while_pending', 'self_stops', 'tasks_started_by_tasks', 'destroyed_with_repeating_tasks', 'destroyed_with_finished_tasks', 'threaded_runs', 'clashing_tasks', 'paced_runs', 'clock_steps'],
        oracle='online monitor of every run (time, thread, overlap, state of the task)',
        jobs=[('sched', 'fast', 'sched_basic', 800), ('sched', 'noise', 'sched_basic', 300), ('sched', 'tsan', 'sched_basic', 150), ('sched', 'asan', 'sched_basic', 150),
              ('sched', 'tsan', 'sched_threads', 150), ('sched', 'asan', 'sched_threads', 150), ('sched', 'noise', 'sched_threads', 150),
              ('sched', 'noise', 'sched_clash', 150), ('sched', 'tsan', 'sched_clash', 80), ('sched', 'asan', 'sched_clash', 80), ('sched', 'fast', 'sched_pace', 40), ('sched', 'fast', 'sched_clock', 60), ('sched', 'noise', 'sched_clock', 40)]),
    'C18': dict(
        rule='eloop_accept: 1-4 producers on 1-4 names, rings of 2-512; eloop_capacity: a blocked listener, exactly as many events accepted as slots; eloop_restart: started, stopped, restarted and '
             'destroyed with events pending. Distinct by configuration.',
        must_observe=['events_delivered', 'events_discarded', 'shared_publisher_cases', 'full_rings', 'restarts', 'destroyed_running', 'destroyed_busy', 'events_across_restarts', 'start_timeouts', 'stopped_by_task', 'stopped_by_listener',
                      'published_after_self_stop', 'events_released', 'waits_measured'],
        oracle='offline conservation and order check of delivery logs, online monitor of the loop thread',
        jobs=[('eloop', 'fast', 'eloop_accept', 600), ('eloop', 'noise', 'eloop_accept', 200), ('eloop', 'tsan', 'eloop_accept', 80), ('eloop', 'asan', 'eloop_accept', 120),
              ('eloop', 'fast', 'eloop_capacity', 600), ('eloop', 'noise', 'eloop_capacity', 200), ('eloop', 'asan', 'eloop_capacity', 100),
              ('eloop', 'fast', 'eloop_restart', 400), ('eloop', 'noise', 'eloop_restart', 200), ('eloop', 'tsan', 'eloop_restart', 80), ('eloop', 'asan', 'eloop_restart', 150),
              ('eloop', 'fast', 'eloop_selfstop', 300), ('eloop', 'noise', 'eloop_selfstop', 150), ('eloop', 'tsan', 'eloop_selfstop', 60), ('eloop', 'asan', 'eloop_selfstop', 100)]),
    'C19': dict(
        rule='sched_loop: the scripts of C10 on the scheduler of an event loop with rings of 64-256 slots and event traffic. Non-trivial: a task ran. Distinct by script.',
        must_observe=['loop_task_runs', 'self_stops', 'tasks_replaced', 'tasks_started_by_tasks', 'stopped_while_pending'],
        oracle='online monitor of every run (thread, overlap, time, state of the task)',
        jobs=[('sched', 'fast', 'sched_loop', 400), ('sched', 'noise', 'sched_loop', 200), ('sched', 'tsan', 'sched_loop', 100), ('sched', 'asan', 'sched_loop', 150)]),
    'C20': dict(
        rule='mux_stream: 1-4 subscribers with 1-3 listeners of different speed, four ways of publishing, three constructors; mux_capacity: one subscriber blocked, exactly a ring of events accepted, '
             'then only the newest delivered; mux_life: multiplexers destroyed busy, subscribers that time out. Distinct by configuration.',
        must_observe=['conflated_events', 'delivered_events', 'late_subscribers', 'refused_events', 'full_rings', 'destroyed_busy', 'start_timeouts', 'failed_publications'],
        oracle='online content/order/freshness monitor and conservation of the counters',
        jobs=[('mux', 'fast', 'mux_stream', 500), ('mux', 'noise', 'mux_stream', 200), ('mux', 'tsan', 'mux_stream', 120), ('mux', 'asan', 'mux_stream', 120),
              ('mux', 'fast', 'mux_capacity', 500), ('mux', 'noise', 'mux_capacity', 200), ('mux', 'tsan', 'mux_capacity', 60),
              ('mux', 'noise', 'mux_life', 150), ('mux', 'tsan', 'mux_life', 80), ('mux', 'asan', 'mux_life', 120)]),
    'C11': dict(
        rule='cb_model: random scripts of requests and replies with several correlation functions, callbacks that request, reply or throw, publishers that answer on the spot; cb_threads: 1-4 requesting '
             'and replying threads. Distinct by script.',
        must_observe=['acts_inside_callbacks', 'answered_during_request', 'callbacks_that_threw', 'several_pending', 'replies_unmatched', 'requests_concurrently', 'requests_from_callbacks', 'superfluous_replies'],
        oracle='reference model of the open requests; exactly-once accounting per request',
        jobs=[('callback', 'asan', 'cb_model', 2000), ('callback', 'fast', 'cb_model', 8000), ('callback', 'tsan', 'cb_threads', 100), ('callback', 'noise', 'cb_threads', 150),
              ('callback', 'asan', 'cb_threads', 80), ('callback', 'fast', 'cb_threads', 500)]),
    'C12': dict(
        rule='container_model: random scripts of attaching, detaching, starting and stopping, names used again, objects freed once detached; container_threads: the same from 2-4 threads; container_toggle: objects attached during one start or stop; managed_service: services '
             'destroyed between system events; container_components: every middleware with a container, moved or destroyed; container_moves: an event loop and its scheduler moved between three containers. Distinct by script.',
        must_observe=['names_used_again', 'attached_while_running', 'destroyed_after_detach', 'started_or_stopped_concurrently', 'attached_while_toggled', 'services_destroyed', 'middlewares_made', 'moves_between_containers', 'system_events'],
        oracle='reference model of the container contents; address and thread sanitizer',
        jobs=[('container', 'noise', 'container_toggle', 150), ('container', 'fast', 'container_toggle', 200), ('container', 'tsan', 'container_toggle', 60),
              ('container', 'asan', 'container_model', 1500), ('container', 'fast', 'container_model', 5000), ('container', 'tsan', 'container_threads', 100), ('container', 'asan', 'container_threads', 80),
              ('container', 'noise', 'container_threads', 100), ('container', 'asan', 'managed_service', 800), ('container', 'asan', 'container_components', 300), ('container', 'fast', 'container_components', 600),
              ('container', 'asan', 'container_moves', 150), ('container', 'fast', 'container_moves', 600)]),
    'C13': dict(
        rule='env_model: random scripts of setting, loading, exporting, copying and updating with generated JSON documents, also damaged; prop_file: generated property files with blanks, comments, numbers in both '
             'bases and malformed lines; mem_env: one environment shared by threads; dynamic_model: dynamic properties. Distinct by script and content.',
        must_observe=['documents_loaded', 'documents_refused', 'documents_partly_present', 'export_round_trips', 'values_with_blanks', 'hexadecimal_values', 'malformed_numbers', 'malformed_property_files',
                      'environment_shared_rounds', 'properties_overwritten', 'type_clashes', 'dynamic_round_trips'],
        oracle='reference model of every property',
        jobs=[('config', 'asan', 'env_model', 800), ('config', 'fast', 'env_model', 3000), ('config', 'asan', 'prop_file', 500), ('config', 'fast', 'prop_file', 1500),
              ('config', 'tsan', 'mem_env', 60), ('config', 'asan', 'mem_env', 60), ('config', 'noise', 'mem_env', 80), ('config', 'asan', 'dynamic_model', 600), ('config', 'fast', 'dynamic_model', 2000)]),
    'C27': dict(
        rule='zmq_stream: 1-3 publishing sockets with 1-2 threads each, 1-4 topics, one of the three formats, with messages of a hostile socket and interrupted polls; zmq_life: random sequences of starting, stopping, '
             'registering, unregistering (also from inside a listener) and destroying while events flow; zmq_env: 2-3 environments of one key and one of another, with readers, several setting threads and hostile messages. '
             'zmq_wire: the bytes of every message seen by a plain socket. Sockets are real libzmq ones over inproc. Distinct by configuration and sequence.',
        must_observe=['zmq_events', 'messages_on_the_wire', 'json_cases', 'binary_cases', 'caster_cases', 'hostile_messages', 'interrupted_polls', 'sockets_shared_by_publishers', 'zmq_restarts', 'topics_registered_again', 'unregistered_inside', 'stopped_inside',
                      'zmq_destroyed', 'settings_propagated', 'environment_reads', 'hostile_environment_messages', 'concurrent_settings', 'environments_of_another_key', 'files_loaded_into_environments', 'settings_followed_by_no_other'],
        oracle='exactly-once, content and order check per topic and publisher; delivery after stop or unregister; reference model of the settings; monitor of socket use (one thread at a time, multi-part messages unbroken)',
        jobs=[('zmq', 'asan', 'zmq_stream', 80), ('zmq', 'tsan', 'zmq_stream', 50), ('zmq', 'noise', 'zmq_stream', 80), ('zmq', 'fast', 'zmq_stream', 300),
              ('zmq', 'asan', 'zmq_life', 80), ('zmq', 'tsan', 'zmq_life', 60), ('zmq', 'noise', 'zmq_life', 100), ('zmq', 'fast', 'zmq_life', 300),
              ('zmq', 'asan', 'zmq_env', 60), ('zmq', 'tsan', 'zmq_env', 40), ('zmq', 'noise', 'zmq_env', 60), ('zmq', 'fast', 'zmq_env', 150),
              ('zmq', 'fast', 'zmq_wire', 150), ('zmq', 'asan', 'zmq_wire', 60), ('zmq', 'tsan', 'zmq_wire', 40)]),
    'C28': dict(
        rule='cache_model: each caching listener given events by value, pointer and subscription; cache_threads: 1-3 writers and 1-3 readers; forward_chain: 1-3 publishers through 2-4 middlewares of different kinds. '
             'Distinct by configuration.',
        must_observe=['cached_events', 'cached_concurrently', 'counter_event_pairs', 'pairs_seen_by_several', 'events_forwarded', 'chains'],
        oracle='sequential reference model; exactly-once and order check at the end of the chain',
        jobs=[('cache', 'asan', 'cache_model', 1000), ('cache', 'fast', 'cache_model', 4000), ('cache', 'tsan', 'cache_threads', 80), ('cache', 'noise', 'cache_threads', 150), ('cache', 'fast', 'cache_threads', 400),
              ('cache', 'asan', 'forward_chain', 150), ('cache', 'tsan', 'forward_chain', 80), ('cache', 'noise', 'forward_chain', 100), ('cache', 'fast', 'forward_chain', 400)]),
}
