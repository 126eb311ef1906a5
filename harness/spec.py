SPEC = {}
SPEC['Z00'] = dict(entries=[dict(name='z_race'), dict(name='z_atomic'), dict(name='z_split', covers=['end'])])
SER = 'headers only (templates instantiated by the harness)'
SPEC['S01'] = dict(entries=[dict(name='s01_' + n, covers=['end'], quick=dict(len=2 if n == 'associative' else 3), thorough=dict(len=3 if n == 'associative' else 4),
                                 bounds='strings and containers up to 3 (thorough 4; associative 2, thorough 3) elements, every element value; every previous destination content of that size')
                            for n in ('scalars', 'strings', 'sequences', 'associative', 'products', 'pointers', 'variants', 'mixed', 'declared')],
                   assumptions=['types are those instantiated in harness/ser.h', 'unordered container keys range over three values (hashing stays concrete)', 'libstdc++ internals are executed as compiled; its out-of-line parts are modelled in rt/rt_engine.cpp'])
SPEC['S02'] = dict(entries=[dict(name='s02_' + n, covers=['end'], quick=dict(len=3 if n != 'associative' else 2), thorough=dict(len=4 if n != 'associative' else 3), bounds='strings and containers up to 3 (thorough 4) elements')
                            for n in ('scalars', 'strings', 'sequences', 'associative', 'products', 'pointers')], assumptions=['types are those instantiated in harness/ser.h'])
SPEC['S03'] = dict(entries=[dict(name='s03_bytes_' + n, covers=['accepted', 'refused'], quick=dict(bytes=9), thorough=dict(bytes=14), bounds='every byte sequence up to the given length') for n in ('scalar', 'canonical', 'other')] +
                   [dict(name='s03_cut_' + n, covers=['end'], quick=dict(len=2), thorough=dict(len=3), bounds='every truncation point of every value with up to 2 (thorough 3) elements') for n in ('basic', 'containers', 'products')],
                   assumptions=['types are those instantiated in harness/ser.h', 'an allocation above 4096 bytes while reading fewer than 16 input bytes counts as unjustified'])
SPEC['S04'] = dict(entries=[dict(name='s04_input', covers=['read', 'short', 'copy', 'view', 'reset'], quick=dict(bytes=4, ops=3), thorough=dict(bytes=6, ops=4), bounds='content up to 4 (6) arbitrary bytes, 3 (4) operations, read sizes any 64-bit value'),
                            dict(name='s04_move', covers=['end']), dict(name='s04_output', covers=['end', 'reset'], quick=dict(ops=3), thorough=dict(ops=4), bounds='3 (4) writes of up to 3 arbitrary bytes with resets')])
SCHED = 'every schedule with at most %s preemptions at synchronisation operations, atomics and racing accesses'
SPEC['Q01'] = dict(entries=[dict(name='q01_model', covers=['sequence', 'pop', 'waitpop', 'timeout', 'closed'], quick=dict(ops=4), thorough=dict(ops=5), bounds='4 (thorough 5) operations of any kind, every element value'),
                            dict(name='q01_priority', covers=['pop'], quick=dict(ops=6), thorough=dict(ops=8), bounds='6 (8) operations, every priority'),
                            dict(name='q01_spsc', covers=['end'], quick=dict(spurious=1, per=2, preempt=2), thorough=dict(spurious=1, per=2, preempt=3), bounds='2 producers x 2 elements, 1 consumer; ' + SCHED % '2 (3)'),
                            dict(name='q01_two_consumers', covers=['end'], quick=dict(spurious=1, per=2, preempt=1), thorough=dict(spurious=1, per=2, preempt=2), bounds='2 producers x 2 elements, 2 consumers; ' + SCHED % '1 (2)'),
                            dict(name='q01_sequence_push', covers=['end'], quick=dict(per=2, preempt=1), thorough=dict(per=2, preempt=2), bounds='as above, one producer pushing a sequence'),
                            dict(name='q01_timed', covers=['got', 'gave up'], quick=dict(preempt=2), thorough=dict(preempt=4))])
SPEC['Q02'] = dict(entries=[dict(name='q02_close_wait', covers=['end'], quick=dict(spurious=1, preempt=2), thorough=dict(spurious=1, preempt=3), bounds='1 or 2 waiters (3 ways of waiting) and a closer; ' + SCHED % '2 (3)'),
                            dict(name='q02_reopen', covers=['end']), dict(name='q02_close_reopen_race', covers=['got', 'released'], quick=dict(spurious=1, preempt=2), thorough=dict(spurious=1, preempt=3)),
                            dict(name='q02_close_push', covers=['all', 'some', 'none'], quick=dict(spurious=1, preempt=2), thorough=dict(spurious=1, preempt=3), bounds='producer of 2 elements, consumer, closer')])
SPEC['L01'] = dict(entries=[dict(name='l01_' + n, covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds='3 threads, 4 read-modify-writes, one reader; ' + SCHED % '2 (4)')
                            for n in ('atomic_object', 'atomic_const', 'atomic_assign', 'atomic_pointer', 'atomic_moved_session', 'atomic_session_assign', 'lockable', 'lockable_guard', 'lockable_assign', 'locker', 'mutexref', 'joiner')])
SPEC['E01'] = dict(entries=[dict(name='e01_user', covers=['end']), dict(name='e01_library', covers=['end'])])
MSG = 'src/common/maf/messaging/'
CSS = MSG + 'client-server/'
SPEC['A01'] = dict(entries=[dict(name='a01_' + n, covers=['end'], quick=dict(len=1), thorough=dict(len=2), bounds='all triples; names up to 1 (thorough 2) characters, every number') for n in ('address', 'regid')] +
                   [dict(name='a01_' + n, covers=['end'], quick=dict(keys=3), thorough=dict(keys=4), bounds='3 (4) keys') for n in ('address_keys', 'regid_keys')] +
                   [dict(name='a01_' + n, covers=['end'], bounds='all triples of one flat, one nested aggregate and one macro-declared object type') for n in ('aggregate_flat', 'aggregate_nested', 'object')],
                   sources=[CSS + 'Address.cpp'])
SPEC['A02'] = dict(entries=[dict(name='a02_any', covers=['end'], bounds='4 requests from every state of the counter, identifiers of 8, 16, 32 and 64 bits'), dict(name='a02_any_threads', covers=['end'], quick=dict(preempt=3), thorough=dict(preempt=6), bounds='2 threads x 2 requests from every state; ' + SCHED % '3 (6)'), dict(name='a02_all', covers=['end'], bounds='an 8-bit identifier type, three full cycles'), dict(name='a02_history', covers=['end'], quick=dict(ops=6), thorough=dict(ops=8), bounds='6 (8) requests and returns'),
                            dict(name='a02_threads', covers=['end'], quick=dict(preempt=3), thorough=dict(preempt=6), bounds='3 threads x 2 requests; ' + SCHED % '3 (6)'), dict(name='a02_threads_wrap', covers=['end'], quick=dict(preempt=4), thorough=dict(preempt=8)),
                            dict(name='a02_regid', covers=['end'])])
SPEC['U01'] = dict(entries=[dict(name='u01_single', covers=['value', 'exception', 'broken'], bounds='one continuation, every value'), dict(name='u01_chain', covers=['value', 'exception'], bounds='chains of three'), dict(name='u01_void', covers=['value', 'exception']),
                            dict(name='u01_threads', covers=['value', 'exception', 'broken'], quick=dict(preempt=3), thorough=dict(preempt=6), bounds=SCHED % '3 (6)'), dict(name='u01_timeout', covers=['end'])])
SPEC['E02'] = dict(entries=[dict(name='e02_object', covers=['end'], quick=dict(len=2), thorough=dict(len=4), bounds='all codes, descriptions up to 2 (4) characters'), dict(name='e02_other', covers=['end']), dict(name='e02_transport', covers=['end'], quick=dict(len=3), thorough=dict(len=5), bounds='descriptions up to 3 (5) characters')],
                   sources=[CSS + 'CSError.cpp', CSS + 'CSMessage.cpp', CSS + 'Address.cpp', CSS + 'ipc/LocalIPCMessage.cpp'])
TP = 'src/common/maf/threading/threadpool/'
SPEC['T01'] = dict(entries=[dict(name='t01_stop_one', covers=['end'], quick=dict(preempt=0), thorough=dict(preempt=1)), dict(name='t01_one_thread', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2), bounds='3 tasks, pools of 1 and 2 threads; ' + SCHED % '1 (2)'), dict(name='t01_two_threads', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)),
                            dict(name='t01_two_submitters', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='t01_priority', covers=['end'], quick=dict(preempt=0), thorough=dict(preempt=1), bounds='3 waiting tasks, every priority'),
                            dict(name='t01_shutdown', covers=['some ran', 'all ran', 'none ran'], quick=dict(spurious=1, preempt=2), thorough=dict(spurious=1, preempt=3)), dict(name='t01_stop_notice', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)),
                            dict(name='t01_stop_race', covers=['ran', 'dropped'], quick=dict(spurious=1, preempt=2), thorough=dict(spurious=1, preempt=4)),
                            dict(name='t01_submit_shutdown', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='t01_nested', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='t01_count', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='t01_default_delete', covers=['end'])],
                   sources=[TP + f for f in ('ThreadPoolFactory.cpp', 'StableThreadPool.cpp', 'PriorityThreadPool.cpp', 'DynamicCountThreadPool.cpp')])

SPEC['G01'] = dict(entries=[dict(name='g01_' + n, covers=['emit', 'throw'], quick=[dict(ops=1, slots=3), dict(ops=2, slots=2)] if n == 'plain' else dict(ops=3) if 'single' in n else dict(ops=1, slots=2 if 'shared' in n else 3), thorough=dict(ops=2, slots=3, acts=2) if n == 'plain' else dict(ops=2, slots=3),
                                 bounds='up to 3 slots, 1-2 operations of any kind, then two emissions; in one (thorough two for the plain variant) emission the emitted value tells each slot to connect, reconnect, disconnect or throw')
                            for n in ('plain', 'threadsafe', 'shared_mutex', 'single', 'single_threadsafe', 'single_shared_mutex')] +
                   [dict(name='g01_ways', covers=['end']), dict(name='g01_move', covers=['end']), dict(name='g01_threads', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds='2 emitting threads, one that disconnects and connects; ' + SCHED % '2 (4)')],
                   sources=['src/common/maf/utils/DirectExecutor.cpp'])
SPEC['G02'] = dict(entries=[dict(name='g02_' + n, covers=['end'], quick=dict(slots=1 if n == 'single' else 2), thorough=dict(slots=1 if n == 'single' else 3), bounds='2 (thorough 3) connections of any kind (plain, scoped, tracked slot or method, connection-aware, shared slot); every slot ends connections, destroys the signal or throws as the emitted value tells it; three emissions') for n in ('plain', 'threadsafe', 'single')] +
                   [dict(name='g02_handles', covers=['end']), dict(name='g02_ways', covers=['end'], bounds='every way of connecting, with and without an executor, every way of ending, up to 2 emissions before'), dict(name='g02_owned_handle', covers=['end']), dict(name='g02_owner_thread', covers=['end'], quick=dict(preempt=3), thorough=dict(preempt=6)), dict(name='g02_waitable', covers=['emitted', 'timeout', 'cancelled'], quick=dict(preempt=1), thorough=dict(preempt=3))],
                   sources=['src/common/maf/utils/DirectExecutor.cpp'])
SPEC['G03'] = dict(entries=[dict(name='g03_' + n, covers=['end'], quick=dict(ops=2 if n == 'string' else 3), thorough=dict(ops=3 if n == 'string' else 4), bounds='3 (thorough 4; strings 2 and 3) operations of any kind, every value') for n in ('plain', 'threadsafe', 'string', 'single', 'single_threadsafe', 'shared_mutex', 'single_shared_mutex', 'values', 'values_threadsafe', 'triple', 'silent', 'join', 'join_threadsafe')] +
                   [dict(name='g03_init', covers=['end']), dict(name='g03_arithmetic', covers=['end'], bounds='every operator and every pair of 32-bit operands'), dict(name='g03_threads', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds='3 threads; ' + SCHED % '2 (4)')],
                   sources=['src/common/maf/utils/DirectExecutor.cpp'])
PROC = [MSG + f for f in ('Processor.cpp', 'Router.cpp', 'Routing.cpp')]
SPEC['M01'] = dict(entries=[dict(name='m01_threads', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=3), bounds='2 posting threads x 2 executions, 7 ways of posting; ' + SCHED % '2 (3)'), dict(name='m01_nested', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4)),
                            dict(name='m01_owned', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4)), dict(name='m01_slices', covers=['end'], quick=dict(ops=4), thorough=dict(ops=6), bounds='4 (6) operations'), dict(name='m01_throw', covers=['threw', 'did not'], bounds='any one of 3 executions throws'), dict(name='m01_two', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='m01_current', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='m01_bound', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2), bounds='2 or 3 calls, 3 ways of binding; ' + SCHED % '1 (2)'), dict(name='m01_nowhere', covers=['end']), dict(name='m01_inner', covers=['end'], bounds='4 ways of running another processor from within an execution')],
                   sources=PROC)
SPEC['M02'] = dict(entries=[dict(name='m02_race', covers=['none ran', 'some ran', 'all ran'], quick=dict(preempt=2), thorough=dict(preempt=3), bounds='runner, poster and stopper (two stoppers); ' + SCHED % '2 (3)')] +
                   [dict(name='m02_' + n, covers=c, quick=dict(spurious=int(n in ('timed', 'before')), preempt=1 if n == 'waiters' else 2), thorough=dict(spurious=int(n in ('timed', 'before')), preempt=2 if n == 'waiters' else 3)) for n, c in (('before', ['ran', 'did not run']), ('waiters', ['end']), ('inside_wait', ['end']), ('timed', ['end']), ('drop', ['end']))], sources=PROC)
SPEC['M03'] = dict(entries=[dict(name='m03_model', covers=['end', 'nested'], quick=[dict(ops=1, slots=2), dict(ops=0, slots=3)], thorough=[dict(ops=2, slots=2), dict(ops=1, slots=3)], bounds='up to 3 handlers of two types, 1 (thorough 2) operations of any kind; in one delivery the posted value tells each handler to connect, disconnect, post or send'),
                            dict(name='m03_payload', covers=['end']), dict(name='m03_group', covers=['inside', 'outside']), dict(name='m03_throw', covers=['threw', 'did not']),
                            dict(name='m03_threads', covers=['caught some', 'caught none'], quick=dict(preempt=2), thorough=dict(preempt=3)), dict(name='m03_busy', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2), bounds='6 x 6 combinations of what the handler and the other thread do; ' + SCHED % '1 (2)')],
                   sources=PROC)
SPEC['M04'] = dict(entries=[dict(name='m04_outcome', covers=['own', 'other'], quick=dict(preempt=2), thorough=dict(preempt=3), bounds='10 ways of waiting, own thread or another, every value; ' + SCHED % '2 (3)'), dict(name='m04_two', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='m04_chain', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2)),
                            dict(name='m04_handlers', covers=['all', 'one'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='m04_none', covers=['end'])], sources=PROC)
SPEC['M05'] = dict(entries=[dict(name='m05_model', covers=['end', 'same identity', 'different identities'], quick=dict(ops=3), thorough=dict(ops=4), bounds='identities of any one character, 3 (4) operations of any kind'), dict(name='m05_race', covers=['one', 'one after the other'], quick=dict(preempt=2), thorough=dict(preempt=4)),
                            dict(name='m05_leave', covers=['both', 'none'], quick=dict(preempt=1), thorough=dict(preempt=2)), dict(name='m05_broadcast_wait', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2), bounds='two receivers and a deaf processor, a sender that is a receiver or not; ' + SCHED % '1 (2)'), dict(name='m05_anonymous', covers=['end'])], sources=PROC)
TIM = PROC + [MSG + 'Timer.cpp', MSG + 'SyncTimer.cpp']
SPEC['C01'] = dict(entries=[dict(name='c01_model', covers=['end'], quick=[dict(timers=2, ops=0), dict(timers=2, ops=1, acts=0), dict(timers=3, ops=0, acts=0)], thorough=[dict(timers=3, ops=0), dict(timers=2, ops=1, acts=1), dict(timers=2, ops=2, acts=0)]),
                            dict(name='c01_ways', covers=['end']), dict(name='c01_self', covers=['end']), dict(name='c01_many', covers=['end'], quick=dict(timers=6), thorough=dict(timers=7)), dict(name='c01_throws', covers=['end'])], sources=TIM)
SPEC['C02'] = dict(entries=[dict(name='c02_silent', covers=['end'], quick=dict(timers=1, ops=2), thorough=[dict(timers=2, ops=2), dict(timers=1, ops=3)]),
                            dict(name='c02_in_callback', covers=['end'], quick=dict(timers=2), thorough=dict(timers=3)), dict(name='c02_ways', covers=['end'])], sources=TIM)
SPEC['C03'] = dict(entries=[dict(name='c03_stop', covers=['stopped', 'not stopped'], quick=dict(spurious=1, preempt=2), thorough=dict(spurious=1, preempt=4)), dict(name='c03_alone', covers=['end']), dict(name='c03_restart', covers=['single', 'cyclic'], quick=dict(preempt=1, spurious=1), thorough=dict(preempt=2, spurious=1), bounds='restarted once or twice while it waits'),
                            dict(name='c03_restart_race', covers=['restarted'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'), dict(name='c03_takeover', covers=['stopped', 'both'], quick=[dict(preempt=2), dict(preempt=1, cyc=1)], thorough=[dict(preempt=3), dict(preempt=2, cyc=1)]), dict(name='c03_executor', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4))],
                   sources=TIM + ['src/common/maf/utils/DirectExecutor.cpp'])
SPEC['I01'] = dict(entries=[dict(name='i01_round_trip', covers=['end'], quick=dict(len=2), thorough=dict(len=3), bounds='header strings, payload strings and sequences up to 2 (thorough 3) elements, every value; payload absent, number, string, sequence or error'),
                            dict(name='i01_truncated', covers=['end'], quick=dict(len=1), thorough=dict(len=2), bounds='every truncation point'), dict(name='i01_bytes', covers=['accepted', 'refused'], quick=dict(bytes=9), thorough=dict(bytes=14), bounds='well-formed starts of every length followed by up to 9 (14) arbitrary bytes')],
                   sources=[CSS + 'CSError.cpp', CSS + 'CSMessage.cpp', CSS + 'Address.cpp', CSS + 'ipc/LocalIPCMessage.cpp'], assumptions=['a payload cut short is reported when it is read, not when its message is decoded'])
PROV = [CSS + f for f in ('CSError.cpp', 'CSMessage.cpp', 'Address.cpp', 'ServiceProvider.cpp', 'Request.cpp')] + ['src/common/maf/utils/DirectExecutor.cpp']
SPEC['P01'] = dict(entries=[dict(name='p01_model', covers=['end'], quick=dict(ops=4), thorough=dict(ops=5), bounds='2 clients, 2 operations, 4 (thorough 5) operations of any kind, every value; every send may fail'),
                            dict(name='p01_pending', covers=['end'], quick=dict(ops=2), thorough=dict(ops=3), bounds='3 pending requests, 2 (3) operations'), dict(name='p01_gone', covers=['end']),
                            dict(name='p01_race', covers=['answered', 'aborted'], quick=dict(preempt=3), thorough=dict(preempt=6), bounds=SCHED % '3 (6)'), dict(name='p01_requests_race', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)')],
                   sources=PROV)
SPEC['P02'] = dict(entries=[dict(name='p02_model', covers=['end'], quick=dict(ops=4), thorough=dict(ops=5), bounds='2 clients, 2 properties and a signal, 4 (thorough 5) operations of any kind, every value and request number; one client may be busy once, busy or gone at each publication'),
                            dict(name='p02_busy', covers=['end'], quick=dict(ops=1), thorough=dict(ops=2), bounds='everybody registered, 1 (2) operations, then 4 publications'), dict(name='p02_shutdown', covers=['end']), dict(name='p02_threads', covers=['end'], quick=dict(preempt=3), thorough=dict(preempt=6), bounds=SCHED % '3 (6)'), dict(name='p02_publishers', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'), dict(name='p02_remove_race', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'), dict(name='p02_withdrawn', covers=['end']), dict(name='p02_withdrawn_race', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'), dict(name='p02_down_race', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'), dict(name='p02_register_race', covers=['end'], quick=dict(preempt=3), thorough=dict(preempt=6), bounds=SCHED % '3 (6)')],
                   sources=PROV)
REQ = [CSS + f for f in ('CSError.cpp', 'CSMessage.cpp', 'Address.cpp', 'ServiceRequester.cpp')] + ['src/common/maf/utils/DirectExecutor.cpp']
SPEC['P03'] = dict(entries=[dict(name='p03_model', covers=['end'], quick=dict(ops=3), thorough=dict(ops=4), bounds='2 operations, 3 (thorough 4) operations of any kind: request, question, answer of any kind and number, abort, loss and return of the service; every value and number; sending may fail'),
                            dict(name='p03_pending', covers=['end'], quick=dict(ops=2), thorough=dict(ops=3), bounds='3 pending requests, 2 (3) operations'), dict(name='p03_reentrant', covers=['end']),
                            dict(name='p03_race', covers=['answered', 'ended'], quick=dict(preempt=3), thorough=dict(preempt=6), bounds=SCHED % '3 (6)'),
                            dict(name='p03_wait', covers=['answered', 'expired', 'broken'], quick=dict(preempt=1), thorough=dict(preempt=3), bounds=SCHED % '1 (3)'),
                            dict(name='p03_expire', covers=['answered', 'expired'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'),
                            dict(name='p03_lost', covers=['refused', 'released'], quick=dict(preempt=3), thorough=dict(preempt=6), bounds=SCHED % '3 (6)')],
                   sources=REQ)
SPEC['P04'] = dict(entries=[dict(name='p04_model', covers=['end'], quick=dict(ops=4), thorough=dict(ops=5), bounds='2 properties and a signal, 4 (thorough 5) operations of any kind: register, update of any kind, unregister of any number, unregister all, look, loss and return of the service; every value and number; announcing may fail'),
                            dict(name='p04_busy', covers=['end'], quick=dict(ops=2), thorough=dict(ops=3), bounds='4 observers, 2 (3) operations, then a look and an update of each'), dict(name='p04_invalid'), dict(name='p04_reentrant'),
                            dict(name='p04_threads', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'), dict(name='p04_cross', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds='two threads registering and unregistering; ' + SCHED % '2 (4)')],
                   sources=REQ)
SRVS = PROV + [CSS + f for f in ('ServiceRequester.cpp', 'ServerBase.cpp', 'ClientBase.cpp')]
SPEC['P05'] = dict(entries=[dict(name='p05_model', covers=['end'], quick=dict(ops=4), thorough=dict(ops=6), bounds='2 observers, 4 (thorough 6) operations of any kind: notices (also repeated and of other services), registering, unregistering, requests; observers may be gone'),
                            dict(name='p05_reentrant', covers=['end']), dict(name='p05_race', quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'), dict(name='p05_waiting', bounds='2 waiting calls'),
                            dict(name='p05_client', covers=['end'], quick=dict(ops=3), thorough=dict(ops=4), bounds='2 services of a client and any other, 3 (4) operations of any kind'), dict(name='p05_notices_race', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds='three notices of any kind from two threads; ' + SCHED % '2 (4)'), dict(name='p05_found', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=3), bounds='a service looked for while 1 or 2 notices come or the server is lost; ' + SCHED % '2 (3)'), dict(name='p05_server', quick=dict(ops=5), thorough=dict(ops=7), bounds='2 services, 5 (7) starts and stops, shutdown'),
                            dict(name='p05_signal', quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)'), dict(name='p05_waiters', covers=['end'], quick=dict(preempt=1, spurious=1), thorough=dict(preempt=2, spurious=1), bounds='two waiters for one state or another, at most 1 (2) preemptions and 1 spurious wake-up'), dict(name='p05_executor'), dict(name='p05_async', covers=['end'], quick=dict(ops=3), thorough=dict(ops=5), bounds='3 (5) operations: changes, running the processor, unregistering, its end')],
                   sources=SRVS + [f for f in PROC if f not in SRVS])
SPEC['P06'] = dict(entries=[dict(name='p06_server', covers=['known', 'unknown'], quick=dict(services=2, len=2), thorough=dict(services=3, len=2), bounds='2 (thorough 3) services with any names up to 2 characters, any message kind for any name up to 2 characters'),
                            dict(name='p06_client', covers=['known', 'unknown'], quick=dict(services=2, len=2), thorough=dict(services=3, len=2), bounds='likewise for the requesters of a client'),
                            dict(name='p06_race', quick=dict(preempt=3), thorough=dict(preempt=6), bounds=SCHED % '3 (6)'), dict(name='p06_dispatch_race', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)')],
                   sources=SRVS)

UX = 'src/platforms/unix/maf/messaging/client-server/ipc/'
SPEC['I02'] = dict(entries=[dict(name='i02_fragments', covers=['whole', 'cut short'], quick=dict(len=2), thorough=dict(len=3, faults=2), bounds='announced lengths up to 2 (thorough 3), every number of bytes that come, every split into reads, one (two) failing calls'),
                            dict(name='i02_huge', covers=['end']), dict(name='i02_several', covers=['end'], quick=dict(peers=2), thorough=dict(peers=3), bounds='2 (3) connections ready in any order, one failing call'),
                            dict(name='i02_many', covers=['more than fit', 'all fit'], bounds='28 to 33 connections at once'), dict(name='i02_large', covers=['end'], quick=dict(sizes=3), thorough=dict(sizes=5), bounds='lengths around 65536'),
                            dict(name='i02_stop', covers=['was running', 'had not started'], quick=dict(preempt=2), thorough=dict(preempt=4), bounds=SCHED % '2 (4)')],
                   sources=[CSS + 'Address.cpp', UX + 'LocalIPCBufferReceiverImpl.cpp'], assumptions=['the network is the model in harness/net.h: connections are blocking, a reported descriptor can be read without blocking'])
SPEC['I03'] = dict(entries=[dict(name='i03_send', covers=['absent', 'sent', 'failed'], quick=dict(len=3), thorough=dict(len=5, faults=2), bounds='payloads up to 3 (thorough 5) bytes, every split into writes, one (two) failing calls'),
                            dict(name='i03_large', covers=['sent', 'failed'], bounds='70000 bytes in few pieces'), dict(name='i03_repeated', covers=['sent', 'failed'], bounds='2 sends'), dict(name='i03_status', covers=['end'], bounds='3 questions about any of 3 receivers')],
                   sources=[CSS + 'Address.cpp', UX + 'LocalIPCBufferSenderImpl.cpp'], assumptions=['the network is the model in harness/net.h', 'payloads of 4 GiB and more are not built'])
SPEC['I04'] = dict(entries=[dict(name='i04_name', covers=['fits', 'refused'], bounds='15 name lengths from 0 to 300 including every one near the limit, any characters at both ends'), dict(name='i04_names', covers=['end'], bounds='3 questions'),
                            dict(name='i04_receiver', covers=['not set up', 'ended'], quick=dict(faults=1), thorough=dict(faults=2), bounds='up to 2 connections, one (thorough two) failing calls, lowest free descriptor 0, 500 or around FD_SETSIZE'),
                            dict(name='i04_guard', covers=['end'], quick=dict(ops=4), thorough=dict(ops=6), bounds='2 guards, 4 (6) operations of any kind')],
                   sources=[CSS + 'Address.cpp', UX + 'LocalIPCBufferReceiverImpl.cpp', UX + 'LocalIPCBufferSenderImpl.cpp'], assumptions=['the network is the model in harness/net.h'])
TYPED = SRVS + [CSS + f for f in ('CSMgmt.cpp', 'ClientFactory.cpp', 'ServerFactory.cpp', 'SingleThreadPool.cpp', 'itc/Client.cpp', 'itc/Server.cpp', 'ipc/LocalIPCMessage.cpp', 'ipc/LocalIPCClient.cpp', 'ipc/LocalIPCServer.cpp')] + TIM
UXS = [CSS + 'ipc/LocalIPCBufferReceiver.cpp', CSS + 'ipc/LocalIPCBufferSender.cpp', UX + 'LocalIPCBufferReceiverImpl.cpp', UX + 'LocalIPCBufferSenderImpl.cpp', 'src/platforms/unix/maf/utils/Process.cpp']
SPEC['I05'] = dict(entries=[dict(name='i05_deliver', covers=['end'], quick=[dict(preempt=1, senders=2, each=2, pieces=0, len=0), dict(preempt=2, senders=1, each=2, pieces=0, len=0), dict(preempt=0, senders=1, each=2, pieces=3), dict(preempt=1, senders=2, each=1, pieces=1, len=0, cuts=1)], thorough=[dict(preempt=2, senders=1, each=2, pieces=1), dict(preempt=2, senders=2, each=1, pieces=0, len=0), dict(preempt=0, senders=1, each=3, pieces=3, len=2), dict(preempt=1, senders=2, each=2, pieces=1, len=0, cuts=2)], bounds='1 or 2 senders with 1 or 2 messages each, contents up to 1 byte behind a mark; reads and writes split up to twice, one broken connection; ' + SCHED % '1 (2)'),
                            dict(name='i05_stopped', covers=['end'], quick=dict(preempt=2, pieces=0, len=0), thorough=dict(preempt=3, pieces=0, len=0), bounds='2 messages, a receiver stopped at any time; ' + SCHED % '1 (2)'),
                            dict(name='i05_life', covers=['end'], quick=dict(len=0), thorough=dict(len=1), bounds='a receiver never set up, set up in vain, stopped before it starts, stopped and set up at another address; one message; one order of the threads'), dict(name='i05_stack', covers=['end'], quick=[dict(pieces=1), dict(pieces=0, len=0, end=1)], thorough=[dict(pieces=2, len=0), dict(pieces=0, len=0, end=2)], bounds='one call, update and signal of every value through all layers; one (two) split reads or writes; one order of the threads except while shutting down: at most 1 (2) preemptions there')],
                   sources=TYPED + UXS, assumptions=['the network is the model in harness/live.h: local stream sockets of one process'])
SPEC['P07'] = dict(entries=[dict(name='p07_requests', covers=['end'], quick=dict(requests=2), thorough=dict(requests=3), bounds='2 (thorough 3) requests one after another, waiting or not, answered in any of 8 ways, every value, texts up to 1 character'), dict(name='p07_bare', covers=['end']), dict(name='p07_updates', covers=['end'], quick=dict(ops=4), thorough=dict(ops=5), bounds='4 observers, 4 (5) operations of any kind, every value'), dict(name='p07_service', covers=['end']), dict(name='p07_local', covers=['end']), dict(name='p07_executors', covers=['end'], bounds='every value; one operation of each kind, repeated'), dict(name='p07_nothing', covers=['end']), dict(name='p07_refusals', covers=['end'], bounds='time limits up to a minute'), dict(name='p07_threads', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2))],
                   sources=TYPED)
SPEC['P08'] = dict(entries=[dict(name='p08_requests', covers=['end'], quick=[dict(requests=1), dict(requests=2, order=0)], thorough=[dict(requests=2), dict(requests=3, order=0)], bounds='1 (thorough 2) requests, waiting or not, answered in any of 8 ways, every value, texts up to 1 character'), dict(name='p08_bare', covers=['end']), dict(name='p08_updates', covers=['end'], quick=[dict(ops=2), dict(ops=3, order=0)], thorough=[dict(ops=3), dict(ops=5, order=0)], bounds='4 observers, 2 (3) operations of any kind, every value'), dict(name='p08_service', covers=['end']), dict(name='p08_local', covers=['end']), dict(name='p08_executors', covers=['end'], bounds='every value; one operation of each kind, repeated'), dict(name='p08_nothing', covers=['end']), dict(name='p08_refusals', covers=['end'], bounds='time limits up to a minute'), dict(name='p08_threads', covers=['end'], quick=dict(preempt=0, ways=1), thorough=dict(preempt=0)),
                            dict(name='p08_follow', covers=['end'], quick=[dict(ops=3), dict(ops=5, order=0)], thorough=[dict(ops=4), dict(ops=7, order=0)], bounds='one server, 2 clients, 2 services of any names, 3 (5) comings and goings'), dict(name='p08_crowd', covers=['end'], quick=dict(ops=3), thorough=dict(ops=5), bounds='two clients, one order of the threads, 3 (5) operations: leaving, coming back, being busy, services'), dict(name='p08_race', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2), bounds=SCHED % '1 (2)'), dict(name='p08_cut', covers=['end'], bounds='an input, an output or a status, every truncation')],
                   sources=TYPED, assumptions=['buffers are carried by an in-process wire (harness/W.h) that delivers each whole and once, in order, or refuses it: what I02, I03 and I04 decide for the sockets', 'client and server share the thread that dispatches messages, as they do within one process'])

SPEC['D01'] = dict(entries=[dict(name='d01_' + n, covers=['end'], quick=dict(len=2), thorough=dict(len=3), bounds='every value of each type with up to 2 (3) elements or characters per container, levels -1 to 2') for n in ('scalars', 'strings', 'sequences', 'associative', 'products', 'pointers', 'variants', 'stream')] +
                   [dict(name='d01_object', covers=['end'], quick=dict(len=1), thorough=dict(len=2))])
SPEC['O01'] = dict(entries=[dict(name='o01_model', covers=['init', 'enable', 'disable', 'silent', 'logged'], quick=dict(ops=2), thorough=dict(ops=3), bounds='2 (3) changes of any kind, every set of levels, then a message of any level'),
                            dict(name='o01_threads', covers=['end'], quick=dict(preempt=2), thorough=dict(preempt=4))], sources=['src/common/maf/logging/Logger.cpp'])
SPEC['U02'] = dict(entries=[dict(name='u02_' + n, covers=['end'], quick=dict(ops=3), thorough=dict(ops=4), bounds='measurements: 3 (4) operations of any kind; every value, 3 stored entries') for n in ('exit', 'measure', 'report', 'invoker', 'chain', 'find', 'diff')])
SPEC['P09'] = dict(entries=[dict(name='p09_shutdown', covers=['end'], quick=dict(preempt=1), thorough=dict(preempt=2), bounds='servers, clients or both shut down, with or without a pending request and a waiting call; schedules with at most 1 (2) preemptions during the shutdown'),
                            dict(name="p09_race", covers=["end"], quick=dict(preempt=1), thorough=dict(preempt=2), bounds='a waiting or asynchronous call, answered at once or never, while the servers are shut down; at most 1 (2) preemptions'),
                            dict(name='p09_again', covers=['end'], quick=[dict(rounds=1), dict(rounds=2, order=0)], thorough=[dict(rounds=2), dict(rounds=3, order=0)], bounds='1 (2) rounds of shutting down and setting up again, every value')],
                   sources=TYPED, assumptions=SPEC['P08']['assumptions'])
SPEC['P10'] = dict(entries=[dict(name='p10_apart', covers=['end'], bounds='2 addresses x 2 services and one of the process itself, 6 proxies; any one not served, any one used, every value; one order of the threads'),
                            dict(name='p10_refused', covers=['end'], bounds='stub, proxy or unknown kind of connection, 1 or 2 attempts; one order of the threads'),
                            dict(name='p10_race', covers=['end'], quick=[dict(preempt=1, stubs=1), dict(preempt=1, stubs=0)], bounds='two threads making proxies or stubs for one address; ' + SCHED % '1')],
                   sources=TYPED, assumptions=SPEC['P08']['assumptions'])
