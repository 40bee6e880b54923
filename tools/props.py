"""Property catalogue: generates properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, na=None, how=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], na=na, how=how))


TB = ('Trusted: clang -O0 lowering to LLVM IR, the abstract interpreter in /verif/engine and its libc model. ')

prop('C01', 'Decoding arbitrary bytes never reads outside the message',
     'Whatever bytes and length a received message has, and whatever read operation is applied to it (typed reads, '
     'formatted reads, dumps, and the stream parser), the library never reads or writes outside the message bytes, '
     'the caller-supplied output or its own temporary arrays.',
     ['inputs', 'histories'], 'all message contents, lengths, read positions, format strings and output sizes',
     'Tests decode a few well-formed and a few truncated messages; the property ranges over all byte strings.',
     ['src/pomp_decoder.c', 'src/pomp_buffer.c', 'src/pomp_prot.c', 'src/pomp_msg.c'],
     [('bounded byte reads', 'src/pomp_buffer.c: pomp_buffer_read, pomp_buffer_cread'),
      ('size checks before payload copies', 'src/pomp_prot.c: pomp_prot_decode_msg')],
     'abstract interpretation (linear facts) of every decode entry point; bounds obligation at every access',
     TB + 'Sizes and positions are assumed below 2^61; format strings NUL-terminated.')

prop('C02', 'Building messages and buffers never writes outside their memory',
     'Whatever values, lengths, positions and sequences of calls are used to build, resize, copy or append buffers and '
     'messages, every access stays inside the memory actually allocated, and each buffer keeps its length within its '
     'capacity and its capacity equal to the memory it owns, also after a failed allocation.',
     ['inputs', 'histories', 'fault_sequences'],
     'all arguments, all buffer states reachable through the interface, allocation failure at any point',
     'Tests write a few values and never fail an allocation nor use sizes above 4 GiB.',
     ['src/pomp_buffer.c', 'src/pomp_encoder.c', 'src/pomp_msg.c'],
     [('capacity growth', 'src/pomp_buffer.c: pomp_buffer_set_capacity, pomp_buffer_ensure_capacity')],
     'abstract interpretation (linear facts) with inductive buffer invariants re-proved at every exit',
     TB + 'Sizes and positions are assumed below 2^61; only the enumerated pairs of arguments may alias.')

prop('C03', 'Shared buffers are never modified; reference counts are exact',
     'A buffer with more than one reference is never written, resized or handed out for writing, so every holder keeps '
     'seeing the same bytes. Taking a reference adds exactly one and dropping one subtracts exactly one, both '
     'atomically; the content is freed exactly when the last reference is dropped and is not touched afterwards.',
     ['histories', 'schedules', 'inputs'], 'all reference counts, all interface operations, any thread interleaving of '
     'reference changes', 'Tests never share a buffer across operations that modify it nor race reference changes.',
     ['src/pomp_buffer.c'],
     [('shared check before writing', 'src/pomp_buffer.c'), ('atomic counters', 'src/pomp_buffer.c: pomp_buffer_ref, '
                                                                               'pomp_buffer_unref')],
     'typestate/effect analysis over all interface operations with an unconstrained reference count',
     TB + 'Reference counts handed in are at least 1.')

prop('C04', 'A finished message is immutable until it is cleared',
     'Once a message is finished, or was created from received data, no message or encoder operation other than '
     'clearing or destroying it changes its bytes, its identifier or its state, whatever the arguments; the operation '
     'fails instead. Every operation that completes a message leaves it finished.',
     ['histories', 'inputs'], 'all finished messages, all message and encoder operations and arguments',
     'Tests attempt one or two writes after finishing; the property covers every operation and argument.',
     ['src/pomp_msg.c', 'src/pomp_encoder.c'],
     [('finished flag', 'src/pomp_msg.c: pomp_msg_finish'), ('guards in encoder', 'src/pomp_encoder.c')],
     'effect analysis over all message and encoder operations started on a finished message',
     TB)

prop('C05', 'Stream parsing finds exactly the framed messages, however split',
     'Feeding a byte stream to the protocol parser in chunks of any sizes yields the same messages, with the same '
     'bytes and at the same points of the stream, as the framing defines: magic, identifier, little-endian total size, '
     'payload; headers with a size below the header size are discarded and a wrong byte in the magic restarts the '
     'search at the next byte. Every call consumes at least one byte or returns an error and never '
     'consumes more than it was given, and a failed allocation leaves the parser able to find later messages.',
     ['inputs', 'histories', 'fault_sequences'],
     'all header bytes, all splits of the header into chunks, all payload sizes and payload chunk sizes, allocation '
     'failure at any point', 'Tests parse a handful of messages in one or two splits.',
     ['src/pomp_prot.c'],
     [('incremental parser states', 'src/pomp_prot.c: pomp_prot_decode_msg')],
     'product of the framing automaton with the parser, abstractly interpreted call by call',
     TB + 'Payload chunk sizes up to INT_MAX, header chunks of every size enumerated.')

prop('C06', 'Every value has exactly its documented encoding and decodes back to itself',
     'For every value of each of the 13 argument types the encoder writes the documented bytes (type byte; fixed-width '
     'little-endian 8/16 bit integers and floats; zigzag/variable-length 32/64 bit integers of minimal length; '
     'size-prefixed strings with their NUL and buffers), and the decoder returns exactly that value and moves past '
     'exactly those bytes. A finished message starts with the magic, its identifier and its total size, little-endian, '
     'and a message is made from a buffer exactly when the buffer has that header and that length.',
     ['inputs'], 'all 2^64 values of each type, all string and buffer lengths, all identifiers and message sizes',
     'Tests encode a dozen values.',
     ['src/pomp_encoder.c', 'src/pomp_decoder.c', 'src/pomp_msg.c', 'src/pomp_prot.h'],
     [('variable-length integers', 'src/pomp_encoder.c: encoder_write_varint'),
      ('header', 'src/pomp_msg.c: pomp_msg_finish, pomp_msg_new_with_buffer')],
     'bit-provenance dataflow: every bit written is traced to the argument bit it comes from, and back when read',
     TB + 'Little-endian host; allocation and dup assumed to succeed.')

prop('C07', 'A typed read accepts only a well-formed value of its own type',
     'Whatever bytes a message holds at the read position, a typed read either fails or consumes exactly one value of '
     'the requested type and returns the value these bytes encode: variable-length integers of at most 10 bytes, '
     'strings whose last byte is their NUL, sizes within the message. A value of another type makes it fail without '
     'moving the position.',
     ['inputs'], 'all payload bytes; all payload lengths up to one value, all types',
     'Tests feed a few hand-made malformed messages.', ['src/pomp_decoder.c'],
     [('type check and rewind', 'src/pomp_decoder.c: decoder_read_data, decoder_read_varint'),
      ('string and buffer reads', 'src/pomp_decoder.c: pomp_decoder_read_cstr, pomp_decoder_read_cbuf')],
     'bit-provenance dataflow over arbitrary payload bytes, one typed read at a time',
     TB + 'Bits beyond the width of the type in an over-long encoding are left open.')

prop('C08', 'Format strings select exactly the documented type of each argument',
     'Each documented conversion specifier (with its h, hh, l, ll modifiers), alone or in any sequence, written from '
     'variable arguments, a va_list or an array of strings, encodes its argument with the documented type, and reading '
     'with the same specifier stores that value in an object of the documented C type and nothing else. Any other '
     'specifier, a wrong modifier, text outside specifiers, or a missing string argument is refused with an error. '
     'String arguments are converted in base detected from their prefix.',
     ['inputs'], 'all argument values, every specifier of one character with every modifier, sequences of specifiers',
     'Tests use two long format strings.', ['src/pomp_encoder.c', 'src/pomp_decoder.c', 'src/pomp_msg.c'],
     [('format interpreters', 'src/pomp_encoder.c: encoder_writev_internal; src/pomp_decoder.c: pomp_decoder_readv')],
     'bit-provenance dataflow through a modelled va_list / argv for every specifier and for sequences',
     TB + '64-bit Linux sizes of long; sequences are the enumerated ones (every specifier follows one with another modifier).')

prop('C09', 'Dumps are complete, faithful and always terminated',
     'Dumping a message into caller memory of any size never overruns it, always terminates the text, and marks a text '
     'that does not fit with an ellipsis; an allocated dump is never cut short, whatever the lengths of the values, and '
     'when memory runs out it fails instead. The text shows the identifier and, in order, the type and value of every '
     'argument.', ['inputs', 'fault_sequences'],
     'all values, string lengths, destination sizes and allocation failures; dumps below 1 GiB',
     'Tests dump two messages into one buffer size.', ['src/pomp_decoder.c', 'src/pomp_msg.c'],
     [('text growth and truncation', 'src/pomp_decoder.c: dump_append, decoder_dump')],
     'bit-provenance dataflow for the text; abstract interpretation proving room for every formatted part',
     TB + 'Content of buffers is not dumped (nor required).')

CT = ('Trusted: clang -O0 lowering to LLVM IR, the abstract interpreter in /verif/engine, the model of the system calls, '
      'of the loop and of the timers in rules/rt.py. ')
EXPL = ('work-list exploration of every canonical abstract state a context can reach by calls of its user (also from its '
        'callbacks), events, timers, idle calls and outcomes of system calls; ')
CX = ['src/pomp_ctx.c', 'src/pomp_conn.c']

prop('C10', 'Descriptors: each closed exactly once, never used when closed, never left open',
     'Every descriptor a context creates, accepts, receives from a peer or duplicates is closed exactly once, is not '
     'used, monitored or left monitored after it was closed, is out of the loop before it is closed, and none is left '
     'open once the context is stopped and destroyed and the messages and buffers of the user are given back. This '
     'holds whatever fails on the way. A descriptor of a received message belongs to the message.',
     ['histories', 'schedules', 'fault_sequences'], 'all reachable states of server, client and dgram contexts, failure '
     'of any call', 'Tests run a few complete sessions and never make socket calls fail.', CX + ['src/pomp_buffer.c'],
     [('ownership of sockets', 'src/pomp_ctx.c: server_accept_conn, client_start, dgram_start; src/pomp_conn.c: '
                               'pomp_conn_close'),
      ('received descriptors', 'src/pomp_conn.c: pomp_conn_readmsg, pomp_conn_fixup_rx_fds')],
     EXPL + 'typestate of every descriptor', CT + 'At most 2 descriptors per message, 2 connections.')

prop('C11', 'Contexts and connections never use freed memory and free all they allocate',
     'Whatever the sequence of calls, callbacks, events and failures (memory shortage included), no context, '
     'connection, buffer, message or queue entry is accessed or freed after it was freed, and nothing the library '
     'allocated is left once the context is stopped and destroyed and the user gave back what it holds. This includes '
     'calls made by the user from inside a callback (stop, disconnect, send, change of the read buffer length).',
     ['histories', 'schedules', 'fault_sequences'], 'all reachable states of server, client and dgram contexts, all '
     'allocation failures, one user call in a callback per event',
     'Tests never fail an allocation and stop contexts from callbacks in one way only.', CX + ['src/pomp_prot.c'],
     [('deferred stop', 'src/pomp_ctx.c: pomp_ctx_stop'), ('connection removal', 'src/pomp_conn.c: pomp_conn_cb, '
                                                                                 'pomp_conn_destroy')],
     EXPL + 'typestate of every heap block', CT + 'Calls from callbacks are those listed in DESIGN.md.')

prop('C12', 'Every accepted send is reported exactly once, in order, with its outcome',
     'When a send callback is set, every send that was accepted (returned 0) is reported exactly once, in the order of '
     'the sends of its connection, for a connection still alive: OK when all its bytes were written, ABORTED when the '
     'connection ended before; QUEUE_EMPTY accompanies exactly the reports of sends after which nothing was left '
     'queued. A refused send is never reported. The buffer given is the one sent. Memory is assumed available.',
     ['histories', 'schedules', 'fault_sequences'],
     'all interleavings of sends (also from callbacks), partial writes, errors, disconnections and stops',
     'Tests send a few messages on local sockets that never block.', CX,
     [('write queue', 'src/pomp_conn.c: pomp_conn_send_buf_internal, pomp_conn_process_write'),
      ('deferred reports', 'src/pomp_conn.c: pomp_conn_add_idle_cb, clear_pending_callbacks')],
     EXPL + 'a queue automaton per connection', CT + 'Up to two sends outstanding.')

prop('C13', 'The bytes written are the messages sent, complete and in order',
     'The bytes a connection writes are exactly the buffers of the accepted sends, in order, each complete before the '
     'next one starts, whatever the partial writes and would-block errors; nothing is written after the writing side '
     'was shut down; a failed send leaves no part of a message. Descriptors of a message go with its first bytes, '
     'exactly once. A datagram goes to the address asked for, or to the last peer heard of. A connection is monitored '
     'for writing exactly while something is queued. Memory is assumed available.',
     ['histories', 'schedules', 'fault_sequences'],
     'all interleavings of sends, partial writes of any length, would-block and errors',
     'Local sockets in tests accept whole messages at once.', CX,
     [('write queue', 'src/pomp_conn.c: pomp_io_buffer_write, pomp_conn_process_write'),
      ('descriptors and addresses', 'src/pomp_conn.c: pomp_io_buffer_write_with_fds, pomp_conn_send_buf_internal')],
     EXPL + 'every write compared with the oldest unfinished send', CT + 'Up to two sends outstanding.')

prop('C14', 'Notifications of a connection follow its life: CONNECTED, messages, DISCONNECTED',
     'For each connection of a server or client CONNECTED is notified exactly once and first, DISCONNECTED exactly once '
     'and last, messages and raw data only in between, each with a live connection, its context and the userdata of '
     'the user; a client has at most one connection at a time; a connection is never freed without having been '
     'notified as DISCONNECTED. A dgram context notifies neither; a raw context notifies no message.',
     ['histories', 'schedules', 'fault_sequences'], 'all reachable states, events in any order, calls from callbacks',
     'Tests check the sequence of a few sessions.', CX,
     [('notifications', 'src/pomp_ctx.c: pomp_ctx_notify_event, pomp_ctx_remove_conn, client_complete_conn, '
                        'server_accept_conn')],
     EXPL + 'an automaton per connection', CT)

prop('C15', 'What is received is notified once, in order; nothing is read while suspended',
     'Every message completely received by a connected connection is notified exactly once, in order, before the '
     'library goes back to the loop, with the descriptors that came with it, in order, open and its own; raw data is '
     'notified exactly as read. While reading is suspended nothing is read and the connection is not monitored for '
     'reading; otherwise it is. A peer that sends more or fewer descriptors than announced never gives a message '
     'another descriptor than one received. Memory is assumed available.',
     ['inputs', 'histories', 'schedules'], 'a periodic stream of messages cut at any of the chosen places (in headers, '
     'at and inside payloads), suspension and resumption at any time', 'Tests read whole messages from local sockets.',
     CX + ['src/pomp_prot.c'],
     [('reading', 'src/pomp_conn.c: pomp_conn_process_read, pomp_conn_process_read_buf'),
      ('descriptor tables', 'src/pomp_conn.c: pomp_conn_fixup_rx_fds')],
     EXPL + 'the notifications compared with the stream', CT + 'Streams repeat two messages; C05 covers the framing of '
     'arbitrary streams.')

prop('C16', 'A stop waits for running callbacks, takes effect and leaves nothing behind',
     'pomp_ctx_stop called from any callback tears nothing down before that callback and the function that called it '
     'are done; after it has been carried out no descriptor is monitored and no timer is armed, and the context can be '
     'started again or destroyed. It never fails while memory is available. pomp_ctx_destroy on a context that is '
     'running is refused without any effect and succeeds after a stop or a failed start.',
     ['histories', 'schedules', 'fault_sequences'], 'all reachable states, stop from every kind of callback, failed '
     'starts', 'Tests stop from one callback, in one state.', CX,
     [('deferred stop', 'src/pomp_ctx.c: pomp_ctx_stop, pomp_ctx_stop_idle'),
      ('refused destruction', 'src/pomp_ctx.c: pomp_ctx_destroy')],
     EXPL + 'typestate of the context, effects during a stop', CT)

prop('C17', 'A started context always keeps what makes it go on',
     'As long as a context is started and not stopped, whatever failed, disconnected or was refused, it has either a '
     'monitored socket (listening, connecting, connected or bound) or an armed timer that will make it try again; a '
     'listening server keeps monitoring incoming connections; no event makes the library loop for ever.',
     ['histories', 'schedules', 'fault_sequences'], 'all reachable states and failures of system calls and allocations',
     'Tests reconnect once.', ['src/pomp_ctx.c', 'src/pomp_conn.c'],
     [('reconnection', 'src/pomp_ctx.c: timer_cb, pomp_ctx_remove_conn, server_start, client_start, dgram_start')],
     EXPL + 'invariant between two events', CT + 'Failure of timer_settime itself is excluded.')

prop('C18', 'No operation on a socket can block and no socket is inherited',
     'Every socket, accepted connections included, is made non-blocking before anything that could block is done with '
     'it (connect, accept, read, write) and close-on-exec before it is monitored.',
     ['histories', 'fault_sequences'], 'all reachable states, all kinds of contexts',
     'Local sockets in tests never make a blocking call wait.', CX,
     [('flags', 'src/pomp_ctx.c: fd_setup_flags')], EXPL + 'flags in the typestate of descriptors', CT)

LT = ('Trusted: clang -O0 lowering to LLVM IR, the abstract interpreter in /verif/engine, the model of epoll, poll, '
      'eventfd, pipes, timers and mutexes in rules/loops.py. ')
LEXP = ('work-list exploration of every canonical abstract state of a loop reachable by calls of its user (also from '
        'callbacks), readiness, and outcomes of system calls, for the epoll and the poll implementation; ')

prop('C19', 'The loop monitors what is registered and dispatches each event exactly once',
     'Whatever is registered, updated or removed, also by callbacks, in whatever order, a loop (epoll or poll) monitors '
     'exactly the registered descriptors for exactly the events asked. A wait passes the timeout given, calls the '
     'callback of each descriptor that is ready once, with its userdata and the events that occurred, never that of a '
     'removed descriptor, nor for an event that occurred before the registration; it returns what the documentation '
     'says. Failed calls change nothing; a refused destroy can be repeated after removal, and then nothing is left.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of calls on up to three descriptors of one hash bucket, '
     'all events, calls made in callbacks, failures of system calls and allocations',
     'Tests register a few descriptors, and change them outside of callbacks.',
     ['src/pomp_loop.c', 'src/pomp_loop_linux.c', 'src/pomp_loop_posix.c'],
     [('table of descriptors', 'src/pomp_loop.c: pomp_loop_add, pomp_loop_remove_pfd'),
      ('dispatch', 'src/pomp_loop_linux.c, src/pomp_loop_posix.c: do_wait_and_process')],
     LEXP + 'the interest set of the kernel compared with the registrations, events matched to callbacks',
     LT + 'One call made per callback; up to three descriptors.')

prop('C20', 'Idle functions: called once, in order, unless removed, and never forgotten',
     'An idle function that was added is called exactly once with its userdata, in the order of addition, outside of '
     'any lock, unless it is removed before: a flush calls all of them, a wait at least one, and a wait does not sleep '
     'while one is registered. Flush and removal with a cookie act on the functions of that cookie only, removal on all that match. Functions '
     'may add, remove or flush others. A loop with idle functions left refuses to be destroyed.',
     ['histories', 'fault_sequences'], 'all sequences of additions (two functions, two cookies), removals, flushes and '
     'waits, also from idle functions, with failures', 'Tests add a few functions and flush them once.',
     ['src/pomp_loop.c', 'src/pomp_evt.c', 'src/pomp_evt_linux.c', 'src/pomp_evt_posix.c'],
     [('list of idle entries', 'src/pomp_loop.c: pomp_loop_idle_add, pomp_loop_idle_flush')],
     LEXP + 'a queue of what was added compared with what is called',
     LT + 'At most two functions are waiting when another is added.')

prop('C21', 'Events: a signal is never lost, a quiet or detached event never calls back',
     'A signaled event attached to a loop makes the next wait return and call its callback, once, however many signals '
     'preceded and also when it was attached after the signal; then, or after a clear, it is quiet until signaled '
     'again (a clear by a callback of the wait that already saw the signal may come too late for it). A detached event '
     'calls nothing. Attaching twice, detaching when not attached and destroying when attached '
     'are refused. Signal, clear and the callback never block and nothing is left after destruction.',
     ['histories', 'fault_sequences'], 'all sequences of calls on two events, also from callbacks, eventfd and pipe '
     'implementations, failures of system calls', 'Tests signal one event a few times.',
     ['src/pomp_evt.c', 'src/pomp_evt_linux.c', 'src/pomp_evt_posix.c', 'src/pomp_loop.c'],
     [('events', 'src/pomp_evt.c, src/pomp_evt_linux.c, src/pomp_evt_posix.c')],
     LEXP + 'signals tracked against callbacks', LT)

prop('C22', 'Timers expire as set: no call back once cleared, every expiration seen',
     'Setting a timer arms it, relative to now on the monotonic clock, with exactly the delay and period given in '
     'milliseconds, whatever their size; a delay of 0 or a clear disarms it. An expired timer makes the next wait call '
     'its callback with its userdata; a timer that was set, cleared or destroyed since calls nothing for the past '
     'expiration. A timer may be set, cleared or destroyed by callbacks. Nothing is left after destruction, and the '
     'signal handler changes no errno.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of calls on two timers, also from callbacks, timerfd and '
     'POSIX timers, a list of delays up to the largest', 'Tests use one timer and a few delays, never late.',
     ['src/pomp_timer.c', 'src/pomp_timer_linux.c', 'src/pomp_timer_posix.c'],
     [('timer set', 'src/pomp_timer_linux.c: pomp_timer_fd_set; src/pomp_timer_posix.c: pomp_timer_posix_set')],
     LEXP + 'expirations tracked against callbacks, times against what was asked',
     LT + 'When expirations happen is not considered (any time is possible). A periodic timer may be notified once for '
     'several expirations.')

prop('C23', 'Idle calls, wakeup and signal may come from any thread at any time',
     'Calls documented as safe from another thread (adding and removing idle functions, waking the loop up, signaling '
     'an event) may run at any point of a call made by the thread of the loop: no data is accessed by both without the '
     'lock when one of them writes it, no lock is taken twice, left held, or held while a callback runs, no wakeup, '
     'signal or idle function is lost, called twice, or delays a wait, and neither thread can block.',
     ['schedules', 'histories'], 'every point between system calls and lock operations where one call of another thread '
     'can run, all sequences of calls of the loop thread', 'Tests use one thread, or do not control the schedule.',
     ['src/pomp_loop.c', 'src/pomp_evt.c', 'src/pomp_loop_linux.c', 'src/pomp_loop_posix.c'],
     [('lock', 'src/pomp_loop.c: pomp_loop_idle_*'), ('wakeup', 'src/pomp_loop_linux.c, src/pomp_loop_posix.c')],
     LEXP + 'interleaving with calls of another thread, lockset analysis of the loop and of events',
     LT + 'One call of the other thread per call of the loop thread.')


prop('C24', 'Watchdog: a dispatch that takes too long is notified once, nothing else is',
     'While the watchdog of a loop is enabled, a dispatch of events that takes longer than the delay makes the watchdog '
     'thread call the last function given, once, with the loop and its userdata, while the dispatch is still running and '
     'not before the delay on the monotonic clock, whatever the time of day and the delay. It is never called outside of '
     'a dispatch, for the time spent waiting, nor once disabled. It can be enabled again, also with another delay, and '
     'disabled in a callback; disabling or destroying the loop ends the thread, without deadlock.',
     ['schedules', 'histories', 'inputs'], 'sequences of enabling, disabling and dispatches listed in rules/wdog.py; every '
     'interleaving of the watchdog thread at lock operations, waits and time', 'Tests sleep once with one schedule.',
     ['src/pomp_watchdog.c', 'src/pomp_loop.c', 'src/pomp_loop_linux.c', 'src/pomp_loop_posix.c'],
     [('watchdog thread', 'src/pomp_watchdog.c: pomp_watchdog_thread_cb'),
      ('monitoring', 'src/pomp_watchdog.c: pomp_watchdog_enter, pomp_watchdog_leave')],
     'abstract interpretation of both threads, interleaved at lock operations, waits and passing time, through the public '
     'calls; notifications, waits, joins and locks judged against the schedule',
     'Trusted: clang -O0 lowering to LLVM IR, the abstract interpreter, the models of threads, conditions and clocks in '
     'rules/wdog.py. Bounds: the scripts, three times of day, one spurious wakeup; when the watchdog thread is scheduled '
     'within a long dispatch is assumed fair. Waits nested in callbacks are not considered.')
