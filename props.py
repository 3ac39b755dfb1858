"""The properties: text for properties.jsonl and MANIFEST.json (written by gen.py)."""
P = {}
def prop(id, title, statement, over, text, why, files, mech, note):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note)

CORE = ['src/common/kevent.c', 'src/common/knote.c']
FILTERS = ['src/linux/%s.c' % n for n in 'read write user timer signal proc vnode'.split()]
PLAT = ['src/linux/platform.c']

prop('C01', 'No sequence of calls makes the library crash or touch invalid memory',
     'Whatever identifiers, filters, flags, filter flags, data and user data a change contains, and whatever happens to the watched sources between calls, no call reads or '
     'writes outside live memory, reads uninitialised memory in a decision, frees twice, fails an internal assertion or executes undefined arithmetic. '
     'This holds for sequences of changes, readiness changes, descriptor closures and waits on every filter.',
     ['inputs', 'histories'], 'all values of every kevent field; all histories of the stated length, per filter and across filters',
     'The tests pass well-formed changes in a few fixed orders; a use after free or an out-of-bounds access needs a particular combination of flags, state and order.',
     CORE + FILTERS + PLAT, [('knote life time', 'src/common/knote.c'), ('copyout of ready events', 'src/linux/platform.c')],
     'All paths within the bounds; every load, store, free, assertion and signed operation is a proof obligation.')
prop('C02', 'kevent() returns a count within the room given and writes nothing else',
     'For any change list and event list, including empty, NULL, aliased and very large ones, kevent() returns -1 with errno set or the number of entries it filled in, never more than the '
     'event list has room for. Every counted entry is filled in completely; entries that are not counted, and memory outside the list, are not written. '
     'Without an event list nothing is counted and the call does not wait. Ready sources that do not fit are kept for a later call.',
     ['inputs'], 'all change lists of the stated length, all event-list sizes around the internal limits, all sets of ready sources of the stated size',
     'Tests use one change or one event per call; overruns and wrong counts need lists that are just too short, aliased lists, or more ready sources than room.',
     CORE + PLAT, [('kevent', 'src/common/kevent.c:kevent'), ('kevent_copyin/kevent_copyout', 'src/common/kevent.c'), ('linux_kevent_copyout', 'src/linux/platform.c')],
     'All combinations of list sizes and ready sources within the bounds.')
prop('C03', 'Changes are applied in order and reported exactly: errors, receipts, no loss',
     'Changes take effect in list order. A failed change, and any change with EV_RECEIPT, is reported in the event list in that order as the change itself with EV_ERROR set and the error number '
     '(0 for a successful receipt) in data; the call then returns these reports at once without waiting and without draining pending events. If a report does not fit, the call returns -1 with errno set to the '
     'error and later changes are not applied. Without reports, pending events are returned. The change list may be the event list.',
     ['inputs'], 'all change lists of the stated length over valid, failing and receipt-requesting changes; all event-list sizes; aliased and separate lists',
     'Tests use a single change or a single error per call; ordering, partial failure and aliasing need several changes of mixed outcome with a list that is just too short.',
     CORE, [('kevent_copyin', 'src/common/kevent.c'), ('kevent_copyin_one', 'src/common/kevent.c')],
     'Reference model of the change list compared with what the call returns and leaves behind.')
prop('C10', 'User events: filter flags combine as asked and a trigger is never lost',
     'EVFILT_USER events are returned exactly if they were triggered (with NOTE_TRIGGER, when added or later) while enabled. The 24 user filter flags are kept between changes: NOTE_FFNOP leaves them, NOTE_FFAND, '
     'NOTE_FFOR and NOTE_FFCOPY combine them with those given; the returned event carries the result without control bits. EV_CLEAR, EV_ONESHOT and EV_DISPATCH reset the trigger when the event is returned; '
     'without them it stays triggered. Other user events are not affected.',
     ['inputs', 'histories'], 'all 32-bit filter flags of every change; all sequences of modify, trigger, enable, disable and wait of the stated length',
     'The algebra over 24 bits and the order of triggers and modifications cannot be sampled; the tests trigger once with one constant.',
     CORE + ['src/linux/user.c'], [('kn_modify, user flags', 'src/linux/user.c:linux_evfilt_user_knote_modify'), ('copyout', 'src/linux/user.c:linux_evfilt_user_copyout')],
     'Flags are symbolic; the solver compares all bits.')
prop('C11', 'Timers are armed for exactly the time asked and count every expiration',
     'A timer event is armed for its data in the unit its filter flags name (seconds, milliseconds by default, microseconds, nanoseconds), relative or (NOTE_ABSOLUTE) absolute, and repeats with that period unless it is one-shot, '
     'without rounding or overflow; data is the number of expirations since the last report, and no expiration is lost or reported twice. Modifying a timer replaces its setting and drops expirations not yet returned; enabling a disabled one re-arms it; '
     'deleting or disabling stops it.',
     ['inputs', 'histories'], 'all data values of the stated ranges with every unit; all sequences of add, modify, enable, disable, expiry and wait of the stated length',
     'Tests use small millisecond values and look at the wall clock with tolerance; conversion errors show at particular values and units only.',
     CORE + ['src/linux/timer.c'], [('convert_timedata_to_itimerspec', 'src/linux/timer.c'), ('knote_create/modify/enable', 'src/linux/timer.c')],
     'Data is symbolic; the armed itimerspec is compared with exact arithmetic.')
prop('C12', 'The exit of a watched process is returned once, with its status, without reaping',
     'A process watched with NOTE_EXIT, whether it exits before or after it is added, is returned exactly once: with its identifier, NOTE_EXIT and EV_EOF, the user data, and in data the status waitpid() gives for an exit, a signal or a core dump. '
     'The process is left for the application to wait for. Several processes and kqueues do not interfere, and a process watched without NOTE_EXIT is not returned until asked for.',
     ['inputs', 'histories'], 'all exit codes and signal numbers; all orders of adding, exiting, reaping by the application, and waiting of the stated length; two processes, two kqueues',
     'Tests let one child exit normally after it was added; the status encoding and the races between exit, reaping and waiting need other orders.',
     CORE + ['src/linux/proc.c'], [('evfilt_proc_copyout', 'src/linux/proc.c'), ('knote_create', 'src/linux/proc.c')],
     'Exit codes are symbolic; every order within the bounds.')
prop('C13', 'File events name exactly the changes asked for, and none is missed',
     'A file watched with EVFILT_VNODE is returned when something asked for happens to it, and only then: the filter flags returned are among those asked for (NOTE_EXTEND may accompany a reported write) and happened since the last report; '
     'a write, attribute change, link-count change, deletion, growth or rename that was asked for is reported, however several changes are combined before the wait. Changes that were not asked for, and other accesses, return nothing.',
     ['inputs', 'histories'], 'all sets of requested changes; all sequences of file operations and waits of the stated length',
     'Tests make one change of one kind; missed or invented flags need several changes between waits and particular subsets of flags.',
     CORE + ['src/linux/vnode.c'], [('evfilt_vnode_copyout', 'src/linux/vnode.c'), ('add_watch', 'src/linux/vnode.c')],
     'Requested flags are symbolic; reference model of what happened.')
prop('C14', 'EVFILT_READ reports what can be read: amount, connections, end and error',
     'An EVFILT_READ event for a descriptor carries in data the number of bytes that can be read (for a listening socket: that there is a connection), sets EV_EOF exactly when the other side is done, and the pending socket error in '
     'fflags; for a regular file data is the distance from the position to the end and it is returned exactly while that is not zero. The library never reads, writes, seeks or closes the descriptor.',
     ['inputs'], 'all amounts, poll states, errors and descriptor kinds of the stated ranges; files of any size and position (40 bits)',
     'Tests use one amount on one kind of descriptor; wrong widths and flags need particular combinations of state.',
     ['src/linux/read.c', 'src/linux/platform.c'], [('evfilt_read_copyout', 'src/linux/read.c'), ('linux_get_descriptor_type', 'src/linux/platform.c')],
     'State of the descriptor is symbolic.')
prop('C15', 'EVFILT_WRITE reports when writing is possible: end and error included',
     'An EVFILT_WRITE event is returned exactly if the descriptor can be written or the other side is gone; data is the amount the operating system reports as still queued, EV_EOF is set exactly when the other side is done, '
     'and fflags is the pending socket error. A regular file is always writable. The library never reads, writes, seeks or closes the descriptor.',
     ['inputs'], 'all amounts, poll states, errors and descriptor kinds of the stated ranges',
     'Tests use one socket that is writable; wrong widths and flags need particular combinations of state.',
     ['src/linux/write.c', 'src/linux/platform.c'], [('evfilt_socket_copyout', 'src/linux/write.c')],
     'State of the descriptor is symbolic.')
prop('C16', 'Read and write registrations on one descriptor are independent',
     'EVFILT_READ and EVFILT_WRITE registrations on the same descriptor do not affect each other: adding, deleting, enabling, disabling or returning one, in any order, with its own flags and user data, leaves the other '
     'existing, enabled and returned for its own condition only; both are returned by one wait if both hold.',
     ['histories'], 'all sequences of operations on both filters of the stated length, with level and EV_CLEAR, one-shot and dispatch registrations',
     'Tests add both filters once; the shared kernel registration goes wrong in particular orders of deletes, disables, fires and readiness.',
     CORE + PLAT + ['src/linux/read.c', 'src/linux/write.c'], [('epoll_update', 'src/linux/platform.c:epoll_update'), ('fd_state', 'src/linux/platform.h:fd_state'), ('evfilt_*_knote_create/delete', 'src/linux/read.c, write.c')],
     'Reference model of both registrations, all orders.')
prop('C17', 'Waits honour the timeout: not early, not late, no wait when there is none to do',
     'With a NULL timeout kevent() waits until there is an event, with a zero one it does not wait, and with a finite one of any length it returns 0 no earlier than the time given and no more than a millisecond of rounding later. An event pending before or arising '
     'during the wait ends it; a signal makes it fail with EINTR. A call without room for events, or with something to report about its changes, does not wait. The timeout is not modified.',
     ['inputs', 'schedules'], 'all timeouts of the stated ranges (seconds up to 2^32, every millisecond and nanosecond part); event before, during or never',
     'Tests wait a few hundred milliseconds with tolerance; conversion and overflow errors show at particular values only.',
     CORE + PLAT, [('linux_kevent_wait, linux_kevent_wait_hires', 'src/linux/platform.c'), ('kevent', 'src/common/kevent.c')],
     'The timeout is symbolic; what is asked of epoll_wait and ppoll is compared with exact arithmetic.')
prop('C18', 'Deleting and closing give everything back, exactly once',
     'Deleting a registration, by whatever way (EV_DELETE, EV_ONESHOT, an exited process, a closed kqueue), releases every descriptor and all memory the library obtained for it; closing a kqueue releases everything it held. '
     'Nothing is released twice, and the descriptors of the application are neither closed nor altered.',
     ['histories'], 'all sequences of add, modify, enable, disable, delete, occurrence, wait and close of the stated length, for every filter',
     'Leaks are invisible to functional tests, and a leak or double close needs a particular order of fire, re-add, failure and delete.',
     CORE + FILTERS + PLAT, [('knote_delete, knote_release', 'src/common/knote.c'), ('kn_delete of each filter', 'src/linux/*.c'), ('linux_kqueue_free, linux_knote_delete', 'src/linux/platform.c')],
     'The modelled kernel and heap count what is open and allocated; compared with the state before the registration on every path.')
prop('C19', 'A failed allocation or system call fails the change cleanly',
     'If memory or descriptors run out, or the kernel refuses, during a change or kqueue(), the call reports an error, no registration is made (an existing one is kept or is cleanly gone), nothing leaks, no lock stays held, '
     'and the same change succeeds once resources are back. An error is never reported for a change that took effect, nor success for one that did not.',
     ['faults'], 'failure of each allocation and each descriptor-creating or registering system call of a change, for every filter and kqueue()',
     'Tests never make the environment fail; every error path of the library is untested.',
     CORE + FILTERS + PLAT, [('kn_create of each filter', 'src/linux/*.c'), ('knote_create error paths', 'src/common/kevent.c'), ('linux_kqueue_init', 'src/linux/platform.c')],
     'A symbolic choice at every failing-capable call selects the one that fails.')
prop('C20', 'Kqueues come and go independently, whatever numbers are reused',
     'However kqueues are created and closed and however their descriptor numbers are reused by the application or the library, and whenever the thread that cleans up closed kqueues runs: every open kqueue keeps working with its own '
     'registrations only, every closed one is eventually cleaned up, the last close ends the thread, and nothing of the application is closed. At exit the thread ends.',
     ['schedules', 'histories'], 'all orders of create, close, reuse of numbers and runs of the thread of the stated length; preemption at lock operations',
     'Which clean-up happens before or after a number is reused depends on thread timing the tests do not control.',
     CORE + PLAT, [('monitoring_thread_loop, linux_at_fork', 'src/linux/platform.c'), ('kqueue, kqueue_free_by_id', 'src/common/kqueue.c'), ('linux_libkqueue_free', 'src/linux/platform.c:linux_libkqueue_free')],
     'The monitoring thread is executed as a second symbolic thread; its moments to run are symbolic.')
prop('C21', 'fork(): the child does not inherit kqueues and can use the library afresh',
     'After fork() with clean-up enabled, the kqueues are closed in the child, calls on them fail rather than hang, and the child can create, use and close kqueues of its own (and fork again), whatever threads of the parent were doing; descriptors of the application stay open. '
     'The parent, its waits and its kqueues are not affected.',
     ['schedules'], 'all states of one or two kqueues with any registration; a thread waiting, or anywhere in kqueue() or kevent(), at the time of fork()',
     'The test forks an idle process; trouble needs another thread inside the library at that moment.',
     CORE + PLAT, [('libkqueue_pre_fork, libkqueue_parent_fork, libkqueue_child_fork', 'src/common/kqueue.c'), ('linux_libkqueue_fork', 'src/linux/platform.c')],
     'The fork handlers are run as at fork(), all other threads vanishing in the child, after symbolic histories and schedules.')
prop('C04', 'A registration is identified by (identifier, filter) within one kqueue',
     'Within one kqueue a registration is identified by its full-width identifier and filter: adding creates it if absent, and deleting, enabling or disabling succeeds exactly '
     'if it exists and otherwise reports ENOENT without side effects. Registrations with other identifiers, filters or in other kqueues are not affected.',
     ['inputs', 'histories'], 'all sequences of add, delete, enable, disable, occurrences and waits of the stated length',
     'Tests check one identifier at a time; confusion needs particular sets of identifiers, filters and orders.',
     CORE, [('index of knotes by identifier', 'src/common/knote.c:RB_GENERATE'), ('change lookup', 'src/common/kevent.c:kevent_copyin_one')],
     'Reference model of existence compared after every operation, on all paths within the bounds.')
prop('C05', 'A deleted or disabled registration returns no event',
     'After a change that deletes or disables a registration succeeds (EV_DELETE deletes and EV_DISABLE disables whatever other flags come along), no wait returns an event for it until it is added or enabled again, whatever happened to its source '
     'before or after that change. Disabling and deleting are idempotent in this respect.',
     ['histories'], 'all sequences of operations and occurrences of the stated length, for every filter',
     'Tests disable or delete once at a quiet moment; stale readiness needs the change to come between an occurrence and the wait.',
     CORE + FILTERS, [('knote_disable, knote_delete', 'src/common/knote.c'), ('kn_disable of each filter', 'src/linux/*.c')],
     'Reference model of registration state; every returned event is checked against it.')
prop('C06', 'An enabled registration reports its condition: nothing lost, nothing invented',
     'If the condition of an enabled registration holds (a descriptor is ready, a timer expired, a signal arrived, a process exited, a user event was triggered, a watched '
     'file changed as asked) a wait with room returns it, even if it arose just before or between changes; level conditions repeat while they hold and EV_CLEAR ones are returned once '
     'per occurrence. No event is returned for a condition that did not arise since the last report.',
     ['histories'], 'all sequences of operations and occurrences of the stated length, for every filter',
     'Lost or duplicated events need a specific order of enable, disable, modification, occurrence and wait; the tests run a few such orders.',
     CORE + FILTERS + PLAT, [('epoll registration', 'src/linux/platform.c:linux_kevent_copyout'), ('kn_create/kn_enable', 'src/linux/*.c')],
     'Reference model of pending conditions; each wait result is compared with it in both directions.')
prop('C07', 'A one-shot registration fires once and then no longer exists',
     'A registration added with EV_ONESHOT is returned at most once; afterwards it no longer exists: changing it reports ENOENT, no further event is returned, and it can be added again. '
     'Until then it behaves as any other registration.',
     ['histories'], 'all sequences of operations and occurrences of the stated length, for every filter',
     'Tests fire a one-shot event and look once more; they do not combine it with disabling, re-adding, or occurrences at other moments.',
     CORE + FILTERS, [('knote_copyout_flag_actions', 'src/common/filter.c')],
     'Reference model; all paths within the bounds.')
prop('C08', 'A dispatched registration is disabled, not lost, when it is returned',
     'A registration added with EV_DISPATCH, or given it by a later EV_ADD, is disabled when it is returned: it still exists, is not returned again before it is enabled, and after enabling reports its condition again. '
     'It can be deleted or disabled in between like any other registration.',
     ['histories'], 'all sequences of operations and occurrences of the stated length, for every filter',
     'Tests dispatch and enable once per filter; they do not combine it with other changes or with occurrences while disabled.',
     CORE + FILTERS, [('knote_copyout_flag_actions', 'src/common/filter.c')],
     'Reference model; all paths within the bounds.')
prop('C09', 'Events carry the identifier, filter and user data they were registered with',
     'Every returned event carries the full-width identifier and the filter of its registration and the 64-bit user data given by the last change that added or modified it, '
     'unchanged; enabling, disabling or a re-created registration never returns stale or foreign user data.',
     ['inputs', 'histories'], 'all 64-bit user data values; all sequences of the stated length',
     'Tests use one identifier and NULL or one pointer.',
     CORE + FILTERS, [('memcpy of the registered event in kf_copyout', 'src/linux/*.c')],
     'User data is symbolic; the solver compares all 64 bits.')

prop('C22', 'A change that names nothing that exists is refused and leaves no trace',
     'Adding an event for something that does not exist (a closed or impossible descriptor, no such process, an invalid signal number, an unknown filter, whatever 64-bit identifier names it) fails: kevent() returns -1 with errno set, or an EV_ERROR '
     'entry with a non-zero error number naming the change; so does any change without EV_ADD of something not registered (ENOENT). It never acts on another object because the identifier was shortened, registers nothing, leaves no memory or descriptor behind, and does not affect existing registrations.',
     ['inputs'], 'all 64-bit identifiers, flags, filter flags, data and user data; every filter number',
     'Tests try one or two bad values; which value of a wide identifier collides with a valid one cannot be sampled.',
     CORE + FILTERS, [('kevent_copyin_one', 'src/common/kevent.c'), ('kn_create of each filter', 'src/linux/*.c'), ('filter_lookup', 'src/common/filter.c')],
     'The identifier is symbolic; the solver looks for any value that is accepted or touches something.')
prop('C23', 'EVFILT_LIBKQUEUE answers queries and settings at once and stays out of the way',
     'A version query (NOTE_VERSION, NOTE_VERSION_STR) returns its reply in the event list, number and text naming the same version. NOTE_THREAD_SAFE, NOTE_FORK_CLEANUP and NOTE_DEBUG take effect as data says, with a receipt if asked for; '
     'anything else is refused with an error each time. A query or setting is never returned again by a later wait and does not disturb other registrations.',
     ['inputs', 'histories'], 'all sequences of queries and settings of the stated length; symbolic unknown filter flags',
     'Tests set each option once; replies repeated by a later call, or lost settings, need sequences.',
     CORE + ['src/common/libkqueue.c'], [('common_libkqueue_knote_create', 'src/common/libkqueue.c'), ('copyout of replies', 'src/common/kevent.c:kevent_copyin')],
     'Sequences are symbolic; each reply is compared with a model of the settings.')
prop('C24', 'Every descriptor the library opens is close-on-exec',
     'Whatever is registered, modified, disabled, enabled and waited for, no descriptor the library opens (the kqueue itself or any internal one) survives exec() into another program.',
     ['histories'], 'all sequences of operations of the stated length, for every filter, regular files included',
     'No test runs exec(); a leaked descriptor keeps pipes, files and processes alive in an unrelated program.',
     FILTERS + PLAT, [('linux_kqueue_init, linux_eventfd_init', 'src/linux/platform.c'), ('descriptors of each filter', 'src/linux/*.c')],
     'After every operation, every descriptor that is not the application\'s must carry the close-on-exec flag.')
prop('C25', 'Signals: exactly the watched ones are taken, each reported once',
     'Any signal that can be blocked can be watched; registering it blocks that signal and no other, and invalid numbers are refused. A watched signal that arrives while blocked is returned once, with its number, user data and one occurrence in data, '
     'and is consumed only when it is returned: neither signals that are not watched nor those of disabled or deleted registrations are consumed or unblocked by the library, and a thread of the library takes no signal of the application.',
     ['inputs', 'histories'], 'all pairs of signal numbers; all sequences of raise, disable, enable, delete and wait of the stated length',
     'Tests use SIGUSR1/2 only and one order each.',
     CORE + ['src/linux/signal.c'], [('evfilt_signal_knote_create, signalfd_create', 'src/linux/signal.c'), ('evfilt_signal_copyout', 'src/linux/signal.c')],
     'Signal numbers are symbolic; the masks and pending sets are compared bit by bit after each operation.')
prop('C26', 'Threads: calls act as if made one after the other; no data races',
     'Threads may use the library at the same time. Calls by several threads, on the same or on different kqueues, return what they would return if made one after the other in some order, and leave that behind; '
     'memory of the library is never accessed by two threads without ordering; closing a kqueue another thread is using harms neither that thread nor other kqueues; a call on one kqueue does not wait for a thread '
     'that waits on another; switching NOTE_THREAD_SAFE affects no call that is being made.',
     ['inputs', 'schedules'], 'two or three threads, one or two calls each, any filter, switched at any lock operation or system call',
     'Races and deadlocks depend on the interleaving; a test sees whichever the scheduler picks.',
     CORE + PLAT + ['src/common/kqueue.c', 'src/common/map.c'], [('kevent', 'src/common/kevent.c:kevent'), ('locks', 'src/common/kqueue.c:kqueue_free'), ('clean-up thread', 'src/linux/platform.c:monitoring_thread_loop')],
     'The oracle searches for a serial order that gives the same results. Accesses to the library\'s memory are checked with vector clocks (happens-before over locks, thread start and end, atomics) on every explored path.')
prop('C27', 'Debug output changes nothing but the messages',
     'With debug output on, every call behaves as without it: same results, same events, no memory error whatever flags are printed and however long the text is. Messages go to the function that was set with NOTE_DEBUG_FUNC and start with the prefix '
     'that was set with NOTE_DEBUG_PREFIX (as much of it as there is room for).',
     ['inputs', 'histories'], 'all histories of the stated length with symbolic flags, all prefixes of the stated lengths, numbers printed at their longest',
     'Tests compare one or two messages; buffers that are too small show only with particular flags and long texts.',
     ['src/common/debug.c', 'src/common/debug.h', 'src/common/libkqueue.c', 'src/common/knote.c', 'src/common/kevent.c'] + FILTERS, [('dump functions', 'src/common/kevent.c'), ('debug settings', 'src/common/libkqueue.c'), ('dbg_printf and friends', 'src/common/debug.h')],
     'The histories of C01 and C06 are run with debug output on; formatting is executed, and each access checked.')
prop('C28', 'A thread cancelled inside the library leaves everything usable and loses nothing',
     'If a thread is cancelled while it is in kqueue() or kevent(), other threads can go on using the library: no lock stays held, nothing leaks, registrations and pending events are as before or as after the call, and an event '
     'taken from the system is not lost with the thread. A call that has done its work returns it before the thread ends.',
     ['schedules'], 'cancellation becoming pending before any lock operation or system call of kqueue() or kevent()',
     'The moment of a cancellation cannot be controlled by a test.',
     CORE + PLAT + ['src/common/kqueue.c'], [('kevent', 'src/common/kevent.c:kevent'), ('kqueue', 'src/common/kqueue.c:kqueue'), ('wait', 'src/linux/platform.c:linux_kevent_wait')],
     'Which cancellation point acts is symbolic; clean-up handlers are executed as pthread_cancel() would.')

NA = {}
