"""The queries that decide each property: harness, defines, executor options, bounds."""
Q, NOTES = {}, {}
ASSUMPTIONS = [
    'The operating system behaves as model/kmodel.c describes (epoll level/edge/one-shot, eventfd, timerfd, signalfd, inotify, pidfd, pipes with F_SETSIG, memory allocation).',
    'Loops, operations per history, identifiers, descriptors and threads are bounded as stated per query; nothing is claimed outside the bounds.',
    'The sources are compiled by clang 18 at -O0 with the configuration of the CMake build (Linux back end, assertions on).',
]
FILTERS = ['READ', 'WRITE', 'USER', 'TIMER', 'SIGNAL', 'PROC', 'VNODE']
def q(prop, name, h, d=(), opts=(), covers=('end',), tier='quick', w=1, bound='', time=None):
    e = dict(name=name, h=h, d=['-D' + x for x in d], opts=list(opts), covers=list(covers), tier=tier, w=w, bound=bound)
    if time: e['time'] = time
    Q.setdefault(prop, []).append(e)

# ---- C01: memory safety of histories
for f in FILTERS:
    q('C01', 'hist-' + f, 'hist.c', ['FILT=EVFILT_' + f, 'NOPS=2'], ['--signed-overflow'], w=9 if f == 'TIMER' else 1,
      bound='2 operations; every kevent field symbolic' + (' (timer data: 4 values)' if f == 'TIMER' else ''))
    q('C01', 'hist-' + f, 'hist.c', ['FILT=EVFILT_' + f, 'NOPS=3'], ['--signed-overflow'], tier='thorough', bound='3 operations; every kevent field symbolic')

# ---- C04..C09: life cycle of registrations
for n in (4, 5, 6, 7, 8, 9):
    p = 'C%02d' % n
    for f in FILTERS:
        cov = ['event', 'end']
        if n == 7: cov.append('oneshot gone')
        if n == 8:
            if f == 'PROC': continue            # process events are one-shot by definition
            cov.append('dispatched')
        q(p, 'life-' + f, 'life.c', ['FILT=EVFILT_' + f, 'PROP=%d' % n, 'NOPS=5', 'NID=1'], covers=cov, w=2 if f in ('READ', 'WRITE') else 1,
          bound='add, 5 operations (add, delete, disable, enable, occurrence, wait, condition ends) and a wait; one identifier; flags symbolic')
        q(p, 'life-' + f, 'life.c', ['FILT=EVFILT_' + f, 'PROP=%d' % n, 'NOPS=6', 'NID=1'], covers=cov, tier='thorough',
          bound='as quick, 6 operations')

for f in FILTERS:
    cov = ['event', 'end'] + ([] if f == 'VNODE' else ['modified'])
    for p in ('C04', 'C05', 'C06', 'C08', 'C09'):
        if p == 'C08' and f == 'PROC': continue
        q(p, 'mod-' + f, 'life.c', ['FILT=EVFILT_' + f, 'PROP=%d' % int(p[1:]), 'NOPS=4', 'NID=1', 'MOD'], covers=cov,
          bound='as life, 4 operations, including adding again with other user data and EV_DISPATCH')
    for p in ('C05', 'C06', 'C09'):
        q(p, 'two-' + f, 'life.c', ['FILT=EVFILT_' + f, 'PROP=%d' % int(p[1:]), 'NOPS=3', 'NID=2', 'BOTH'], covers=['event', 'end'], w=2 if f in ('READ', 'WRITE') else 1,
          bound='as life, two sources registered at first, 3 operations, waits with room for one event or more')
    for p in ('C04', 'C06'):
        q(p, 'receipt-' + f, 'life.c', ['FILT=EVFILT_' + f, 'PROP=%d' % int(p[1:]), 'NOPS=4', 'NID=1', 'RCPT'], covers=['event', 'end'],
          bound='as life, 4 operations, every change with EV_RECEIPT and room for the receipt only')
for f in ('READ', 'WRITE'):
    q('C06', 'reopened-' + f, 'reopen.c', ['FILT=EVFILT_' + f, 'DELETED'], covers=['added', 'deleted', 'end'], bound='a watched descriptor closed, its number used again; the old event deleted first, then added; all flags')
    q('C06', 'stale-' + f, 'reopen.c', ['FILT=EVFILT_' + f], covers=['end'], bound='as reopened; the old event (or that of the other filter) not deleted')
MIX = [('USER', 'SIGNAL'), ('READ', 'TIMER'), ('SIGNAL', 'PROC'), ('VNODE', 'READ'), ('WRITE', 'USER'), ('TIMER', 'USER'), ('PROC', 'READ'), ('VNODE', 'TIMER'), ('PROC', 'USER')]
for p, quick in (('C04', 4), ('C05', 4), ('C06', 6), ('C09', 4)):
    for i, (f, g) in enumerate(MIX):
        q(p, 'mix-%s-%s' % (f, g), 'life.c', ['FILT=EVFILT_' + f, 'FILT2=EVFILT_' + g, 'PROP=%d' % int(p[1:]), 'NOPS=3', 'NID=2', 'BOTH'], covers=['event', 'end'], w=2,
          tier='quick' if i < quick else 'thorough', bound='as two, but the sources are of two filters (with the same identifier where that can be)')
q('C04', 'ids', 'ids.c', ['NV=3', 'NOPS=3'], covers=['added', 'deleted', 'disabled', 'end'], w=2, bound='3 symbolic 64-bit identifiers, equal or not; 2 filters; 3 operations, then everything happens')
q('C04', 'ids-2kq', 'ids.c', ['NV=2', 'NOPS=3', 'NKQ=2'], covers=['added', 'deleted', 'disabled', 'end'], w=2, bound='2 identifiers, 2 filters, 2 kqueues, 3 operations')
q('C04', 'tree', 'ids.c', ['TREE', 'NV=4', 'NOPS=2', 'NF=1'], covers=['deleted', 'end'], w=2, bound='4 identifiers in every order, then 2 deletions')
q('C04', 'tree', 'ids.c', ['TREE', 'NV=5', 'NOPS=2', 'NF=1'], covers=['deleted', 'end'], tier='thorough', w=5, bound='5 identifiers in every order, then 2 deletions')
q('C04', 'ids', 'ids.c', ['NV=3', 'NOPS=4'], covers=['added', 'deleted', 'disabled', 'end'], tier='thorough', w=5, bound='3 identifiers, 4 operations')

# ---- C02, C03: change and event lists
for n in (2, 3):
    p = 'C%02d' % n
    cov = ['end', 'events', 'no room', 'reports', 'unknown filter']
    q(p, 'list', 'list.c', ['PROP=%d' % n, 'NCH=2', 'NEV=3'], covers=cov, bound='0-2 changes, event list of 0-3, two known events')
    q(p, 'list-alias', 'list.c', ['PROP=%d' % n, 'NCH=2', 'NEV=3', 'ALIAS'], covers=cov, bound='as list; change list and event list are the same array')
    q(p, 'list-3', 'list.c', ['PROP=%d' % n, 'NCH=3', 'NEV=2'], covers=cov, w=5, bound='0-3 changes, event list of 0-2')
    q(p, 'list-alias', 'list.c', ['PROP=%d' % n, 'NCH=3', 'NEV=4', 'ALIAS'], covers=cov, tier='thorough', bound='0-3 changes, event list of 0-4, same array')
    q(p, 'list', 'list.c', ['PROP=%d' % n, 'NCH=3', 'NEV=4'], covers=cov, tier='thorough', bound='0-3 changes, event list of 0-4')
q('C02', 'slots', 'slots.c', covers=['end', 'events'], w=3, bound='up to 7 ready sources of 4 filters; event lists of 0-5, 7, 511-513 and 600 entries; two calls')

# ---- C10: user events
q('C10', 'user', 'user.c', ['NMOD=4'], covers=['and', 'or', 'copy', 'event', 'end'], bound='add and 4 operations (modify, wait, enable/disable, trigger); fflags 32 bits symbolic')
q('C10', 'user', 'user.c', ['NMOD=5'], covers=['and', 'or', 'copy', 'event', 'end'], tier='thorough', bound='add and 5 operations')

# ---- C11: timers
q('C11', 'conv', 'timer.c', ['CONV', 'BITS=24'], covers=['modified', 'enabled', 'end'], bound='data below 2^24, every unit, relative and absolute, any current time')
q('C11', 'conv-split', 'timer.c', ['CONV', 'SPLIT'], covers=['modified', 'enabled', 'end'], bound='large data composed of symbolic seconds and sub-second parts, every unit')
q('C11', 'history', 'timer.c', ['NOPS=4'], covers=['event', 'fired', 'modify', 'end'], bound='add and 4 operations (modify, enable, disable, expiry of any count, wait)')
q('C11', 'history', 'timer.c', ['NOPS=5'], covers=['event', 'fired', 'modify', 'end'], tier='thorough', bound='add and 5 operations')

# ---- C12: processes
cov = ['exited', 'killed', 'dumped', 'event', 'reaped', 'dead before', 'modified', 'end']
q('C12', 'proc', 'proc.c', covers=cov, bound='two processes, one kqueue, 3 operations; all exit codes and signals')
q('C12', 'proc-2kq', 'proc.c', ['TWOKQ'], covers=cov, w=3, bound='two processes, two kqueues, 3 operations')

# ---- C13: files
cov = ['write', 'grow', 'attrib', 'link', 'unlink', 'rename', 'other', 'event', 'end']
q('C13', 'vnode', 'vnode.c', ['NOPS=2'], covers=cov, bound='2 changes or waits and a final drain; level, clear, one-shot, dispatch; any requested flags')
q('C13', 'vnode-clear', 'vnode.c', ['NOPS=3', 'KIND=EV_CLEAR'], covers=cov, w=3, bound='3 changes or waits; EV_CLEAR; any requested flags')
q('C13', 'vnode', 'vnode.c', ['NOPS=3'], covers=cov, tier='thorough', bound='3 changes or waits; every kind')

# ---- C14, C15: readable, writable
q('C14', 'descriptor', 'fdev.c', ['RD'], covers=['event', 'eof', 'error', 'end'], bound='pipe, tty, stream, datagram, listening and raw sockets; any poll state, amount and error')
q('C14', 'file', 'file.c', ['RD', 'FILT=EVFILT_READ'], covers=['event', 'at end', 'end'], bound='3 waits; size and position 40 bits')
q('C14', 'file-grows', 'file.c', ['RD', 'GROW', 'FILT=EVFILT_READ'], covers=[], bound='as file, the file growing after its end was reached')
q('C15', 'descriptor', 'fdev.c', [], covers=['event', 'eof', 'error', 'end'], bound='as C14')
q('C15', 'file', 'file.c', ['FILT=EVFILT_WRITE'], covers=['event', 'end'], bound='3 waits')

# ---- C16: both filters on one descriptor
cov = ['read', 'write', 'both', 'end']
q('C16', 'one', 'pair.c', ['NOPS=3'], covers=cov, bound='one added, 3 operations on either')
q('C16', 'one-clear', 'pair.c', ['NOPS=3', 'CLR'], covers=cov, bound='as one, EV_CLEAR')
q('C16', 'both', 'pair.c', ['BOTH', 'NOPS=3'], covers=cov, bound='both added, 3 operations on either')
q('C16', 'both-clear', 'pair.c', ['BOTH', 'NOPS=3', 'CLR'], covers=cov, bound='as both, EV_CLEAR')
for n, d in (('one', []), ('one-clear', ['CLR']), ('both', ['BOTH']), ('both-clear', ['BOTH', 'CLR'])):
    q('C16', n, 'pair.c', d + ['NOPS=4'], covers=cov, tier='thorough', bound='4 operations')
q('C16', 'oneslot', 'pair.c', ['BOTH', 'ONESLOT'], covers=[], bound='both ready, room for one event, 3 waits')
q('C16', 'oneslot-clear', 'pair.c', ['BOTH', 'ONESLOT', 'CLR'], covers=[], bound='as oneslot, EV_CLEAR')

# ---- C17: timeouts
cov = ['pending', 'meanwhile', 'forever', 'time up', 'interrupted', 'no room', 'report', 'end']
q('C17', 'short', 'tmo.c', [], covers=cov, bound='seconds below 2^21, every nanosecond part')
q('C17', 'long', 'tmo.c', ['LONG'], covers=cov, bound='seconds from 2000000 to 2^32, every nanosecond part')
q('C17', 'discarded', 'tmov.c', [], covers=[], bound='a file change that is not asked for arises during the wait')

# ---- C18: resources
FL = ['READ', 'WRITE', 'USER', 'TIMER', 'SIGNAL', 'PROC', 'VNODE']
for f in FL:
    cov = ['deleted', 'failing', 'end'] + (['closed'] if f in ('READ', 'WRITE', 'VNODE') else [])
    for t, n in (('quick', 3), ('thorough', 4)):
        q('C18', f.lower(), 'res.c', ['FILT=EVFILT_' + f, 'NOPS=%d' % n], covers=cov, tier=t, w=2, bound='%d operations' % n)
        if f in ('READ', 'WRITE'):
            q('C18', f.lower() + '-file', 'res.c', ['FILT=EVFILT_' + f, 'REGFILE', 'NOPS=%d' % n], covers=cov, tier=t, w=4, bound='%d operations, regular file' % n)

# ---- C19: failing calls
for f in FL:
    cov = ['add refused', 'disable refused', 'refused', 'end']
    q('C19', f.lower(), 'flt.c', ['FILT=EVFILT_' + f], covers=cov, bound='any one or more failing calls in an add, modify, enable, disable or delete')
    if f in ('READ', 'WRITE'):
        q('C19', f.lower() + '-file', 'flt.c', ['FILT=EVFILT_' + f, 'REGFILE'], covers=cov, bound='as ' + f.lower())
q('C19', 'limit', 'limit.c', [], covers=['made', 'refused', 'end'], bound='the descriptor limit raised after the first kqueue(), any number of descriptors in use')
q('C19', 'kqueue', 'flt.c', ['FILT=EVFILT_USER', 'KQ'], covers=['refused', 'end'], bound='any failing calls in kqueue()')

# ---- C20: life of kqueues
cov = ['app closes', 'app opens', 'thread runs', 'closed', 'end']
q('C20', 'reuse', 'mon.c', ['NOPS=5'], covers=cov, w=2, bound='5 operations, 3 kqueues, thread runs between operations')
q('C20', 'registered', 'mon.c', ['NOPS=5', 'REG'], covers=cov, w=2, bound='as reuse, with registrations')
q('C20', 'two', 'mon.c', ['NOPS=5', 'START2'], covers=cov, w=2, bound='as reuse, two kqueues at the start')
q('C20', 'preempt', 'mon.c', ['NOPS=3', 'PREEMPT=1'], covers=cov, bound='3 operations, one preemption at any lock operation')
q('C20', 'spurious', 'mon.c', ['NOPS=3', 'SPUR=1'], covers=cov, bound='3 operations; one wait for a condition or a signal ends for no reason')
q('C20', 'spurious', 'mon.c', ['NOPS=4', 'SPUR=2', 'PREEMPT=1'], covers=cov, tier='thorough', bound='4 operations, one preemption; two waits end for no reason')
q('C20', 'exit', 'mon.c', ['NOPS=4', 'EXIT'], covers=['exit'], bound='4 operations, then the process exits')
q('C20', 'exit-preempt', 'mon.c', ['NOPS=2', 'EXIT', 'PREEMPT=2'], covers=['exit'], bound='2 operations, exit, 2 preemptions')
q('C20', 'reuse', 'mon.c', ['NOPS=6'], covers=cov, tier='thorough', w=5, bound='6 operations')
q('C20', 'preempt', 'mon.c', ['NOPS=3', 'PREEMPT=2'], covers=cov, tier='thorough', w=5, bound='3 operations, 2 preemptions')

# ---- C21: fork
q('C21', 'idle', 'fork.c', [], covers=['child', 'parent', 'waiting', 'end'], bound='1 or 2 kqueues, any filter registered, a thread waiting or not, clean-up on or off')
q('C21', 'again', 'fork.c', ['AGAIN'], covers=['child', 'grandchild', 'parent', 'waiting', 'end'], bound='as idle; the parent forks twice, the child forks again')
q('C21', 'busy', 'fork.c', ['BUSY=1'], covers=['child', 'parent', 'busy', 'end'], bound='a thread inside kqueue() or kevent(), stopped at any lock operation or system call')
q('C21', 'busy', 'fork.c', ['BUSY=2'], covers=['child', 'parent', 'busy', 'end'], tier='thorough', bound='2 preemptions')

# ---- C22: refused changes
for f in ['READ', 'WRITE', 'VNODE', 'PROC', 'SIGNAL']:
    q('C22', f.lower(), 'bad.c', ['FILT=EVFILT_' + f], covers=['no room', 'reported', 'end'], bound='one change; every field symbolic')
for f in FILTERS:
    q('C22', 'absent-' + f, 'bad.c', ['FILT=EVFILT_' + f, 'ABSENT'], covers=['no room', 'reported', 'end'], bound='a change without EV_ADD of what is not registered; any flags')
q('C22', 'filter', 'bad.c', ['FILT=EVFILT_USER', 'ANYFILT'], covers=['no room', 'reported', 'end'], bound='every filter number that is not in use')

# ---- C23: the library's own filter
q('C23', 'settings', 'lq.c', [], covers=['version', 'receipt', 'set', 'unknown', 'end'], bound='3 queries or settings')
q('C23', 'settings', 'lq.c', ['NOPS=4'], covers=['version', 'receipt', 'set', 'unknown', 'end'], tier='thorough', bound='4 queries or settings')

# ---- C24: close-on-exec
for f in FL:
    for t, n in (('quick', []), ('thorough', ['NOPS=5'])):
        q('C24', f.lower(), 'cloexec.c', ['FILT=EVFILT_' + f] + n, covers=['enabled', 'end'], tier=t, bound='%d operations' % (5 if n else 3))
        if f in ('READ', 'WRITE'):
            q('C24', f.lower() + '-file', 'cloexec.c', ['FILT=EVFILT_' + f, 'REGFILE'] + n, covers=['enabled', 'end'], tier=t, bound='%d operations, regular file' % (5 if n else 3))

# ---- C25: signals
cov = ['deleted', 'event', 'invalid', 'other', 'end']
q('C25', 'signals', 'sig.c', ['NOPS=2'], covers=cov, bound='one or two watched signals of any number, another one, 2 operations and a wait')
q('C25', 'signals', 'sig.c', ['NOPS=3'], covers=cov, tier='thorough', bound='3 operations and a wait')

# ---- C27: debug output
for f in FL:
    cov = ['event', 'end', 'oneshot gone'] + ([] if f == 'PROC' else ['dispatched'])
    q('C27', 'life-' + f.lower(), 'life.c', ['FILT=EVFILT_' + f, 'PROP=6', 'NOPS=3', 'NID=1', 'DBG'], covers=cov, bound='the histories of C06 of 3 operations, with debug output')
    q('C27', 'life-' + f.lower(), 'life.c', ['FILT=EVFILT_' + f, 'PROP=6', 'NOPS=4', 'NID=1', 'DBG'], covers=cov, tier='thorough', bound='the histories of C06 of 4 operations, with debug output')
    q('C27', 'hist-' + f.lower(), 'hist.c', ['FILT=EVFILT_' + f, 'NOPS=1', 'DBG'], tier='thorough' if f in ('TIMER', 'VNODE') else 'quick', bound='one operation; every kevent field symbolic')
q('C27', 'messages', 'lq.c', ['DBGSET'], covers=['prefix', 'set', 'messages', 'end'], bound='3 settings')

# ---- C26: threads
R = ['--races', '@SRC']
for f in FILTERS:
    for o in (0, 1):
        if o and f == 'SIGNAL': continue        # two kqueues on one signal share its deliveries
        q('C26', 'conc-%s-%d' % (f, o), 'conc.c', ['FILT=EVFILT_' + f, 'PRE=1', 'OWNQ=%d' % o], R, w=9 if f == 'USER' else 3,
          bound='two threads, one call each, on the same or on two kqueues; one preemption at any lock operation or system call; races')
    q('C26', 'conc-' + f, 'conc.c', ['FILT=EVFILT_' + f, 'PRE=2'], R, tier='thorough', w=9, bound='as quick, two preemptions')
    q('C26', 'conc2-' + f, 'conc.c', ['FILT=EVFILT_' + f, 'PRE=1', 'NOPS=2'], R, tier='thorough', w=9, bound='two calls per thread, one preemption')
    q('C26', 'closing-' + f, 'closing.c', ['FILT=EVFILT_' + f, 'PRE=1'], R, w=3,
      bound='a kqueue is closed (and its number reused) around a call of another thread; one preemption; races')
    q('C26', 'closing-' + f, 'closing.c', ['FILT=EVFILT_' + f, 'PRE=2'], R, tier='thorough', w=9, bound='two preemptions')
    q('C26', 'toggle-' + f, 'closing.c', ['FILT=EVFILT_' + f, 'PRE=1', 'TOGGLE'], bound='another thread switches NOTE_THREAD_SAFE; one preemption')
for f in ('USER', 'TIMER'):
    q('C26', 'new-' + f, 'conc.c', ['FILT=EVFILT_' + f, 'PRE=1', 'NEWQ'], R, covers=['end', 'own kqueue'], w=4,
      bound='as conc, the threads make and close kqueues')
q('C26', 'waiting', 'wait2.c', [], R, covers=['waiting', 'end'], bound='one thread waits; another uses or closes another kqueue or makes one; one preemption')
q('C26', 'waiting-same', 'wait2.c', ['SAME'], covers=[], bound='one thread waits; another changes the same kqueue')
q('C26', 'waiting-behind', 'wait2.c', ['BEHIND'], covers=[], bound='as waiting, with a third thread that changes the kqueue being waited on')
q('C26', 'monitor', 'mon.c', ['NOPS=3', 'PREEMPT=1'], R, covers=['closed', 'end'], w=3, bound='kqueues made and closed, 3 operations, one preemption; races with the clean-up thread')
q('C26', 'cancel', 'cancel.c', ['TWO'], R, covers=['cancelled', 'end'], bound='a thread is cancelled at any lock operation or system call; races')

# ---- C28: cancellation
cov = ['returned', 'cancelled', 'finished', 'failed', 'kept', 'end']
q('C28', 'one', 'cancel.c', [], covers=cov, bound='cancellation before any one lock operation or system call; faults')
q('C28', 'two', 'cancel.c', ['TWO'], covers=cov + ['held up'], bound='as one, another thread using the same kqueue meanwhile')

# ---- an application that closed descriptors 0 to 2: the library gets them
for f in FILTERS:
    for p in ('C04', 'C06'):
        q(p, 'low-' + f, 'life.c', ['FILT=EVFILT_' + f, 'PROP=%d' % int(p[1:]), 'NOPS=3', 'NID=1', 'LOW0'], covers=['event', 'end'], bound='3 operations; descriptors 0 to 2 are free')
    q('C18', 'low-' + f, 'res.c', ['FILT=EVFILT_' + f, 'NOPS=2', 'LOW0'], covers=['deleted', 'failing', 'end'], bound='2 operations; descriptors 0 to 2 are free')
    q('C19', 'low-' + f, 'flt.c', ['FILT=EVFILT_' + f, 'LOW0'], covers=['add refused', 'disable refused', 'refused', 'end'], bound='as ' + f.lower() + '; descriptors 0 to 2 are free')
q('C19', 'low-kqueue', 'flt.c', ['FILT=EVFILT_USER', 'KQ', 'LOW0'], covers=['refused', 'end'], bound='as kqueue; descriptors 0 to 2 are free')
cov = ['app closes', 'app opens', 'thread runs', 'closed', 'end']
q('C20', 'low', 'mon.c', ['NOPS=4', 'LOW0'], covers=cov, bound='4 operations; descriptors 0 to 2 are free')
q('C20', 'low-reg', 'mon.c', ['NOPS=4', 'LOW0', 'REG'], covers=cov, bound='4 operations with registrations; descriptors 0 to 2 are free')
q('C20', 'low-exit', 'mon.c', ['NOPS=4', 'EXIT', 'LOW0'], covers=['exit'], bound='4 operations, exit; descriptors 0 to 2 are free')
q('C21', 'low', 'fork.c', ['LOW0'], covers=['child', 'parent', 'waiting', 'end'], bound='as idle; descriptors 0 to 2 are free')
