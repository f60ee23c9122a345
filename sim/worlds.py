"""Which world decides which property, and what the evidence says about it."""

_COMMON = [
    'one run is a function of the seed: all choices come from the seeded streams, all memory of the code under test '
    'comes from the tracked heap, its static data is restored before each run',
    'seeded search samples the space of schedules and faults: it does not exhaust it',
]

WORLDS = {
    'framer': {
        'rule': 'a run counts when at least one message was sent through the two real framers and the run reached its '
                'end; distinct means a distinct hash of the complete ordered event trace',
        'state_measure': 'hash of both endpoints\' abstract states: queued and outstanding message counts, retry class, '
                         'timer set, held frames, buffers with the HAL, fault phase, sampled after each event',
        'real': ['framer.c (two instances)', 'memory/buffer.c', 'collections/list.c', 'crc.c', 'time.c', 'ec.c'],
        'stub': ['UART HAL with transmit completion', 'serial line (bit rate, latency, noise, loss, duplication, insertion, '
                 'delay, foreign frames)', 'clock and timers', 'both applications', 'heap'],
        'assumptions': _COMMON + [
            'the frame ids, window and timeouts are the ones in framer.h; limits of the protocol itself are listed in DESIGN.md',
        ],
    },
    'deframe': {
        'rule': 'a run counts when the receiver was given at least one complete frame among the noise',
        'state_measure': 'hash of (what the reference deframer is in the middle of, bytes buffered class, last outcome)',
        'real': ['framer.c (one instance)', 'memory/buffer.c', 'collections/list.c', 'crc.c'],
        'stub': ['serial line (garbage, corruption, truncation, chunking)', 'HAL', 'clock and timer', 'heap'],
        'assumptions': _COMMON,
    },
    'buffer': {
        'rule': 'a run counts when more than two allocations and at least one hand-over between owners happened',
        'state_measure': 'hash of buffers out per size class of every allocator at the end of the history',
        'real': ['memory/buffer.c', 'buffer.h inline functions', 'collections/list.h'],
        'stub': ['buffer owners and their scheduling', 'heap'],
        'assumptions': _COMMON,
    },
    'pool': {
        'rule': 'a run counts when more than six blocks or objects were allocated',
        'state_measure': 'hash of the number of blocks and objects out per pool at the end of the history',
        'real': ['memory/pool.c', 'memory/object_pool.c', 'third-party utlist.h'],
        'stub': ['owners and their scheduling', 'constructors and destructors', 'heap'],
        'assumptions': _COMMON,
    },
    'mblock': {
        'rule': 'a run counts when more than two allocations succeeded and at least one failed for lack of space',
        'state_measure': 'hash of the occupancy of all blocks at the end of the history',
        'real': ['memory/block.c'],
        'stub': ['owners and their scheduling', 'heap'],
        'assumptions': _COMMON,
    },
    'evm': {
        'rule': 'a run counts when at least two events fired',
        'state_measure': 'hash of (pending events, events fired in the last processing call, kind of step)',
        'real': ['event_manager.c', 'collections/list.h'],
        'stub': ['clock and processing loop', 'clients and their callbacks', 'heap'],
        'assumptions': _COMMON,
    },
    'async': {
        'rule': 'a run counts when a transfer of at least one block completed, or a stand-in took part in one',
        'state_measure': 'hash of (both queues, open and close state of both sides, requests, unanswered blocks, '
                         'delivery mode, roles) after each step',
        'real': ['stream/async_source.c', 'stream/async_sink.c', 'stream/async.c'],
        'stub': ['message queues between the two tasks', 'both applications', 'in half of the runs the producer or the '
                 'consumer: a stand-in which follows the protocol'],
        'assumptions': _COMMON + ['messages of one direction are never lost or reordered: the protocol requires a reliable channel'],
    },
    'intmap': {
        'rule': 'a run counts when at least one iterator was advanced',
        'state_measure': 'hash of (entries class, live iterators, style of the run, kind of operation) after each step',
        'real': ['collections/intmap.c'],
        'stub': ['owners of the map and of the iterators and their scheduling', 'heap'],
        'assumptions': _COMMON + ['a failing allocation inside the map is fatal by contract, so it is not injected'],
    },
    'pattern': {
        'rule': 'a run counts when the channel damaged the stream or an end was restarted, and the receiver noticed',
        'state_measure': 'hash of (kind of step, good words since the last fault, position in the period)',
        'real': ['pattern_32a.c'],
        'stub': ['channel (loss, duplication, corruption, chunking)', 'restarts of both ends'],
        'assumptions': _COMMON,
    },
    'lfsr': {
        'rule': 'a run counts when the follower reported at least one error',
        'state_measure': 'hash of (follower synchronised, bytes since the disturbance, byte reported)',
        'real': ['lfsr.c'],
        'stub': ['channel (corruption, loss, duplication, insertion)', 'restarts'],
        'assumptions': _COMMON,
    },
    'cli': {
        'rule': 'a run counts when at least one line was completed',
        'state_measure': 'hash of (line length, kind of key, echo mode, interface) after each key',
        'real': ['cli.c'],
        'stub': ['user, keystrokes and line noise', 'commands', 'terminal'],
        'assumptions': _COMMON + ['NUL characters are checked for memory safety only'],
    },
    'coll': {
        'rule': 'a run counts when a traversal visited items while the lists changed, or a map entry was replaced or removed',
        'state_measure': 'hash of the lengths of all lists and maps after each step',
        'real': ['collections/list.h', 'collections/list.c', 'collections/strmap.c', 'collections/hashmap.c'],
        'stub': ['users and their interleaving', 'hash and equivalence functions', 'heap'],
        'assumptions': _COMMON + ['the declared but unimplemented hashmap remove and iterator functions are out of scope'],
    },
    'fsm': {
        'rule': 'a run counts when more than five events were processed',
        'state_measure': 'hash of (state of every machine, position in its event ring, external event)',
        'real': ['fsm.c (one to three machines)'],
        'stub': ['transition tables, guards and handlers', 'event sources'],
        'assumptions': _COMMON,
    },
    'runtime': {
        'rule': 'a run counts when more than three handler calls were checked',
        'state_measure': 'hash of the handlers which are installed after each operation',
        'real': ['lib.c', 'platform.c', 'log.c', 'log.h', 'assert.h', 'dbc.h', 'argchk.h'],
        'stub': ['allocators', 'fatal, print and log handlers', 'standard output'],
        'assumptions': _COMMON + ['a fatal handler does not return to the code which failed'],
    },
    'python': {
        'python': True,
        'rule': 'a run counts when a message was delivered between two Framer objects, a history of wrapper calls was '
                'compared, or the qualification tool completed a ping',
        'state_measure': 'hash of (received bytes waiting, messages outstanding at both ends, timer set, fault class, requests, '
                         'resyncs), or of (buffers out per class, call), or of the results of the tool',
        'real': ['py/embc/stream/framer.py', 'py/embc/memory/buffer.py', 'py/embc/pattern_32a.py', 'py/embc/ec.py',
                 'py/embc/collections/list.py', 'py/embc/lib.py', 'py/bin/framer_qual.py', 'the C library as the shared library which they load'],
        'stub': ['serial line and serial module', 'polling loop', 'wall clock (with jumps) and monotonic clock', 'applications',
                 'heap of the library', 'the device at the far end of the tool (a Framer object)'],
        'assumptions': _COMMON[1:] + [
            'one run is a function of the seed: all choices come from the seeded streams, the clocks are simulated, the '
            'interpreter hashes with a fixed seed and collects garbage at the end of a run',
            'no more messages than the eight buffers of a Framer allow are outstanding'],
    },
}

# runs and wall-clock limit in seconds per tier
CHECKS = {}


def _add(world, props, quick, thorough, **kw):
    for p in props.split():
        CHECKS[p] = dict({'world': world, 'quick': quick, 'thorough': thorough}, **kw.get(p, {}))


_add('framer', 'C01 C02 C03 C05 C06 C07 C08', (45000, 60), (3000000, 700),
     C01={'scenarios': ['framer-hold-expiry']}, C02={'scenarios': ['framer-outage-wrap']},
     C08={'scenarios': ['framer-resync-stale-ack']})
_add('buffer', 'C09', (100000, 45), (20000000, 600))
_add('pool', 'C10', (150000, 40), (20000000, 600))
_add('mblock', 'C11', (200000, 40), (20000000, 600))
_add('evm', 'C12', (400000, 40), (20000000, 600))
_add('fsm', 'C13', (200000, 45), (20000000, 600))
_add('async', 'C14', (600000, 45), (40000000, 600))
_add('intmap', 'C15', (150000, 45), (20000000, 500))
_add('pattern', 'C16', (200000, 45), (20000000, 500))
_add('lfsr', 'C17', (600000, 40), (40000000, 500))
_add('cli', 'C18', (600000, 45), (40000000, 500))
_add('coll', 'C20', (350000, 40), (20000000, 500))
_add('deframe', 'C04', (700000, 50), (20000000, 600))
_add('runtime', 'C23', (400000, 40), (20000000, 500))
_add('python', 'C22', (30000, 60), (20000000, 600))

# property: (deciding method after "deterministic simulation with fault injection:", level note)
_FR = ('two real framers on a simulated serial line, clock, timers and HAL; ')
_LVL = ('seeded search over schedules and faults, not exhaustive; every violation is minimised to a replay file; '
        'real code: %s; simulated: %s')
_FRL = _LVL % ('both framers, buffers, lists, crc', 'line, HAL, clock, timers, applications, heap')
NOTES = {
    'C01': (_FR + 'delivery history against the sent history (order, content, exactly once)', _FRL),
    'C02': (_FR + 'completions against intact arrivals on the simulated line', _FRL),
    'C03': (_FR + 'bounded progress once faults stop', _FRL),
    'C04': ('one real framer fed a hostile byte stream against an independent reference deframer',
            _LVL % ('framer, buffers, lists, crc', 'line, HAL, clock, heap')),
    'C05': (_FR + 'every transmitted frame decoded by an independent codec and checked against the window and ack rules', _FRL),
    'C06': (_FR + 'ownership ledger of every buffer over the run, memory errors trapped', _FRL),
    'C07': (_FR + 'timer contract checked after each event, early, late and spurious expirations injected', _FRL),
    'C08': (_FR + 'crash, restart and resync at arbitrary points, status counters against observed events', _FRL),
    'C09': ('histories of several owners on real allocators against a reference allocator and a reference byte array, '
            'exhaustion injected', _LVL % ('buffers, lists', 'owners, heap')),
    'C10': ('histories of several owners on real pools against a reference set, exhaustion injected, nested use from '
            'constructors and destructors', _LVL % ('pools, object pools', 'owners, constructors, heap')),
    'C11': ('histories of several owners on the real allocator against a reference bitmap, exhaustion injected',
            _LVL % ('block allocator', 'owners, heap')),
    'C12': ('simulated clock and clients against a reference queue, clock jumps, late processing, allocation failures and '
            're-entrant calls injected', _LVL % ('event manager, lists', 'clock, clients, heap')),
    'C13': ('one to three machines posting to each other against a reference interpreter of the transition table',
            _LVL % ('state machine engine', 'tables, guards, handlers, event sources')),
    'C14': ('producer and consumer in simulated tasks with queued or direct messages against the source bytes and the '
            'protocol rules; delays, aborts, full destinations, error answers and restarts injected',
            _LVL % ('source, sink', 'message queues, applications, stand-ins')),
    'C15': ('several owners and iterators interleaved on one real map against a reference map',
            _LVL % ('integer map', 'owners, heap')),
    'C16': ('transmitter and receiver on a simulated channel; loss, duplication, corruption and restarts injected; '
            'counters against the words really lost and repeated', _LVL % ('pattern transmitter and receiver', 'channel')),
    'C17': ('generator and follower on a simulated channel; corruption, loss, duplication, insertion and restarts injected; '
            'reports against a reference predictor', _LVL % ('LFSR', 'channel')),
    'C18': ('a simulated user, noise, commands and terminal against a reference line editor',
            _LVL % ('command line', 'user, commands, terminal')),
    'C20': ('several users interleaved on real lists, string maps and hash maps, changes injected into running traversals, '
            'against reference sequences and maps', _LVL % ('lists, string map, hash map', 'users, hash functions, heap')),
    'C22': ('two Python Framer objects, their applications and the qualification tool on a simulated serial line, polling loop, '
            'wall clock and monotonic clock; loss, corruption, duplication, outages, failing writes, raising callbacks, '
            'stalls and clock jumps injected; wrapper calls against a reference model',
            _LVL % ('Python package, tool, C library', 'line, serial module, clocks, loop, applications, heap')),
    'C23': ('an application and its handlers, which are replaced at any time and use the library themselves, against the '
            'calls which are due; allocation failures injected', _LVL % ('library runtime, platform, log', 'handlers, standard output')),
}
NOT_APPLICABLE = {
    'C19': 'pure functions of their arguments: no time, I/O, concurrency, faults or history for a simulation to control',
    'C21': 'constant tables: no schedule, fault or history on which the property could depend',
}
