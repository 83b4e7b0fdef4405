"""Which specifications and which replay harnesses decide each property."""
from .build import VERIF


def H(*a, **k):
    from .check import Harness
    return Harness(*a, **k)


CONC = ['-include', 'conc.h']

PROPS = {
    'B01': dict(specs=['forward_list'], harness=lambda: [H('lists.cpp', label='ForwardList vs sequence')]),
    'B02': dict(specs=['doubly_list'], harness=lambda: [H('lists.cpp', flags=['-DDOUBLY'], label='DoublyList vs sequence')]),
    'B03': dict(specs=['binary_heap'], harness=lambda: [H('heap.cpp', label='BinaryHeap vs multiset')],
                bounded=['by-value and non-intrusive heap flavours (same template code, other Methods): bounded runs in the thorough tier']),
    'B04': dict(specs=['time_iovec:TimeSpec'], harness=lambda: [H('time.cpp', label='time limits with a controlled clock')]),
    'B05': dict(specs=['time_iovec:IOVecSpec'], harness=lambda: [H('iovec.cpp', label='IOVecPropagate vs byte sequence')]),
    'B06': dict(specs=['mpsc'], harness=lambda: [H('mpsc.cpp', flags=CONC, label='multi-producer queue under enumerated schedules')]),
    'B07': dict(specs=['shared_ptr'], harness=lambda: [H('shared_ptr.cpp', flags=CONC, label='shared pointers, sequential and under schedules')]),
    'B08': dict(specs=['signal'], harness=lambda: [H('signal.cpp', flags=CONC, label='signals under enumerated schedules')]),
    'B09': dict(specs=['mutex'], harness=lambda: [H('mutex.cpp', flags=CONC, label='mutex and condition variable under enumerated schedules')]),
    'B10': dict(specs=['imutex'], harness=lambda: [H('imutex.cpp', flags=CONC, label='interruptible mutex under enumerated schedules')]),
    'B11': dict(specs=['atomic'], harness=lambda: [H('atomic.cpp', flags=['-fwrapv', '-I' + VERIF + '/tus'], label='atomic methods against their names')]),
    'B12': dict(specs=['task'], harness=lambda: [H('sched.cpp', flags=CONC, label='tasks in a real scheduler under enumerated schedules')]),
    'B13': dict(specs=['task:SchedSpec', 'task:OpSpec', 'task:CoroSpec'], harness=lambda: [H('sched.cpp', flags=CONC + ['-DWAKES'], label='wakeups, signals and coroutine exits under enumerated schedules')]),
    'B14': dict(specs=['task:EmptySpec', 'task:RunSpec', 'task:SchedSpec', 'task:TSStop'], harness=lambda: [H('sched.cpp', flags=CONC + ['-DEMPTY'], label='emptiness of a working scheduler under enumerated schedules')]),
    'B15': dict(specs=['buffers'], harness=lambda: [H('buffers.cpp', label='buffer streams, link lists and copies vs byte sequences')]),
    'B16': dict(specs=['mcq'], harness=lambda: [H('mcq.cpp', flags=CONC, label='multi-consumer queue under enumerated schedules')]),
    'B17': dict(specs=['io'], harness=lambda: []),
    'B18': dict(specs=['tcp'], harness=lambda: []),
    'B19': dict(specs=['domtoip'], harness=lambda: []),
}
