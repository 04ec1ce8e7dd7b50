PROP = dict(
    title='The circular buffer is a bounded double-ended queue',
    statement='After any sequence of pushes and pops at either end and clears, the circular buffer holds exactly the most recent elements a bounded double-ended queue would hold, '
              'in order, whether read by index, front/back, or iterators in either direction, and a push into a full buffer drops exactly the element at the opposite end. '
              'Each stored element is constructed once and destroyed once, and iterator arithmetic and comparisons agree with element positions across the wrap-around.',
    over=['histories', 'inputs'], quant='every fill level at every storage offset followed by any three operations, and every seven-operation history, with arbitrary element values',
    why='Tests push and pop in a few fixed patterns on a 100-slot buffer; errors sit at particular wrap-around offsets combined with particular operations.',
    files=['common/circular_buffer.h'],
    mech=[('CircularBuffer push/pop/emplace/clear', 'common/circular_buffer.h'), ('const_iterator / iterator arithmetic', 'common/circular_buffer.h')])
UNITS = [dict(name='ring', src='ring.cpp', native_extra=[], entries=['h_ops', 'h_iter', 'h_history'])]
BOUNDS = ['5-slot buffers (capacity 4): every storage offset and fill level, then any three of emplace/push at either end, pop at either end, clear; 3-slot buffers: every history of seven operations. '
          'Popping an empty buffer and copying a buffer are outside the claim.']
ORACLE = 'an array deque in the harness; elements own heap memory, so a missed, repeated or misplaced destruction is a memory error and a wrong live count'
