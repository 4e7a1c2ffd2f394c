#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH, CI = 'src/sized_chunk/mod.rs', 'src/sized_chunk/iter.rs'
RB, RX, RS, RI = 'src/ring_buffer/mod.rs', 'src/ring_buffer/index.rs', 'src/ring_buffer/slice.rs', 'src/ring_buffer/iter.rs'
SP, SI = 'src/sparse_chunk/mod.rs', 'src/sparse_chunk/iter.rs'
IA, II = 'src/inline_array/mod.rs', 'src/inline_array/iter.rs'
I, H, F, C = 'inputs', 'histories', 'fault_sequences', 'configurations'
PROPS = []
def P(id, title, statement, over, text, tests, files, mech, state=(), note=''):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=['the public API'], hook_needed=None)))
    NOTES[id] = note
NOTES = {}
NA = []
def N(id, title, statement, over, text, tests, files, mech, reason):
    P(id, title, statement, over, text, tests, files, mech); NA.append(dict(property=id, reason=reason))

chunk_state = [('Chunk { left, right, data }', 'the occupied window of the buffer', CH)]
ring_state = [('RingBuffer { origin, length, data }', 'where the sequence starts and how long it is; the slots wrap', RB)]
sparse_state = [('SparseChunk { map, data }', 'which slots are occupied', SP)]
inline_state = [('InlineArray { data }', 'a length word and the elements inside the storage of a host type', IA)]

# --- chunk
P('C01', 'A chunk operation does to the chunk what it would do to a plain sequence',
  'For every chunk, wherever its elements lie in its buffer, each operation on one chunk (construction, push, pop, insert, remove, set, swap, drop from either side, clear, copying, reading by index and as a slice) yields the values, the order and the length that the same operation on an ordinary sequence yields. Elements it does not concern keep their values and order, and emptiness, fullness and length always agree.',
  [I], 'every window position and length of the buffer at small capacities and three windows at capacity 300, every index in range; element sizes as instantiated',
  'proptests and unit tests sample a few positions of the window at one capacity (64); what goes wrong does so for particular pairs of window and index.',
  [CH], [('push_front/push_back make room by shifting', CH), ('insert/remove choose the shorter side to shift', CH), ('copy within the buffer: force_copy, force_write', CH)], chunk_state)
P('C02', 'Moving elements between chunks and into chunks loses and mixes up nothing',
  'Appending, splitting off, draining a count from either end of another chunk, building from part of another chunk, inserting or extending from an iterator and collecting from one leave in each of the chunks involved exactly the elements, in the order, that the same operation on ordinary sequences leaves. This holds for every combination of positions of both chunks\' elements in their buffers, and the chunks remain fully usable afterwards.',
  [I], 'every pair of windows of the two chunks, every count and index in range, every number of items the iterator yields within capacity',
  'tests use one or two layouts per operation; the two windows and the count multiply to combinations no test enumerates.',
  [CH], [('append / drain_from_front / drain_from_back move windows', CH), ('split_off, from_front, from_back', CH), ('insert_from opens a gap on one side', CH)], chunk_state)
P('C03', 'A chunk refuses what it documents as an error, and stays as it was',
  'Every call a chunk documents as panicking (pushing when full, popping when empty, an index, count or amount out of bounds or beyond the space left) panics for every offending argument, including ones so large that arithmetic on them wraps. When it does, every chunk involved holds exactly what it held before.',
  [I], 'every chunk state and every offending 64-bit argument',
  'should_panic tests check one argument per panic, and almost none look at the container afterwards.',
  [CH], [('bounds checks at the head of each operation', CH), ('size check in insert_from', CH)], chunk_state)
P('C04', 'A chunk releases every element exactly once, exactly when it says so',
  'Every element handed to a chunk is dropped exactly once: when an operation discards it, when the caller drops what an operation returned, or when the chunk (or an iterator made from it) goes away, and never earlier. This also holds for operations that are refused and for items that a source iterator yields; a draining iterator that is leaked may leak elements, but none is released twice.',
  [I, H], 'every window, every operation and argument, every element watched (a symbolic identity stands for each of them)',
  'drop tests count drops for one or two situations; a leak or double drop in one branch of the shifting code passes them.',
  [CH, CI], [('ptr::read / ptr::write of slots paired with window updates', CH), ('Drop for Chunk', CH), ('Drain and Iter', CI)], chunk_state)
P('C05', 'A panicking callback never makes a chunk release an element twice',
  'When code the chunk calls panics in the middle of an operation (the destructor, copy or comparison of an element, the iterator being read, or a closure given to one of its iterators), no element is ever released twice, nothing the chunk still holds has been released, and the chunk can be used and dropped normally afterwards. An operation that only reads or compares leaves the chunk as it was.',
  [F, I], 'every chunk state, every operation that calls back, the panic at every possible call',
  'one test makes one iterator panic once; the quantifier is over the point at which the panic happens.',
  [CH, CI], [('window updates before destructors run (drop_left, drop_right, clear)', CH), ('insert_from inserts through a guard against short iterators', CH)], chunk_state)
P('C06', 'An iterator that misreports its length cannot corrupt a chunk',
  'Inserting or extending from an iterator whose claimed length is wrong, or changes between one question and the next, never lets the chunk hold an element that was not put there or the same element twice, never releases an element twice, and never touches memory outside the chunk. If the call returns or panics, the chunk holds a valid sequence and is usable.',
  [F, I], 'every claimed length (64 bit), every second answer, every number of items actually yielded, every chunk state',
  'two tests lie in one fixed way at one position.',
  [CH], [('insert_from compares the real count with the claim', CH)], chunk_state)
P('C07', 'Any sequence of operations leaves a chunk equal to the plain sequence',
  'After any sequence of operations on a chunk, its length, its emptiness and fullness, and every element in order equal those of an ordinary sequence put through the same operations. No sequence of valid operations panics or touches memory it should not.',
  [H, I], 'every sequence of operations with every argument, up to the number of steps stated, starting from every state (or from a new chunk)',
  'the proptest in the tree samples some hundreds of action lists at capacity 64, where windows rarely touch the edges in the way that breaks.',
  [CH], [('left/right window invariant, re-established by each operation', CH)], chunk_state)
P('C08', 'Chunk iterators yield each element once, in order, from whichever end asked',
  'Under any interleaving of taking from the front and from the back, borrowing, mutable, consuming and draining iterators of a chunk yield every element exactly once at its place, report the exact number remaining at every moment, and yield nothing ever after. Two elements lent out mutably are never the same one, writes land in the element yielded, and dropping a draining iterator early leaves the chunk valid and usable.',
  [I, H], 'every chunk state, every interleaving of the two ends',
  'tests iterate forwards, and sometimes backwards, over a full chunk.',
  [CI, CH], [('Iter, Drain over the chunk', CI), ('IntoIterator impls', CH)], chunk_state)
P('C09', 'Comparing and hashing a chunk looks at its contents and at nothing else',
  'Equality, order and hash of chunks (with each other, with slices, arrays and other containers of the kind) are those of the sequences of elements, elements that are not comparable or not equal to themselves included, wherever the elements lie in the buffers. A chunk hashes exactly like the slice it can be borrowed as.',
  [I], 'every pair of windows, lengths and contents',
  'tests compare two small chunks with the same layout.',
  [CH], [('PartialEq / PartialOrd / Ord / Hash', CH), ('Borrow<[A]>', CH)], chunk_state)

P('C12', 'Bytes written to a chunk are read from it in order, none lost or invented',
  'Writing bytes to a chunk takes as many of them as there is room for, reports that number and appends exactly those; reading takes as many as there are and were asked for, reports that number, hands over exactly those from the front and leaves the rest of the caller\'s memory alone. Requests spread over several pieces of memory, for an exact number, or for everything, follow from that. This holds for every interleaving and wherever the contents lie in the buffer.',
  [I, H], 'every window, contents and length of the bytes offered or asked for',
  'one test writes to and reads from an unshifted chunk once.',
  [CH], [('io::Write, io::Read for Chunk', CH)], chunk_state)

# --- ring buffer
P('R01', 'A ring buffer operation does what it would do to a plain sequence',
  'For every ring buffer, wherever its elements start and whether or not they wrap around the end of the storage, each operation on one buffer (construction, push, pop, insert, remove, set, swap, drop from either side, clear, copying, reading by index) yields the values, the order and the length that the same operation on an ordinary sequence yields. Elements it does not concern keep their values and order.',
  [I], 'every origin and length at small capacities and two layouts at capacity 300, every index in range; element sizes as instantiated',
  'unit tests build buffers from a fresh start, so most origins and wraps never meet most indices.',
  [RB, RX], [('wrapping index arithmetic', RX), ('insert/remove shift the shorter side', RB), ('raw copies split at the wrap', RB)], ring_state)
P('R02', 'Moving elements between ring buffers loses and mixes up nothing',
  'Appending, splitting off, draining a count from either end of another buffer, building from part of another buffer, inserting or extending from an iterator and collecting from one leave in each of the buffers involved exactly the elements, in the order, that the same operation on ordinary sequences leaves. This holds for every combination of origins and wraps of both buffers, which remain fully usable afterwards.',
  [I], 'every pair of origins and lengths, every count and index in range, every number of items within capacity',
  'tests exercise a few layouts; copying between two wrapped buffers splits into pieces that depend on both origins.',
  [RB, RX], [('drain_from_front/back, append, split_off', RB), ('copy_from between wrapped buffers', RB), ('IndexIter', RX)], ring_state)
P('R03', 'A ring buffer refuses what it documents as an error, and stays as it was',
  'Every call a ring buffer documents as panicking (pushing when full, an index, count or amount out of bounds or beyond the space left) panics for every offending argument, including ones so large that arithmetic on them wraps; popping from an empty one yields nothing. Afterwards every buffer involved holds exactly what it held before.',
  [I], 'every buffer state and every offending 64-bit argument',
  'should_panic tests check at most one argument per panic and rarely the buffer afterwards.',
  [RB], [('bounds checks at the head of each operation', RB)], ring_state)
P('R04', 'A ring buffer releases every element exactly once, exactly when it says so',
  'Every element handed to a ring buffer is dropped exactly once: when an operation discards it, when the caller drops what an operation returned, or when the buffer (or an iterator made from it) goes away, and never earlier. This also holds for operations that are refused and for items that a source iterator yields; a draining iterator that is leaked may leak elements, but none is released twice.',
  [I, H], 'every origin and length, every operation and argument, every element watched',
  'drop tests count a few situations, mostly unwrapped.',
  [RB, RI], [('force_read / force_write paired with length updates', RB), ('Drop for RingBuffer', RB), ('OwnedIter and Drain', RI)], ring_state)
P('R05', 'A panicking callback never makes a ring buffer release an element twice',
  'When code the ring buffer calls panics in the middle of an operation, sorting included (the destructor, copy or comparison of an element, the iterator being read, or a closure given to one of its iterators), no element is ever released twice, nothing the buffer still holds has been released, and the buffer can be used and dropped normally afterwards. An operation that only reads or compares leaves the buffer as it was.',
  [F, I], 'every buffer state, every operation that calls back, the panic at every possible call',
  'no test makes a destructor, clone or comparison panic.',
  [RB, RI], [('length updates before destructors run', RB), ('Drop', RB)], ring_state)
P('R06', 'An iterator that misreports its length cannot corrupt a ring buffer',
  'Inserting or extending from an iterator whose claimed length is wrong, or changes between one question and the next, never lets the ring buffer hold an element that was not put there or the same element twice, never releases an element twice, and never touches memory outside the buffer. If the call returns or panics, the buffer holds a valid sequence and is usable.',
  [F, I], 'every claimed length (64 bit), every second answer, every number of items actually yielded, every buffer state',
  'no test covers it for ring buffers beyond one fixed lie.',
  [RB], [('insert_from', RB)], ring_state)
P('R07', 'Any sequence of operations leaves a ring buffer equal to the plain sequence',
  'After any sequence of operations on a ring buffer, its length, its emptiness and fullness, and every element in order equal those of an ordinary sequence put through the same operations. No sequence of valid operations panics or touches memory it should not.',
  [H, I], 'every sequence of operations with every argument, up to the number of steps stated, starting from every state (or from a new buffer)',
  'tests replay a handful of scripts.',
  [RB, RX], [('origin/length invariant, re-established by each operation', RB)], ring_state)
P('R08', 'A view of part of a ring buffer shows exactly that part, and nothing else',
  'A view taken with any kind of range, a view of a view, the halves of a split view and the copy made from a view contain exactly the elements of the range in order, read by index, from either end or by iteration, wherever they lie in the storage. Ranges and positions that lie outside the buffer or the view, including ones whose bounds overflow, are refused, even if the buffer behind the view has an element there.',
  [I], 'every origin and length, every kind of range with every pair of 64-bit bounds, every position',
  'tests slice a few fixed ranges of one buffer.',
  [RS, RB], [('parse_range', RB), ('Slice::slice, split_at, get', RS), ('IndexMut / Index of views', RS)], ring_state)
P('R09', 'Searching and sorting ring buffers and views agrees with a plain sequence',
  'Membership, binary search, first and last, prefix and suffix tests, sortedness, sorting and ordered insertion on ring buffers and on their views give the answers that the contents, read as a plain sequence, call for. Sorting leaves a sorted permutation of the contents and touches nothing outside the view; ordered insertion keeps a sorted buffer sorted.',
  [I], 'every origin, length and contents (all byte values), every range of the view, every needle',
  'tests sort and search one unwrapped buffer.',
  [RB, RS], [('Array / ArrayMut implementations (get, get_mut, swap)', RB), ('the same for views', RS), ('insert_ordered', RB)], ring_state)
P('R10', 'Writing through a mutable view changes exactly the element addressed',
  'Writing, replacing, swapping or iterating mutably through a mutable view, a view of a view, or one of the two halves of a split view changes exactly the addressed elements of the buffer and no other, wherever they lie in the storage. The two halves of a split view never give access to the same element.',
  [I], 'every origin and length, every range, every position',
  'tests write through one view of an unwrapped buffer.',
  [RS, RI], [('SliceMut::get_mut, split_at', RS), ('IterMut', RI)], ring_state)
P('R11', 'Ring buffer iterators yield each element once, in order, from either end',
  'Under any interleaving of taking from the front and from the back, borrowing, mutable, consuming and draining iterators of a ring buffer yield every element exactly once at its place, report the exact number remaining at every moment, and yield nothing ever after. Two elements lent out mutably are never the same one, writes land in the element yielded, and dropping a draining iterator early leaves the buffer valid and usable.',
  [I, H], 'every origin and length, every interleaving of the two ends',
  'tests iterate forwards, and sometimes backwards, over a buffer that does not wrap.',
  [RI, RX, RB], [('Iter, IterMut, OwnedIter, Drain', RI), ('wrapping increments', RX)], ring_state)
P('R12', 'Comparing and hashing ring buffers and views looks at contents only',
  'Equality, order and hash of ring buffers and of views of them (with each other, and with slices, arrays and chunks) are those of the sequences of elements, elements that are not comparable or not equal to themselves included, wherever the elements lie in the storage. Equal contents hash alike; contents of equal length that differ feed the hasher differently.',
  [I], 'every pair of origins, lengths, ranges and contents',
  'tests compare buffers that start at the same place.',
  [RB, RS], [('PartialEq / PartialOrd / Ord / Hash of RingBuffer', RB), ('the same for Slice and SliceMut', RS)], ring_state)

P('R13', 'Bytes written to a ring buffer are read from it in order, none lost or invented',
  'Writing bytes to a ring buffer takes as many of them as there is room for, reports that number and appends exactly those; reading takes as many as there are and were asked for, reports that number, hands over exactly those from the front and leaves the rest of the caller\'s memory alone. Requests spread over several pieces of memory, for an exact number, or for everything, follow from that. This holds for every interleaving and wherever the contents, and the room left, wrap around the end of the storage.',
  [I, H], 'every origin, length and contents, every length of the bytes offered or asked for',
  'one test writes to and reads from a buffer that does not wrap.',
  [RB], [('io::Write, io::Read for RingBuffer', RB), ('copy_from_slice splits at the wrap', RB)], ring_state)

# --- sparse chunk
P('S01', 'A sparse chunk is a map from positions to values',
  'For every set of occupied positions, inserting, removing, popping, looking up and overwriting in a sparse chunk have the results and the effects they have on a map from positions to values, and the number of values, emptiness, fullness and the first occupied position agree with it. Positions once occupied and vacated again are indistinguishable from ones never occupied.',
  [I, H], 'every occupation, every position; capacities up to 300 for a few operations at any positions',
  'the proptest samples action lists at capacity 32; capacities with more than one or two bitmap words are not tested.',
  [SP], [('bitmap and slots updated together', SP)], sparse_state)
P('S02', 'Sparse chunk iterators visit exactly the occupied positions, ascending',
  'Borrowing, mutable, consuming, indexing and entry iterators of a sparse chunk visit exactly the occupied positions in ascending order with the values there, and the ones that also show vacant positions show every position once, in order. Writes through them land at the position shown, collecting from optional values puts each at its position, and iterators that announce how many are left announce it exactly.',
  [I], 'every occupation, including positions vacated earlier, and large capacities for a few values',
  'tests iterate one or two occupations.',
  [SI, SP], [('Iter, IterMut, Drain, OptionIter, OptionIterMut, OptionDrain', SI), ('FromIterator', SP)], sparse_state)
P('S03', 'A sparse chunk releases every value exactly once, also when calls fail',
  'Every value handed to a sparse chunk is dropped exactly once: when the caller drops what was returned, when it is overwritten through a reference, or when the chunk or an iterator made from it goes away. This holds for refused calls, which leave the chunk unchanged, and nothing is released twice when a destructor, copy or comparison of an element, or a closure given to an iterator, panics.',
  [I, H, F], 'every occupation, every position, every element watched, the panic at every possible element',
  'drop tests cover whole-chunk drop for one occupation; no test makes a callback panic.',
  [SP, SI], [('Drop for SparseChunk', SP), ('force_read / force_write paired with the bitmap', SP)], sparse_state)

P('S04', 'Sparse chunks are equal when they map the same positions to equal values',
  'Two sparse chunks, or a sparse chunk and an ordered map, are equal exactly when the same positions are occupied and the values there are equal, elements not equal to themselves included; != is the opposite. Positions vacated earlier have no influence.',
  [I], 'every pair of occupations and contents; two or three values anywhere in large ones; maps of up to two keys of any value',
  'tests compare two or three fixed occupations; none has a vacated position or keys beyond the capacity.',
  [SP], [('PartialEq for SparseChunk, with BTreeMap', SP)], sparse_state)
P('S05', 'A sparse chunk equals a hash map with the same entries and no other',
  'A sparse chunk and a hash map are equal exactly when the same positions are occupied as there are keys and the values there are equal, elements not equal to themselves included; != is the opposite. Positions vacated earlier have no influence, and a key beyond the capacity makes them different.',
  [I], 'every occupation and contents against hash maps of up to four keys, one beyond the capacity among them, with any values; which keys there are is spelled out case by case and the seed of the hasher is fixed', 'one test compares one pair.', [SP], [('PartialEq<HashMap>', SP)], sparse_state)

# --- inline array
P('I01', 'An inline array operation does what it would do to a plain sequence',
  'For every inline array, each operation (push, pop, insert, remove, split off, clear, slicing, iterating from either end, draining, collecting, extending, copying), and any sequence of them, yields the values, the order and the length that it yields on an ordinary sequence. Elements it does not concern keep their values and order.',
  [I, H], 'every length up to capacity, every index, every interleaving of the ends, for the host and element types instantiated',
  'the proptest samples action lists for one host and element type.',
  [IA, II], [('insert / remove shift the tail', IA), ('Iter, Drain', II)], inline_state)
P('I02', 'An inline array never uses memory outside its host, misaligned or shared',
  'Whatever the element and host types (sizes, alignments, sizeless ones, hosts with padding), an inline array is as large as its host, its capacity is what fits behind the length, and storing, moving, copying and reading back up to that many elements never touches memory outside it, at a wrong alignment, or overlapping the length. A host with no room for an element gives an array that is always both empty and full; one with no room for the length is refused.',
  [I, C], 'the element/host pairs instantiated, every length and all element values for each',
  'tests instantiate a few pairs, where alignment and padding happen not to matter.',
  [IA], [('CAPACITY, HOST_SIZE, HEADER_SKIP arithmetic', IA), ('storage for a host', IA)], inline_state)
P('I03', 'An inline array releases every element exactly once, also when calls fail',
  'Every element handed to an inline array is dropped exactly once: when an operation discards it, when the caller drops what was returned, or when the array or an iterator made from it goes away. This holds for refused calls, which leave the array unchanged, and nothing is released twice when a destructor or copy of an element, the iterator being read or a closure given to its iterators panics, or a draining iterator is leaked.',
  [I, H, F], 'every length, every index and argument, every element watched, the panic at every possible call',
  'drop tests count whole-array drops; no test makes a callback panic.',
  [IA, II], [('Drop, clear', IA), ('Drain, Iter', II)], inline_state)
P('I04', 'Comparing and hashing an inline array looks at its contents and nothing else',
  'Equality, order and hash of inline arrays (with each other, with slices and arrays) are those of the sequences of elements, elements that are not comparable or not equal to themselves included. An inline array hashes exactly like the slice it can be borrowed as.',
  [I], 'every pair of lengths and contents, for the host types instantiated',
  'tests compare a few literals.',
  [IA], [('PartialEq / PartialOrd / Ord / Hash', IA), ('Borrow<[A]>', IA)], inline_state)
# --- across the containers
P('C10', 'A chunk borrowed as a slice is its elements, to read and to write',
  'However a chunk is borrowed as a slice (by method, dereference, Borrow, AsRef, indexing with a range, mutably or not), the slice is exactly its elements in order, correctly aligned and all in one place. An index or range that the slice does not have is refused for every value, and what is written, swapped or rotated through the slice is what the chunk holds afterwards.',
  [I], 'every window position and length, every index and range over the full machine word',
  'tests borrow a few literal chunks as slices; none has a window away from the front, none an out-of-range index.',
  [CH], [('as_slice, as_mut_slice, Deref, Borrow, AsRef', CH), ('Index, IndexMut', CH)], chunk_state)
P('C11', 'insert_ordered keeps a sorted chunk sorted and adds exactly the one value',
  'Inserting a value in order into a sorted chunk leaves it sorted, with the value added and every old element still there in its old relative order, also where elements compare equal without being the same. A full chunk refuses and is unchanged; even a chunk that was not sorted loses nothing.',
  [I], 'every window position and length, every contents, every value',
  'one test inserts a few numbers; ties, windows away from the front and unsorted contents are not tested.',
  [CH], [('insert_ordered: binary search, then insert', CH)], chunk_state)
P('X01', 'Making a chunk from an inline array moves every element once, or refuses',
  'Making a chunk from an inline array, by value or by reference, gives a chunk of exactly its elements in order and leaves the array, where it stays, empty and usable. When they do not fit, the conversion is refused and the array still holds all of them. Either way each element is released exactly once.',
  [I, C], 'every length, for pairs of capacities either way round; element sizes including none',
  'two tests convert one array each; none is too long for the chunk.',
  [CH], [('From<InlineArray>, From<&mut InlineArray>', CH)], chunk_state + inline_state)
P('P01', 'What a memory pool gets initialised is an empty container or an independent copy',
  'Initialising a container in place for a memory pool, whatever the memory held before, yields an empty usable container, or a copy equal to and independent of the original, whose elements are released separately, once each. A panic while copying an element leaves the original unharmed and releases nothing twice. A value shared through the pool is written to without the other holders seeing it.',
  [I, H, F], 'every layout of the original and of what was there before, the panic at every element',
  'each container has one test that goes through a pool with three elements at the front.',
  ['src/sized_chunk/refpool.rs', 'src/ring_buffer/refpool.rs', 'src/sparse_chunk/refpool.rs'], [('PoolDefault, PoolClone', 'src/*/refpool.rs')], chunk_state + ring_state + sparse_state)
P('A01', 'A container made from arbitrary bytes holds what those bytes stand for',
  'For every byte sequence, the container made from it holds, in order and up to its capacity, the elements the bytes stand for; making it fails exactly when making one of those elements fails, and then releases the others once. It takes no more bytes than the size hint announces, and asking for the hint never fails, whatever the element announces.',
  [I], 'every byte sequence longer than the container can take, at small capacities; elements of fixed and varying width, failing ones, any hint',
  'no test covers this module; the fuzz targets only use it.',
  ['src/arbitrary.rs'], [('Arbitrary for Chunk, RingBuffer, SparseChunk, InlineArray', 'src/arbitrary.rs'), ('size_hint', 'src/arbitrary.rs')], chunk_state + ring_state + sparse_state + inline_state)
P('Z01', 'A container of capacity zero is always empty and full, and works as such',
  'A chunk or ring buffer of capacity zero can be created, compared, hashed, iterated, viewed, cleared, appended to itself, split, read from, written to and dropped, and is always both empty and full. Everything that would put an element in or take one out is refused, and the value that found no room is released once.',
  [I], 'every operation with every index and count',
  'tests only construct from one or two values and expect the refusal.',
  [CH, RB, RX], [('index arithmetic modulo N', RX), ('capacity checks', CH + ', ' + RB)], chunk_state + ring_state)
P('Z02', 'Elements without a size are counted and released like any others',
  'For elements that take up no memory, every container keeps the right length, visits the right number of elements from either end, and drops each one exactly once, also when copying one panics. An inline array has room for any number of them.',
  [I, H, F], 'every layout and length at small capacities, every operation and argument',
  'tests use sizeless elements only to push and count in an inline array.',
  [CH, RB, RS, SP, IA], [('pointer arithmetic and drop loops with size_of::<A>() == 0', 'all')], chunk_state + ring_state + sparse_state + inline_state)

P('D01', 'The Debug form of a container shows its elements in order and nothing else',
  'Formatting any container or ring buffer view for debugging prints, after a name that does not depend on the contents, what the standard list (or, for sparse chunks, map from position to value) of its elements prints, with the same options handed to the elements. When the writer fails, formatting stops and reports it.',
  [I, F], 'every layout and contents at small capacities; {:?}, {:#?} and a width; a writer failing after any number of bytes', 'tests print two or three literals.', [CH, RB, RS, SP, IA], [('Debug', 'all')],
  chunk_state + ring_state + sparse_state + inline_state)

P('H01', 'A container lives entirely in its own place and never allocates memory',
  'A container, ring buffer view or iterator can be moved anywhere between two calls (its old place overwritten) and goes on the same; its size depends on its type alone (a chunk: two words and the elements; an inline array: its host), and no call on it asks the allocator for memory, whatever its source iterators tell about their length.',
  [I, H], 'every layout, argument and size hint at small capacities, moved before and after every operation and between the steps of an iterator', 'no test moves a container on purpose, and the allocator is not watched.', [CH, RB, RS, SP, SI, IA, II], [('the storage is part of the container', 'all')],
  chunk_state + ring_state + sparse_state + inline_state)

P('T03', 'Each operation moves as few elements, and compares as few, as documented',
  'Pushing to and popping from a ring buffer, popping from a chunk, and pushing to a chunk that has room at that end move no other element; a chunk filled up from one end moves its contents at most once. Inserting and removing shift the shorter side where there is room for it, inline arrays the tail. Bulk operations move what they are about and, where a chunk has no room at the end concerned, its contents once. Inserting in order compares a logarithmic number of elements.',
  [I], 'every layout, index and count at capacities up to 16; block copies of large elements are counted by the byte, with a constant number of moves and a factor of two to spare', 'no test measures it.', [CH, RB, IA, SP], [('documented times; the shorter side is shifted', 'all')],
  chunk_state + ring_state + inline_state)

# --- out of reach
N('T01', 'Containers are Send and Sync exactly when their elements are',
  'A container, view or iterator can be moved to or shared with another thread exactly when that is sound for its element type.',
  [C], 'every element type', 'no test asserts it.', [CH, RB, SP, IA], [('auto traits; raw pointers in InlineArray and iterators', 'all')],
  'Whether a type is Send or Sync is decided by the type checker and leaves no trace in the code that runs: there is nothing to execute symbolically.')
N('T02', 'No two live references to the same element can be obtained through safe calls',
  'Mutable iterators and split mutable views never give out two references to one element, and obey the aliasing rules of the language while several are alive.',
  [H], 'every interleaving of calls', 'tests hold one reference at a time.', [RS, RI, SI], [('SliceMut::split_at, IterMut', RS + ', ' + RI + ', ' + SI)],
  'That no element is handed out twice is decided under R08, R10, R11 and S02. What remains, the borrow-stack discipline, is a property of provenance that the compiler erases before the IR the solver sees: loads and stores look the same whether or not the discipline is kept.')
TECH = 'symbolic execution of the LLVM IR of the real code, SMT (bit-vector) decision of every obligation'
LEVEL = 'Bounded: holds for every value of the symbolic inputs (layout, arguments, contents, callback behaviour) within the capacities, element types and step counts instantiated, in two build profiles (release; release with debug assertions and overflow checks). Trusts rustc and LLVM up to the IR, the executor in engine/ (validated on every run by replaying solver witnesses natively) and z3/cvc5.'
def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    na = {n['property'] for n in NA}
    checks = [dict(property=p['id'], quick_cmd='./check.py ' + p['id'], thorough_cmd='./check.py %s --tier thorough' % p['id'], technique=TECH, level='model_checking', level_note=(NOTES[p['id']] + ' ' + LEVEL).strip()) for p in PROPS if p['id'] not in na]
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=NA, notes='No hooks: the harness crate uses the public API only. See DESIGN.md.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False); open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
    # the table of planted bugs in DESIGN.md
    d = os.path.join(ROOT, 'seeded'); rows = []
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        rows.append('| %s | %s | %s |' % (n, m['property'], ' '.join(m['what_it_breaks'].split()).replace('|', '/')))
    f = os.path.join(ROOT, 'DESIGN.md'); t = open(f).read(); a = '<!-- seeded -->'; b = '<!-- /seeded -->'
    t = t[:t.index(a)] + a + '\n\n| planted bug | caught by | what it breaks |\n|---|---|---|\n' + '\n'.join(rows) + '\n\n' + t[t.index(b):]
    open(f, 'w').write(t)
    print(len(checks), 'checks,', len(NA), 'not applicable')
if __name__ == '__main__': main()
