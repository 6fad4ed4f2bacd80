BASE = ('Every obligation (postconditions, loop invariants, bounds, shifts, signed overflow, library assertions) of the listed contracts is '
        'discharged for all inputs by z3/cvc5 on each run. Trusted: clang-18 front end and its SROA/loop-simplify passes, the VC generator in engine/, the solvers. ')

prop('C01', 'Bit primitives equal their positional definitions for every value',
     'For every value of every 8/16/32/64-bit signed or unsigned integer type, counting, finding the lowest or highest set bit, reversing, setting, clearing, toggling, testing and arithmetic right shifting give exactly the result defined position by position on the two\'s complement pattern. The path used during constant evaluation and the path used at run time give the same results, in C++17 and C++20.',
     ['inputs', 'configurations'], 'every value of 8 integer types, every bit index/shift below the width, both evaluation paths, both language modes',
     'The tests sample a handful of constants per type and never negative narrow values; the domain is 2^64 values per function and the two evaluation paths share no code.',
     ['MathUtils.hpp', 'MathUtils.inl'],
     [('CountBits', 'MathUtils.inl'), ('FindFirstBit', 'MathUtils.inl'), ('FindLastBit', 'MathUtils.inl'), ('ReverseBits', 'MathUtils.inl'), ('SetBit/ClearBit/ToggleBit/TestBit', 'MathUtils.inl'), ('ArithmeticRightShift', 'MathUtils.inl')],
     ['return values'], BASE + 'Constant evaluation is verified by compiling with __builtin_is_constant_evaluated() replaced by true; MSVC intrinsics are out of reach.')

prop('C02', 'Byte-order conversions reverse exactly the bytes and are inverse of each other',
     'Byte swapping any integer or floating-point object reverses its bytes and is its own inverse; reversing a raw buffer of any length, empty included, mirrors every byte and touches nothing outside. Converting host to big (little) endian stores the most (least) significant byte first, and converting back restores the value.',
     ['inputs', 'configurations'], 'every bit pattern (NaN payloads included) of every integer and floating type, every buffer content and length up to 2^40',
     'The tests check one constant per width at compile time; the run-time path, floating-point patterns and buffer lengths are unbounded.',
     ['MathUtils.hpp', 'MathUtils.inl', 'Endianness.hpp', 'Endianness.inl'],
     [('ByteSwap', 'MathUtils.inl'), ('SwapBytes', 'MathUtils.inl'), ('HostToBigEndian/BigEndianToHost/HostToLittleEndian/LittleEndianToHost', 'Endianness.inl')],
     ['return values', 'buffer contents'], BASE + 'The buffer loop is proved by an inferred inductive invariant (no length bound below 2^40). The host is x86-64 little endian: the big-endian host branches are out of reach.')

prop('C03', 'Integer math helpers are exact on their whole domain, without overflow',
     'Alignment, power-of-two tests and rounding, integral logarithm and power, clamping, stepping towards an objective, tolerance comparison and remainder return the mathematically defined result for all arguments for which that result is representable, without undefined behaviour on the way. Floating-point classification agrees with the IEEE pattern on both evaluation paths.',
     ['inputs', 'configurations'], 'every argument tuple of each integer width in the stated domain, all floats and doubles for classification/clamp/tolerance',
     'The tests evaluate a few literals per function; overflow, sign and word-boundary cases form a combinatorial space they do not enter.',
     ['MathUtils.hpp', 'MathUtils.inl'],
     [('Align/AlignPow2', 'MathUtils.inl'), ('IsPow2/RoundToPow2/GetNearestPowerOfTwo', 'MathUtils.inl'), ('IntegralLog2/IntegralLog2Pot/IntegralPow', 'MathUtils.inl'), ('Clamp/Approach/NumberEquals/Mod', 'MathUtils.inl'), ('IsFinite/IsInfinity/IsNaN', 'MathUtils.inl')],
     ['return values'], BASE + 'Preconditions: non-negative offsets, positive alignments, values whose rounded result is representable, non-negative tolerance and increment. Integral power is proved modulo 2^width.')

BS = ('The container is the contract vc::Vec (assumed contract of std::vector: checked indices, resize fills, copy copies). Block types u8/u16/u32/u64 as listed in the evidence; sizes below 2^40 bits. ')

prop('C08', 'A bitset behaves as a resizable sequence of bits of any size',
     'After any element access or update (through the set, through a bit proxy, or unbounded), whole-set assignment, resize, growth, push, clear, flip, copy, move or swap, a bitset of any size has exactly the size and the bits that a plain sequence of booleans would have: untouched bits keep their value, new bits take the requested value, and no bit exists past the end (a shrink followed by a growth shows no stale bit). A moved-from bitset is a valid empty one.',
     ['inputs', 'histories'], 'every size below 2^40 bits, every content, every index, every block type, any state satisfying the representation invariant (hence any history)',
     'The tests use a few literal sizes on one block type; stale bits beyond the end only show after a later growth, and sizes that are or are not multiples of the block width behave differently.',
     ['Bitset.hpp', 'Bitset.inl'],
     [('Set/Reset/Test/Bit proxy', 'Bitset.inl'), ('UnboundedSet/UnboundedReset/UnboundedTest', 'Bitset.inl'), ('Resize/Reserve/PushBack/Clear/Flip/Swap', 'Bitset.inl'), ('constructors and assignment', 'Bitset.inl')],
     ['GetSize/GetBlockCount/GetBlock/Test'], BASE + BS + 'Each contract starts from an arbitrary state satisfying the representation invariant and re-establishes it, so it covers all histories.',
     state=[('m_blocks', 'ceil(size/width) blocks, unused bits of the last block zero', 'Bitset.hpp'), ('m_bitCount', 'number of bits', 'Bitset.hpp')])

prop('C11', 'Searching, counting and testing a bitset see every bit and only those',
     'FindFirst and FindNext return the smallest enabled position (after the given one), or npos exactly when there is none; iterating the bits visits each enabled position once, in increasing order, and ends; Count is the number of enabled bits; TestAll, TestAny and TestNone hold exactly when all, some or no bit is enabled, and Intersects exactly when two bitsets of any sizes share an enabled position.',
     ['inputs'], 'every size below 2^40 bits, every content, every start position, every pair of sizes',
     'The tests search a few literals whose bits sit in the first blocks; the last, partly used block and long runs of empty blocks are not sampled.',
     ['Bitset.hpp', 'Bitset.inl'],
     [('FindFirst/FindNext/IterBits', 'Bitset.inl'), ('Count', 'Bitset.inl'), ('TestAll/TestAny/TestNone', 'Bitset.inl'), ('Intersects', 'Bitset.inl')],
     ['return values', 'visited positions'], BASE + BS + 'Iteration is proved against the contracts of FindFirst and FindNext, which are proved of their bodies in the same check.')

prop('C12', 'Bitset comparisons order the binary numbers that the bitsets represent',
     'For two bitsets of any sizes, == and != say whether they have the same enabled positions and <, <=, >, >= order them as the binary numbers they represent: by their highest different block, missing blocks counting as zero. The six operators are mutually consistent.',
     ['inputs'], 'every pair of sizes below 2^40 bits and every content, for 32 and 64-bit blocks',
     'The tests compare a few equal-size literals; a difference in the extra blocks of the longer operand, or only in a low block, is not sampled.',
     ['Bitset.hpp', 'Bitset.inl'],
     [('operator== != < <= > >=', 'Bitset.inl')],
     ['return values'], BASE + BS + '!=, <=, > and >= are proved against the contracts of == and <, which are proved of their bodies in the same check. Two numbers either are equal or have a highest different block (a consequence of the natural numbers being well ordered, not itself an obligation).')

prop('C09', 'Bitset logical operators act bit by bit, whatever the sizes and aliasing',
     'AND, OR, XOR and NOT on bitsets of any two sizes yield the size of the larger operand and, at every position, the logical combination of the two operands\' bits (missing bits count as zero); operands that are not the destination are unchanged, and the result is right when the destination is one or both of the operands.',
     ['inputs'], 'every pair of sizes below 2^40 bits, every content, every aliasing of destination and operands, member functions, operators and compound assignments',
     'The tests combine a few equal-size literals; different sizes, aliasing and trailing bits of the last block interact and are not sampled.',
     ['Bitset.hpp', 'Bitset.inl'],
     [('PerformsAND/PerformsOR/PerformsXOR/PerformsNOT', 'Bitset.inl'), ('operator& | ^ ~ &= |= ^=', 'Bitset.inl')],
     ['GetSize/GetBlock'], BASE + BS)

prop('C04', 'Casts keep the value, or report it in debug when they cannot',
     'SafeCast between integer, enumeration and floating-point types (rvalues, lvalues, through SafeCaster, or inside the pointer/integer helpers) returns the same mathematical value whenever the target can represent it and, in debug builds, reports an assertion failure for every other value, without undefined behaviour. BitCast and the pointer/integer conversions are exact inverses, AccessByOffset designates the byte at that offset, and StaticUniquePointerCast hands over exactly the same object.',
     ['inputs', 'configurations'], 'every value of every pair of 8 integer types, 4 enumerations, float and double; debug and release modes; every bit pattern and address',
     'An assertion that must (or must not) fire cannot be observed by the unit tests at all (Catch2 cannot catch it), and the value space of each type pair is 2^16 to 2^128.',
     ['Algorithm.hpp', 'Algorithm.inl'],
     [('SafeCast/SafeCaster', 'Algorithm.inl'), ('BitCast', 'Algorithm.inl'), ('IntegerToPointer/PointerToInteger/AccessByOffset', 'Algorithm.inl'), ('StaticUniquePointerCast/Retrieve/CountOf/UnderlyingCast', 'Algorithm.inl')],
     ['return values', 'assertion failures'], BASE + 'Run with and without NDEBUG (NAZARA_DEBUG set). long double, infinities between floating types and the dynamic_cast checks are out of scope; std::unique_ptr is the real one.')

prop('C05', 'Hashes are the published functions of the bytes, from every entry point',
     'CRC-32 and 32/64-bit FNV-1a of a byte sequence of any length and content (embedded nulls and bytes above 127 included) equal their published definition, and give the same value whether the bytes come as a C string, a string view, a raw buffer or through the hash functors. Hash combination is the documented 128-to-64-bit mix, in argument order, and the transparent string hash of any string form equals the standard hash of its view.',
     ['inputs', 'configurations'], 'every byte sequence up to 2^40 bytes, every seed and element hash',
     'The tests hash a few ASCII literals; sign extension, embedded nulls, and lengths are never varied, and the table is only spot-checked.',
     ['Hash.hpp', 'Hash.inl', 'StringHash.hpp', 'StringHash.inl'],
     [('CRC32', 'Hash.inl'), ('FNV1a32/FNV1a64', 'Hash.inl'), ('HashCombine/HashFunctor', 'Hash.inl'), ('StringHash', 'StringHash.inl')],
     ['return values'], BASE + 'The specification is the byte-by-byte (CRC: bit-by-bit) recurrence, as definitional axioms of an uninterpreted state function. std::hash<string_view> is an uninterpreted function of the buffer; the std::string overload of StringHash is bounded to two lengths.')

prop('C06', 'Flags behave as sets of enumeration values',
     'For enumerations of any number of values up to 64, automatic or already bit-valued, flags are a set: construction, union, intersection, symmetric difference, complement (within the enumeration), Set, Clear, Test (inclusion), comparison, Count, conversion to integers and hashing agree with the set of enabled values, and iterating visits each enabled value once in increasing order.',
     ['inputs', 'configurations'], 'every set and value of 14 enumerations (1 to 64 values) covering each width of the bit field and its boundaries',
     'The tests use two enumerations of three values; masks, shifts and widths differ at every boundary up to 64 values.',
     ['Flags.hpp', 'Flags.inl'],
     [('operators', 'Flags.inl'), ('Set/Clear/Test/Count', 'Flags.inl'), ('GetFlagValue', 'Flags.inl'), ('iterator', 'Flags.inl')],
     ['conversion to integer', 'iteration'], BASE + 'Iteration is proved by its step from an arbitrary state (smallest remaining value, removed by the increment).',
     state=[('m_value', 'one bit per enabled value', 'Flags.hpp')])

prop('C07', 'A sparse pointer addresses elements spaced by any stride',
     'Arithmetic, indexing, difference and comparison on a sparse pointer act on the address position + n * stride for every integer type of n and every positive, negative or large stride, as long as the address stays in the underlying buffer; steps and compound operations are inverse of each other, conversions (to const or to any base class) and resets keep the designated object and the stride.',
     ['inputs'], 'every buffer size up to 2^40, every position, every 32-bit stride, counts of 8 integer types (64-bit counts below 2^32)',
     'The tests use one small array with stride 8; overflow and sign conversion in the offset computation depend on the index type and the stride.',
     ['SparsePtr.hpp', 'SparsePtr.inl'],
     [('operator[] + - += -= ++ --', 'SparsePtr.inl'), ('operator-(SparsePtr) and comparisons', 'SparsePtr.inl'), ('Reset/SetPtr/SetStride/conversions', 'SparsePtr.inl')],
     ['GetPtr/GetStride', 'dereferenced address'], BASE)


LIFE = 'Payload types are tracked objects (contracts/tracked.hpp) that check their own lifetime discipline, so a leak, double destruction, use after destruction or stray copy is an obligation. '

prop('C14', 'A fixed vector is a sequence that owns each of its elements exactly once',
     'After any operation allowed by its capacity (construction from any source, push/emplace at the end or anywhere, insertion of one of its own elements, erasure of one element or a range, pop, clear, resize, copy, move and assignment, also to itself), a fixed vector holds exactly the elements the same operation on a sequence gives, in order, inside the object itself, returns the documented position, and each element is constructed and destroyed exactly once, with lvalue arguments left unchanged, for element types without default or copy construction too. Operations past the capacity are refused when assertions are enabled.',
     ['inputs', 'histories'], 'every content, size, position and count (each operation from an arbitrary state), each way of passing the argument; capacity 4 for tracked element types, 1000 for a trivial one',
     'The tests use a few literal sequences, mostly of types whose lifetime and moves are not observable; aliasing arguments and self-assignment are not exercised.',
     ['FixedVector.hpp', 'FixedVector.inl', 'MemoryHelper.inl'],
     [('emplace/emplace_back/insert/push_back', 'FixedVector.inl'), ('erase/pop_back/clear/resize', 'FixedVector.inl'), ('constructors and assignments', 'FixedVector.inl'), ('accessors and iterators', 'FixedVector.inl')],
     ['size', 'elements', 'object lifetimes'], BASE + LIFE + 'The capacities are the instantiated ones (4 for tracked types, 1000 for a trivial type); sizes, positions and values are symbolic. Exceptions thrown by element constructors are not considered.',
     state=[('m_size', 'number of elements', 'FixedVector.hpp'), ('m_data', 'storage', 'FixedVector.hpp')])

prop('C15', 'A hybrid vector is one sequence wherever its elements are stored',
     'At any size and across the change from its inline storage to its fallback and back, a hybrid vector holds exactly the elements a sequence would after the same operations (construction, push, insertion, also of its own elements, erasure, pop, resize, reserve, clear, copy, move and assignment between inline and fallback vectors in every combination, also to itself), in order; elements stay inside the object while the capacity asked for fits, moving to the fallback or from another vector moves elements and never copies them, and every element is constructed and destroyed exactly once.',
     ['inputs', 'histories'], 'every content and size (unbounded, for a trivial element type), every position and count, both storages of source and target; tracked element types up to 5 elements with 2 inline',
     'The tests push a few elements into one vector; the combinations of storage of source and target, aliasing and lifetimes are not exercised.',
     ['FixedVector.hpp', 'FixedVector.inl'],
     [('emplace/insert/push_back', 'FixedVector.inl'), ('reserve/resize (switch to the fallback)', 'FixedVector.inl'), ('copy, move and assignments', 'FixedVector.inl'), ('accessors', 'FixedVector.inl')],
     ['size', 'elements', 'storage', 'object lifetimes'], BASE + LIFE + 'The contracts on tracked elements are bounded (5 elements, 2 inline, real std::vector) and labelled so; those of a trivial type are for any size, with 1000 inline elements and a fallback that is the assumed contract of std::vector.')

prop('C16', 'Stack arrays and vectors are a sequence over caller memory, used and freed once',
     'A stack vector behaves as a sequence of at most the capacity it was given (same operations, positions, aliasing and lifetimes as a fixed vector) and a stack array as an array of its given size, both inside the memory they were given and never outside of it; moved-from ones own nothing, every element is constructed and destroyed exactly once, the macros create them with the requested size and give zero sizes no memory, and uses past the capacity or size are refused when assertions are enabled.',
     ['inputs', 'histories'], 'every content, size, position and count; capacity 4 for tracked element types, any capacity for a trivial one',
     'The tests use one literal array and one literal vector; ownership after a move, aliasing arguments and boundary capacities are not exercised.',
     ['StackArray.hpp', 'StackArray.inl', 'StackVector.hpp', 'StackVector.inl'],
     [('StackVector operations', 'StackVector.inl'), ('StackArray constructors and accessors', 'StackArray.inl'), ('NazaraStackArray/NazaraStackVector macros', 'StackArray.hpp')],
     ['size', 'elements', 'object lifetimes', 'memory touched'], BASE + LIFE + 'Exceptions thrown by element constructors are not considered.')

prop('C17', 'A memory pool keeps each of its objects at its own place until it is freed',
     'Whatever the sequence of allocations, frees, resets, moves and iterations, the objects of a memory pool are pairwise distinct and correctly aligned, stay at the same address with the same content until they are freed, and their index and address designate each other; a new object takes the lowest free entry, iteration visits exactly the used entries in increasing order (also when the visited entry is freed meanwhile), counts agree with them, and each object is constructed and destroyed exactly once, including those still there when the pool is reset, moved, assigned or destroyed, if it was asked to.',
     ['inputs', 'histories'], 'every set of used entries of a pool of up to two blocks, every value, each operation from every such state; bounded, see the level note',
     'The tests allocate and free a few objects in a literal order; the free list and the iteration depend on which entries of which block are used.',
     ['MemoryPool.hpp', 'MemoryPool.inl'],
     [('Allocate/AllocateBlock', 'MemoryPool.inl'), ('Free/Reset', 'MemoryPool.inl'), ('RetrieveFromIndex/RetrieveEntryIndex', 'MemoryPool.inl'), ('iterators', 'MemoryPool.inl'), ('move and assignment', 'MemoryPool.inl')],
     ['addresses', 'indexes', 'iteration', 'object lifetimes'], BASE + LIFE + 'Bounded, not proved: the contracts are verified on pools of up to two blocks of two entries (one of 67 entries for the bitset block boundary), with every set of used entries and symbolic values. Constructors that throw are not considered.',
     state=[('m_blocks', 'memory and free entries of each block', 'MemoryPool.hpp')], level='other')

prop('C18', 'An emission calls every connected slot exactly once, and no other',
     'Emitting a signal calls each slot connected to it exactly once, with the arguments given, whatever slots were connected and disconnected before; slots that are disconnected during the emission before their turn are not called, the others still are exactly once, and a slot may disconnect itself (or all) and go on using what it holds. A connection tells whether its slot is connected, follows it when the signal moves, outlives the signal safely, and disconnects only its own slot; a guard disconnects it exactly when it is destroyed or reassigned.',
     ['inputs', 'histories'], 'every choice of slots disconnected by slots during an emission, up to four slots and two disconnections; bounded, see the level note',
     'The tests make one literal scenario each; which slots a removal during an emission skips or repeats depends on the relative positions of the removed, running and last slots.',
     ['Signal.hpp', 'Signal.inl'],
     [('operator() (emission)', 'Signal.inl'), ('Connect/Disconnect/Clear', 'Signal.inl'), ('Connection', 'Signal.inl'), ('ConnectionGuard', 'Signal.inl'), ('move', 'Signal.inl')],
     ['calls received by slots', 'IsConnected'], BASE + LIFE + 'Bounded, not proved: the contracts are verified with up to four slots and two disconnections per emission, every combination, arbitrary arguments. Known finding: an emission made by a slot of the same signal ends the one in progress. Destroying a signal during its own emission is not considered.',
     state=[('m_slots', 'slots in order of call', 'Signal.hpp'), ('m_slotIterator', 'position of the running emission', 'Signal.hpp')], level='other')

prop('C19', 'A result holds exactly one of a value and an error, and never gives the other',
     'Through construction from values, errors and tags, copy, move, conversion between result types, assignment (also to itself and across alternatives), access, defaulting, mapping and the early-return macros, a result holds exactly the alternative and payload it was last given: lvalues are copied and left unchanged, rvalues are moved and never copied, reading the alternative that is not held always throws, a mapped functor runs exactly once on a value and never on an error, and no payload is leaked or destroyed twice.',
     ['inputs', 'histories'], 'every pair of alternatives of source and target, every payload, value and void results',
     'The tests check literal scenarios with trivially copyable payloads; ownership (moved-from lvalues, leaks on change of alternative) is not visible with them.',
     ['Result.hpp', 'Result.inl'],
     [('constructors, Ok, Err', 'Result.inl'), ('GetValue/GetError/Expect/operator* ->', 'Result.inl'), ('GetValueOr/Map', 'Result.inl'), ('NAZARA_TRY/NAZARA_TRY_VALUE', 'Result.hpp')],
     ['IsOk/IsErr', 'payload', 'exceptions'], BASE + LIFE + 'std::variant and std::optional are the real ones. The type and message of the exception are not checked.',
     state=[('m_value', 'variant of value and error', 'Result.hpp'), ('m_error', 'engaged exactly on an error', 'Result.hpp')])

prop('C20', 'Scope guards and owning wrappers act exactly once on what they own',
     'A scope guard calls its function exactly once (at the end of the scope or when asked), never after it was reset or moved from; a movable pointer, literal or value gives up what it held when moved from (null, the default, the moved value) and keeps it when copied, also through assignment of plain lvalues, which are left unchanged; a private implementation, inline or on the heap, owns at most one object that copying copies, moving transfers, self-assignment keeps, and destruction destroys exactly once, including when either side is empty.',
     ['inputs', 'histories'], 'every payload and every combination of set/empty/reset operands',
     'The tests use each wrapper once with one literal; double calls, leaks, self-assignment and empty sources need combinations they do not make.',
     ['CallOnExit.hpp', 'CallOnExit.inl', 'MovablePtr.hpp', 'MovablePtr.inl', 'MovableValue.hpp', 'MovableValue.inl', 'PrivateImpl.hpp', 'PrivateImpl.inl'],
     [('CallOnExit', 'CallOnExit.inl'), ('MovablePtr', 'MovablePtr.inl'), ('MovableLiteral/MovableValue', 'MovableValue.inl'), ('PrivateImpl (inline and heap)', 'PrivateImpl.inl')],
     ['calls', 'held values', 'object lifetimes'], BASE + LIFE + 'The function a guard held before a move assignment is dropped uncalled, as by Reset; functors that throw are not considered.')

prop('C21', 'An enumeration array maps each enumeration value to its own element',
     'Indexing by an enumeration value designates the element at its position and no other, for enumerations of any underlying type; key/value iteration (const or not) visits every value exactly once, in order, with its own element, and its iterators obey random-access arithmetic: advancing, stepping back, indexing and comparison agree with positions.',
     ['inputs'], 'every content, every value and position, 4 enumerations (scoped and unscoped, 1 to 5 values, unsigned and signed underlying types)',
     'The test iterates one array forward; iterator arithmetic is not exercised at all.',
     ['EnumArray.hpp', 'EnumArray.inl'],
     [('operator[]', 'EnumArray.inl'), ('iter_kv', 'EnumArray.inl'), ('EnumArrayKvIterator', 'EnumArray.inl')],
     ['element addresses', 'keys'], BASE)

prop('C22', 'A function reference calls exactly the callable it was made from',
     'Calling a function reference calls the referred callable (function, function pointer, functor, lambda, another reference) exactly once with the same arguments and gives its result: no copy of the callable is made, references and rvalues go through unchanged without copies, copies and assignments refer to the same callable, and a null reference tests as empty.',
     ['inputs', 'histories'], 'every argument value; functions, pointers, functors, lambdas, nested references; by value, reference, const and rvalue parameters',
     'The tests call a few literals; argument forwarding (extra copies, moved-from lvalues) and aliasing of the callable are not observable there.',
     ['FunctionRef.hpp', 'FunctionRef.inl'],
     [('constructors', 'FunctionRef.inl'), ('operator()', 'FunctionRef.inl'), ('operator bool', 'FunctionRef.inl')],
     ['calls received', 'results'], BASE + LIFE + 'The callable outlives the reference.')
