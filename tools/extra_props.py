# executed by mkdocs.py
FL, SR = 'blocking_cache/BlockingCacheFL.py', 'sram/SramGenericPRTL.py'
p('C15', 'The functional-level model is a faithful oracle',
  'For every sequence of legal requests, the functional-level cache model returns exactly what a flat byte-addressed memory would: reads, writes, sub-word sizes, all nine atomics (signed/unsigned), invalidate and flush, with the request\'s type, opaque tag and length. '
  'Its hit flag is that of a set-associative cache with least-recently-used replacement in which atomics and invalidations drop lines.',
  ['inputs', 'histories', 'configurations'],
  'all addresses, sizes, data and opaque values, over request sequences of the stated types; 1-, 2- and 4-way; data and line widths as listed',
  'The model is the oracle of the whole test-suite, so nothing tests it: a mistake in it either hides the same mistake in the hardware or shows only on inputs no trace contains.',
  [FL], [('address fields and slicing', FL), ('replacement by least recent use', FL), ('atomic operations', FL)],
  ['ModelCache.read/write/init/amo/invalidate/flush and get_transactions'],
  [('cache/mem dictionaries', 'lines and memory words of the model', FL), ('LRU lists', 'order of use per set', FL)],
  technique='path-wise symbolic execution of the model\'s Python code with z3 (addresses, data, sizes symbolic), compared with a flat-memory and LRU-list oracle; counterexamples replayed on the unmodified model',
  note='The model\'s methods run on symbolic integers and bit vectors; each branch is decided by z3 and all feasible paths are explored. Bounds: up to 3-4 requests per sequence (quick) of the listed type combinations, listed sizes. '
       'Trusted: the symbolic integer/bit-vector classes, z3.')
p('C16', 'The on-chip memory is a bit-masked memory with one-cycle reads',
  'A read returns in the next cycle, bit for bit, the last value written with that bit enabled to that address; writes change exactly the enabled bits of exactly one word, and nothing changes while the memory is not selected.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of operations from arbitrary contents, all masks, addresses and data, listed shapes',
  'Tests write and read a few words with whole-word masks.',
  [SR], [('masked write and registered read', SR)], ['ports of the SRAM wrapper'], [('array', 'contents', SR)],
  technique='SAT-based bounded model checking of the symbolically executed component from an arbitrary state, counterexamples replayed on the simulation',
  note='Any start contents, so each bound covers arbitrarily long histories up to the few cycles stated. Trusted: symbolic executor, SAT solver.')
p('C17', 'The building blocks are exact at every width',
  'At every data and line width and associativity: the selectors return exactly the bytes accessed, zero-extended; the replicator puts the data at every aligned position; write enables cover exactly the bytes written, or on a refill exactly the unmodified words. '
  'Tag comparison finds the line and the modified words; tag commands write the specified entry; each set and way has its own line number; the victim is the way not used last; the output holder holds, the miss register keeps its miss; counters count exactly.',
  ['inputs', 'configurations'],
  'all inputs and states of each block; data 32 to 128 (256) bits, lines 64 to 512 bits, 1, 2 and 4 ways; counters of 1 to 32 bits',
  'The blocks have a handful of directed tests at one width; the cache tests use few widths, and only aligned positions their traces happen to touch.',
  [U + 'muxes.py', U + 'counters.py', U + 'arithmetics.py', U + 'UpdateTagArrayUnit.py', U + 'MSHR.py', U + 'ReplacementPolicy.py', U + 'StallEngine.py'],
  [('sub-word selection', U + 'muxes.py'), ('counting', U + 'counters.py'), ('replication, write enables, tag comparison, line numbers', U + 'arithmetics.py'), ('tag commands', U + 'UpdateTagArrayUnit.py')], ['ports of the components'],
  technique='SAT-based bounded model checking of the symbolically executed component from an arbitrary state, counterexamples replayed on the simulation',
  note='Most blocks are combinational, the others are checked from any state: the answer is complete for the listed widths. Trusted: symbolic executor, SAT solver.')
p('C18', 'The cache is correct with memories that do not hold their outputs',
  'The cache uses a memory\'s output only in the cycle after it read that memory: with outputs that are arbitrary in every other cycle (as in the shipped Verilog wrapper) it still meets every data, protocol, write-back and hit guarantee above.',
  ['schedules', 'histories', 'inputs'],
  'all request sequences and stalls, any memory outputs in cycles that do not follow a read',
  'The simulation model of the memory happens to keep its last output, so no test can see a dependence on it; the stall engine exists for exactly this case.',
  [DP, U + 'StallEngine.py', 'sram/brg_gf14_sram_generic_synopsys.v'],
  [('saving memory outputs during stalls', U + 'StallEngine.py'), ('read enables of the arrays', CT)], IFC, ARR,
  technique=BMC + '; memory outputs are additional solver variables')
P[-1]['anchors']['files'] = list(dict.fromkeys(P[-1]['anchors']['files']))
p('C19', 'Caches over one memory stay coherent under flush, invalidate and atomics',
  'When several caches share a memory and software follows the rules (write a word only while no one else holds unflushed changes to it; flush to publish; invalidate before reading what others published; atomics any time), every read and atomic returns the latest value of the word. '
  'Concurrent changes to different words of one line never destroy each other, and once all changes are flushed memory holds the latest value of every word.',
  ['histories', 'schedules', 'inputs'],
  'all addresses, sizes and data in programs of reads, writes, atomics, flushes and invalidations on two (three) caches, requests of a phase running concurrently',
  'Coherence needs flush, invalidation, word masks and atomics of different caches to fit together for every address relation between their accesses; the tests run four small multi-cache programs, and the documentation notes that random testing was not possible without a reference model.',
  [CT, DP, TOP], [('invalidation and flush walks', CT), ('per-word modified bits and write masks', DP), ('atomics performed at memory', CT)],
  IFC, ARR, technique='SAT-based bounded model checking of two or three symbolically executed caches over one memory (programs with symbolic addresses and data), counterexamples replayed on the simulation',
  note='Programs of 4 to 7 phases from reset, at most one request per cache and phase; the listed programs cover publish/acquire, false sharing, invalidation while holding changes, atomics and ownership transfer. Trusted: symbolic executor, SAT solver.')
TR = 'blocking_cache/translate.py'
p('C20', 'The emitted SystemVerilog is the same machine as the simulated model',
  'For every supported size, line, data, address and opaque width and associativity, the SystemVerilog written by the translation script behaves cycle for cycle as the simulated model: same ports, same registers, same outputs and same next state from every state and input. '
  'With --replace-sram every memory of a shape the wrapper has a cell for becomes an instance of the wrapper with that shape, and the contents of the wrapper after every write (bit mask included) and its output after every read are those of the simulated memory.',
  ['inputs', 'configurations', 'histories'],
  'all states and inputs of one clock cycle (hence all executions from equal registers); listed configurations and memory shapes',
  'No test translates the design, and the wrapper is not used by any: chips are built from text nothing in the test-suite has ever run.',
  [TR, 'sram/brg_gf14_sram_generic_synopsys.v', CT, DP, 'sram/SramGenericPRTL.py'],
  [('translation and memory replacement', TR), ('wrapper around the memory cells', 'sram/brg_gf14_sram_generic_synopsys.v')],
  ['translate.py command line', 'ports of the emitted module', 'ports of the memory wrapper'],
  [('registers of the design', 'one per Reg/RegEn/array word', DP)],
  technique='SAT-based equivalence checking: the emitted SystemVerilog (parsed, elaborated and symbolically executed on every run) against the symbolically executed model, one cycle from an arbitrary common state; counterexamples run on the real model and, with verilator, on the emitted text',
  note='Unbounded in time for each listed configuration: equal transition functions. Trusted: vf/interp.py, vf/svparse.py and vf/sv.py (the reading of SystemVerilog), SAT solver; cells the wrapper only names are taken to be bit-masked single-port memories.')
p('C21', 'Preloading: WRITE_INIT places words in the cache',
  'After reset and before any other request, WRITE_INITs (any encodable size, at most one line of each set) are each answered once, in order, with zero data and no hit flag, and send nothing to memory. '
  'Later reads of that line hit and return the words preloaded last, whatever was preloaded into other lines in between, until they are written, the line is replaced, invalidated or taken by an atomic; preloaded words are never written back, and the line counts as the one used last in its set.',
  ['inputs', 'histories', 'schedules'],
  'all addresses, sizes and data of up to 4 (6) preloads in any order and up to 2 requests of any kind after them, any power-up state',
  'The tests preload one line and read it back; whether several lines of several sets keep their words depends on the order of sets and the replacement bits.',
  [CT, DP], [('preload path and way selection', CT), ('data and tag arrays', DP)], IFC, ARR,
  technique=BMC,
  note='From any power-up state through reset: 1 to 4 preloads (thorough 6), then one or two other requests; plus unscripted sequences with stalls up to 9 (14) cycles. Trusted: symbolic executor, SAT solver.')
