#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -W ignore check.py'
CT, DP, TOP = 'blocking_cache/BlockingCacheCtrlRTL.py', 'blocking_cache/BlockingCacheDpathRTL.py', 'blocking_cache/BlockingCacheRTL.py'
U = 'blocking_cache/units/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), technique=None, note=None):
  P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=observe, hook_needed=None), _t=technique, _n=note))

BMC = 'SAT-based bounded model checking of the symbolically executed RTL source (arbitrary start state, any traffic and stalls), counterexamples replayed on the simulation'
NOTE = ('Every update block and helper of the cache is executed symbolically from its source on each run; a SAT solver decides all '
        'inputs and schedules within the stated cycles, for the listed small configurations. Trusted: the symbolic executor (compared '
        'with the real simulation on every run), pymtl3 elaboration, the SAT solver\'s unsat answers. Outside: longer executions than the '
        'bound from a start state outside the invariant, other sizes, illegal requests.')
IFC = ['the processor-side and memory-side request/response interfaces']
ARR = [('tag arrays', 'tag, valid bit and per-word dirty bits of every line', DP), ('data array', 'the cached lines', DP),
       ('pending-miss register', 'the request being replayed after a miss', U + 'MSHR.py')]

p('C01', 'A read returns the latest write to every byte it covers',
  'Every byte returned by a read is the byte most recently written to that address by an earlier request to the same cache (write or atomic), '
  'or the byte memory held if there was none, no matter what hits, misses, evictions, refills, atomics, flushes, invalidations or stalls happened in between.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all request sequences, addresses, sizes and data; all processor/memory stalls and memory latencies; direct-mapped and 2-way',
  'Tests replay fixed or random traces with a few delay settings on a few geometries; a stale-byte bug needs one particular interleaving of eviction, refill, replay and stall for one byte lane.',
  [CT, DP, U + 'muxes.py', U + 'arithmetics.py', U + 'StallEngine.py', 'sram/SramGenericPRTL.py'],
  [('miss handling by refill and replay', CT), ('byte write enables', U + 'arithmetics.py'), ('sub-word selection', U + 'muxes.py')], IFC, ARR)
p('C02', 'One response per request, in order, with the request\'s identity',
  'Every accepted request gets exactly one response, responses come in request order, and each response repeats the type, opaque tag and length of its request. No response appears without a request.',
  ['histories', 'schedules', 'inputs'],
  'all legal request sequences (reads, writes, atomics, invalidate, flush) under all stall patterns and memory latencies',
  'Tests check responses of chosen traces; duplicated, dropped or mislabelled responses depend on which stage is occupied when a stall or refill arrives.',
  [CT, DP, TOP, U + 'MSHR.py'], [('response enable per pipeline stage', CT), ('replay of the saved request', U + 'MSHR.py')], IFC, ARR)
p('C03', 'Response payload: data only where promised, zero-extended, hit flag well-formed',
  'Responses to writes, invalidations and flushes carry zero data; read data narrower than the data width and atomic results are zero-extended. The hit flag is only ever set, to one, on reads and writes.',
  ['inputs', 'schedules', 'configurations'],
  'all requests, sizes, line contents and stalls; data widths 32, 64 and 128 bits',
  'Tests compare chosen values; leakage of stale line bits into upper bytes or into write responses depends on line contents, length and what passed before.',
  [DP, U + 'muxes.py', CT], [('sub-word select multiplexer with enable', U + 'muxes.py'), ('data-select enable', CT)], IFC, ARR)
p('C04', 'Atomics are performed once, by memory, and their effect is never masked',
  'An atomic sends exactly one atomic request (same type, address, operand, 4-byte length, requester tag) to memory after first writing back all dirty words of its line, and returns memory\'s old value. '
  'The line is dropped from the cache, so any later access sees the value after the atomic.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all nine atomic types, any cache contents (valid, invalid-but-dirty, absent), any stalls, latencies and following requests',
  'Tests run atomics on selected cache states; a wrong way, mask or stale hit shows only for particular way/dirty/invalid combinations.',
  [CT, DP, U + 'arithmetics.py'], [('line invalidation and write-back before the atomic', CT), ('offset and length of the memory request', U + 'arithmetics.py')], IFC, ARR)
p('C05', 'Evictions write back exactly the modified words, before the refill',
  'A miss that replaces a line with modified words first sends one line-aligned write of that line whose word mask is exactly the modified words and whose data are their latest values. '
  'Nothing is written back for clean lines, for hits, or for a miss that finds its own line invalidated but modified.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all cache contents and dirty patterns, victims, requests and stalls',
  'A lost or extra dirty bit is invisible to a test until the line is evicted and the word re-read; there are exponentially many dirty patterns and orders.',
  [CT, DP, U + 'UpdateTagArrayUnit.py', U + 'arithmetics.py'], [('dirty-bit update', U + 'UpdateTagArrayUnit.py'), ('eviction decision', CT)], IFC, ARR)
p('C06', 'FLUSH writes back every modified word and keeps the lines',
  'When a flush is answered, memory holds the latest value of every word, each line with modified words was written exactly once with exactly those words, and all of these writes were acknowledged. '
  'Flushing leaves lines readable, invalidated lines invalid, and nothing modified.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all cache contents (any mix of valid, invalid, modified), stalls and acknowledgement delays',
  'Tests flush a few prepared states; skipped or repeated lines depend on which index/way is dirty and when the acknowledgement arrives.',
  [CT, DP, U + 'counters.py'], [('flush state machine and line counter', CT)], IFC, ARR)
p('C07', 'INV drops every clean copy, keeps modified words, and sends no traffic',
  'After an invalidation is answered, reads of words this cache had not modified return what memory holds then, including values other masters wrote while a copy was cached. '
  'Words it had modified survive with their values and are merged over the refilled line, never written back by the invalidation itself.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all cache contents, external memory updates, and requests following the invalidation',
  'Tests invalidate prepared states; a line missed by the walk or a wrong merge mask needs a particular index, way and dirty pattern.',
  [CT, DP, U + 'arithmetics.py', U + 'UpdateTagArrayUnit.py'], [('invalidation walk', CT), ('refill merge mask', U + 'arithmetics.py')], IFC, ARR)
p('C08', 'The cache obeys its handshakes and never fails internally',
  'The cache raises an enable (response to the processor, request to memory) only while the receiver is ready, and never accepts more requests than it can hold. No legal traffic makes the model itself raise an error.',
  ['schedules', 'inputs', 'histories'],
  'all legal requests and all ready/stall patterns on both interfaces',
  'Ready signals fall at random in few tests; a violation needs ready to drop in one specific cycle of a multi-cycle operation.',
  [CT, TOP, U + 'StallEngine.py'], [('stall propagation between stages', CT)], IFC, ARR)
p('C09', 'Memory traffic is well-formed, minimal and blocking',
  'The memory side sees only line-aligned full-line reads for missing lines (one per miss, for the line requested), line-aligned masked writes and word atomics, each belonging to the outstanding request. '
  'A hit causes no memory request, invalidation causes none, and no new request is accepted while a miss is waiting for memory.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all requests, cache contents and stalls',
  'Spurious or repeated memory requests leave the returned data right, so data-comparing tests pass.',
  [CT, DP, U + 'MSHR.py', U + 'arithmetics.py'], [('one-entry miss register', U + 'MSHR.py'), ('memory request formation', DP)], IFC, ARR)
p('C10', 'Progress: once neighbours stop stalling, everything is answered',
  'Whatever happened before, if from some point on processor and memory do not stall and no new request comes, every accepted request is answered within a bounded number of cycles and the cache becomes ready again.',
  ['schedules', 'histories', 'inputs'],
  'all request sequences and all stall patterns before the quiet period',
  'A deadlock needs a stall or memory response to coincide with one state of the pipeline; tests time out only if they happen to hit it.',
  [CT, U + 'MSHR.py', U + 'counters.py'], [('control state machine', CT), ('miss register allocation and release', U + 'MSHR.py')], IFC, ARR)
p('C11', 'Hits, misses and least-recently-used replacement are exact',
  'A read or write reports a hit exactly when the line was brought in by an earlier access and not since evicted, invalidated or taken by an atomic. '
  'Misses replace the least recently used way of the set (two-way), and only that line ever leaves.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'all histories of accesses to a set, from any cache contents, under any stalls',
  'Replacement state after a particular mix of hits, misses, atomics and stalls is not observable in the few directed tests; wrong victims still return correct data.',
  [CT, DP, U + 'ReplacementPolicy.py', U + 'registers.py', U + 'arithmetics.py'], [('replacement bits', U + 'registers.py'), ('tag comparison', U + 'arithmetics.py')], IFC, ARR)
p('C12', 'Reset yields an empty, ready cache from any power-up state',
  'Whatever the registers and memories hold, one cycle of reset followed by initialisation makes the cache ready in bounded time, and from then on it behaves as an empty cache: no stale line hits, nothing modified is remembered, no request is pending.',
  ['inputs', 'crash_points', 'configurations'],
  'every value of every register and memory bit at reset (including reset in the middle of any operation)',
  'Simulation starts from all-zero state, so tests never see leftover contents.',
  [CT, DP, U + 'counters.py', U + 'registers.py', U + 'MSHR.py'], [('initialisation walk over all lines', CT), ('reset values', U + 'registers.py')], IFC, ARR)
p('C13', 'Every access width works at every data and line width',
  'For 32-, 64- and 128-bit data paths and one to four words per line, every aligned 1-, 2-, 4-, 8- and 16-byte read or write transfers exactly its bytes: reads see them, neighbours keep their values, and write-backs and flushes deliver all of them to memory.',
  ['configurations', 'inputs', 'histories'],
  'all sizes and alignments, data and line widths as listed, any cache contents and following evictions, flushes or atomics',
  'Wide data paths are tested with few traces, none of which evicts or flushes a wide write and re-reads it from memory.',
  [U + 'UpdateTagArrayUnit.py', U + 'arithmetics.py', U + 'muxes.py', DP], [('dirty-word mask of a write', U + 'UpdateTagArrayUnit.py'), ('write enables', U + 'arithmetics.py'), ('word-modified test', U + 'arithmetics.py')], IFC, ARR)
p('C14', 'Pipeline timing: hits stream, misses add no needless delay',
  'Without stalls, read hits and write hits to already modified words are accepted in consecutive cycles and answered two cycles after acceptance; a write hit to an unmodified word is answered as fast and delays the next request by one cycle only. '
  'A miss or atomic sends its first memory request two cycles after acceptance (write-back and next request back to back), answers within four cycles of memory\'s data, and the cache is ready in the cycle after the last answer.',
  ['histories', 'inputs', 'configurations'],
  'all request sequences and cache contents, any memory latency, no stalls',
  'Tests check values, not cycles; a lost overlap or an extra bubble passes every test.',
  [CT, U + 'StallEngine.py', U + 'MSHR.py'], [('stall and ready logic', CT)], IFC, ARR)

EXTRA = os.path.join(HERE, 'tools', 'extra_props.py')
if os.path.exists(EXTRA): exec(open(EXTRA).read())

NA = globals().get('NA', [])

def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps({k: v for k, v in x.items() if k[0] != '_'}) + '\n')
    for x in NA: f.write(json.dumps({k: v for k, v in x['prop'].items() if k[0] != '_'}) + '\n')
  m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import pymtl3" && mkdir -p evidence',
           checks=[dict(property=x['id'], quick_cmd=f"{PY} {x['id']} quick", thorough_cmd=f"{PY} {x['id']} thorough",
                        technique=x['_t'] or BMC, level='other', level_note=x['_n'] or NOTE) for x in P],
           not_applicable=[dict(property=x['prop']['id'], reason=x['reason']) for x in NA],
           notes='No hooks are needed in /repo. See DESIGN.md.')
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')

main()
