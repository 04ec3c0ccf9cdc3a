#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here because JSON lines are unpleasant to edit)."""
import json, os
T = 'crates/tinywasm/src/'; PA = 'crates/parser/src/'; TY = 'crates/types/src/'
R = []
def p(id, title, statement, over, q, why, files, mech, observe, state=(), hook=None):
    R.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'observe_at': observe, 'hook_needed': hook}})
p('C01', 'Integer instructions compute their defined result or trap',
  'Every 32-bit and 64-bit integer instruction, sign extension, wrap/extend conversion and 128-bit wide-arithmetic instruction returns exactly the value the WebAssembly specification defines for its operands. Division and remainder trap with "divide by zero" or "integer overflow" exactly when the specification says so, and nothing else traps. Where an operand comes from (parameter, local, constant, another instruction) makes no difference.',
  ['inputs', 'programs'], 'For all operand values (2^64 to 2^256 per instruction), every instruction and every way of supplying the operands.',
  'The spec scripts sample a few dozen operand pairs per instruction and mostly one operand shape; a fault for one shift count, one boundary pair or one fused operand shape is not sampled.',
  [T+'interpreter/executor.rs', T+'interpreter/num_helpers.rs', PA+'visit.rs', PA+'optimize.rs'],
  [('integer arithmetic handlers', T+'interpreter/executor.rs'), ('checked division and shift helpers', T+'interpreter/num_helpers.rs'), ('lowering of operators', PA+'visit.rs')], ['results and traps of calls to exported functions'])
p('C02', 'Floating-point instructions and conversions follow the specification',
  'Every f32/f64 arithmetic, comparison, rounding, min/max, sign and conversion instruction returns the correctly rounded IEEE 754 result the specification defines, with a NaN result exactly when one is required. Truncations to integers return the truncated value or trap exactly when the input is NaN or out of range, and the saturating forms clamp and never trap. Constants, reinterpretations and sign operations preserve every bit, including NaN payloads.',
  ['inputs'], 'For all bit patterns of all operands, including NaNs with payloads, signed zeros, infinities, denormals and the exact boundaries of integer ranges.',
  'The tests sample boundary values per instruction; a conversion boundary off by one ulp, a lost sign of zero or a flipped NaN payload bit needs a specific pattern.',
  [T+'interpreter/num_helpers.rs', T+'interpreter/executor.rs'],
  [('float helper trait: min, max, nearest, canonical NaN', T+'interpreter/num_helpers.rs'), ('checked float to int conversions', T+'interpreter/num_helpers.rs')], ['result bits and traps of calls to exported functions'])
p('C03', 'SIMD instructions act lane by lane as specified',
  'Every 128-bit vector instruction returns, for all vector operands, the vector or scalar obtained by applying the specified operation to each lane in order. Saturation, widening, narrowing, shifts (count taken modulo the lane width), shuffles, swizzles, lane access, comparisons and bit masks follow the specification. Vector loads and stores touch exactly the bytes their width says and leave other lanes and bytes unchanged.',
  ['inputs'], 'For all 2^128 values per vector operand, all scalar operands and lane indices.',
  'Spec scripts use a few hand-picked vectors; a fault in one lane, one saturation boundary or one swizzle index outside 0..15 is easily missed.',
  [T+'interpreter/simd/instructions.rs', T+'interpreter/simd/macros.rs', T+'interpreter/simd/utils.rs', T+'interpreter/executor.rs'],
  [('lane-wise vector implementation', T+'interpreter/simd/instructions.rs'), ('vector dispatch', T+'interpreter/executor.rs')], ['result bits of calls to exported functions', 'memory contents after vector stores'])
p('C04', 'Loads and stores touch exactly the addressed bytes or trap',
  'A load or store of n bytes at address a with offset o accesses exactly bytes a+o .. a+o+n (computed without wrap-around) in little-endian order, with the specified sign or zero extension or truncation, if that range lies inside the current memory. Otherwise it traps with "out of bounds memory access" and changes nothing. This holds for 32-bit and 64-bit memories, every memory of a module, and every way the address and value operands are supplied.',
  ['inputs', 'programs'], 'For all addresses, static offsets, stored values and memory contents, at every distance from the end of memory including wrap-around sums.',
  'Tests hit a few addresses near the end of memory; an off-by-one for one width, a sum wrapping at 2^32, or one fused instruction form using the wrong memory is a single point in a 2^64 space.',
  [T+'interpreter/executor.rs', T+'store/memory/mod.rs', T+'store/memory/instance.rs', T+'store/memory/vec.rs', PA+'visit.rs', PA+'optimize.rs'],
  [('effective address computation', T+'interpreter/executor.rs'), ('bounds-checked memory access', T+'store/memory/vec.rs'), ('fused memory instructions', PA+'optimize.rs')], ['results, traps and memory bytes'])
p('C05', 'Bulk memory operations are bounds-checked, overlap-safe and atomic',
  'memory.copy, memory.fill and memory.init act as if all source bytes were read before any destination byte is written, change exactly the destination range, and accept every range that ends at or before the end of memory or segment, including empty ranges at the very end. If any range exceeds its memory or data segment (computed without wrap-around) the operation traps and not a single byte has changed. A dropped data segment behaves as an empty one.',
  ['inputs', 'programs'], 'For all addresses, lengths, fill values and contents, both index sizes, same or different memories.',
  'Tests use fixed small ranges; overflow of address plus length, addresses above 2 GiB, overlap in one direction or a partial write before the trap need particular triples.',
  [T+'interpreter/executor.rs', T+'store/memory/mod.rs', T+'store/memory/instance.rs', T+'store/memory/vec.rs', T+'store/data.rs'],
  [('bulk memory handlers', T+'interpreter/executor.rs'), ('copy_within, fill, write_all', T+'store/memory/mod.rs')], ['memory bytes and traps after a bulk operation'])
p('C06', 'Memory backends are indistinguishable',
  'A program observes the same results, traps, sizes and memory bytes whichever linear memory backend is configured: contiguous, chunked with any chunk size, or allocated lazily on first use. In particular accesses that straddle chunk boundaries, growth, and bulk operations behave like those on one flat byte array that starts out zeroed.',
  ['inputs', 'histories', 'configurations'], 'For all addresses, lengths, values, chunk sizes and sequences of operations up to the bound.',
  'Tests use one or two chunk sizes and a few addresses; faults sit where an access straddles a chunk boundary, or where a not yet allocated memory is grown or read.',
  [T+'store/memory/vec.rs', T+'store/memory/paged.rs', T+'store/memory/lazy.rs', T+'store/memory/mod.rs', T+'engine.rs'],
  [('chunked memory', T+'store/memory/paged.rs'), ('lazy memory', T+'store/memory/lazy.rs'), ('contiguous memory', T+'store/memory/vec.rs')], ['bytes, results and errors of the same operations on each backend'])
p('C07', 'Memory and table sizes follow their declared limits',
  'memory.grow and table.grow return the old size and extend by exactly the requested amount with zeroed bytes or the given element when the new size is within the declared maximum and the implementation limit; otherwise they return -1 and change nothing. memory.size and table.size, and the host-side size accessors, always equal the initial size plus all successful growth, existing contents survive growth, and a size never exceeds the maximum.',
  ['inputs', 'histories'], 'For all growth amounts (including 0, huge and "negative" ones), limits, page sizes and sequences of growth up to the bound.',
  'Tests grow by a few small amounts; a wrapped page computation or an off-by-one at the maximum depends on exact limit and delta.',
  [T+'store/memory/instance.rs', T+'store/table.rs', T+'interpreter/executor.rs', TY+'lib.rs', T+'reference.rs'],
  [('memory growth', T+'store/memory/instance.rs'), ('table growth', T+'store/table.rs'), ('limits of memory types', TY+'lib.rs')], ['results of grow and size, host-side sizes, contents'])
p('C08', 'Table instructions are bounds-checked and exact',
  'table.get, set, fill, copy, init and elem.drop read or change exactly the addressed elements, copy overlapping ranges as if through a temporary, and trap without changing anything when any range exceeds its table or element segment. A dropped element segment behaves as an empty one. References stored in a table come back as the same function or host reference, also when tables are shared between modules.',
  ['inputs', 'histories'], 'For all indices, lengths and values, with tables shared between instances.',
  'Tests use small fixed index triples inside one module; sums that wrap, partial writes before a trap and confusion between module-local and store-wide function numbers need specific indices and a second instance.',
  [T+'store/table.rs', T+'store/element.rs', T+'interpreter/executor.rs'],
  [('table instance operations', T+'store/table.rs'), ('table instruction handlers', T+'interpreter/executor.rs')], ['table contents read back by instructions and by the host, identity of called functions'])
p('C09', 'Indirect calls never reach a function of another type',
  'call_indirect and return_call_indirect call exactly the function stored at the given table index, and only if its signature equals the expected one in all parameter and result types. Otherwise they trap: "undefined element" when the index is outside the table, "uninitialized element" when it is null, and "indirect call type mismatch" when signatures differ. This holds across modules that number their types differently.',
  ['inputs', 'programs'], 'For all table indices and all pairs of signatures up to the bound, functions of the same module, another module or the host.',
  'Tests use a handful of signatures and indices; confusing equal type indices with equal types, or comparing only part of a signature, needs two modules with different type sections.',
  [T+'interpreter/executor.rs', T+'store/function.rs', T+'store/table.rs'],
  [('indirect call handler', T+'interpreter/executor.rs'), ('function instances with their types', T+'store/function.rs')], ['results and trap kinds of indirect calls'])
p('C10', 'Bytecode optimisation does not change what a program does',
  'For every valid module, the result, traps, and final memory, globals and tables of every call are the same whether the rewriting optimisation of the parser is enabled or disabled. NaN results may differ only where the specification allows it.',
  ['programs', 'inputs'], 'For all instruction sequences up to the bound drawn from all fusible instructions and operand sources, and all run-time values.',
  'Fused instructions appear only for particular neighbouring instructions with particular locals, constants and branches between them; tests cover the patterns compilers happen to emit, for a few values.',
  [PA+'optimize.rs', PA+'macros.rs', PA+'visit.rs', T+'interpreter/executor.rs'],
  [('peephole rewriting', PA+'optimize.rs'), ('superinstruction handlers', T+'interpreter/executor.rs')], ['results, traps and store contents with and without the optimisation'])
p('C11', 'Structured control flow transfers control and values as specified',
  'block, loop, if/else, br, br_if, br_table, return and select continue at the specified place with exactly the specified values on the operand stack, discarding everything else above the target. This holds for every nesting, every number and mixture of operand types carried across the branch, unreachable code, and every br_table index including those beyond the table.',
  ['programs', 'inputs'], 'For all control structures up to the bound, all label depths and operand type mixtures, and all conditions and table indices.',
  'Tests cover typical compiler output; leaving one stale value of another width on the stack, or mistreating a branch out of a block with mixed value types, only shows for specific combinations.',
  [PA+'visit.rs', PA+'optimize.rs', T+'interpreter/executor.rs', T+'interpreter/stack/value_stack.rs'],
  [('lowering of control instructions', PA+'visit.rs'), ('jump and stack truncation handlers', T+'interpreter/executor.rs')], ['results of calls; values read after the join point'])
p('C12', 'Calls pass every argument and result unchanged and in order',
  'A call of a function defined in this module, in another instance or by the host receives exactly the arguments in order, starts with zeroed locals, and returns exactly its results in order, leaving all other values and locals of the caller untouched. A tail call behaves as a call followed by return for every kind of callee. A function that runs in another instance uses the memory, globals, tables and functions of the instance that defines it, and the caller its own afterwards.',
  ['programs', 'inputs'], 'For all signatures up to the bound mixing 32-, 64-, 128-bit and reference types, all argument values, all callee kinds, call and tail-call forms.',
  'Values of different width live on different stacks, so misplacement only shows for specific mixtures of types and nesting; tests mostly use uniform signatures within one instance.',
  [T+'interpreter/executor.rs', T+'interpreter/stack/value_stack.rs', T+'interpreter/stack/call_stack.rs', T+'func.rs'],
  [('call, return and tail-call handlers', T+'interpreter/executor.rs'), ('frames and locals', T+'interpreter/stack/value_stack.rs')], ['arguments seen by callees, results seen by callers, module state touched'])
p('C13', 'Stack exhaustion is a trap within the configured limits',
  'A program that exceeds the configured call depth or value stack size gets a "call stack exhausted" or "value stack exhausted" trap, never a host panic, overflow or corruption. A program that stays within the limits is not stopped, whichever growth policy (fixed or growing) is configured, and the growth policy never lets a stack exceed its maximum. After such a trap the store remains usable.',
  ['programs', 'configurations', 'histories'], 'For all stack configurations up to the bound, recursion depths and frame sizes.',
  'Tests recurse without end under the default configuration; the exact limit for a given initial and maximum size and mixture of value widths is not sampled.',
  [T+'interpreter/stack/call_stack.rs', T+'interpreter/stack/value_stack.rs', T+'engine.rs', T+'interpreter/executor.rs'],
  [('bounded stack growth', T+'interpreter/stack/value_stack.rs'), ('call stack limit', T+'interpreter/stack/call_stack.rs')], ['depth reached before the trap, trap kind, later calls'])
p('C14', 'Interrupted execution resumes without any observable difference',
  'A call executed in slices, with any sequence of fuel amounts or time budgets, yields the same results, traps and side effects, each exactly once, as the same call executed without interruption. A slice given little fuel stops after a bounded amount of work, giving more fuel eventually completes any terminating program, and a finished or abandoned execution leaves the store usable for other calls.',
  ['schedules', 'programs', 'inputs'], 'For all interruption points, that is all sequences of fuel amounts up to the bound and all clock readings.',
  'Where execution is suspended depends on the fuel sequence; tests use one or two constants, so a state not saved at one particular instruction (branch, call, host call, fused instruction) goes unseen.',
  [T+'func.rs', T+'interpreter/mod.rs', T+'interpreter/executor.rs', T+'engine.rs', T+'store/mod.rs'],
  [('suspended executions', T+'func.rs'), ('fuel accounting', T+'interpreter/executor.rs')], ['results and effects of resumed calls against direct calls'])
p('C15', 'Handles only work with the store they belong to',
  'Using a function, memory, table, global, instance or import with a store other than the one it was created in is reported as an error and has no effect on either store; it never reads, writes or calls something else that happens to have the same number. Handles keep referring to the same object when further modules are instantiated in their store.',
  ['histories', 'inputs'], 'For all kinds of handles and operations on them, and stores whose contents differ in number and type.',
  'Tests check a few accessor and kind combinations; every pair of handle kind and operation needs its own check, and a missing one shows only with two populated stores.',
  [T+'reference.rs', T+'func.rs', T+'instance.rs', T+'imports.rs', T+'store/mod.rs'],
  [('store identity check of handles', T+'reference.rs'), ('store identity check of instances', T+'instance.rs'), ('import resolution', T+'imports.rs')], ['errors from API calls; contents of both stores afterwards'])
p('C16', 'Imports are linked only when their types match',
  'Instantiation succeeds only if every import is provided by an item of the right kind whose type matches: equal function signatures, equal global type and mutability, equal element type, index size and page size, and current size and maximum within the declared limits. Otherwise it fails with an "unknown import" or "incompatible import type" error and nothing is instantiated. A matching import is bound to exactly the named item, which is then shared, not copied.',
  ['inputs', 'configurations'], 'For all pairs of provided and required types: kinds, limits, signatures, mutability.',
  'Tests sample a few mismatches per kind; a comparison that ignores one field or has the wrong direction for one limit needs a specific pair.',
  [T+'imports.rs', T+'instance.rs', T+'store/mod.rs', TY+'lib.rs'],
  [('import type comparison', T+'imports.rs'), ('linking', T+'imports.rs')], ['success or error kind of instantiation, sharing of imported state'])
p('C17', 'Instantiation initialises exactly what the module declares',
  'A new instance has its memories, tables and globals initialised by evaluating constant expressions and copying active data and element segments in order, each of them bounds-checked, before its start function runs exactly once. If a segment is out of bounds or the start function traps, instantiation fails with that trap, effects of earlier segments on imported memories and tables persist, and the store remains usable. Passive segments stay available until dropped, active and declared ones are dropped.',
  ['inputs', 'programs'], 'For all segment offsets, lengths and contents, and constant expressions up to the bound, including offsets from imported globals.',
  'Offsets are mostly small constants in tests; sums that wrap, zero-length segments at the exact end, and references kept after a failed instantiation are corner points.',
  [T+'instance.rs', T+'store/mod.rs', T+'store/data.rs', T+'store/element.rs', PA+'conversion.rs'],
  [('instantiation', T+'instance.rs'), ('segment initialisation', T+'store/mod.rs'), ('constant expressions', PA+'conversion.rs')], ['memory, table and global contents after instantiation; errors'])
p('C18', 'Untrusted module bytes are rejected or accepted, never fatal',
  'Parsing arbitrary bytes returns a module or an error and never panics, hangs or reads out of bounds, and a module is accepted only if it is valid for the enabled proposals. The outcome is the same for a byte slice and for a stream delivering the same bytes in pieces of any size. An accepted module can be instantiated and called without a host panic.',
  ['inputs', 'schedules'], 'For all byte strings up to the bound, in particular all corruptions of valid modules, and all splits into pieces.',
  'Spec tests contain a fixed set of malformed modules, and streams in tests deliver everything at once; single corruptions at every position and every split are not sampled.',
  [PA+'lib.rs', PA+'module.rs', PA+'conversion.rs', PA+'visit.rs'],
  [('payload loop for slices and streams', PA+'lib.rs'), ('section conversion', PA+'module.rs'), ('operator validation and lowering', PA+'visit.rs')], ['result of parsing, instantiating and calling'])
p('C19', 'Saved modules load back identical or are rejected',
  'A module serialised to the twasm format and loaded again is equal to the original and behaves identically. Data that does not start with the current header, or that is truncated, is rejected with an error and never causes a panic.',
  ['inputs', 'programs'], 'For all modules up to the bound with arbitrary constants, and all corruptions of the header and truncations.',
  'One round-trip test uses one module; the encodings of each instruction operand, limit and segment kind, and malformed input, are not covered.',
  [TY+'archive.rs', TY+'instructions.rs', TY+'lib.rs'],
  [('archive writer and reader', TY+'archive.rs')], ['loaded module, errors'])
p('C20', 'Typed and untyped host calls check signatures and marshal exactly',
  'A function can be obtained as a typed handle only if parameter and result types equal its signature, and an untyped call is rejected with an error and without running anything unless number and types of the arguments match. Values cross between host and guest bit for bit and in order, in both directions, and a host function whose returned values do not match its declared type causes an error instead of reaching the guest.',
  ['inputs', 'programs'], 'For all argument lists and signatures up to the bound and all values including NaN payloads and null references.',
  'Tests use a few signatures with matching arguments; a check that compares only lengths or only the first type, or a result list of the wrong shape, is rarely exercised.',
  [T+'func.rs', T+'instance.rs', T+'interpreter/stack/value_stack.rs'],
  [('signature checks', T+'func.rs'), ('value conversion traits', T+'func.rs'), ('host function invocation', T+'func.rs')], ['values and errors at the API'])
p('C21', 'Failed and nested calls leave the store as specified',
  'A call that traps at any point, in the guest or in a host function, keeps the side effects made before the trap, performs none after it, and leaves no residue: every later call on the same store gives the result it would have given otherwise. Host functions may call back into the guest to any depth, and a nested call that returns or traps does not disturb the suspended outer one.',
  ['histories', 'programs', 'inputs'], 'For all trap points, nesting structures up to the bound, and values.',
  'Tests trap and then rarely use the store again; stale stack values show up only in a later call of a particular shape, or when a nested call traps in the middle of an outer one.',
  [T+'func.rs', T+'interpreter/mod.rs', T+'interpreter/executor.rs', T+'store/mod.rs', T+'interpreter/stack/value_stack.rs'],
  [('stack reset around calls', T+'func.rs'), ('nested execution on the shared stack', T+'interpreter/mod.rs')], ['results of later and outer calls, side effects'])
p('C22', 'Globals hold what was last written and immutable ones never change',
  'A global read by the guest or by the host returns exactly the bits last written, through whichever instance or handle the write went, starting with the value of its constant initialiser. Immutable globals cannot be changed, and a host write of a value of another type is rejected with an error and without effect.',
  ['inputs', 'histories'], 'For all global types, initialisers (including extended constant expressions) and sequences of reads and writes up to the bound.',
  'Tests write a few numbers; faults in one value width, in constant arithmetic that wraps, or in globals shared across instances need particular types and values.',
  [T+'store/global.rs', T+'reference.rs', T+'interpreter/executor.rs', T+'store/mod.rs', PA+'conversion.rs'],
  [('global instances', T+'store/global.rs'), ('host access to globals', T+'reference.rs'), ('constant expression evaluation', T+'store/mod.rs')], ['values of global reads by guest and host'])
p('C23', 'Host access to guest memory is exact and bounds-checked',
  'Reading, writing, filling, copying, seeking and string access through memory handles and cursors transfer exactly the requested bytes at the requested position when these lie inside the memory, and otherwise report an error or a short count without changing or reading anything outside. No combination of position, length and offset panics or wraps.',
  ['inputs', 'histories'], 'For all offsets, lengths and seek positions up to the extremes of their types, and all memory contents.',
  'Tests use in-range offsets and one obvious overflow; sums near the maximum, seeking relative to the end, strings without terminator and partial reads at the end are not covered.',
  [T+'reference.rs', T+'store/memory/instance.rs', T+'store/memory/mod.rs', T+'store/memory/vec.rs'],
  [('memory handle operations', T+'reference.rs'), ('memory cursor', T+'reference.rs')], ['bytes, counts and errors at the API'])
p('C24', 'References keep their identity and null stays null',
  'A function or host reference is the same reference after passing through parameters, results, locals, globals, tables, select and branches, ref.is_null is true exactly for null references, and a non-null function reference calls the function it was made from, whichever module made it. The host sees null and non-null references as such.',
  ['inputs', 'programs'], 'For all reference values (any host reference number and any function), and all routes between guest and host up to the bound.',
  'Tests use small host reference numbers within one module; a null encoding that collides with a value, or a module-relative function number leaking into another module, needs specific numbers and a second module.',
  [TY+'reference.rs', T+'interpreter/executor.rs', T+'interpreter/values.rs', T+'store/table.rs'],
  [('reference encoding', TY+'reference.rs'), ('reference instructions', T+'interpreter/executor.rs')], ['references seen by host and guest'])
p('C25', 'Parallel parsing gives the same module as sequential parsing',
  'With any number of parser threads and any scheduling of them, parsing yields the same module, or rejects the same inputs, as parsing on one thread.',
  ['schedules', 'configurations'], 'For all thread schedules and thread counts, for all modules.',
  'A test run takes one schedule.',
  [PA+'parallel.rs', PA+'module.rs', PA+'lib.rs'], [('parallel function parsing', PA+'parallel.rs')], ['resulting module or error'])
p('C26', 'Modules and instances describe what the bytes declare',
  'The imports and exports a module lists are those its bytes declare: each one, in order, with its names and exact type (also when read from a stream or saved and loaded). The items an instance hands out, by name or by index, are the ones described, of the type they report; any other name or index is an error.',
  ['inputs', 'programs'], 'For all modules: any mix and order of imported and own items, any types, names and limits.',
  'Tests list a handful of modules; mixing up the index spaces of imported and own items, or losing a limit, needs particular mixtures and indices.',
  [TY+'lib.rs', T+'instance.rs', PA+'conversion.rs', PA+'module.rs', T+'reference.rs'], [('module descriptors', TY+'lib.rs'), ('access to items by name and index', T+'instance.rs')], ['descriptors returned to the host', 'handles'])
p('C27', 'The build without the standard library computes the same floating-point results',
  'Built with default features off (no standard library, NaNs not made canonical), every scalar and vector floating-point instruction still returns a result the WebAssembly specification permits: the same bits as the default build where the result is a number, and where it is NaN, one the specification allows (quiet, never a signalling NaN handed through). Truncations trap or saturate exactly as specified.',
  ['inputs'], 'For all bit patterns of all operands, in the build with no features but the parser.',
  'All tests run with the default features, where other code computes the rounding instructions and every NaN is replaced by the canonical one; nothing tests the reduced build.',
  [T+'interpreter/no_std_floats.rs', T+'interpreter/num_helpers.rs', T+'interpreter/simd/utils.rs', T+'interpreter/simd/instructions.rs'], [('float routines without std', T+'interpreter/no_std_floats.rs'), ('min, max, nearest without canonical NaNs', T+'interpreter/num_helpers.rs'), ('vector NaNs', T+'interpreter/simd/utils.rs')], ['result bits and traps of calls to exported functions, built with default-features = false'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(r) + '\n' for r in R))
