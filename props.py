"""Harnesses per property, the bounds they state, and what each must reach."""
def h(*covers, **kw): return dict(covers=list(covers), **kw)
PROPS = {
 'C01': dict(
    bounds='every integer instruction of the core set, sign extension and wide arithmetic; all values of both operands (full 32/64/128 bit); operands from locals, constants, block results and tees; optimizer on and off; one instruction per function',
    harnesses={'h_c01_ops_opt': h('value', 'trap'), 'h_c01_ops_plain': h('value', 'trap'), 'h_c01_wide': h('wide')}),
 'C10': dict(
    bounds='programs: every operator with operands from locals/constants/loads/globals/calls/tees (one operator per program); every sequence of 4 instructions (quick; 5 thorough) from a menu of 7 to 11 stack and local instructions on top of two unknown values; comparison x eqz x jump shapes incl. loops; loads, stores, read-modify-write, multiply-add, fill on two memories (32 and 64 bit index); two shifts by arbitrary constants; two operators in a row over three operands; functions with up to 300 locals of a type. Data: all values of locals, constants, globals, memory bytes, addresses. 24 byte memories. NaN payloads of computed floats are not compared. Outside: longer windows, reference-typed operands',
    harnesses={**{f'h_c10_{n}': h('value') for n in ('bin32', 'bin64', 'binv', 'ops32', 'ops64', 'opsf32', 'opsf64', 'opsv', 'win32', 'win64', 'winv', 'winf', 'shift32', 'shift64', 'branch32', 'branch64', 'tri32', 'tri64', 'trif32', 'trif64', 'triv')},
               'h_c10_many32': h('value'), 'h_c10_many64': h('value', thorough_only=1),
               'h_c10_mem32': h('value', 'trap'), 'h_c10_mem64': h('value', 'trap'),
               **{f'h_c10_{n}': h('value', thorough_only=1) for n in ('bin32x', 'bin64x', 'binvx', 'win32x', 'win64x', 'winvx')}}),
 'C02': dict(
    bounds='every scalar floating-point instruction: arithmetic, sqrt, comparison, sign, min/max, rounding, conversion from and to integers (trapping and saturating), width changes, reinterpretation; all bit patterns of the operands incl. every NaN, infinity, subnormal; operands from locals, constants and tees; optimizer on and off; one instruction per function; the default features (canonicalize-nans; without: C27). The reference works on bit patterns with integer operations, except that the five arithmetic operations are those of IEEE 754 by the machine. Outside: the no_std float routines',
    harnesses={**{f'h_c02_{n}': h('value') for n in ('arith32', 'arith64', 'cmp', 'sign', 'minmax', 'round32', 'nearest32', 'round64', 'nearest64', 'sat32', 'sat64', 'int32', 'int64', 'width')}, 'h_c02_trunc32': h('value', 'trap'), 'h_c02_trunc64': h('value', 'trap')}),
 'C03': dict(
    bounds='every vector instruction; loads and stores at addresses in range (the rest is under C04), the relaxed ones within what the specification permits: all values of every lane of every operand, every lane index; shuffles with one arbitrary index at each place; for min/max, nearest, truncation: each lane takes every value with the others fixed (thorough: min/max and truncation with all lanes arbitrary); operands from locals and constants; optimizer on and off; the generic code. Outside: the simd-x86 intrinsics, the wasm32 host code',
    harnesses={**{f'h_c03_{n}': h('value') for n in ('shuffle', 'swizzle', 'lane', 'icmp', 'fcmp', 'bits', 'int8', 'int16', 'int32', 'int64', 'mul', 'arith', 'minmax', 'round', 'nearest32', 'nearest64', 'trunc', 'rtrunc', 'convert')}, 'h_c03_mem': h('load', 'store'), 'h_c03_minmaxx': h('value', thorough_only=1), 'h_c03_truncx': h('value', thorough_only=1)}),
 'C04': dict(
    bounds='every load and store incl. vector and lane forms, memories of 21 and 3 bytes (1 byte pages) with 32 and 64 bit index, each of two memories; all addresses and offsets (full 32/64 bit), all values, all memory contents; operands from locals, constants, calls, expressions, tees; results used through set, tee, drop; optimizer on and off; first, middle and last lane; load, add a constant and store at equal and different addresses, offsets and memories; for a 64 KiB page a list of 16 addresses x 4 offsets around its end',
    harnesses={'h_c04_load32': h('value', 'trap'), 'h_c04_load64': h('value', 'trap'), 'h_c04_store32': h('value', 'trap'), 'h_c04_store64': h('value', 'trap'),
               'h_c04_lane32': h('load', 'store', 'trap'), 'h_c04_lane64': h('load', 'store', 'trap'), 'h_c04_page': h('in', 'out'), 'h_c04_rmw32': h('value', 'trap'), 'h_c04_rmw64': h('value', 'trap')}),
 'C05': dict(
    bounds='memory.copy/fill/init on memories of 6 and 4 bytes (1 byte pages), 32 bit, 64 bit and mixed; all operand values (full width), all contents; same memory, two memories, one memory imported under two indices; passive, active and dropped segments of 5 and 2 bytes; constant and computed value/length; on memories of 9000 bytes (contiguous and two chunk sizes) 9 starts x up to 5 lengths around multiples of 4096 with symbolic bytes strewn in',
    harnesses={f'h_c05_{n}': h('value', 'trap') for n in ('copy32', 'copy64', 'fill32', 'fill64', 'init32', 'init64', 'alias', 'mixed', 'big')}),
 'C11': dict(
    bounds='a branch (br, br_if, br_table, from inside an if) out of two nested constructs (block/if/loop each) to every label in reach, carrying 0 to 4 values of mixed widths over discarded values; every statement tree of the stated shapes over branches, loops and conditionals; br_table with 0 to 3 targets in every arrangement and 40 targets in 12, up to 130 targets all but one alike; block, loop and if parameters and results from 9 type lists; select over 5 types; 16 kinds of unreachable code in 6 places; loops of up to 3 turns. Data: all values of parameters, conditions and indices. Outside: deeper nesting, more than 4 carried values',
    harnesses={**{f'h_c11_carry{k}': h('value') for k in range(9)}, **{f'h_c11_carry{k}x': h('value', thorough_only=1) for k in range(9)},
               **{f'h_c11_{n}': h('value') for n in ('params', 'select', 'stmt_block', 'stmt_loop', 'stmt_if', 'stmt_seq', 'switch', 'switchlong', 'switchone', 'only')}, 'h_c11_dead': h('value', 'trap'),
               'h_c11_switchx': h('value', thorough_only=1), 'h_c11_stmt_2x': h('value', thorough_only=1), 'h_c11_deadx': h('value', 'trap', thorough_only=1)}),
 'C12': dict(
    bounds='calls and tail calls, direct and through host functions and other instances, with 0 to 4 parameters and results of mixed widths, called from locals/constants/expressions and with values left on the stack below; self and mutual recursion to symbolic depth up to 4; tail call chains far longer than the call stack; instances whose function, memory and global indices differ. Data: all values of parameters and memory contents. Outside: more than 4 parameters, deeper recursion',
    harnesses={f'h_c12_{n}': h('value') for n in ('call', 'tail', 'recur', 'tailroom', 'cross')}),
 'C14': dict(
    bounds='executions cut into up to 3 slices of arbitrary fuel (full 32 bit) or arbitrary clock readings: loops, recursion, tail call chains and nested calls whose length is an arbitrary input up to the stated few hundred instructions, against the same call run at once; a suspended execution abandoned before further calls; endless loops; host functions and nested calls in a fuelled execution; resuming after completion and after a trap; both fuel policies. Outside: more slices, Rust async',
    harnesses={f'h_c14_{n}': c for n, c in dict(loop=h('value'), recur=h('value'), tail=h('value'), nested=h('value'), abandon=h('value'), endless=h('value'), host=h('suspended', 'at once'), time=h('value'), timex=h('value', thorough_only=1)).items()}),
 'C08': dict(
    bounds='table.get/set/fill/copy/init/grow/size, elem.drop on a shared, two own function tables and an extern table of 4 to 7 elements, 32 and 64 bit index, mixed widths in copy; passive, active (dropped), declared, null-holding and dropped segments of 2 to 5 elements; all operand values (full width), references null/own/foreign, arbitrary host references; one instruction, and two instructions in a row by two instances on the shared table; the host\'s get/set/load/copy_within/grow with arbitrary arguments. Outside: larger tables, growth between 4 elements and 2^32-4',
    harnesses={**{f'h_c08_{n}': h('value', 'trap') for n in ('ops32', 'ops64', 'ext32', 'ext64')}, **{f'h_c08_{n}x': h('value', 'trap', thorough_only=1) for n in ('ops32', 'ops64', 'ext32', 'ext64')}, 'h_c08_pairs': h('value'), 'h_c08_host': h('value')}),
 'C09': dict(
    bounds='call_indirect and return_call_indirect through a table holding one function of each of 20 signatures (0 to 3 parameters, 0 to 2 results, all value types), of the same module, another instance or the host, for each expected signature and every index (full 32/64 bit), with differently numbered and duplicated types; parameters, results and values below of a call through either of two tables changed by table.set/init/grow between two calls. Outside: other signatures, typed function references',
    harnesses={**{f'h_c09_{n}': h('value', 'null', 'undefined', 'mismatch') for n in ('own', 'other', 'host')}, **{f'h_c09_{n}x': h('value', 'null', 'undefined', 'mismatch', thorough_only=1) for n in ('own', 'other', 'host')}, 'h_c09_which': h('value', 'trap')}),
 'C13': dict(
    bounds='call stack limits 0 to 5, value stack limits (each width) 0 to 12 with frames of 1 to 4 slots, fixed and growing from five initial sizes; call chains of any length up to 8 through itself, another function, a table or the host, run twice in one store; 1 to 6 operands, host arguments, host results and call results at once against limits 0 to 8; fixed against growing policies of the same maximum. The slots a frame needs beyond its locals are only bounded (0 to 2). Outside: larger limits, allocation failure, native stack use of host recursion',
    harnesses={f'h_c13_{n}': h('value', 'trap', **({'thorough_only': 1} if n.endswith('x') else {})) for n in ('depth', 'frame32', 'frame64', 'frame128', 'frame32x', 'frame64x', 'frame128x', 'same', 'operands', 'operandsx')}),
 'C21': dict(
    bounds='two calls in a row with arbitrary arguments (16 kinds each) on one store; traps of 7 kinds at 4 places in the guest and inside host functions; nested calls through a host function to depth 2, whose error is passed on or swallowed; typed, untyped, resumable and direct host entry; values of all widths on the stack below; all argument values. Outside: deeper nesting, more than two calls',
    harnesses={f'h_c21_{n}': h('value', 'trap', **({'thorough_only': 1} if n.endswith('x') else {})) for n in ('guest', 'guestx', 'host', 'hostx', 'stack', 'stackx')}),
 'C17': dict(
    bounds='two data and two element segments (own or imported memory/table, 0 to 2 items, items as indices or expressions) at offsets given by constants, an imported global, or sums and differences of them (full 32 bit); element, data and start function traps in one module, the failed instance reached through the imported table with memory.init/table.init of arbitrary operands; start functions own, imported, trapping; the same module instantiated twice. Outside: more segments, 64 bit offsets',
    harnesses={'h_c17_data': h('value', 'trap'), 'h_c17_elem': h('value', 'trap'), 'h_c17_order': h('value', 'trap', 'called'), 'h_c17_twice': h('value', 'trap', 'twice'), 'h_c17_tableinit': h('value'), 'h_c17_datax': h('value', 'trap', thorough_only=1), 'h_c17_elemx': h('value', 'trap', thorough_only=1), 'h_c17_orderx': h('value', 'trap', 'called', thorough_only=1)}),
 'C22': dict(
    bounds='two (thorough three) writes of arbitrary values by the guest, another instance and the host to globals of every type, own, imported and exported under two names, with the guest value coming from locals, constants and other globals, optimizer on and off; constant expressions of up to 4 operators over constants and imported globals for all types; every bit of every value. Outside: longer sequences',
    harnesses={**{f'h_c22_{n}': h('value') for n in ('write', 'const', 'init', 'copy')}, **{f'h_c22_{n}': h('value', thorough_only=1) for n in ('writex', 'initx')}}),
 'C23': dict(
    bounds='host reads, writes, fills, copies, strings and cursor operations at any offset and length (full 64 bit) on memories of a few bytes (1 byte pages, contiguous and chunked) and of one 64 KiB page (positions near its ends), after guest growth, with all contents; strings of up to 4 units over all bytes, longer ones (up to 174 bytes) with one arbitrary character; two (thorough three) cursor operations in a row. Outside: larger lengths',
    harnesses={'h_c23_access': h('value', 'error'), 'h_c23_paged': h('value', 'error'), 'h_c23_string': h('value', 'error'), 'h_c23_cursor': h('value'), 'h_c23_exact': h('value'), 'h_c23_page': h('value'), 'h_c23_long': h('value'), 'h_c23_cursorx': h('value', thorough_only=1)}),
 'C07': dict(
    bounds='two memory.grow/table.grow requests in a row with arbitrary deltas (full 32/64 bit) by guest, another instance or host on own and imported memories (1 byte and 64 KiB pages, 32 and 64 bit index, all three backends) and tables, with and without declared maximum and configured limits; sizes seen by guest and host, contents kept and new elements. Outside: requests the allocator would actually have to serve beyond a few hundred bytes',
    harnesses={**{f'h_c07_{n}': h('value', 'refused') for n in ('mem32', 'mem64', 'page', 'table', 'host')}, **{f'h_c07_{n}x': h('value', 'refused', thorough_only=1) for n in ('mem32', 'mem64', 'table')}}),
 'C15': dict(
    bounds='handles of every kind (function typed and untyped, memory, table, global, instance, table and global item views, resumable call) made in one store and used through every public operation of another store of equal or different contents and with arbitrary addresses; after the store was dropped; and on the store itself after growth of its tables. Outside: raw reference numbers passed as arguments',
    harnesses={'h_c15_foreign': h('value'), 'h_c15_gone': h('value'), 'h_c15_stable': h('value')}),
 'C16': dict(
    bounds='one import of each kind given by an instance or the host: memories (minimum, maximum, page size 1 or 64 KiB, 32 and 64 bit index, grown or not; full 64 bit limits of declared and provided types as far as they validate), tables (element type, limits, index width), globals (8 value types x mutability), functions (every pair of 15 signatures); names and missing imports; several imports of one name. Outside: more than one import per kind at once',
    harnesses={**{f'h_c16_{n}': h('linked', 'refused') for n in ('mem', 'memhost', 'func', 'global', 'table', 'tablehost')}, 'h_c16_names': h('linked', 'refused'), 'h_c16_none': h('linked', 'refused', 'unknown')}),
 'C18': dict(
    bounds='one arbitrary byte at any place of 8 small modules (quick 4), one byte removed or duplicated anywhere, every truncation, any two (thorough three) bytes as instructions of a body, the same bytes as a stream cut at any place and then in pieces of 1, 3 or all bytes. Accepted modules are instantiated and called with 300 fuel. Outside: larger inputs, more changed bytes, the parallel parser (C25)',
    harnesses={'h_c18_base': h('ran'), 'h_c18_byte': h('accepted', 'rejected', 'ran'), 'h_c18_edit': h('accepted', 'rejected'), 'h_c18_body': h('accepted', 'rejected'), 'h_c18_stream': h('accepted', 'rejected'),
               'h_c18_bytex': h('accepted', 'rejected', 'ran', thorough_only=1), 'h_c18_bodyx': h('accepted', 'rejected', thorough_only=1), 'h_c18_streamx': h('accepted', 'rejected', thorough_only=1)}),
 'C19': dict(
    bounds='modules with every scalar, saturating and vector instruction with arbitrary immediates and constants, and with every section (types, imports, functions, tables, memories, globals, exports, start, elements, data, names) at arbitrary field values: saved, loaded, saved again and run; saved bytes with any truncation, any one byte changed to any value, any header. Outside: larger modules, more than one changed byte',
    harnesses={'h_c19_header': h('rejected', 'accepted'), **{f'h_c19_{n}': h('value') for n in ('imms', 'ops', 'module')}, 'h_c19_trunc': h('rejected'), 'h_c19_corrupt': h('accepted', 'rejected'),
               'h_c19_modulex': h('value', thorough_only=1), 'h_c19_truncx': h('rejected', thorough_only=1), 'h_c19_corruptx': h('accepted', 'rejected', thorough_only=1)}),
 'C20': dict(
    bounds='15 signatures of up to 4 parameters and results of all types; one argument of another type, missing, extra or (thorough) two swapped; called, resumed, or nested through a host function; 25 typed signatures (scalars, tuples up to 12, nested chains) against 28 type lists; host functions returning wrong numbers or types of values through direct, indirect and tail calls with values below; 13 exports by name, iteration and item; host context of two instances. Data: every bit of every value. Outside: longer signatures',
    harnesses={'h_c20_untyped': h('value', 'error'), 'h_c20_typed': h('equal', 'refused'), 'h_c20_marshal': h('value'), 'h_c20_hostret': h('value', 'error'), 'h_c20_exports': h('value', 'error'), 'h_c20_context': h('value'),
               'h_c20_untypedx': h('value', 'error', thorough_only=1), 'h_c20_hostretx': h('value', 'error', thorough_only=1)}),
 'C24': dict(
    bounds='a reference taken along one (thorough two, by different instances) of 26 routes: parameters, locals, globals, own and shared tables, select, branches, blocks, loops, calls, host functions typed and untyped, tail calls, table.fill/grow/copy, another instance; any host reference number but 2^32-1, and null; own, imported and host functions made by either of two modules through ref.func, a global or a table. Outside: longer routes, typed function references',
    harnesses={**{f'h_c24_{n}': h('null', 'value') for n in ('extern', 'func', 'call')}, **{f'h_c24_{n}': h('null', 'value', thorough_only=1) for n in ('externx', 'funcx')}}),
 'C06': dict(
    bounds='every LinearMemory method on contiguous, chunked (1, 2, 4, 16 byte chunks), lazy and minimal custom backends of 3 to 19 bytes, untouched, partly and wholly written; all addresses, lengths (full 64 bit) and contents; two operations in a row on 3 (thorough 5) bytes; loads, stores, read-modify-write, copy within and between memories, fill, init, grow through Config on memories of 7 and 4 bytes, allocated at once, on first use by an importing module, or with that policy off, with and without a segment; each memory instruction as the only use of an own memory after an imported one; modules not using their memory; fill and copy within memories of 1300 and 3500 bytes in chunks of 64 to 512, for lengths and distances around 256, 512, 1024. Outside: chunks larger than 512 bytes, failing allocation',
    harnesses={**{f'h_c06_{n}': h('value', 'trap') for n in ('simple', 'range', 'width', 'two', 'own', 'other', 'policy', 'unused', 'big')}, **{f'h_c06_{n}': h('value', 'trap', thorough_only=1) for n in ('rangex', 'widthx', 'twox', 'ownx', 'otherx')}}),
 'C25': dict(
    bounds='modules of 7 to 10, 12, 13 (thorough 16, 20) functions and 16 KiB of code (calls, tail calls, branch tables, vector constants, memory, globals), arbitrary 32 bit constants and one arbitrary instruction byte; 0 to 5 (thorough 13) requested threads, so up to 4 (5) workers; each worker runs as a whole when started or later, in every order of those left (up to 4 workers); one large function at every place; sizes around the limits; an invalid function at every place with 5 faults; wrong counts, lengths, truncations and trailing bytes; from a slice and as a stream in pieces. Outside: interleavings inside a worker (the workers share only reference counts and constant data), the default thread count',
    harnesses={**{f'h_c25_{n}': h('several workers', 'accepted') for n in ('order', 'chunk', 'limit', 'stream')}, 'h_c25_bad': h('several workers', 'rejected'), 'h_c25_op': h('several workers', 'accepted', 'rejected'), 'h_c25_section': h('several workers', 'accepted', 'rejected'), 'h_c25_cut': h('rejected'),
               'h_c25_orderx': h('several workers', 'accepted', thorough_only=1), 'h_c25_badx': h('several workers', 'rejected', thorough_only=1)}),
 'C26': dict(
    bounds='modules of one or two (thorough three) imports of any kind in any order and two own items of each kind, all of different types, every item exported, several twice; names with one arbitrary letter, empty and not ASCII; one table maximum arbitrary; as parsed, not rewritten, read as a stream, saved and loaded, or cloned; functions of up to 2 (thorough 3) parameters and 1 (2) results of all types; limits of memories and tables over their whole range in both index types and page sizes; instances with one or two imported items: each item by name and by index, and every index out of range. Outside: more items, longer type lists',
    harnesses={**{f'h_c26_{n}': h('described') for n in ('lists', 'via', 'types', 'limits')}, 'h_c26_instance': h('value', 'error'), 'h_c26_listsx': h('described', thorough_only=1), 'h_c26_typesx': h('described', thorough_only=1)}),
 'C27': dict(
    features=['c02', 'c03', 'c27', 'lean'],
    bounds='the runtime and parser built with no feature but `parser` (neither the standard library nor canonical NaNs): every scalar floating-point instruction except square roots, as under C02 (all bit patterns of the operands); vector minimum/maximum, nearest (32 bit lanes; thorough: 64 bit too), truncation, conversion, thorough: rounding. Outside: square roots (a loop over the digits), other combinations of features, everything not floating-point (the same source as in the default build)',
    harnesses={**{f'h_c02_{n}': h('value') for n in ('arith32', 'arith64', 'cmp', 'sign', 'minmax', 'round32', 'nearest32', 'round64', 'nearest64', 'sat32', 'sat64', 'int32', 'int64', 'width')}, 'h_c02_trunc32': h('value', 'trap'), 'h_c02_trunc64': h('value', 'trap'),
               **{f'h_c03_{n}': h('value') for n in ('minmax', 'trunc', 'rtrunc', 'nearest32', 'convert')}, 'h_c03_round': h('value', thorough_only=1), 'h_c03_nearest64': h('value', thorough_only=1)}),
}
NA = {
}
