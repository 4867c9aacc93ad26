TODO='not claimed yet'
CON='CBMC contracts: Hoare triple per instruction over the ghost semantics of the sljit calls'
LN='The real code-generation functions are verified from an arbitrary well-formed operand-stack state (complete unwinding, no bound on values); sljit is an assumed contract, the register allocator is used through its contract.'
prop('P02','Integer instructions compute the WebAssembly result',
 'For every integer numeric instruction (comparison, test, arithmetic, bitwise, shift, rotate, count, sign extension, wrap and extend), the compiled code pushes exactly the value the WebAssembly specification assigns to the operand values, for all operand values on which the instruction does not trap. This holds wherever the operands are at that point (constants, any register, locals, parameters, stack memory, a pending comparison), and no other operand, local or memory byte changes.',
 ['inputs','programs'],'all operand values, all reachable placements of the operands and of the values below them, both stack layouts',
 'The tests run a handful of operand values per instruction, nearly always with constant or parameter operands; the placements and 2^64 values multiply far beyond that.',
 ['pwart/opgen_num.c','pwart/opgen_utils.c','pwart/extfunc.c'],[('instruction dispatch and operand routing','pwart/opgen_num.c:opgen_GenNumOp'),('runtime helpers','pwart/extfunc.c'),('operand moves','pwart/opgen_utils.c')],['result of an exported function'],
 claim=(CON,LN))
prop('P03','Float and conversion instructions compute the WebAssembly result',
 'For every f32/f64 numeric instruction and every conversion, truncation, saturating truncation (in range), promotion, demotion and reinterpretation, the compiled code pushes the value the WebAssembly specification assigns to the operand values, including signed zeros, infinities and NaN operands (any NaN is as good as another where the specification leaves it open). This holds wherever the operands are at that point, and no other operand, local or memory byte changes.',
 ['inputs','programs'],'all operand bit patterns on which the instruction does not trap, all placements of the operands, both stack layouts',
 'Tests use ordinary numbers in parameters; NaN, signed zero and range-edge behaviour and the interplay with occupied registers are hardly sampled.',
 ['pwart/opgen_num.c','pwart/opgen_utils.c','pwart/extfunc.c'],[('instruction dispatch and operand routing','pwart/opgen_num.c:opgen_GenNumOp'),('runtime helpers for libm functions and conversions','pwart/extfunc.c')],['result of an exported function'],
 claim=(CON,LN+' The IEEE meaning of libm and of the float instructions is an uninterpreted function shared with the specification.'))
prop('P01','Immediates and constants are decoded to the value they encode',
 'Every valid LEB128 encoding of an integer of 7, 32, 33 or 64 bits, including redundant ones, is decoded to the integer it encodes, and decoding consumes exactly its bytes. Each of i32.const, i64.const, f32.const and f64.const pushes exactly the encoded bit pattern, wherever the other operands are, and changes nothing else.',
 ['inputs'],'all encodings up to the maximum length of the type, all bit patterns, all operand stack states',
 'Tests contain few constants, written by an assembler that never emits redundant encodings.',
 ['pwart/util.c','pwart/opgen_mem.c'],[('LEB128 decoder','pwart/util.c:read_LEB_'),('constants','pwart/opgen_mem.c:opgen_GenI32Const')],['result of an exported function'],
 claim=('CBMC contracts: decoder postcondition for all encodings; Hoare triple per constant instruction',LN))
prop('P05','Local variables hold the last value assigned to them',
 'local.get pushes the current value of the local or parameter, local.set and local.tee assign the top operand to it, for every value type and every place a local can live in (saved register, parameter slot, native frame slot). Assigning a local never changes an operand read from it earlier, another local, or any other memory.',
 ['programs','inputs'],'all locations of the local, all placements of operands including operands that still refer to the local, both stack layouts',
 'An operand that is a lazy reference to the local it was read from is only wrong in particular combinations of placement and later assignment.',
 ['pwart/opgen_mem.c','pwart/opgen_utils.c'],[('local access','pwart/opgen_mem.c:opgen_GenLocalSet'),('operand spilling','pwart/opgen_utils.c:pwart_EmitSaveStack')],['result of an exported function'],
 claim=(CON,LN))
prop('P06','Loads and stores access exactly the addressed bytes of the right memory',
 'Each load or store of an in-bounds address reads or writes exactly the bytes at base plus unsigned 32-bit index (64-bit for 64-bit memories) plus unsigned offset of the addressed memory, with the width, sign or zero extension of the instruction. All other memory, operands and locals are unchanged, wherever the operands are and whether or not the base of the memory is cached.',
 ['inputs','programs'],'all indices, offsets and values, all placements of operands, memory 0 and others, raw native memory',
 'Large unsigned offsets and indices, and the combinations of operand placements, are not sampled by tests.',
 ['pwart/opgen_mem.c','pwart/opgen_utils.c'],[('address computation','pwart/opgen_mem.c:opgen_GenBaseAddressReg'),('stores','pwart/opgen_mem.c:opgen_GenStore'),('operand swap','pwart/opgen_utils.c:stackvalue_EmitSwapTopTwoValue')],['memory contents','result of an exported function'],
 claim=(CON,LN+' The quick tier covers memory 0 through its cached base for every instruction and the other access modes for four of them; the thorough tier covers all modes for all.'))
prop('P07','Global variables hold the last value assigned to them',
 'global.get pushes the current value of the global and global.set assigns the top operand to it, for every value type. No other global, operand, local or memory byte changes, wherever the operands are.',
 ['programs','inputs'],'all value types, all placements of operands',
 'Tests read and write a few i32 globals with constants.',
 ['pwart/opgen_mem.c','pwart/opgen_utils.c'],[('global access','pwart/opgen_mem.c:opgen_GenGlobalSet')],['result of an exported function','pwart_get_export_global'],
 claim=(CON,LN))
prop('P10','Structured control flow reaches the right place with the right values',
 'block, loop, if, else, end, br, br_if and return transfer control to the place the specification says, for every condition value, and the block or function result found there is the value that was on top of the operand stack. On every path into a join point the operands below the block have the values they had, in the place the code after the join expects them; select, drop and nop behave as specified.',
 ['programs','inputs'],'all conditions (constants, operands anywhere, pending comparisons), all placements of operands, all block kinds with and without result',
 'Both paths into a join must agree about operand placement: that depends on what each path did before, of which tests sample very little.',
 ['pwart/opgen_ctl.c','pwart/opgen_utils.c'],[('branches and block results','pwart/opgen_ctl.c:opgen_EmitBranch'),('block end','pwart/opgen_ctl.c:opgen_GenEnd'),('function return','pwart/opgen_utils.c:pwart_EmitFuncReturn')],['result of an exported function'],
 claim=('CBMC contracts: block invariant (operands below an open block are in their slots, results in the slot of the block end) established and used by every control instruction',LN))
prop('P04','Pending operands survive register pressure and spills',
 'When the compiler needs a scratch register it gets one that is not reserved and that no operand considered still occupies: an operand that was in it has been saved to its own stack slot with its value. Saving one operand, all operands, or all operands in scratch registers keeps every operand value, its type and the height of the operand stack, and moves operands only to their own slots.',
 ['programs','inputs'],'every operand stack depth, all placements of all operands, every set of reserved registers, with and without a pending comparison',
 'Needs expressions deep enough to exhaust the registers of a class in a particular configuration; tests rarely have more than four operands.',
 ['pwart/opgen_utils.c'],[('register allocation','pwart/opgen_utils.c:pwart_GetFreeReg'),('spill of one operand','pwart/opgen_utils.c:pwart_EmitSaveStack'),('spill of all operands','pwart/opgen_utils.c:pwart_EmitSaveStackAll'),('spill around calls','pwart/opgen_utils.c:pwart_EmitSaveScratchRegisterAll')],['result of an exported function'],
 claim=('CBMC contracts: the allocator and the spills against the contract of pwart_EmitSaveStack, itself proved',LN))
prop('P08','Table entries and references have the values last assigned to them',
 'table.get pushes the entry of the addressed table at the given index and table.set assigns the operand to exactly that entry, for table 0 and every other table. ref.null, ref.is_null, ref.func and table.size give the result of the specification, table.grow fails with -1. No other entry, operand, local or memory byte changes, wherever the operands are.',
 ['programs','inputs'],'all in-bounds indices, all table sizes, all placements of the operands, table 0 in a register or in the native frame and other tables',
 'Tests use a few tables with constant indices and few pending operands.',
 ['pwart/opgen_mem.c','pwart/opgen_misc.c','pwart/opgen_utils.c'],[('table access','pwart/opgen_mem.c:opgen_GenTableSet'),('entry address','pwart/opgen_mem.c:opgen_GenBaseAddressRegForTable'),('reference instructions','pwart/opgen_misc.c:opgen_GenMiscOp')],['result of an exported function','pwart_get_export_table'],
 claim=(CON,LN))
