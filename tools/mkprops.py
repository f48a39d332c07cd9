#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

F64, FW64 = "src/x86/ffi64.c", "src/x86/ffiw64.c"
U64S, W64S = "src/x86/unix64.S", "src/x86/win64.S"
PREP, TYPES, CLO, TRAMP, DLM = "src/prep_cif.c", "src/types.c", "src/closures.c", "src/tramp.c", "src/dlmalloc.c"
RAW, JRAW = "src/raw_api.c", "src/java_raw_api.c"

prop("C01", "A dynamic call delivers every argument as a compiled call would",
 "For every function signature that can be described with the library's type descriptions (built-in scalars, pointers, real and complex floating types, custom complex integer types, structures nested to any depth) under the default x86-64 ABI, calling a function through the prepared interface makes that function receive exactly the argument values supplied, in the places where code compiled from the equivalent C prototype looks for them. This holds for any number and mixture of arguments, in particular when argument registers run out part-way, and narrow integer arguments passed in a register arrive sign- or zero-extended.",
 ["inputs", "programs"],
 "all signatures (0 to hundreds of arguments, any mixture of types, structures from 1 byte to many kilobytes) times all argument values",
 "The test suite calls a few dozen fixed signatures with one or two sets of values each. The placement of one argument depends on the classes of all earlier ones and on its own nested layout, so the space of signatures is unbounded and cases that exhaust one register file in the middle of an aggregate are hardly touched.",
 [F64, U64S, PREP, TYPES],
 [("argument classification", F64 + ":classify_argument/examine_argument"),
  ("argument placement", F64 + ":ffi_call_int"), ("stack size computation", F64 + ":ffi_prep_cif_machdep"),
  ("register loading", U64S + ":ffi_call_unix64")],
 observe="the callee's registers and stack at entry, and the parameters seen by compiled C callees")

prop("C02", "A dynamic call returns exactly the callee's result",
 "Under the default x86-64 ABI, for every return type, the object the caller supplies for the result holds the value the callee returned: integral results narrower than a register are widened to a full register-sized value according to their signedness, and structures, complex and floating results arrive byte for byte. When no result object is supplied the call has the same effect on the callee and the rest of the program, and nothing is stored.",
 ["inputs", "programs"],
 "all return types (scalars, complex, structures of every class combination and size) times all returned values, times arbitrary arguments, with and without a result object",
 "Tests check a handful of structure shapes and single values; results come back in up to six different register combinations selected by the type tree, upper register bits left by the callee are arbitrary, and the discarded-result form is barely exercised.",
 [F64, U64S, PREP], [("return classification", F64 + ":ffi_prep_cif_machdep"), ("result store table", U64S + ":ffi_call_unix64 store_table"),
  ("missing result object", F64 + ":ffi_call_int")],
 observe="the result object and the bytes around it after a call")

prop("C03", "A closure hands its handler the caller's arguments and returns its result",
 "Under the default x86-64 ABI, when compiled code calls a closure's code address through a function pointer of the matching type, the handler is invoked exactly once with the prepared interface, the registered user datum and pointers to every argument value the caller passed, and the caller receives the result the handler stored. This holds for every signature, for closures obtained from the library's allocator and for closures built in executable memory supplied by the user.",
 ["inputs", "programs"],
 "all signatures times all argument and result values times both ways of obtaining closure memory",
 "The closure tests use a few fixed signatures; the unpacking depends on the same unbounded classification space as calls, upper register bits and unused registers hold arbitrary values in practice, and user-supplied closure memory is tested with a single signature.",
 [F64, U64S, CLO, TRAMP], [("closure argument unpacking", F64 + ":ffi_closure_unix64_inner"), ("closure entry and result load", U64S + ":ffi_closure_unix64, load_table"),
  ("dynamic trampoline", F64 + ":ffi_prep_closure_loc"), ("static trampoline", TRAMP + " and " + U64S + ":trampoline_code_table")],
 observe="handler parameters; result registers or memory seen by the caller")

prop("C04", "Microsoft x64 ABIs: calls and closures agree with compiled ms_abi code",
 "For the two Microsoft x64 calling conventions offered on this platform, calls made through a prepared interface and closures invoked by compiled code exchange arguments and results exactly as code compiled for that convention does, for every signature of integers, pointers, float, double, complex types and structures (and long double under the GNU variant). Arguments passed by hidden reference are copies: whatever the callee does to its parameters, the caller's values stay as they were.",
 ["inputs", "programs"],
 "all signatures times all values under both Microsoft ABIs, for calls and for closures",
 "The test suite runs with the default ABI; the Microsoft path is exercised by very few calls although it has its own placement rules (slots shared between register files, hidden references for sizes other than 1, 2, 4, 8) that depend on position and size.",
 [FW64, W64S, F64, PREP], [("slot assignment and hidden references", FW64 + ":ffi_call_int"), ("return classification", FW64 + ":ffi_prep_cif_machdep"),
  ("closure unpacking", FW64 + ":ffi_closure_win64_inner"), ("assembly entry and exits", W64S)],
 observe="callee registers and stack at entry; compiled ms_abi callees and callers")

prop("C05", "Variadic calls reach variadic functions intact and reject unpromoted types",
 "A call prepared for a variadic function delivers all fixed and variable arguments to a function compiled with an ellipsis, which retrieves each of them with the standard argument-access macros, under the default ABI and under the Microsoft ABIs. Preparing an interface whose variable part contains ffi_type_float or an integer type smaller than int is refused with the documented status, and every other valid description is accepted.",
 ["inputs", "programs"],
 "all splits into fixed and variable arguments, all types allowed in the variable part (integers, pointers, double, long double, complex, structures), all values",
 "Tests cover a few printf-like calls and a few structures; correct variadic access depends on the floating-register count passed to the callee, on its save area, and on overflow to the stack, for any mixture of arguments.",
 [PREP, F64, FW64, U64S, W64S], [("variable part validation", PREP + ":ffi_prep_cif_var"), ("count of vector registers", F64 + ":ffi_call_int rax"),
  ("double duplication into integer registers", W64S + ":ffi_call_win64")],
 observe="values obtained by va_arg in compiled callees; status codes")

prop("C06", "Type descriptions are laid out as the C compiler lays out the types",
 "After a structure description has been used to prepare an interface or to query offsets, its size, alignment and every member offset equal those of the corresponding C structure, at every nesting level, and asking again gives the same answer. Every built-in type description has the size, alignment and kind of the C type it names.",
 ["inputs"],
 "all structure descriptions (any number, order and nesting of members, including emulated arrays), in any order of queries, for all ABIs of the platform",
 "The tests compare a handful of structures; padding depends on every prefix of member sizes and alignments, and laying out is done lazily in several entry points that must agree.",
 [PREP, TYPES], [("aggregate layout", PREP + ":initialize_aggregate"), ("offset query", PREP + ":ffi_get_struct_offsets"), ("built-in descriptions", TYPES)],
 observe="size, alignment, offsets versus sizeof, _Alignof, offsetof")

prop("C07", "Invalid descriptions are refused with the documented status, always",
 "Preparing an interface or querying offsets returns the documented status for an invalid ABI value, and for a structure or argument description that is incorrect (without members, or containing such a structure at any depth); a valid description is accepted. The verdict depends only on the description itself: it does not change when the same description was tried before, is shared with other descriptions, or appears in another position.",
 ["inputs", "histories"],
 "all trees of valid and invalid type descriptions with sharing, all ABI values, all sequences of preparation and offset requests over them",
 "Tests try one or two bad descriptions once each; descriptions are updated in place while being checked, so a verdict can depend on earlier failed attempts, which only a history can show.",
 [PREP, F64, FW64], [("aggregate validation", PREP + ":initialize_aggregate"), ("ABI check", PREP + ":ffi_prep_cif_core"), ("offset query", PREP + ":ffi_get_struct_offsets")],
 state=[("size and alignment of a description", "zero until laid out; filled in place by the first successful use")],
 observe="status codes; size and alignment fields")

prop("C08", "Calls and closures touch no memory beyond what they are given",
 "A call reads its argument objects only within their declared sizes, writes the result object only within its type's size (integral results narrower than a register: one register, as documented), and leaves the argument values, the vector of argument pointers, the interface and the type descriptions unchanged, even if the callee overwrites its by-value parameters. A closure invocation likewise stores into the caller's result object only within its size and leaves the interface, the types and the caller's frame alone.",
 ["inputs", "programs"],
 "all signatures and values under every ABI of the platform, with objects placed directly against inaccessible memory, and callees that scribble on every byte of their parameters",
 "Tests put arguments in roomy local variables and look only at the values; an access one byte past an odd-sized structure or a modification of the caller's argument vector goes unnoticed.",
 [F64, FW64, U64S, W64S, RAW], [("argument copying", F64 + ":ffi_call, ffi_call_int"), ("by-reference copies", FW64 + ":ffi_call_int"), ("result store", U64S + ":store_table"), ("small structure stores", W64S)],
 observe="guard pages and canaries around every object; byte comparison of all inputs before and after")

prop("C09", "Calls and closures preserve the machine state the ABI promises",
 "For every signature and ABI, the called function or handler is entered with a correctly aligned stack and clean direction flag, and when a dynamic call or a closure invocation returns, the stack pointer, all registers the ABI requires to be preserved, the floating-point control settings and the floating-point register stack are as the ABI prescribes. This holds for any number of calls in a row, with and without a result object, however the callee used the registers it may change. A control setting that the callee or handler changes on purpose (floating-point rounding, masks) is still changed after the return, and libffi raises and clears no floating-point status flag of its own.",
 ["inputs", "histories"],
 "all signatures, return types and ABIs, sequences of calls, with callees and handlers that overwrite every register they are allowed to",
 "Ordinary compiled tests cannot see a lost callee-saved register or a leaked floating-point stack slot unless the surrounding code happens to depend on it; the defect surfaces several calls later or in unrelated code.",
 [U64S, W64S, F64, FW64], [("frame set-up and tear-down", U64S + ":ffi_call_unix64, ffi_closure_unix64"), ("Microsoft frames", W64S), ("trampolines", U64S + ":trampoline_code_table, *_alt")],
 observe="complete register images captured in assembly before and after each crossing")

prop("C10", "The raw argument interface is equivalent to the pointer-array interface",
 "Packing a vector of argument values into the raw form and unpacking it again yields the same values, the declared raw size covers exactly the slots used, and calls made from raw arguments and raw closures deliver the same values and results as the ordinary call and closure interfaces, for every signature. A raw closure works with memory from the library's closure allocator as well as with user-supplied executable memory.",
 ["inputs", "programs"],
 "all signatures and values; raw calls, raw closures, and both conversion directions",
 "Tests exercise raw calls with a few scalar signatures and raw closures with one; slot packing depends on type kind and size, and combinations with large scalars, structures and complex values are not covered.",
 [RAW, F64], [("packing and unpacking", RAW + ":ffi_ptrarray_to_raw, ffi_raw_to_ptrarray"), ("slot accounting", RAW + ":ffi_raw_size"), ("closure translation", RAW + ":ffi_translate_args")],
 observe="raw buffers between guard words; callee, handler and caller values")

prop("C11", "The Java-packed raw interface is equivalent to the pointer-array interface",
 "For every signature of the types Java has (integers, pointers, float, double), packing arguments in the Java raw form, in which 64-bit integers and doubles occupy two slots and everything else one, and unpacking them again yields the same values; the declared size equals the slots used; and Java raw calls and closures deliver the same values and results as the ordinary interfaces.",
 ["inputs", "programs"],
 "all signatures over Java's types with any number of arguments, all values",
 "The tests run Java raw calls over a few fixed signatures; an error in slot accounting shifts every later argument and depends on the mixture and order of wide and narrow arguments.",
 [JRAW, F64], [("packing and unpacking", JRAW + ":ffi_java_ptrarray_to_raw, ffi_java_raw_to_ptrarray"), ("slot accounting", JRAW + ":ffi_java_raw_size"), ("closure translation", JRAW + ":ffi_java_translate_args")],
 observe="raw buffers between guard words; callee, handler and caller values")

prop("C12", "Go closures and calls carry the closure context and otherwise behave alike",
 "A call made with a static-chain context delivers that context to the callee in the static-chain register together with every argument and result, and a Go closure entered with its own address in that register runs its handler with the closure itself as the user datum, with the caller's arguments, and returns the handler's result. Both hold for every signature under every 64-bit ABI of the platform.",
 ["inputs", "programs"],
 "all signatures and values, contexts and Go closures, under the default and the Microsoft ABIs",
 "The Go tests use a few fixed signatures under the default ABI; the Go entry points duplicate code of the ordinary ones and can diverge for floating-point, stack-passed or structure-returning signatures.",
 [F64, FW64, U64S, W64S], [("context register", F64 + ":ffi_call_go, ffi_call_int"), ("Go closure entries", U64S + ":ffi_go_closure_unix64(_sse)"), ("Microsoft Go entry", W64S + ":ffi_go_closure_win64")],
 observe="register images; handler parameters")

prop("C13", "Every live closure keeps its identity through any allocation history",
 "After any sequence of closure allocations of any sizes, preparations, re-preparations, calls, address look-ups and releases, each closure that is still allocated invokes its own handler with its own interface and user datum, its memory and its code address are shared with no other live closure, and its block is wholly usable, suitably aligned and never altered by operations on other closures. Looking up the code address of a closure gives the address that allocation reported.",
 ["histories"],
 "all histories of allocate, prepare, write, call, look up and release over up to thousands of live closures of mixed sizes, with any placement of the memory the system hands out",
 "Tests allocate a handful of closures and release them in order; free-list and segment handling in the pool and the trampoline tables only goes wrong for particular interleavings of sizes, releases and table boundaries.",
 [CLO, DLM, TRAMP], [("closure memory pool", CLO + ":ffi_closure_alloc/free; " + DLM), ("trampoline tables", TRAMP + ":tramp_add, tramp_del, tramp_table_alloc"), ("address look-up", CLO + ":ffi_data_to_code_pointer")],
 state=[("trampoline free lists", "which trampolines of which tables are free"), ("memory pool", "bins, top chunk and segments of the pool")],
 observe="model of live closures: identity on call, block contents, address ranges")

prop("C14", "Closure resources are bounded by the live closures and are reused",
 "The memory mappings, heap blocks and file descriptors held for closures stay bounded by a modest multiple of the largest number and size of closures that were live at the same time, however many allocations and releases happened. When all closures have been released, memory for trampolines beyond a small constant has been given back, a later history of the same shape needs no more than the first did, and calls and preparations acquire nothing.",
 ["histories"],
 "all histories of allocations and releases with any release order, including many cycles of growth and decay",
 "Tests never observe resource usage; a leaked trampoline slot, table or mapping is invisible until a long-running program exhausts its address space.",
 [CLO, DLM, TRAMP], [("trampoline table release", TRAMP + ":tramp_add, tramp_table_free"), ("pool trimming and reuse", DLM), ("map and unmap wrappers", CLO + ":dlmmap, dlmunmap")],
 observe="accounting of every mmap, munmap, malloc, free, open and close made by the library")

prop("C15", "Resource failures make closure allocation fail cleanly, never corrupt it",
 "Whatever system or library call fails while a closure is being allocated or released, allocation either returns no closure or returns one that works through a remaining mechanism; nothing crashes, no lock stays held, all closures allocated before keep working, and no descriptor, mapping or block is leaked by the failed attempt. Once resources are available again allocation works again through the mechanisms that the first use did not rule out, and this also holds on systems that forbid writable executable memory or hide the library's own file.",
 ["fault_sequences", "histories", "configurations"],
 "all choices of failing calls (memory mapping, heap, file opening, writing, truncation, reading system tables), at any position and in any combination during any history, over several simulated system configurations",
 "No test makes any of these calls fail, so none of the recovery and fallback code runs in the test suite.",
 [CLO, DLM, TRAMP], [("fallback chain", CLO + ":dlmmap, dlmmap_locked, open_temp_exec_file"), ("trampoline file discovery", TRAMP + ":ffi_tramp_init_os, ffi_tramp_get_libffi, ffi_tramp_get_temp_file"), ("error paths", TRAMP + ":tramp_table_alloc, tramp_table_map; " + DLM + ":sys_alloc")],
 observe="interposed system calls with an accounting model; behaviour of all live closures")

prop("C16", "Concurrent use of closures and calls behaves as if each thread were alone",
 "When several threads allocate, prepare, call, look up and release their own closures, prepare their own interfaces and make calls at the same time, also through shared prepared interfaces and shared closures, every call delivers the right arguments, handler, datum and result, no memory or code address is handed to two owners, and there is no data race inside the library.",
 ["schedules", "histories"],
 "all interleavings of two to many threads running arbitrary histories of these operations, including the very first use of the library",
 "One test starts a few threads that all do the same thing once; races in the lazily initialised trampoline tables and in the pool need particular interleavings.",
 [CLO, DLM, TRAMP, PREP, F64], [("trampoline lock", TRAMP + ":ffi_tramp_lock"), ("pool lock", DLM + ":PREACTION/POSTACTION"), ("one-time initialisation", TRAMP + ":ffi_tramp_init; " + DLM + ":init_mparams"), ("temporary-file lock", CLO + ":open_temp_exec_file_mutex")],
 observe="per-thread models of results; ThreadSanitizer reports in library frames")

prop("C17", "Exceptions and non-local jumps pass through calls and closures",
 "Under the default ABI, a C++ exception thrown by a function called through a prepared interface, or by a closure's handler, propagates to the nearest matching handler of the caller: exactly the objects of the frames in between are destroyed, and the catching frame sees its own local state and preserved registers intact. The same holds for non-local jumps, for any signature and any nesting of calls and closures, and later calls behave normally.",
 ["inputs", "programs", "histories"],
 "all nestings of calls and closures with any signatures, thrown at any depth and caught at any outer level, repeatedly",
 "Two tests throw through one call and one closure with one signature each; unwinding depends on hand-written frame descriptions for several entry points (with and without vector registers, static and dynamic trampolines) and on stack arguments.",
 [U64S, F64], [("hand-written unwind tables", U64S + ": .eh_frame"), ("frame layout", U64S + ":ffi_call_unix64, ffi_closure_unix64, ffi_go_closure_unix64")],
 observe="log of destructors and handlers, callee-saved register sentinels in the catching frame")

prop("C18", "Nested and recursive calls and closures compose",
 "Any nesting of dynamic calls, closures, raw and Go forms and direct calls, where handlers and callees themselves allocate, prepare, call and release before returning, and where the same interface or closure is active many times at once, computes the same values as the same program written with direct calls. Every active invocation keeps its own arguments and result.",
 ["programs", "histories"],
 "all call trees up to large depths mixing signatures, ABIs and mechanisms, with side operations on the closure pool inside handlers",
 "Tests have no nested use beyond one level; a scratch area or saved value shared between activations only shows when an inner activation runs before the outer one has finished using it.",
 [F64, FW64, U64S, W64S, RAW, CLO], [("per-activation frames", U64S + ":ffi_call_unix64, ffi_closure_unix64"), ("Microsoft frames", W64S), ("raw translation buffers", RAW + ":ffi_translate_args, ffi_raw_call")],
 observe="interpretation of the call tree against a direct evaluation")

prop("C19", "Forked processes own independent working closures",
 "After a fork, closures that existed before keep working in parent and child with the same handlers and data, and both processes can go on allocating, preparing and releasing closures. With static trampolines or anonymous executable memory (every configuration except the shared temporary file used where writable executable memory is forbidden), allocating, re-preparing or releasing closures in one process never changes what closures in the other process do.",
 ["histories", "schedules"],
 "all histories in which the process forks at any point, followed by arbitrary closure operations in parent and child in any order",
 "No test forks; sharing of pool memory or trampoline parameters between the processes would stay unseen.",
 [CLO, TRAMP, DLM], [("private mappings for trampolines", TRAMP + ":tramp_table_map"), ("pool mappings", CLO + ":dlmmap")],
 observe="closure calls in both processes against the model")

prop("C20", "The fallback for executable memory follows the documented search order",
 "When closures need file-backed executable memory, the library tries an anonymous memory file, then files in the directories named by the documented environment variables, the documented fixed directories, the home directory, and finally writable, executable mounts from the system's mount tables, in that order, using the first that works. Nothing stays behind in any directory, and closures created in this way work, stay distinct and remain independent of which location was used.",
 ["configurations", "fault_sequences", "histories"],
 "all settings of the environment variables and mount tables and all combinations of locations that exist, are not writable or refuse executable mappings",
 "The fallback never runs in the test suite, because the first choice always works in the build environment.",
 [CLO, TRAMP], [("search list", CLO + ":open_temp_exec_file_opts, open_temp_exec_file_opts_next, open_temp_exec_file"), ("mount tables", CLO + ":open_temp_exec_file_mnt"), ("double mapping", CLO + ":dlmmap_locked, dlmunmap")],
 observe="recorded sequence of attempts in a simulated file system; contents of scratch directories; closure behaviour")

prop("C22", "A prepared interface stays valid and independent of everything prepared later",
 "Once prepared, an interface can be used for any number of calls and closures, in any order with any other interfaces, including ones prepared from the same type descriptions under the same ABI, and always behaves like a freshly prepared one. Preparing, calling or failing to prepare other interfaces never changes it, and preparing the same description twice gives equal interfaces.",
 ["histories", "programs"],
 "all interleavings of preparing, re-preparing, failing, calling and closure use over a set of interfaces that share type descriptions",
 "Each test prepares one interface and uses it at once; caches or in-place updates of shared descriptions can only be exposed by interleaving several interfaces.",
 [PREP, F64, FW64, TYPES], [("interface preparation", PREP + ":ffi_prep_cif_core, ffi_prep_cif_var"), ("shared descriptions", PREP + ":initialize_aggregate")],
 state=[("interface", "ABI, argument and return descriptions, flags and stack size fixed at preparation")],
 observe="callee and handler values after interleaved use; byte comparison of interfaces")

prop("C23", "Signals may interrupt a call or closure invocation at any instruction",
 "A dynamic call or closure invocation interrupted at any instruction by a signal handler running on the same stack completes exactly as if it had not been interrupted: the callee or handler receives the same arguments and the caller the same result. The signal handler may itself make calls through prepared interfaces and invoke existing closures, and these behave as usual too.",
 ["schedules", "inputs"],
 "every instruction boundary inside the call and closure paths as the point of interruption, times all signatures and values of the default and Microsoft x64 ABIs, times what the signal handler does",
 "Nothing in the test suite is interrupted by a signal; a value kept below the part of the stack that signal delivery preserves, or in storage shared between invocations, is lost only if a signal arrives within a window of a few instructions.",
 [U64S, W64S, F64, FW64], [("use of the area below the stack pointer", U64S + ":ffi_call_unix64, ffi_closure_unix64"), ("frame set-up and relocation", U64S + ":UW1; " + W64S + ":ffi_call_win64"), ("stack-allocated argument areas", F64 + ":ffi_call_int; " + FW64 + ":ffi_call_int")],
 observe="callee and handler values, results and registers of a call executed one instruction at a time, with a signal delivered after each")

prop("C24", "The 32-bit x86 conventions are followed as a compiled program would",
 "On 32-bit x86, for the System V, stdcall, thiscall, fastcall and Microsoft cdecl conventions, dynamic calls (ordinary, Go and raw) deliver every argument where compiled code expects it and return exactly the callee's result; closures (ordinary, Go and raw, in single- or double-mapped memory or with static trampolines) hand their handler the caller's arguments, return its result, and leave the caller's stack pointer, preserved registers, floating-point state and memory as the convention requires. Signatures that raw closures cannot serve are refused.",
 ["inputs", "programs"],
 "all signatures (scalars, complex types, structures nested to any depth) times all argument and result values times the five conventions times ways of obtaining closure memory, for builds by gcc and clang, with and without position-independent code and optimisation",
 "The test suite is built for x86-64 only, so nothing of the 32-bit port is executed by it; and even there, which registers are used, what the callee pops and where results go depends on the whole signature.",
 ["src/x86/ffi.c", "src/x86/sysv.S", PREP, TYPES, RAW, JRAW],
 [("argument placement", "src/x86/ffi.c:ffi_call_int, ffi_raw_call"), ("closure dispatch and popping", "src/x86/ffi.c:ffi_closure_inner; src/x86/sysv.S:ffi_closure_STDCALL, ffi_closure_raw_THISCALL"),
  ("closure preparation", "src/x86/ffi.c:ffi_prep_closure_loc, ffi_prep_go_closure, ffi_prep_raw_closure_loc"), ("register loading and result store", "src/x86/sysv.S:ffi_call_i386")],
 observe="registers, x87 and SSE state and stack at entry of the callee or handler and after the return, and the result object, of 32-bit code run in compatibility mode")

def portprop(i, title, name, d, extra, conv, bits=64):
    prop(i, title,
     "On %d-bit %s, dynamic calls (ordinary, Go and raw; fixed and variadic) deliver every argument where code compiled for the platform's standard calling convention expects it (%s), return exactly the callee's result and write nothing else; closures (ordinary, Go and raw, in single- or double-mapped memory or behind static trampolines where the port has them) hand their handler the caller's arguments and the caller the handler's result. Preserved registers, the stack and the caller's objects are left as the convention requires, objects are aligned as their types require, and new code is made visible to instruction fetch before it runs.%s" % (bits, name, conv, extra),
     ["inputs", "programs"],
     "all signatures (scalars and structures nested to any depth) times all argument and result values times register and memory contents on entry times ways of obtaining closure memory, for builds with and without optimisation",
     "The test suite is built for x86-64 only, so nothing of this port is executed by it; and which registers, stack slots and copies are used depends on the whole signature.",
     (["src/powerpc/ffi.c", "src/powerpc/ffi_linux64.c", "src/powerpc/linux64.S", "src/powerpc/linux64_closure.S", "src/powerpc/ffitarget.h", PREP, TYPES, RAW] if d == "powerpc" else
      ["src/%s/ffi.c" % d, "src/%s/sysv.S" % d, "src/%s/internal.h" % d if d in ("aarch64", "arm") else "src/%s/ffitarget.h" % d, PREP, TYPES, RAW]),
     [("argument placement and area size", "src/powerpc/ffi_linux64.c:ffi_prep_args64, ffi_prep_cif_linux64_core"), ("closure dispatch", "src/powerpc/ffi_linux64.c:ffi_closure_helper_LINUX64; src/powerpc/linux64_closure.S"), ("homogeneous aggregates", "src/powerpc/ffi_linux64.c:discover_homogeneous_aggregate"),
      ("register loading and result store", "src/powerpc/linux64.S:ffi_call_LINUX64"), ("closure preparation", "src/powerpc/ffi_linux64.c:ffi_prep_closure_loc_linux64; src/powerpc/ffi.c:ffi_prep_go_closure")] if d == "powerpc" else
     [("argument and result placement", "src/%s/ffi.c:ffi_call_int, ffi_closure_%s" % (d, "SYSV_inner" if d == "aarch64" else "inner_SYSV, ffi_closure_inner_VFP" if d == "arm" else "inner")), ("register loading and result store", "src/%s/sysv.S:ffi_call_%s" % (d, {"aarch64": "SYSV", "riscv": "asm", "loongarch64": "asm", "arm": "SYSV, ffi_call_VFP"}[d])),
      ("closure preparation", "src/%s/ffi.c:ffi_prep_closure_loc, ffi_prep_go_closure" % d)],
     observe="registers, stack, memory and fetched code of the port's own compiled code run in an instruction interpreter, against the convention's model and against compiled callers and callees")


portprop("C25", "The AArch64 convention is followed as a compiled program would", "Arm", "aarch64", " With pointer authentication and branch target identification enabled, every indirect branch arrives at a landing pad and every return address is authenticated. Under FFI_WIN64, arguments of variadic functions never travel in vector registers, as code compiled with ms_abi expects.", "AAPCS64: homogeneous floating-point aggregates in vector registers, large structures by reference, results in memory through x8")
portprop("C26", "The RISC-V 64 conventions are followed as a compiled program would", "RISC-V", "riscv", "", "lp64, lp64f or lp64d, as the library was built: small structures of floating members in floating registers, NaN boxing, sign extension to register width, large structures by reference")
portprop("C27", "The LoongArch64 conventions are followed as a compiled program would", "LoongArch", "loongarch64", "", "lp64d or lp64s, as the library was built: small structures of floating members in floating registers, sign extension to register width, large structures by reference")

portprop("C28", "The 32-bit Arm conventions are followed as a compiled program would", "Arm", "arm", "", "AAPCS: FFI_SYSV with everything in core registers and on the stack, FFI_VFP with floating arguments and homogeneous aggregates in the lowest free VFP registers; eight-byte alignment of register pairs and stack slots; variadic calls by the base rules", 32)
portprop("C29", "The RISC-V 32 conventions are followed as a compiled program would", "RISC-V", "riscv", "", "ilp32, ilp32f or ilp32d, as the library was built: small structures of floating members in floating registers, two-word scalars in two registers or split between register and stack, aligned pairs for variadic arguments, large structures by reference", 32)

prop("C30", "Unions and structures of given size and alignment travel as compiled code's do",
 "A structure description whose size and alignment the user has filled in (as the documentation prescribes for unions: the largest member listed, the size and the largest alignment given; likewise structures with extra alignment up to 16 bytes, and opaque ones of more than 16 bytes whose members are not described) is used as given: arguments and results of such a type, and of structures and arrays that contain it, are exchanged in calls and closures (ordinary, Go and raw, fixed and variadic, under the default and the Microsoft x64 conventions) exactly as compiled code exchanges the C type, as far as the listed member determines the class in which the type travels. Alignment or padding neither displaces other arguments nor makes an object misaligned, and preparation leaves the given size and alignment alone.",
 ["inputs", "programs"],
 "all signatures containing unions of up to four members of any kinds, aligned and opaque structures, alone or inside other structures and arrays, times all argument and result values",
 "The tests contain one union and no structure with an alignment or padding of its own; eightbytes without members and 16-byte aligned stack slots arise only from such types, and where they matter depends on all the other arguments.",
 [F64, FW64, PREP, U64S, W64S],
 [("classification by size and members", F64 + ":classify_argument/examine_argument"), ("stack alignment", F64 + ":ffi_call_int, ffi_closure_unix64_inner, ffi_prep_cif_machdep"), ("handler's copy of a register structure", F64 + ":ffi_closure_unix64_inner"),
  ("by-reference structures", FW64 + ":ffi_call_int, ffi_closure_win64_inner"), ("given sizes are kept", PREP + ":initialize_aggregate, ffi_prep_cif_core")],
 observe="registers, stack and objects seen by callee, handler and caller; the same signatures compiled from C with gcc and clang")

portprop("C31", "The 64-bit PowerPC ELFv2 conventions are followed as a compiled program would", "little-endian PowerPC", "powerpc", "", "ELFv2: floating arguments and homogeneous aggregates of up to eight members in floating or vector registers and in their place in the parameter area, other structures of up to 16 bytes returned in general registers, a parameter save area only where the convention demands one; for 64-bit, IBM 128-bit and IEEE 128-bit long double")

portprop("C32", "Apple's AArch64 convention is followed as a compiled program would", "Apple's AArch64 systems", "aarch64", " The platform register x18 is never changed.", "as AAPCS64, but arguments on the stack are packed according to their own size and alignment, structures other than homogeneous aggregates occupy whole words there, variadic arguments always travel on the stack in words, and integers are extended to 32 bits by the caller; closures use the tables of trampolines")

prop("C33", "Trampoline tables give each live closure its own code and waste no memory",
 "Where closures use tables of trampolines (Apple systems), over any history of ffi_closure_alloc, ffi_prep_closure_loc, calls and ffi_closure_free, from several threads too: every live closure has a code address of its own inside executable pages, and calling it runs its own handler with its own interface and user datum, whatever else is allocated or freed; memory of a closure beyond its header is left alone. When memory or pages cannot be had, ffi_closure_alloc returns NULL, keeps nothing, and closures already made and later allocations are unaffected. No block or page is used after it was released or released twice; at most one table without live closures is kept, so memory stays bounded by the closures that are live, and the room of a released closure is used again: while few closures are live, one table serves.",
 ["histories", "schedules", "faults"],
 "all histories of allocation, preparation, call and release over any number of tables; all places where one of the system's calls fails; all interleavings of several threads at any instruction",
 "The test suite is not run on Apple systems here, and its tests use one closure at a time: the lists of tables matter only once several tables exist and are emptied in different orders.",
 ["src/closures.c", "src/aarch64/ffi.c", "src/aarch64/sysv.S"],
 [("creation and release of tables", "src/closures.c:ffi_trampoline_table_alloc, ffi_trampoline_table_free"), ("claiming and returning an entry", "src/closures.c:ffi_closure_alloc, ffi_closure_free"), ("parameters of a trampoline", "src/aarch64/ffi.c:ffi_prep_closure_loc"), ("code of a trampoline", "src/aarch64/sysv.S:ffi_closure_trampoline_table_page")],
 observe="code addresses, handlers that run, blocks and pages held, of the port's own compiled code run in an instruction interpreter on a simulated heap, page allocator and lock")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
