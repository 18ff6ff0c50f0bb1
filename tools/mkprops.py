#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=tests,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mechanism],
        observe_at=list(observe), hook_needed=hook)))

NKX = "src/nkx.h"
prop("C01", "A script computes what the language says it computes",
 "For every well-formed program, the sequence of values it hands to host functions, the final values of its globals, and whether (and after which effects) it stops with a runtime error are exactly those given by the language's rules: left-operand-typed arithmetic, comparison and concatenation, precedence and associativity, evaluation of both sides of && and ||, block scoping, loops and break, by-value arguments with argument-count checking, recursion, first-class functions, objects with typed keys, callable objects (_exec/_data), and self-calls.",
 ["programs","inputs"], "every program of the language that terminates, every operand value and type combination in it",
 "The scripts in test/ are run for crashes only: their output is never compared with anything, so a wrong value, a wrong branch or a wrong precedence passes.",
 ["src/nkcompil.c","src/nkexpr.c","src/nkopcode.c","src/nkvalue.c","src/nkopt.c","src/nktoken.c","src/nkobjs.c"],
 [("statement compiler and stack-offset bookkeeping","src/nkcompil.c"),("operator-precedence expression parser and emitter","src/nkexpr.c"),("opcode implementations","src/nkopcode.c"),("value conversion and comparison","src/nkvalue.c")],
 [("stackFrameOffset","compiler's idea of where a local lives on the run-time stack","src/nkcompil.c")],
 ["values passed to a registered external function","nkxVmFindGlobalVariable","nkxVmHasErrors"])
prop("C02", "When garbage collection runs makes no difference to a program",
 "Whatever the collector's settings, and wherever collections are forced between two instructions, a program hands the same values to host functions, ends with the same globals and stops with the same errors as when it is never collected: nothing reachable from globals, any live coroutine's stack, host-held handles, objects' keys or values, or native data marked by a type's mark callback is ever reclaimed or altered.",
 ["schedules","programs","configurations"], "every program, every placement of collection passes, every setting of both collection intervals",
 "Tests run with one fixed collection schedule and never compare results between schedules.",
 ["src/nkgc.c","src/nkvm.c","src/nkobjs.c","src/nkstring.c","src/nkcorout.c"],
 [("mark phase over contexts, statics, handles, objects, coroutines","src/nkgc.c"),("collection trigger","src/nkvm.c")],
 [("lastGCPass","the pass in which an object or string was last seen","src/nkgc.c")],
 ["nkxVmGarbageCollect","nkxSetGarbageCollectionInterval","nkxSetGarbageCollectionNewObjectInterval"])
prop("C03", "Garbage is reclaimed, and each native payload is cleaned up exactly once",
 "A collection pass reclaims every object that cannot be reached (cycles and finished or abandoned coroutines included), so that memory use of a program with bounded live data stays bounded. The cleanup callback of an external type runs exactly once for every object that carries that type, during or before VM deletion, never while the object is still reachable, and with the data pointer that was last attached to it. (After an allocation failure these callbacks no longer run, as documented; the cleanup callback of a subsystem can then still enumerate its objects and dispose of their data.)",
 ["histories","programs"], "every history of creating, linking, unlinking, holding and dropping objects, with collections anywhere",
 "Tests never look at memory use after a collection and exercise one widget type in one order.",
 ["src/nkgc.c","src/nkobjs.c","src/nkvm.c","src/nkcorout.c","src/nkstring.c"],
 [("sweep","src/nkgc.c"),("object deletion and cleanup callback","src/nkobjs.c"),("VM teardown","src/nkvm.c")],
 [], ["cleanup callbacks","nkxVmGetCurrentMemoryUsage","nkxGetNextObjectOfExternalType"])
prop("C04", "Saving a VM and continuing from the image is invisible to the program",
 "Saving a VM at any instruction boundary, loading the image into a fresh VM with the same native functions, types and subsystems registered, and continuing there produces exactly the remaining host calls, final globals and errors of the uninterrupted run; this includes live coroutines, pending loops and calls, objects with cycles, external data, handles and limits-independent state, and saving does not disturb the VM that was saved.",
 ["crash_points","programs"], "every program and every instruction boundary at which it is saved and reloaded, repeatedly",
 "Tests serialize every 1100 instructions and compare no outputs; positions inside calls, coroutines and expressions are hit by luck.",
 ["src/nksave.c","src/nkx.c","src/nkcorout.c","src/nkfunc.c"],
 [("serializer","src/nksave.c"),("remapping of external functions and types by name","src/nksave.c")],
 [], ["nkxVmSerialize","nkxVmIterate"])
prop("C05", "Loading a damaged or hostile image never harms the host",
 "Loading any byte string as an image either fails cleanly or yields a VM that can be run, collected, inspected, saved and deleted: no memory error, undefined behaviour, failed assertion, hang or leak follows, and the memory and instruction limits set by the host still hold.",
 ["inputs","fault_sequences"], "every byte string offered as an image: valid images with any bytes changed, cut or spliced, and arbitrary bytes",
 "Tests load only images the same process has just written.",
 ["src/nksave.c","src/nkvm.c","src/nkgc.c","src/nkobjs.c","src/nkopcode.c","src/nkstack.c"],
 [("bounds checks in the loader","src/nksave.c"),("address masking in the interpreter","src/nkopcode.c")],
 [], ["nkxVmSerialize with writeMode false"])
prop("C06", "A failed allocation at any point is contained",
 "If the host's allocator refuses any one request, or every request from some point on, during creation, compilation, execution, collection, API calls, saving, loading or shrinking, the call returns to the host, the VM reports an allocation failure, later calls on it are harmless, subsystems still get their cleanup callbacks (from which typed objects and their data can still be enumerated and disposed of), and deleting the VM gives every block back to the allocator.",
 ["fault_sequences","programs"], "every program and API history, every index at which an allocation is refused",
 "The allocation-failure tests inject failures pseudo-randomly at a few rates and only notice crashes; leaks, missing failure reports and unusable VMs pass.",
 ["src/nkmem.c","src/nkfail.h","src/nkvm.c","src/nkx.c","src/nkgc.c","src/nksave.c"],
 [("longjmp recovery at API entry","src/nkfail.h"),("allocation list freed at deletion","src/nkvm.c")],
 [("errorState.allocationFailure","VM is dead","src/nkvm.h")],
 ["nkxVmCreateEx","nkxVmHasAllocationFailure","nkxVmDelete"])
prop("C07", "Memory accounting and the memory limit are exact",
 "All memory a VM uses comes from and returns to the allocator it was created with, with the user data given, each block being freed exactly once; the reported current use always equals the bytes outstanding, the peak is its maximum, use never exceeds the limit in force when an allocation is made, and a request beyond the limit fails as an allocation failure instead of being made.",
 ["histories","programs","configurations"], "every program and API history, every memory limit",
 "Tests set one limit and never compare the reported figures with what was really allocated.",
 ["src/nkmem.c","src/nkvm.c","src/nkx.c"],
 [("block header list and counters","src/nkmem.c")],
 [("currentMemoryUsage","sum of live requested sizes","src/nkvm.h"),("peakMemoryUsage","its maximum","src/nkvm.h")],
 ["nkxVmGetCurrentMemoryUsage","nkxVmGetPeakMemoryUsage","nkxSetMaxAllocatedMemory","custom allocator calls"])
prop("C08", "The instruction limit stops every runaway program",
 "With an instruction limit L and collection-check interval I, no program executes more than L + I instructions in total, whether in the main program, called functions, coroutines, callbacks from native code or host-initiated calls, before it is stopped with an error; a program that needs fewer than L instructions is never stopped by the limit, and the remaining count reported to the host only decreases and by no more than was executed.",
 ["programs","configurations","histories"], "every program, limit, interval and way of driving the VM",
 "One test script sets a limit; nothing checks when the stop happens or that it happens in coroutines and callbacks.",
 ["src/nkvm.c","src/nkx.c"], [("countdown at collection checks","src/nkvm.c")],
 [("instructionsLeftBeforeTimeout","remaining budget","src/nkvm.h"),("gcCountdown","instructions until next check","src/nkvm.h")],
 ["nkxSetRemainingInstructionLimit","nkxGetRemainingInstructionLimit","nkxVmIterate"])
prop("C09", "Stack and field limits are enforced exactly and cleanly",
 "No execution context's stack ever holds more values than the stack limit and no object ever gains a field beyond the field limit: the operation that would do so raises a normal VM error and changes nothing else, operations within the limits are unaffected, and the VM stays inspectable, collectable and deletable afterwards.",
 ["programs","configurations","histories"], "every program and API history, every value of the two limits",
 "Tests run one runaway recursion at the default limit and never approach the field limit.",
 ["src/nkstack.c","src/nkobjs.c","src/nkx.c"], [("capacity checks","src/nkstack.c"),("field count check","src/nkobjs.c")],
 [("limits.maxStackSize","values per context","src/nkvm.h"),("limits.maxFieldsPerObject","fields per object","src/nkvm.h")],
 ["nkxSetMaxStackSize","nkxSetMaxFieldsPerObject"])
prop("C10", "Any text offered as a script is compiled or rejected safely",
 "Compiling and running any byte string as a script ends either in a normal run or in reported errors: never in a crash, failed assertion, undefined behaviour, unbounded native recursion, hang or leak, under the limits the host has set; text that is not a well-formed program (unbalanced, truncated, unknown tokens, bad directives, bad assignment targets, undeclared names) is reported as an error and is not run as something else.",
 ["inputs"], "every byte string offered as source, including deep or long nesting",
 "About thirty hand-written scripts; malformed ones number five.",
 ["src/nktoken.c","src/nkexpr.c","src/nkcompil.c","src/nkopt.c"],
 [("recursion limit","src/nkcompil.c"),("token and expression error paths","src/nkexpr.c")],
 [("recursionCount","native recursion depth","src/nkcompil.h")],
 ["nkxCompilerCompileScript","nkxVmHasErrors"])
prop("C11", "An object is a map from typed keys to values",
 "Under every sequence of operations from script or host, an object behaves as a map whose keys are compared by type and value (1, 1.0 and \"1\" are three keys; strings by content; objects and functions by identity), reading a missing key gives nil, storing nil (or clearing) removes the key, the reported size is the number of keys present, and no operation on one object affects another.",
 ["histories","inputs"], "every sequence of reads, writes, removals and size queries on any set of objects, by script and by host",
 "Tests set a few string fields; collisions, removal from the middle of a bucket, hole reuse and non-string keys are not exercised.",
 ["src/nkobjs.c","src/nktable.c","src/nkopcode.c","src/nkvalue.c"],
 [("16-bucket hash with chained elements","src/nkobjs.c"),("value hash and equality","src/nkobjs.c")],
 [("hashBuckets / size","an object's entries and their count","src/nkobjs.h")],
 ["nkxVmObjectFindOrAddEntry","nkxVmObjectClearEntry","nkxVmObjectGetSize","object indexing in scripts","len()"])
prop("C12", "Coroutines suspend and resume exactly where and with what they should",
 "A coroutine runs only when resumed, receives its creation arguments, hands each yielded value to its resumer and each resumed value to its pending yield, keeps its own locals and call depth across suspension at any depth, nests with other coroutines, gives its return value to the last resume and nil afterwards, reports finished exactly when it has returned, and misuse (resuming a non-coroutine or an already running one, yielding at the root) is an error.",
 ["schedules","programs"], "every interleaving of creations, resumes, yields and completion queries over any number of coroutines",
 "Two test scripts, outputs not compared.",
 ["src/nkcorout.c","src/nkopcode.c","src/nkfse.c","src/nkgc.c"],
 [("context switch","src/nkcorout.c"),("yield/resume opcodes","src/nkopcode.c")],
 [("currentExecutionContext","running coroutine","src/nkvm.h")],
 ["values seen by scripts"])
prop("C13", "Constant folding never changes a result",
 "An expression over literals yields the same value, type and error as the same expression with each literal first stored in a variable, and moving subexpressions into variables, adding redundant parentheses or changing white space and comments never changes a program's results.",
 ["programs","inputs"], "every expression and every choice of which of its operands are literals",
 "No test compares a folded expression with an unfolded one.",
 ["src/nkopt.c","src/nkexpr.c","src/nkopcode.c","src/nktoken.c"],
 [("constant folder","src/nkopt.c"),("run-time operators","src/nkopcode.c")], [],
 ["values passed to host functions"])
prop("C14", "Handles keep objects alive, are counted, and let go",
 "An object with a positive handle count, and everything reachable from it, survives every collection with its contents intact; the count reported always equals acquisitions minus releases, releasing an object with no handle is an error that changes nothing, and once the count returns to zero the object is reclaimed by the next collection if nothing else refers to it.",
 ["histories"], "every sequence of acquire, release, collect, script execution and save/load on any set of objects",
 "No test acquires a handle more than once or checks that releasing lets go.",
 ["src/nkobjs.c","src/nkgc.c","src/nkx.c","src/nksave.c"],
 [("list of objects with handles","src/nkobjs.c"),("handles as collection roots","src/nkgc.c")],
 [("externalHandleCount","handles on an object","src/nkobjs.h")],
 ["nkxVmObjectAcquireHandle","nkxVmObjectReleaseHandle","nkxVmObjectGetExternalHandleCount"])
prop("C15", "Native functions get exactly the arguments they were declared for",
 "A native function registered with an argument count and types is entered only when the call matches them (count, value types, and external object types), otherwise the call is a normal VM error and the function is not entered; when entered it sees the caller's argument values in order, its return value (the integer 0 if it sets none) is what the call yields, and an error it raises stops the script at that call.",
 ["inputs","programs","configurations"], "every declared signature and every call from script, callback, coroutine or host, before and after save/load",
 "Tests register a handful of functions and call them correctly.",
 ["src/nkfunc.c","src/nkx.c","src/nkopcode.c"],
 [("argument checking before the callback","src/nkfunc.c")],
 [("argTypes / argExternalTypes","declared signature","src/nkfunc.h")],
 ["callback invocations","nkxVmHasErrors"])
prop("C16", "Errors name the file and line where they happened",
 "Each reported error carries the file name of, and a line within, the statement that caused it (compile-time and run-time, in any function, coroutine or appended script, first line included), as renumbered by #line and #file directives and preserved by save/load; the error text returned is exactly as long as announced and holds one entry per error counted (only the allocation failure after one of those).",
 ["programs","inputs"], "every placement of a failing statement among files, functions, directives, comments and blank lines",
 "Tests never read the file name or line of an error.",
 ["src/nkerror.c","src/nktoken.c","src/nkcompil.c","src/nkvm.c","src/nksave.c"],
 [("file position markers","src/nkcompil.c"),("marker lookup","src/nkvm.c"),("directive parsing","src/nktoken.c")],
 [("positionMarkerList","instruction index to file/line","src/nkvm.h")],
 ["nkxGetErrorText","nkxGetErrorLength","nkxGetErrorCount"])
prop("C17", "An error stops the script at once and leaves the host in control",
 "After any compile or run-time error no further script effect happens, the error stays reported until cleared, and the VM can still be inspected, collected and deleted without leak; in interactive (REPL) use, clearing the error after a failed input restores a working session: an input that did not compile has changed nothing, one that failed later has had its effects up to the error, coroutines the error went through cannot be resumed, and later inputs behave normally.",
 ["histories","programs"], "every program with an error at any point, every sequence of good and bad interactive inputs",
 "The REPL is never run by the tests; error tests look only for crashes.",
 ["src/nkx.c","src/nkcompil.c","src/nkvm.c","src/nkerror.c","src/interp/main.c"],
 [("REPL error clearing","src/nkx.c"),("iteration loop error check","src/nkvm.c")], [],
 ["nkxCompilerClearReplErrorState","nkxVmHasErrors","host function calls"])
prop("C18", "Shrinking a VM is invisible to the program",
 "Calling the shrink operation at any instruction boundary changes nothing a program or host can observe through values it looks up afterwards: the remaining host calls, globals, errors, object contents and cleanup callbacks are those of the run without shrinking, and memory in use does not grow.",
 ["schedules","programs"], "every program and every set of points at which it is shrunk",
 "Tests shrink every 1024 instructions and compare no outputs.",
 ["src/nkshrink.c","src/nktable.c","src/nkx.c"],
 [("object and string relocation","src/nkshrink.c")], [],
 ["nkxVmShrink","nkxVmGetCurrentMemoryUsage"])
prop("C19", "A host call of a script function behaves like a call in the script",
 "Calling a function value (script or native) from the host, between runs, in the middle of one, or re-entrantly from a native callback at any depth or inside a coroutine, yields the value and the side effects of the same call written in the script, leaves the interrupted execution exactly where it was, and on error leaves an error and no partial frame that disturbs later inspection; anything that is not a function value is refused with an error.",
 ["programs","histories"], "every function, argument list, nesting and point of the run at which the host calls",
 "Tests use the call interface from one callback.",
 ["src/nkvm.c","src/nkx.c","src/nkopcode.c"], [("nested iteration to a sentinel address","src/nkvm.c")], [],
 ["nkxVmCallFunction"])
prop("C20", "Values survive conversion to and from the host unchanged",
 "Integers, floats, strings of any content and length, functions, objects and nil stored by the host are read back unchanged by host and script, through globals, object fields, arguments, return values and images; equal strings are one value and different strings never are; and conversions to string, integer and float agree between host interface and script and follow one documented rule for every value.",
 ["inputs","histories"], "every value of every type, every route between host and script, with collections in between",
 "Tests print a few values.",
 ["src/nkvalue.c","src/nkstring.c","src/nkx.c"], [("string interning table","src/nkstring.c"),("conversions","src/nkvalue.c")], [],
 ["nkxValueSet*","nkxValueTo*"])
prop("C21", "VMs are independent of each other",
 "Any number of VMs in one process, interleaved at any granularity, each behave as if alone: host calls, globals, errors, memory figures, limits, user data and images are the same as in an isolated run, and a failure in one leaves the others unaffected.",
 ["schedules","histories"], "every set of programs and every interleaving of their execution, failure and deletion",
 "Tests run one VM per process, plus one short-lived copy.",
 ["src/nkvm.c","src/nkx.c","src/nkmem.c"], [("no mutable process-wide state","src/nkvm.c")], [],
 ["all of the above per VM"])
prop("C22", "Compiling in pieces equals compiling the whole",
 "Feeding a program's top-level statements to one compiler as any sequence of separate scripts, all before running or run piece by piece through partial finalization, gives the same host calls, globals and errors as compiling it as one script; compiling from a file equals compiling its text.",
 ["programs","histories"], "every program and every way of splitting its top level into pieces, run at once or piece by piece",
 "Tests compile one file once.",
 ["src/nkcompil.c","src/nkx.c","src/interp/main.c"],
 [("temporary END instruction overwritten by later code","src/nkcompil.c")], [("instructionWriteIndex","where code continues","src/nkcompil.h")],
 ["nkxCompilerCompileScript","nkxCompilerPartiallyFinalize"])
prop("C23", "Images are complete, reproducible, and write failures are reported",
 "Saving the same state twice gives identical bytes, loading an image and saving again gives those bytes back, and saving neither changes the VM nor depends on how the program reached the state by slicing; when the host's writer fails on any call, saving or loading reports failure at once without calling the writer again, and the VM can still be deleted cleanly.",
 ["fault_sequences","programs","crash_points"], "every program state and every writer call at which a failure is injected",
 "A checksum is printed by the test program but compared with nothing; the writer never fails.",
 ["src/nksave.c","src/nkx.c"], [("serializer","src/nksave.c")], [], ["nkxVmSerialize"])
prop("C24", "How execution is sliced makes no difference",
 "Running a program by any sequence of bounded iteration calls is the same as running it in one go: same host calls, globals, errors and end-of-program report, no call executes more instructions than asked for, a program that has ended stays ended and unchanged by further iteration, and functions can still be called in it.",
 ["schedules","programs"], "every program and every sequence of slice lengths",
 "Tests use one slice length.",
 ["src/nkvm.c","src/nkx.c"], [("iteration loop","src/nkvm.c"),("END instruction","src/nkopcode.c")], [],
 ["nkxVmIterate","nkxVmExecuteProgram","nkxVmProgramHasEnded"])
prop("C25", "External types and subsystems are found, saved and torn down as registered",
 "A registered type or subsystem is found by its name and by no other, registering a subsystem again under its name replaces it and registering a type again is refused, an object's external type and data read back as last set and only for that object, enumeration by type visits every such live object exactly once, subsystem cleanup runs exactly once at deletion (also after failures) while its objects can still be enumerated, and serialization callbacks run for each subsystem and typed object with the bytes they wrote.",
 ["histories","fault_sequences"], "every set of types, subsystems and objects, every order of registration, use, save/load and deletion",
 "Tests register one type and one subsystem.",
 ["src/nkx.c","src/nkvm.c","src/nkobjs.c","src/nksave.c"], [("external type and subsystem tables","src/nkx.c")], [],
 ["nkxVmRegisterExternalType","nkxInitSubsystem","nkxGetNextObjectOfExternalType"])
prop("C26", "The command-line interpreter reports faithfully what the library does",
 "For every script, the interpreter writes exactly the script's output to standard output and any errors to standard error, and exits 0 exactly when the script compiled and ran without error; given lines on standard input instead, it runs each, reports each bad one, and carries on as if an input that did not compile had not been given and one that failed later had gone up to its error; running out of memory, unreadable files and wrong arguments are reported and never crash it.",
 ["programs","inputs"], "every script file and every interactive session",
 "The interpreter program is never run by the tests.",
 ["src/interp/main.c","src/nkx.c"], [("script runner and REPL","src/interp/main.c")], [],
 ["standard output, standard error and exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
