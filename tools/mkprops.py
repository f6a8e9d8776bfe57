#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

D = "dill/_dill.py"
prop("C01", "A copied object graph keeps its exact sharing and cycle structure",
 "Pickling any graph of containers, closures, functions, classes, instances, bound methods, partials, descriptors, mapping views and weak references and loading it back gives a graph isomorphic to the original: shared nodes stay shared, distinct nodes stay distinct, and cycles close on the same nodes. When the library cannot preserve a cycle it says so with an error or a pickling warning; it never silently returns a different graph. A graph succeeds whenever no object is needed for its own construction and no function or class is reachable from its own defaults, bases or class-body values other than through closure variables, or globals of a function that names it.",
 ["inputs", "configurations"],
 "every heap of up to N nodes over the node kinds and every assignment of their reference slots, every protocol, with and without recursion into globals",
 "The tests hold about a dozen hand-written recursive shapes (test_recursive, test_nested); the number of heaps with 4 nodes alone is in the tens of thousands, and the handling of cycles depends on which node is reached first and on which node is still being built.",
 [D], [("deferred filling of closures and globals", "dill/_dill.py:_save_with_postproc, save_cell, save_function"), ("class and function by-value reductions", "dill/_dill.py:save_type, save_function, save_classobj"), ("memo", "pickle.Pickler.memo")],
 [("post-processing stack", "objects under construction and the assignments to run once they exist", "Pickler._postproc")], ["dumps/loads"])
prop("C02", "A copied function is the same function",
 "A function that has to be stored by value comes back with the same signature, defaults, keyword-only defaults, annotations, documentation, name, qualified name, module, attributes, closure contents and code, and calling it gives the same result as calling the original. This holds for every kind of function (plain, nested, lambda, generator, coroutine, method), under every protocol and option, in the same process and in a fresh one.",
 ["inputs", "configurations"],
 "every combination of function features x protocol x recursion/by-reference options x same or fresh process",
 "test_functions checks a handful of functions one feature at a time; lost attributes show up only in combinations (for instance keyword-only defaults with an empty attribute dictionary at an old protocol).",
 [D], [("function reduction", "dill/_dill.py:save_function"), ("function reconstruction", "dill/_dill.py:_create_function"), ("code reduction and reconstruction", "dill/_dill.py:save_code, _create_code")], (), ["dumps/loads", "call of the copy"])
prop("C03", "A copied function sees the right globals",
 "A function whose globals are those of an importable module or of the main module stays bound to that live namespace after loading; any other function gets a private namespace that contains every global it can reach, with the values they had when it was pickled. With recursion into globals switched on, a function stored by value carries every name it and the functions it reaches refer to - including from nested functions, lambdas, comprehensions and class bodies - so that the copy never fails with an undefined name where the original works, and carries nothing else from its module.",
 ["inputs", "histories", "configurations"],
 "every reference graph of small programs (functions, nested code, class bodies, methods, mutual recursion, shadowing, rebinding between dump and load) x options",
 "test_recursive and test_functions check two fixed programs; which names a function reaches depends on the whole static reference graph, and whether a change of a global is visible in the copy depends on the order of dump, rebinding and load.",
 [D, "dill/detect.py"], [("globals selection", "dill/_dill.py:save_function"), ("global name discovery", "dill/detect.py:globalvars, nestedglobals"), ("module dictionaries by reference", "dill/_dill.py:save_module_dict")], (), ["dumps/loads", "globals of the copy"])
prop("C04", "By reference exactly when the name still leads to the object",
 "A function or class is stored as a reference only if, at that moment, looking up its module and qualified name yields that very object; in every other case - deleted, rebound, shadowed, nested, decorated, renamed, missing or unimportable module - it is stored by value, or an error or warning says otherwise. A load of something stored by reference returns the live object and a load of something stored by value returns an independent copy, so the wrong object of the same name is never returned.",
 ["histories", "inputs", "configurations"],
 "every history of definitions, deletions, rebindings, module replacements and pickling events, for every location kind",
 "The tests pickle objects right after defining them; the property is about all histories of the namespace between definition, dump and load.",
 [D], [("location lookup", "dill/_dill.py:_locate_function, _getattribute, _import_module"), ("class and function savers", "dill/_dill.py:save_type, save_function, save_classobj")], (), ["dumps/loads", "identity of the loaded object"])
prop("C05", "A class stored by value comes back as an equivalent class",
 "A class stored by value is rebuilt with the same name, qualified name, module, documentation, bases, method resolution order, metaclass, slots, annotations, abstract methods, registered virtual subclasses and own attributes, descriptors included, and with nothing added or missing. Its instances can be created, keep their state and type relations, and its methods - including those that use the parent class or the defining class's own cell - behave as in the original.",
 ["inputs", "configurations"],
 "every combination of class features (bases, metaclass, slots, descriptors, dataclass, named tuple, generics, abstract classes, private names, properties, nested classes) x protocol x options",
 "test_classdef samples a fixed list of classes; the feature combinations and the protocol/option matrix are not sampled.",
 [D], [("class reduction", "dill/_dill.py:save_type, _get_typedict_type, _get_typedict_abc"), ("class reconstruction", "dill/_dill.py:_create_type, _create_namedtuple"), ("descriptor savers", "dill/_dill.py:save_property, save_classmethod, save_wrapper_descriptor")], (), ["dumps/loads"])
prop("C06", "Instances of main-module classes attach to the right class on load",
 "When the loaded top-level object is an instance of a class of the main module, it becomes an instance of the class now bound to that name in the main module unless the caller asked to ignore it or the assignment is impossible, in which case it keeps the reconstructed class. Nothing else is altered: its state, other objects in the same stream and instances of other modules' classes are untouched, and existing classes are never modified.",
 ["histories", "configurations"],
 "every history of define/redefine/delete of main-module classes, dump and load, x ignore as argument or default x instance kinds",
 "test_classdef checks one redefinition; the outcome depends on the history of the class name and on which options were given where.",
 [D], [("class rebinding on load", "dill/_dill.py:Unpickler.load")], (), ["loads"])
S = "dill/session.py"
prop("C07", "A saved module session restores the module exactly",
 "After saving a module and loading it back - into the same process, a fresh process, or a fresh namespace - every name that existed at save time is bound to an equal object with the sharing and identity relations it had, functions are bound to the restored namespace, self-references point to the restored module, and names created since the save are left alone. Saving changes nothing in the live module. The same holds for the main module, importable modules and module objects built at run time.",
 ["histories", "inputs", "configurations"],
 "every history of bind/rebind/mutate/delete/dump/load over a small set of names and value kinds, for each module kind and stream kind",
 "test_session runs one fixed sequence per module kind; what is restored depends on what happened before, between and after dump and load.",
 [S, D], [("session dump", "dill/session.py:dump_module"), ("session load", "dill/session.py:load_module"), ("module reduction", "dill/_dill.py:save_module, save_module_dict")], (), ["dump_module/load_module"])
prop("C08", "Session saving by reference keeps imported objects identical",
 "When a session is saved with imported objects by reference, every object that was imported into the namespace (under its own name or, for modules, classes and functions, also under another name) is after loading the very object of its source module, and every other object is restored by value, exactly as without the option. The live module is not modified by the save, whether or not it succeeds.",
 ["inputs", "configurations", "histories"],
 "every mix of own objects, own objects equal or similarly named to imported ones, imports, aliased imports, submodules and self-references in a namespace",
 "test_session checks a fixed list of imports in one module.",
 [S], [("splitting imported from own objects", "dill/session.py:_stash_modules, _lookup_module, _module_map"), ("restoring imports", "dill/session.py:_restore_modules")], (), ["dump_module(refimported=True)/load_module"])
prop("C09", "Loading a session as a dictionary never touches live modules",
 "Loading a saved session into a dictionary returns what loading it as a module would give, and leaves every live module, the main namespace and the table of imported modules (but for modules the saved objects need imported) exactly as they were, whether it succeeds or fails at any point of the stream. With the update option the dictionary additionally starts from the module's current names, still without changing the module.",
 ["histories", "crash_points", "inputs"],
 "every module kind x update option x stream kind x failure at any byte of the stream, after any history of the module",
 "test_session loads one file twice; failure points are not exercised.",
 [S], [("temporary module substitution", "dill/session.py:load_module_asdict")], (), ["load_module_asdict", "sys.modules"])
prop("C10", "Mismatched or damaged session files are refused without a trace",
 "A session is loaded only into a module of the same name and kind; every other combination raises an error before the target is changed. A stream that is not a session, or is cut short before the module's state arrives, raises an error, and after any failed load the table of imported modules has no leftover entry and the target module keeps its previous names and values.",
 ["crash_points", "inputs", "configurations"],
 "saved module kind/name x target kind/name x argument forms x stream kinds, and truncation of the stream at every byte",
 "test_session tests three mismatches; truncation and foreign streams are not tested.",
 [S], [("session identification", "dill/session.py:_identify_module, _make_peekable"), ("compatibility check", "dill/session.py:load_module")], (), ["load_module", "sys.modules"])
prop("C11", "Session files are never written or read through a symbolic link",
 "Saving to or loading from a path never follows a symbolic link in the final path component, whatever another process does to that path at any moment during the call; a new session file is created readable and writable by its owner only, and an existing regular file keeps its identity. Using the default path in the shared temporary directory produces a security warning, and an explicit path does not; file handles opened for the call are closed even when it fails.",
 ["schedules", "configurations", "fault_sequences"],
 "every initial state of the path x every adversary action before every system call of the save or load",
 "test_session covers static symlinks; the windows between system calls are not exercised.",
 [S], [("no-follow opens", "dill/session.py:_safe_open_for_writing, _safe_open_for_reading, _check_symlink")], (), ["system calls on the path", "file contents and modes"])
prop("C12", "Pickled file handles reopen as the chosen file mode promises",
 "A pickled file handle comes back with the same name, mode and open/closed state; in handle mode it is positioned as a freshly opened file (a missing file is created empty); in contents mode an existing file is not truncated and the position is the smaller of the saved position and the end of file; in file mode the content and the position at pickling time are restored exactly, whatever happened to the file since. Pickling flushes but otherwise changes neither the handle nor the file.",
 ["histories", "configurations", "inputs"],
 "open mode x file handling mode x position x history of the file between pickling and loading (unchanged, appended, truncated, deleted, rewritten) x text/binary content",
 "test_file enumerates some of the mode matrix with one content; binary handles, line endings and other histories are missing.",
 [D], [("file saver", "dill/_dill.py:_save_file"), ("file reconstruction", "dill/_dill.py:_create_filehandle")], (), ["dumps/loads", "file system"])
prop("C13", "Type registration and extension obey their history",
 "A function registered for a type is used for exactly the objects of that type from then on, by every way of pickling and until another is registered. Switching the extension of the standard (pure Python) pickler on makes it use the functions registered with dill, switching it off restores the standard behaviour, repeatedly and in any order with registrations, and dill's own pickler is not affected either way. Objects that refer to themselves through functions or classes are outside what the extended standard pickler supports.",
 ["histories"],
 "every sequence of register, extend on/off and pickling calls with dill's and the standard pickler over a few types",
 "test_registered and test_extendpickle make one transition each.",
 [D, "dill/__init__.py"], [("registration", "dill/_dill.py:pickle, register"), ("extension", "dill/_dill.py:_extend, _revert_extension; dill/__init__.py:extend")],
 [("dispatch tables", "saver per type, dill's and the standard pickler's", "Pickler.dispatch, pickle._Pickler.dispatch")], ["dumps/loads with dill and with pickle"])
prop("C14", "Options: explicit argument over current default, per call, no leakage",
 "For each option the value in force for a call is the explicitly given argument, otherwise the current default setting at the moment of the call, through every entry point (string, file, copy, checking functions, pickler objects - but the protocol of a pickler object made without one is the standard library's). An option given to one call never influences another call, and no call changes the defaults.",
 ["histories", "configurations"],
 "every interleaving of settings changes and calls with every subset of options given, over all entry points",
 "The tests use options one at a time and never look at the precedence or leakage between calls.",
 [D, "dill/settings.py"], [("option resolution", "dill/_dill.py:dump, Pickler.__init__, Unpickler.__init__, copy")], [("settings", "current defaults", "dill.settings")], ["dumps/loads behaviour under each option"])
prop("C15", "Tracing is transparent and its scope is exactly restored",
 "Turning tracing on never changes the produced bytes, the loaded objects or the errors raised. Within a tracing context the trace goes to the requested place, and on leaving it - normally or by an exception, nested or repeated - verbosity (the logger's own level) and destinations are exactly what they were before. The trace itself is, for the library's own picklers, a well-formed tree: every object's lines are balanced and nested, and one pickling, even a failed one, does not affect how the next is displayed.",
 ["histories", "fault_sequences", "configurations"],
 "every history of tracing on/off, nested contexts with and without redirection, pickling successes and failures, and exceptions",
 "test_logger checks one context manager round trip and one recursion shape.",
 ["dill/logger.py"], [("trace manager", "dill/logger.py:TraceManager"), ("trace adapter", "dill/logger.py:TraceAdapter, TraceFormatter")], [("logger level, handlers, redirect flag", "", "dill.logger")], ["log stream", "logging state"])
prop("C16", "Objects with live state come back in the state they were in",
 "Locks, reentrant locks, events, conditions, semaphores, barriers, queues, weak references and proxies, string and byte buffers, caches (their size limit and typing, not the cached results), double-ended queues, iterators, random generators and threads not yet started are restored in the state they had when pickled, or an error is raised (closed buffers, contexts that hold values, generators, a lock held by another thread). A weak reference or proxy is alive in the copy when what was loaded also holds its target, and dead otherwise; objects referring to each other keep doing so in the copy. Neither pickling nor loading changes the state of the originals, and from then on originals and copies change independently.",
 ["histories"],
 "every history of operations on up to five objects referring to each other, before pickling, between pickling and loading (once or twice), and then on originals and copies side by side",
 "test_objects checks that such objects can be copied, hardly ever in which state.",
 [D], [("savers for live objects", "dill/_dill.py:save_lock, save_rlock, save_weakref, save_weakproxy, save_lru_cache, save_context, save_stringi, save_stringo, save_thread_handle")], (), ["dumps/loads", "operations on original and copy"])
prop("C17", "Every supported value of the type catalogue round-trips",
 "Built-in and standard-library values that the library supports - importable types, singletons, ranges, slices, ellipsis, descriptors and slot wrappers, bound and unbound methods, attribute and item getters, partials, super objects, mapping proxies, dictionary views, generic aliases, named tuples, dataclass markers, modules - load back as the identical object when they are unique, and otherwise as one that is equal, has the same type and behaves the same, in any nesting and at any protocol (slotted instances from protocol 2); parts that can be modified are shared in the copy exactly where they were shared. Objects catalogued as supported can be copied and those catalogued as unsupported raise an error.",
 ["inputs", "configurations"],
 "every term of the type algebra up to a depth bound x protocol x options, and every catalogue entry",
 "test_objects and friends test top-level samples at the default protocol, often only for absence of exceptions.",
 [D, "dill/_objects.py", "dill/objtypes.py"], [("per-type savers", "dill/_dill.py:save_*"), ("type map", "dill/_dill.py:_reverse_typemap, _load_type"), ("catalogue", "dill/_objects.py; dill/__init__.py:load_types")], (), ["dumps/loads"])
prop("C18", "The picklability verdict is truthful and has no side effects",
 "The yes/no test answers true exactly when copying the object with the same options succeeds and yields an equal object (objects that have an all() method are compared by what it gives) or, unless exactness was requested, one of the same type or of a type that looks the same; it answers false when copying or comparing fails for a pickling reason (pickling, type, assertion and not-implemented errors) and lets other errors through unless the safe option is given. The test, the copy and the cross-process check leave the warning filters and the object itself unchanged on every path, and copy is load after dump with each option reaching the side it belongs to.",
 ["inputs", "configurations", "fault_sequences"],
 "copy outcome x comparison outcome x type relation x exact x safe x warning filter state x options",
 "Tests use the verdict as an oracle; they never test it against adversarial comparison or reduction behaviour.",
 [D], [("verdict", "dill/_dill.py:pickles, check, copy")], (), ["pickles/copy/check", "warnings.filters"])
prop("C19", "Inspection of code reports exactly the names the program uses",
 "For any function, method, code object or nested function, the reported local variables, cell variables, closure variables (those that have a value), nested code, referred globals and living nested functions are exactly those of the program's static structure, with and without recursion (into nested code and, for the referred globals, into the functions reached by name or closure), and inspection never fails or runs forever on (mutually) recursive programs. A name that a class body may find either locally or globally must be reported when it can be found globally. Names that are merely attributes, keywords, strings, imports or shadowed are no globals. Inspection never writes to or replaces the standard streams.",
 ["programs", "inputs"],
 "every small program with nesting, closures, comprehensions, class bodies, recursion, mutual recursion, shadowing and unset cells",
 "test_detect inspects four fixed functions.",
 ["dill/detect.py"], [("inspection functions", "dill/detect.py:nestedcode, freevars, globalvars, nestedglobals, varnames, referrednested")], (), ["results of inspection calls", "sys.stdout"])
prop("C20", "Diagnosis names exactly the parts that do not pickle",
 "The diagnosis functions report for an object and depth exactly those items or attributes whose copying fails (or gives another type or, in exact mode, an unequal object), with the right object, type or error at the right name and nested as deep as asked, nothing for those that succeed, and an empty or absent result exactly when nothing is wrong. An attribute that cannot be read is an error in the report of errors and absent from the others; items are reported once each, by identity. An error that is no pickling error is let through unless safe is set.",
 ["inputs", "configurations"],
 "every tree of picklable, unpicklable and unequal-copy attributes up to a depth x depth argument x exact x safe",
 "test_detect and test_objects call these functions on frames and a few objects.",
 ["dill/detect.py"], [("diagnosis functions", "dill/detect.py:errors, baditems, badobjects, badtypes")], (), ["results of diagnosis calls"])
prop("C21", "Extracted source rebuilds the object it was taken from",
 "For objects defined in a file or entered interactively, the source returned for a function, coroutine, method, class, lambda, code, frame or traceback is exactly the lines of that object's own definition with its decorators - never of a namesake or of code that merely contains its name or text - together with its line number; with enclosing=True those of the outermost function around it. Executing the source, as it is, stripped of indentation or under another name, or the import statement or importable string offered for what a module holds by name (closures included), gives an object of the same name and behaviour. Indenting and outdenting code leaves its meaning, and the strings in it, as they are. (A lambda is found by its line; a class without methods is told from another of the same qualified name only by its place, the last.)",
 ["programs", "inputs"],
 "every small source file from a grammar of definitions (functions, coroutines, lambdas, classes, closures, nesting, indentation, comments, strings, decorators, aliases, namesakes) x extraction options",
 "test_source extracts a dozen fixed definitions from its own file.",
 ["dill/source.py"], [("source extraction", "dill/source.py:getblocks, getsource, findsource, indent, outdent"), ("import statements", "dill/source.py:getimport, importable, getname")], (), ["results of the extraction calls, executed"])
prop("C22", "Temporary-file helpers round-trip and clean up after themselves",
 "Dumping an object to a temporary file or buffer and loading it back gives an equal, separate object, as often as wanted and including when named, repeated or interleaved; the same for objects with a name (or given one) stored as source, whatever characters it has. Files live exactly as long as the returned handle (or stay when asked to), nothing is left by a failed dump, and loading leaves no names in the library. Capturing a stream yields exactly what was written to it inside the block and always puts the previous stream back, nested, on exceptions, or when the block replaced the stream.",
 ["histories", "fault_sequences"],
 "every history of dump, load, drop-handle and nested captures with exceptions",
 "test_temp performs one round trip per helper.",
 ["dill/temp.py"], [("temporary dump/load", "dill/temp.py:dump, load, dumpIO, loadIO, dump_source, load_source"), ("capture", "dill/temp.py:capture")], (), ["results, file system, sys streams"])
prop("C23", "Concurrent pickling gives each thread the result it would get alone",
 "When several threads pickle and load unrelated objects at the same time, each obtains exactly the bytes-equivalent result it would obtain alone, under every interleaving, and afterwards process-wide state - standard streams, warning filters, imported modules, registered types, settings - is as if the calls had run one after another. The same goes for saving and loading different sessions and for inspecting code, for garbage collections at any moment, and for other threads that meanwhile print, warn, import or use the standard pickle module. (The yes/no picklability test hides warnings while it compares, which Python can only do for the whole process, and redirected tracing is process-wide by its nature.)",
 ["schedules"],
 "every interleaving of two or three operations, stopped at any line of the library",
 "The tests are single-threaded.",
 [D, "dill/detect.py", "dill/temp.py", "dill/logger.py"], [("per-pickler state", "dill/_dill.py:Pickler.__init__"), ("global name discovery", "dill/detect.py:nestedglobals")], (), ["dumps/loads in threads", "sys.stdout, warnings.filters"])
prop("C24", "Pickling is a pure observation and copies are independent",
 "Pickling an object, whether it succeeds or fails, changes nothing reachable from it and nothing in the process that a later pickling could notice: pickling the same unchanged object again gives an equivalent result. After loading, mutating the copy is never visible in the original nor the reverse, except through objects stored by reference, and two loads of the same bytes give independent objects. (Loading a pickled module object puts the saved contents back into the module of that name: that is what it is for. A class found nowhere cannot be stored by reference.)",
 ["histories", "inputs", "fault_sequences"],
 "every history of dump, mutation of original or copy, failed dump, and load over objects of every kind",
 "Tests dump once and compare; mutation after the fact and repeated dumps are rarely exercised.",
 [D], [("by-value savers copying state", "dill/_dill.py:save_type, save_function, save_module")], (), ["dumps/loads", "observations before and after"])
prop("C25", "Every produced stream is well formed and self-delimiting",
 "For every object, protocol and option the produced bytes are a well-formed pickle program: they only use operations of the requested protocol, never read an undefined memo entry or underflow the stack, leave exactly one object, and can be read by the standard unpickler given the library's lookup of its marker for the main module. Several objects written to one stream are read back one by one in order, each load consuming exactly its own bytes.",
 ["inputs", "configurations", "histories"],
 "every object kind x protocol x options x sequences of dumps into one stream",
 "The tests only look at the loaded object; hand-written opcodes in several savers bypass the standard machinery.",
 [D], [("hand-written opcodes", "dill/_dill.py:save_module_dict, save_type, _save_with_postproc, save_cell, save_dataclasses_*"), ("protocol passing", "dill/_dill.py:dump")], (), ["produced bytes"])
prop("C26", "Change tracking reports exactly what changed",
 "After an object has been recorded, asking what changed reports exactly the attributes and items that were rebound, added or removed since, and whether its contents changed, however many objects share or contain it, and reports no change when nothing changed (a change made somewhere inside a cycle is reported at least for the object that was changed). Asking what changed of an object never recorded raises an error.",
 ["histories"],
 "every history of record, mutate, rebind, delete and query over a small graph of Python objects and containers",
 "test_diff makes three mutations of two objects.",
 ["dill/__diff.py"], [("recording and comparing", "dill/__diff.py:memorise, whats_changed, has_changed")], [("memo of attribute ids", "", "dill/__diff.py:memo")], ["whats_changed/has_changed"])
prop("C27", "Code stored by any supported interpreter version can be loaded",
 "A code object stored in the argument layout of any supported Python version, with or without the line-number prefix and with byte fields as bytes or text, is rebuilt with each attribute taken from its own position and safe defaults for those the layout does not have; a layout that matches none is refused with an unpickling error. A code object of the running version is rebuilt unchanged in every attribute.",
 ["inputs", "configurations"],
 "layout (15, 16, 17, 18, 20 fields) x line-number prefix x field encodings x distinguishable field values",
 "test_functions/test_source only use the running version's layout (one of five).",
 [D], [("code reconstruction", "dill/_dill.py:_create_code, ALL_CODE_PARAMS")], (), ["reconstructed code attributes"])
prop("C28", "Reference chains found are real, shortest and correctly bounded",
 "A chain of referents or referrers returned between an object and a target consists of objects each of which directly refers to the next, has the minimum length, respects the depth limit, and is found whenever one exists within that limit and scope; otherwise the object alone or nothing is reported.",
 ["inputs"],
 "every small object graph x start x target kind x depth limit x direction",
 "test_pointers follows two fixed chains.",
 ["dill/pointers.py"], [("breadth-first search", "dill/pointers.py:find_chain, parent, children, parents, reference")], (), ["results of the search calls"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
