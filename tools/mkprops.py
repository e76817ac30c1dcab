"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Parallel (tasks=n) processing returns exactly the sequential result",
  "Loading or dumping a collection with any number of tasks, as threads or as processes and under any schedule of them, returns exactly what the same call returns with one task: the same elements in the same order, with the same fork, strictness, target type and other options applied to every element, for empty and short collections as well as long ones, or fails with an error of the same class and message if that call fails. Every element is processed exactly once. Only tasks of the requested kind are started, and for a flat collection at most the allowed number of them.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of the worker tasks with each other and the caller; all task counts, collection lengths, nesting, options and forks; task_type Thread and Process",
  "The tests run a handful of fixed lists, with a mocked Process that runs synchronously in start() and one real Thread run each; no interleaving, no fork or option, no empty list and no partition remainder is exercised.",
  ["jsons/_multitasking.py", "jsons/deserializers/default_list.py", "jsons/serializers/default_iterable.py", "jsons/serializers/default_tuple.py", "jsons/deserializers/default_iterable.py"],
  [("multi_task / _start_tasks / _fill: slices the list and fills result slots by index", "jsons/_multitasking.py"),
   ("default_list_deserializer: chooses sequential or parallel", "jsons/deserializers/default_list.py"),
   ("default_iterable_serializer: chooses sequential or parallel", "jsons/serializers/default_iterable.py")],
  [("list_to_fill", "shared list of results, one slot per element, written by the tasks", "jsons/_multitasking.py")],
  ["return value of load/dump with tasks=n", "started task objects"])

p("C02", "A failing parallel call raises; it never returns a partially filled result",
  "If in a parallel load or dump any element fails, any worker dies before finishing, the channel to a worker breaks, or a worker cannot be started, the call raises an error of the library and never returns a collection with missing, placeholder or default elements. When the call ends, whether by returning or by raising such an error, no worker it started is still running. Once faults stop, the same call succeeds.",
  ["fault_sequences", "schedules", "crash_points"],
  "element failures at any subset of positions, worker crash at any step, start failure of the k-th worker, broken manager channel at any message, under any schedule",
  "The tests contain no failing element, no dying worker and no failing start in a parallel call: the mocked Process cannot fail.",
  ["jsons/_multitasking.py", "jsons/deserializers/default_list.py", "jsons/serializers/default_iterable.py", "jsons/_load_impl.py", "jsons/_dump_impl.py"],
  [("multi_task: joins all tasks and collects the slots", "jsons/_multitasking.py"),
   ("_do_load/_do_dump: wrap errors into the library's own", "jsons/_load_impl.py, jsons/_dump_impl.py")],
  [("list_to_fill", "slots not (yet) filled by a task", "jsons/_multitasking.py")],
  ["return value or exception of load/dump with tasks=n", "liveness of the tasks at return"])

p("C03", "Concurrent and re-entrant calls do not influence each other",
  "Any mix of dump, load, transform and decorated calls made at the same time from several threads, or re-entrantly from inside user callbacks, gives each call exactly the result (or error) it gives when it is the only call in a fresh process. What other calls ran earlier, or are in flight, and on which types, never matters.",
  ["schedules", "histories", "inputs"],
  "all interleavings of calls of several threads at any point of the library's code; all histories of earlier calls; re-entrant calls at every user callback",
  "All tests are single-threaded and judge one call at a time; the library keeps process-wide caches that are shared, filled and cleared by every call, which only interleaved or nested calls can expose.",
  ["jsons/_cache.py", "jsons/_common_impl.py", "jsons/_compatibility_impl.py", "jsons/_dump_impl.py", "jsons/_load_impl.py", "jsons/serializers/default_object.py", "jsons/deserializers/default_object.py", "jsons/_transform_impl.py", "jsons/decorators.py"],
  [("cached(): process-wide memoisation of type facts, cleared at the end of every outermost call", "jsons/_cache.py"),
   ("'_initial' keyword: tells outermost from nested calls", "jsons/_dump_impl.py, jsons/_load_impl.py")],
  [("caches", "memoised hints, attributes, (de)serializer lookups", "jsons/_cache.py")],
  ["results of concurrent calls"])

p("C04", "Registrations take effect atomically, at once and for good",
  "Once a call registering a serializer, deserializer, validator or class announcement has returned, every dump, load or lookup that starts afterwards in any thread uses it, until a later registration replaces it. A load or dump that overlaps a registration behaves as if the registration happened entirely before or entirely after each of its lookups: it never fails because of it and never sees an older registration again after a newer one. Simultaneous registrations are never lost.",
  ["schedules", "histories"],
  "all interleavings and histories of registrations (high and low priority, single types and sequences, exact types and base classes) with dumps, loads and lookups",
  "Tests register once, single-threaded, with nothing in flight and with empty caches; staleness needs a lookup cached before, or another thread's call running during, the registration.",
  ["jsons/_lizers_impl.py", "jsons/_validation.py", "jsons/_extra_impl.py", "jsons/_cache.py", "jsons/_common_impl.py"],
  [("set_serializer/set_deserializer/set_validator/announce_class: update the registries", "jsons/_lizers_impl.py, jsons/_validation.py, jsons/_extra_impl.py"),
   ("get_serializer/get_deserializer/get_validator: cached lookups", "jsons/_lizers_impl.py, jsons/_validation.py")],
  [("_serializers/_classes_serializers etc.", "the registries of a fork", "jsons/_common_impl.py")],
  ["results of dump/load/get_serializer/get_deserializer/get_validator"])

p("C05", "A fork is a snapshot, isolated from its parent and every other fork",
  "A new fork starts with exactly the serializers, deserializers, validators, announced classes and warning settings its parent had at that moment. From then on no registration, announcement or warning setting made on one fork (or globally) is visible in any other, nor is a default-argument binding made on a fork visible in its parent or in its siblings. A fork made while another thread registers something on its parent has each registered class either before or after that registration.",
  ["histories", "schedules"],
  "all histories of fork/register/announce/suppress/with_dump/with_load/dump/load over a tree of forks, including concurrent ones",
  "Tests create a few forks and set serializers of str and int on them once; validators, announcements, parents changed after forking, and concurrent forking are not exercised.",
  ["jsons/_fork_impl.py", "jsons/_common_impl.py", "jsons/classes/json_serializable.py", "jsons/_lizers_impl.py", "jsons/_validation.py", "jsons/_extra_impl.py"],
  [("fork(): copies the registries of the parent", "jsons/_fork_impl.py"),
   ("fork_inst argument passed along every nested call", "all (de)serializers")],
  [("StateHolder class attributes", "registries and warning settings of a fork", "jsons/_common_impl.py")],
  ["dump/load/lookup results per fork", "warnings emitted per fork"])

p("C06", "A call that fails or is interrupted anywhere leaves no trace",
  "Whenever a dump or load ends early, by an error in the data, in user code, or by an exception raised asynchronously at any point (interrupt, timeout, cancellation, memory exhaustion), all later calls behave as if it had never been made. A registration interrupted at any point either takes effect or not for each class, never makes other calls fail, and takes full effect when repeated.",
  ["crash_points", "histories", "fault_sequences"],
  "asynchronous exception at every instruction or line of the library's code within any call, followed by any history of further calls and registrations",
  "Tests only make calls fail at the few points where bad data is noticed, and do not look at what later calls do.",
  ["jsons/_cache.py", "jsons/_dump_impl.py", "jsons/_load_impl.py", "jsons/_lizers_impl.py", "jsons/_validation.py", "jsons/deserializers/default_dict.py"],
  [("clear(): drops the caches when a call ends", "jsons/_cache.py, jsons/_dump_impl.py, jsons/_load_impl.py"),
   ("order of registry updates", "jsons/_lizers_impl.py, jsons/_validation.py")],
  [("caches and registries", "state surviving an interrupted call", "jsons/_cache.py, jsons/_common_impl.py")],
  ["results of later calls"])

p("C07", "Inputs are never modified, so they can be shared and retried",
  "No dump, load, transform or decorated call ever modifies the object graph, document, option mapping or getter mapping it is given, whether it succeeds, fails, is interrupted, is tried against several types, or shares its input with calls in other threads. The same input can be processed again or simultaneously any number of times with equal results.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "every prefix of every call (interrupted anywhere), every failing branch of a union, and all interleavings of calls that share one input",
  "Tests process each input once and compare only the output.",
  ["jsons/deserializers/default_dict.py", "jsons/deserializers/default_object.py", "jsons/serializers/default_dict.py", "jsons/serializers/default_object.py", "jsons/_load_impl.py", "jsons/decorators.py"],
  [("copying of documents before hashed keys are unpacked", "jsons/deserializers/default_dict.py"),
   ("copying of keyword and getter mappings", "jsons/deserializers/default_object.py")],
  [], ["the input object graph before, during and after calls"])

p("C08", "A failure in user code is contained and reported as a library error",
  "Whatever ordinary exception a user-supplied callback raises (serializer, deserializer, validator, constructor, property, getter, key transformer), wherever and whenever it does so, the enclosing dump raises SerializationError and the enclosing load raises a JsonsError with the original exception in its cause chain (unless it was raised in another process, or by a later member of a union than the first). Where the library documents tolerance, exactly the failing parts are missing from the result and a warning reports each: an attribute that cannot be serialized by a non-strict dump, a list element that cannot be loaded with warn_on_fail, a union member that does not fit.",
  ["fault_sequences", "inputs"],
  "an exception of any class, with or without arguments, from any single or several invocations of any kind of callback at any depth",
  "Tests inject one error with a message at one place; which other attributes and elements survive, exceptions without arguments and failures at the n-th invocation are not looked at.",
  ["jsons/_dump_impl.py", "jsons/_load_impl.py", "jsons/serializers/default_object.py", "jsons/deserializers/default_list.py", "jsons/serializers/default_union.py", "jsons/deserializers/default_union.py", "jsons/_validation.py"],
  [("_do_dump/_do_load wrap exceptions", "jsons/_dump_impl.py, jsons/_load_impl.py"),
   ("_do_serialize ignores failing attributes unless strict", "jsons/serializers/default_object.py"),
   ("warn_on_fail", "jsons/deserializers/default_list.py")],
  [], ["exception type and cause chain", "remaining attributes/elements", "warnings"])

p("C09", "Timestamps keep their instant, whatever the clock and local time zone",
  "A dumped datetime denotes the same instant as the original (a naive one is taken as local time valid at that date), independent of when the dump is made, of clock jumps and of changes of the local time zone between dump and load; loading it gives that instant back, to the microsecond unless stripping was asked for. The dump time recorded by a verbose dump lies within the call's duration on the system clock, in UTC, to the second.",
  ["configurations", "schedules", "inputs"],
  "all local time zones with and without daylight saving, all clock readings including jumps within a call, all datetimes and offsets of whole minutes",
  "The tests run in UTC at the real time; the offset of naive datetimes and the dump time depend on clock and zone settings that the tests never vary.",
  ["jsons/_datetime_impl.py", "jsons/serializers/default_datetime.py", "jsons/deserializers/default_datetime.py", "jsons/serializers/default_object.py"],
  [("_datetime_offset_str: offset of aware and naive datetimes, reads the clock", "jsons/_datetime_impl.py"),
   ("_get_dict_with_meta: dump_time", "jsons/serializers/default_object.py")],
  [], ["dumped string", "loaded datetime", "-meta/dump_time"])

p("C10", "Decorated coroutines map their own arguments and result, exactly once",
  "Any number of overlapping calls of coroutine functions decorated with loaded or dumped, suspended and resumed in any order, each receive their own mapped positional arguments, run the decorated function exactly once, and return their own mapped result, with the options of their decorator. Exceptions raised inside, and cancellation or timeout at any suspension point, reach the decorated coroutine and the caller unchanged, and do not affect any other call.",
  ["schedules", "fault_sequences", "crash_points"],
  "all interleavings of overlapping coroutine calls, cancellation at every suspension point, failing mappings and failing bodies",
  "The tests await one decorated coroutine that never suspends, alone, without cancellation or error.",
  ["jsons/decorators.py"],
  [("_get_async_wrapper / _run_decorated / _map_args / _map_returnvalue", "jsons/decorators.py")],
  [], ["arguments seen by the coroutine", "awaited result or exception"])

p("C11", "A dumped document restores the same value in any later process",
  "A value of supported types that was dumped to bytes or text and stored loads, with the type it was dumped from, to an equal value after a restart: in a process with a different hash seed, hash values, clock, local time zone, call history or registration order, and with another number of tasks. The stored document itself does not depend on those either, apart from the order of a set and the names given to hashed keys.",
  ["inputs", "crash_points", "configurations", "histories"],
  "all values over the supported types (primitives, dates, enums, paths, collections, dicts with arbitrary hashable keys, unions, dataclasses, attrs, named tuples, plain classes); restart at every point between writing and reading; all hash seeds, clocks and zones",
  "Tests dump and load fixed values within one process, under PYTHONHASHSEED=0 and TZ=UTC.",
  ["jsons/_dump_impl.py", "jsons/_load_impl.py", "jsons/serializers", "jsons/deserializers"],
  [("per-type serializer/deserializer pairs", "jsons/serializers, jsons/deserializers"),
   ("hashed keys section for dict keys that JSON cannot hold", "jsons/serializers/default_dict.py, jsons/deserializers/default_dict.py")],
  [("stored document", "the only state that survives a restart", "user's storage")],
  ["stored bytes", "loaded value"])

p("C12", "A damaged document is rejected or loads as what it says, never half-way",
  "Bytes or text that a storage fault truncated, tore, bit-flipped or mixed with an older version either load as exactly the JSON document they still form, into a value of the requested type, or make the load raise an error of the library (or the codec's UnicodeDecodeError); a document that is not complete JSON raises DecodeError. Nothing else escapes, and intact documents load unaffected afterwards.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation point, torn write, bit flip and stale block of every stored document, plain and verbose",
  "Tests load one hand-written broken string.",
  ["jsons/_load_impl.py", "jsons/_common_impl.py", "jsons/exceptions.py", "jsons/deserializers"],
  [("loads/loadb: decode errors wrapped", "jsons/_load_impl.py"),
   ("get_cls_and_meta: reading of -meta", "jsons/_common_impl.py")],
  [("stored document", "bytes surviving a crash", "user's storage")],
  ["exception type", "loaded value"])

p("C13", "Nothing is returned that its validator in force rejects",
  "No load, sequential or parallel, concurrent with other calls or not, through any container, union or fork, returns a value containing an element of a type whose registered validator rejects it or raises: the load raises ValidationError (or drops the element where warn_on_fail or a union alternative says so). Values that validators accept are never rejected, and each loaded value is offered to the validator of its type in the fork in use.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings, nesting, tasks and histories of validator registrations; validators that reject or raise at any invocation",
  "Tests validate one object at a time, sequentially, on the default fork.",
  ["jsons/_validation.py", "jsons/_load_impl.py", "jsons/deserializers/default_list.py", "jsons/deserializers/default_union.py"],
  [("validate(): called for every loaded value", "jsons/_load_impl.py"), ("get_validator: cached lookup", "jsons/_validation.py")],
  [("_validators", "registered validators of a fork", "jsons/_common_impl.py")],
  ["loaded values", "ValidationError"])

p("C14", "User callbacks run exactly once per value they apply to",
  "In one successful call, each registered serializer, deserializer, validator, constructor and supplied attribute getter is invoked exactly once for each value or attribute it applies to, with that value and in the calling context's fork and options, whatever the schedule, number of tasks, concurrent calls and history.",
  ["schedules", "histories", "configurations"],
  "all interleavings, numbers of tasks, nesting depths, histories and option combinations",
  "Tests use pure callbacks and look only at the result, so a repeated, skipped or misdirected invocation is invisible to them.",
  ["jsons/_load_impl.py", "jsons/_dump_impl.py", "jsons/deserializers/default_object.py", "jsons/serializers/default_object.py", "jsons/_multitasking.py", "jsons/_validation.py"],
  [("attr_getters consumed while the constructor arguments are collected", "jsons/deserializers/default_object.py"),
   ("dispatch to (de)serializers", "jsons/_load_impl.py, jsons/_dump_impl.py")],
  [], ["invocation history of the callbacks"])

p("C15", "A verbose dump finds its own class again or says that it cannot",
  "A verbose dump loaded without a target type restores an object of the very classes recorded in it (those of the root, of the attributes, of the elements of lists and tuples, of the values of a dict that have one class; a class counts by its module and simple name), at every nesting level, for classes that can be imported or that are announced in the fork used, whatever else was announced, dumped or loaded before or meanwhile. When a recorded class is neither importable nor announced at that moment (after a restart, or during an import failure of whatever kind) the load raises UnknownClassError (inside a list or union: the DeserializationError caused by it), never yields an object of another class, and works again once the class is available. A document with meta info that records no class loads as if it had none.",
  ["histories", "fault_sequences", "schedules", "crash_points"],
  "all histories of announcements (re-announcing under the same or other names), restarts that lose announcements, transient import failures, and interleavings",
  "Tests announce once and load at once, in one process.",
  ["jsons/_common_impl.py", "jsons/_extra_impl.py", "jsons/serializers/default_object.py", "jsons/deserializers/default_object.py", "jsons/_load_impl.py"],
  [("get_cls_from_str / announce_class", "jsons/_common_impl.py, jsons/_extra_impl.py"),
   ("-meta/classes section", "jsons/serializers/default_object.py")],
  [("_announced_classes", "name-class table of a fork", "jsons/_common_impl.py")],
  ["class of the loaded objects", "UnknownClassError"])

p("C16", "Calls keep nothing of what they processed",
  "When no call of the library is in progress, it holds no reference to anything that its earlier calls were given or created: not to the dumped objects, the loaded documents and texts, the results, the options and callbacks of a call (getters, transformers, mappers), nor to the errors raised, the frames of the calls, the tasks they started, forks that nobody uses any more, or classes that were only loaded into. This holds whether calls succeeded, failed, ran in parallel or re-entrantly, in any interleaving; after a call that was interrupted by an asynchronous exception, from the end of the next call on. Only what was registered or announced (also by dumping objects of a class) remains.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of succeeding, failing and interrupted calls, sequential, concurrent and nested, with all options and forks",
  "Tests look at results and never at what is left behind; what an error path or an interleaving leaves in a process-wide table shows only when everything that the calls handled is counted afterwards.",
  ["jsons/_cache.py", "jsons/_load_impl.py", "jsons/_dump_impl.py", "jsons/_multitasking.py", "jsons/deserializers/default_object.py", "jsons/serializers/default_object.py", "jsons/_fork_impl.py"],
  [("cached() / clear(): process-wide memoisation, cleared around every outermost call", "jsons/_cache.py"),
   ("multi_task: tasks and the shared list of results", "jsons/_multitasking.py"),
   ("fork: a new class with copies of the registries of its parent", "jsons/_fork_impl.py")],
  [("caches", "memoised facts about types and functions", "jsons/_cache.py")],
  ["reference counts of the inputs", "weak references to classes, forks and functions", "objects known to the garbage collector"])

p("N01", "Key transformers convert between casings",
  "Each supplied key transformer turns a key of any of the supported casings into its own casing and leaves a key that already has it unchanged.",
  ["inputs"], "all identifier strings", "Tests use a few identifiers.",
  ["jsons/_key_transformers.py"], [("camelcase/snakecase/pascalcase/lispcase", "jsons/_key_transformers.py")])
p("N02", "Strict loads reject documents with unknown attributes",
  "A strict load of a document that holds an attribute the target type does not expect raises SignatureMismatchError naming it; a non-strict load of it succeeds.",
  ["inputs"], "all documents and target types", "Tests use one document.",
  ["jsons/deserializers/default_object.py"], [("_get_remaining_args", "jsons/deserializers/default_object.py")])
p("N03", "Strip options remove exactly what they name",
  "strip_nulls, strip_privates, strip_properties, strip_class_variables and strip_attr remove exactly the attributes they name from a dump, at every level, and nothing else.",
  ["inputs", "configurations"], "all objects and option combinations", "Tests use a few classes.",
  ["jsons/serializers/default_object.py", "jsons/serializers/default_dict.py"], [("_filter_attributes", "jsons/serializers/default_object.py")])
p("N04", "Decorators reject what they cannot decorate",
  "Decorating a class or a static method, or giving a loader or dumper that is not one of the library's, raises InvalidDecorationError at decoration time.",
  ["inputs"], "all decoration targets", "Tests try one of each.",
  ["jsons/decorators.py"], [("_validate_decoration", "jsons/decorators.py")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        assert r["statement"].count(". ") <= 2, r["id"]
        f.write(json.dumps(r) + "\n")
