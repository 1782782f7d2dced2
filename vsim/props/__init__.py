"""Per-property configuration (importable without jsonpickle)."""

_REAL = [
    "jsonpickle (pickler, unpickler, handlers, backend, util, tags) from /repo's working tree",
    "CPython threads, exceptions and garbage collector under scheduler control",
    "simplejson, json, ujson",
]
_HEAVY = ["numpy, pandas and gmpy2 with jsonpickle.ext handlers"]
_STUBS = ["user classes and handlers (vsim.zoo) whose hooks are fault points"]
_ASSUME = [
    "CPython 3.12 with the GIL: a context switch happens between two bytecodes",
    "seeded sampling of scenarios and schedules, not enumeration",
]

CONFIG = {}


def _c(pid, **kw):
    kw.setdefault("real", _REAL + (_HEAVY if kw.get("heavy") else []))
    kw.setdefault("stubs", _STUBS)
    kw.setdefault("assumptions", _ASSUME)
    CONFIG[pid] = kw


_c(
    "C01",
    technique="seeded scheduler over real threads, each call compared with the same call alone",
    heavy=True,
    quick=10000,
    thorough=100000,
    rule="one case = one seeded scenario (object graphs, calls with options per thread, schedule) executed once; non-trivial = at least two threads were inside library code at once and at least one pre-emption happened; distinct = different hash of scenario inputs plus executed switch list",
)
_c(
    "C02",
    technique="seeded placement of nested calls in user hooks, compared with calls made alone",
    heavy=True,
    quick=8000,
    thorough=80000,
    rule="one case = one tree of calls (outer call, calls made from its hooks, calls made from theirs) executed once; non-trivial = at least one nested call really ran; distinct = different hash of graphs, fired actions and hook sequence",
)
_c(
    "C03",
    technique="seeded failures and interrupts in call histories, later calls compared with a fresh process",
    heavy=True,
    quick=9000,
    thorough=90000,
    rule="one case = one history of 2-6 calls on shared and private pickler/unpickler objects with injected failures; non-trivial = at least one call that followed a failed call was compared with a fresh process; distinct = different hash of graphs, calls, fired faults and their steps",
)
_c(
    "C04",
    technique="seeded single exceptions at every kind of user hook, the caller must see that very exception",
    heavy=True,
    quick=10000,
    thorough=100000,
    rule="one case = one call on one object graph, repeated with up to six single injected exceptions, each in a process of its own; non-trivial = at least one exception was raised and the caller's outcome judged; distinct = different hash of graph, call and (exception, hook firing) pairs",
)
_c(
    "C05",
    technique="seeded failing objects under fail_safe, compared with the graph that has the fallback in their place",
    heavy=True,
    quick=14000,
    thorough=140000,
    rule="one case = one encode call with fail_safe and one to three failing objects; non-trivial = at least one injected failure was raised and the document judged; distinct = different hash of graph, options, fallback value and fired failures",
)
_c(
    "C06",
    technique="seeded configuration histories and concurrent changes over recording backends with scripted failures, judged by a model",
    backends=True,
    quick=24000,
    thorough=240000,
    rule="one case = one history of configuration changes and calls, or one schedule of calls overlapping changes; non-trivial = calls were judged after changes (histories) or overlapped a change (schedules); distinct = different hash of the operations, executed switches and the recorded backend calls",
    stubs=["four JSON backend modules with scripted failures; the real ones are wrapped by recorders"],
)
_c(
    "C07",
    technique="simulated crash of the writer after any byte (with and without zero-filled blocks), then readers",
    heavy=True,
    quick=16000,
    thorough=160000,
    rule="one case = one document and 4-15 reads of the simulated file in one process, torn and complete; non-trivial = at least one torn read was judged; distinct = different hash of the document and the reads",
    stubs=["the file and its crashes", *_STUBS],
)
_c(
    "C08",
    technique="simulated process restarts with other hash seeds after seeded histories of calls, failures and configuration",
    heavy=True,
    quick=9000,
    thorough=90000,
    rule="one case = one writer process with a history, and three fresh processes that write or read the same; non-trivial = the history was not empty and a document was written; distinct = different hash of graphs, history, fired faults, writes and hash seed",
)
_c(
    "C09",
    technique="simulated address allocator under jsonpickle's id(), seeded reuse of dead objects' addresses and collections, compared with no reuse",
    heavy=True,
    alloc=True,
    quick=14000,
    thorough=140000,
    rule="one case = one history of 1-5 calls under one address-reuse policy; non-trivial = at least one address of a dead object was given to another object; distinct = different hash of graphs, calls, reuse decisions and fired faults",
    stubs=["the values of id() seen by the library", *_STUBS],
)
_c(
    "C10",
    technique="seeded failures, interrupts and updates by hooks and other threads during calls; identity snapshots of the input before and after",
    heavy=True,
    quick=14000,
    thorough=140000,
    rule="one case = one object graph or flattened document and 1-3 calls on it; non-trivial = the input was compared after a call (with at least one update, when updates are part of it); distinct = different hash of the scenario, fired faults and executed switches",
)
_c(
    "C11",
    technique="seeded histories of registrations, calls and failures judged by a registry model, and schedules of calls against other threads' registrations",
    ext=True,
    quick=18000,
    thorough=180000,
    rule="one case = one history of registry changes and calls, or one schedule of calls overlapping other registrations; non-trivial = calls were judged after changes (histories) or a change overlapped a call (schedules); distinct = different hash of the operations, handler firings and executed switches",
    real=_REAL + ["numpy, pandas and gmpy2 with jsonpickle.ext handlers"],
    stubs=["classes and handlers of vsim.regzoo, which record who handled which object"],
)
_c(
    "C12",
    technique="simulated import system whose modules and classes vanish, break, return and are replaced between and during calls, judged by a model",
    quick=18000,
    thorough=180000,
    rule="one case = one history of import-system events and reads, or one schedule of reads overlapping events; non-trivial = at least one stored object's class was missing (histories) or an event overlapped a read (schedules); distinct = different hash of documents, operations, outcomes and executed switches",
    stubs=["the modules, the import finder and the classes of vsim.world"],
)
_c(
    "C13",
    technique="seeded iterators with failing steps and items, repeated and concurrent calls on them; every step is recorded and compared with a model",
    quick=30000,
    thorough=300000,
    rule="one case = one graph of iterators and 1-3 calls on it, or 2-3 threads encoding their own and a shared iterator; non-trivial = items were taken and a call was judged (threads: calls overlapped); distinct = different hash of the graph, calls, taken items and executed switches",
    stubs=["iterators, generators and items of vsim.itzoo"],
)
_c(
    "C14",
    technique="seeded calls with failing hooks, interrupts, collections, nested calls and threads; weak references show what is still held after each of them",
    heavy=True,
    quick=14000,
    thorough=140000,
    rule="one case = 1-3 calls in one thread or 2-3 threads making calls; after every call all objects given to it or made by it are dropped and must be reclaimed; non-trivial = at least one object was followed; distinct = different hash of the calls, outcomes, faults that happened and executed switches",
    stubs=["user classes, hooks and handlers of vsim.zoo"],
)
_c(
    "C20",
    technique="seeded interrupts before any step of a call, alone or next to another thread's call; the caller must see that very exception at once",
    heavy=True,
    quick=6000,
    thorough=60000,
    rule="one case = one call (30 % next to another thread's call) repeated with 3-9 single interrupts, each in a process of its own; non-trivial = at least one interrupt was delivered and the caller's outcome judged; distinct = different hash of graphs, calls and (kind, step, switches) of the interrupts",
)
_c(
    "C21",
    technique="seeded exhaustion of stack (a real limit on the frames left) and memory at any step of a call, compared with the undisturbed call",
    heavy=True,
    quick=6000,
    thorough=60000,
    rule="one case = one call repeated with 3-9 single exhaustions, each in a process of its own; non-trivial = at least one was delivered and the outcome judged; distinct = different hash of graph, call and (kind, step or frames left) of the faults",
)
