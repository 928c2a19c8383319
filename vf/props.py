"""What is claimed, how each claim is exercised, and which observations contradict it."""
import fnmatch
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "sdk/python/lib/pulumi/"
RT = PY + "runtime/"

PROG_RULE = ("A generated user program (resources, components, providers, reads, remote components, nested outputs and callbacks, invokes, "
             "method calls, exports, log lines) is run by the real language host entry point against a scripted engine, with every thread "
             "switch, delivery delay, clock step and fault drawn from the seed.")
PROG_REAL = {
    "real": ["pulumi Python SDK from /repo's working tree (outputs, resources, rpc serialisation, stack, settings, log, invoke, call)",
             "sdk/python/cmd/pulumi-language-python-exec or the automation inline LanguageServer", "asyncio, concurrent.futures, protobuf"],
    "stub": ["engine and resource monitor (scripted peer that validates and answers)", "gRPC transport (simulated, real generated stubs)",
             "threads, locks, clock, sleep, event-loop selector (simulator seams)"],
}
PROG_ASSUME = ["programs use the documented public API", "the engine answers each request at most once",
               "code between two synchronisation points of one thread runs without a switch (the SDK's program path is one event-loop thread "
               "plus pool threads that only make RPCs)"]
COMMON = ("stuck", "stuck.wall", "end.false_failure")
ANY_OBJ = ("obj.value", "obj.unknown", "obj.secret")

_P = []


KINDS = {}


def _profile(world, x):
    """Keys with a leading underscore are knobs of the simulator."""
    return {"world": world, "prof": {k: v for k, v in x.items() if k[0] != "_"}, "knobs": {k[1:]: v for k, v in x.items() if k[0] == "_"}}


def kind(name, world, rule, real, assume, technique, note):
    KINDS[name] = (world, rule, real, assume, technique, note)


def claim(how, id, title, statement, over, text, why, files, mech, profiles, classes, quick=4000, common=COMMON, observe=None, state=None):
    world, rule, real, assume, technique, note = KINDS[how]
    _P.append({
        "id": id, "title": title, "statement": statement, "over": over, "qtext": text, "why": why, "files": files, "mech": mech,
        "state": state, "observe": observe or ["requests the engine receives", "how the program ends"],
        "profiles": [x if "world" in x else _profile(world, x) for x in profiles], "classes": tuple(classes) + tuple(common) + ("judge.broken",),
        "quick": {"runs": quick, "wall": 240}, "thorough": {"runs": quick * 60, "wall": 780},
        "rule": rule, "components": real, "assumptions": assume, "technique": technique, "note": note,
    })


def prog(*a, **k):
    claim("prog", *a, **k)


def prov(*a, **k):
    claim("prov", *a, **k)


kind("prog", "world_prog", PROG_RULE, PROG_REAL, PROG_ASSUME,
     "deterministic simulation of program + engine, seeded schedules and faults, history checked against a reference model",
     "Seeded sampling of programs, schedules and faults; a clean run is evidence, not proof. Trusts the simulator, the scripted engine and the "
     "reference model in vf/model.py.")
kind("prov", "world_prov",
     "A provider process whose code is generated is run by the real pulumi.provider.main; generated construct and call requests (own monitor, "
     "project, configuration, preview flag each; some concurrent, some cancelled) reach it over the simulated network, with every task and "
     "thread switch, delivery delay, refusal, engine death and cancellation drawn from the seed.",
     {"real": ["pulumi.provider.main, ProviderServicer and the SDK runtime under it, from /repo's working tree", "asyncio, concurrent.futures, protobuf"],
      "stub": ["engine: sender of the requests and resource monitors (scripted peers)", "grpc.aio server and gRPC transport (simulated)",
               "threads, locks, clock, sleep, event-loop selector (simulator seams)"]},
     ["provider code uses the documented public API", "the engine answers each request at most once",
      "the simulated grpc.aio server runs each handler in a task of its own, as the real one does"],
     "deterministic simulation of provider process + engine, seeded schedules and faults, answers and monitor histories checked against a reference model",
     "Seeded sampling; a clean run is evidence, not proof. Trusts the simulator, the scripted engine and the model in vf/model.py, vf/world_prov.py.")


prog("R01", "Every resource a program creates is registered exactly once",
     "When a program ends successfully, every resource it created - at top level, inside components, or inside callbacks on values that "
     "became known late - has been sent to the engine exactly once and its registration has been answered. Nothing the program did not "
     "create is ever registered.",
     ["programs", "schedules", "inputs"], "every program, every order of engine answers, callback completions and thread switches",
     "Tests register a few resources with immediate answers; whether late or nested work is waited for depends on the schedule.",
     [RT + "stack.py", RT + "rpc_manager.py", RT + "resource.py", PY + "output.py"],
     [{"name": "waiting for outstanding RPCs and tasks before the program ends", "where": RT + "stack.py wait_for_rpcs"},
      {"name": "tracking of RPCs in flight", "where": RT + "rpc_manager.py"}],
     [{}, {"apply": 900, "acb": 700, "slow": 300}, {"comp": 700, "remote": 250, "acb": 400}, {"read": 300, "get": 300, "provider": 400},
      {"acb": 950, "!acb": 1, "apply": 950, "coro": 800, "nested": 900, "lets": 600, "n": (1, 4), "slow": 0},
      {"apply": 800, "acb": 500, "_preempt": 40}, {"err": 300, "!err": 1, "read": 300, "n": (3, 6)}],
     ["reg.dup", "reg.missing", "reg.unexpected", "reg.unfinished", "opts.kind", "cb.missing", "end.false_success"])

prog("R02", "The engine receives exactly the inputs and options the program stated",
     "Each registration or read carries the type, name, parent, provider, provider map, ID, input values and every resource option exactly as "
     "the program stated them - after documented inheritance from parents, merging of options, transformations, translation of property names "
     "and reading of configuration - however late the values became known and in whatever order. Options, values and transformations the "
     "program uses for several resources have the same effect for each.",
     ["programs", "schedules", "inputs"], "every program and every order in which its values become known",
     "Tests check single inputs with resolved values; they do not combine nesting, late values, inheritance and concurrency.",
     [RT + "resource.py", RT + "rpc.py", PY + "resource.py", PY + "output.py"],
     [{"name": "serialisation of inputs", "where": RT + "rpc.py serialize_property"},
      {"name": "request preparation", "where": RT + "resource.py prepare_resource, register_resource"},
      {"name": "option inheritance", "where": PY + "resource.py Resource.__init__"},
      {"name": "merging of options", "where": PY + "resource.py ResourceOptions.merge"},
      {"name": "translation of names of typed resources", "where": PY + "_types.py"}],
     [{}, {"opts": 900, "alias": 600, "provider": 600, "comp": 500}, {"deep": 900, "asset": 500, "resval": 500, "nested": 800},
      {"remote": 500, "refs": 500, "provider": 500}, {"optv": 800, "opts": 800, "depends": 600, "alias": 500, "provider": 500},
      {"trans": 800, "strans": 500, "comp": 700}, {"legacy": 600, "typed": 600}, {"typed": 900, "deep": 700, "cfg": 500, "sharedv": 600},
      {"sref": 800, "read": 700, "cfg": 900, "cenv": 700}, {"asset": 700, "ansid": 300, "hyd": 400, "opts": 900, "alias": 700},
      {"ptree": 600, "provider": 900, "provmap": 600, "comp": 600, "optv": 500, "trans": 500, "n": (5, 9)}],
     ["obj.value", "obj.unknown", "opts.*", "reg.missing", "reg.unexpected"])

prog("R03", "Every resource a value flowed from is listed as a dependency",
     "The dependencies and per-property dependencies sent for a resource name every resource whose outputs flow into it or that it "
     "explicitly depends on (components standing for the resources in them), and nothing else. No request names a resource whose own "
     "registration has not been answered yet.",
     ["programs", "schedules", "inputs"], "every data flow through nested outputs, callbacks, components and options, under every schedule",
     "Tests check a handful of fixed data flows; losing an edge in a combination of nesting and timing is invisible to them.",
     [RT + "resource.py", RT + "rpc.py", PY + "output.py", PY + "resource.py", RT + "resource_cycle_breaker.py"],
     [{"name": "dependency collection while serialising", "where": RT + "rpc.py serialize_property"},
      {"name": "expansion of components", "where": RT + "resource.py _expand_dependencies"},
      {"name": "resources carried by outputs", "where": PY + "output.py Output.apply, Output.all"}],
     [{"depends": 700}, {"comp": 700, "resval": 500, "depends": 700}, {"nested": 800, "apply": 900, "deep": 800}, {"remote": 700, "resval": 600, "pdeps": 500},
      {"optv": 800, "depends": 900, "trans": 600}, {"typed": 800, "legacy": 400, "deep": 700},
      {"lets": 700, "resval": 900, "remote": 800, "apply": 800, "deep": 700, "n": (3, 7)}],
     ["deps.*", "pdeps.*", "prec", "obj.outdeps*", "call.deps*", "outs.outdeps*"])

prog("R04", "Resources that depend on their own component never hang and never form a cycle",
     "A resource that is a descendant of a component may depend on that component, or on siblings that do: the program still finishes, and the "
     "dependency graph the engine receives has no cycle. (Excepted: circles that also need data produced inside the circle.)",
     ["programs", "schedules"], "every nesting of components and dependencies on them, under every schedule",
     "Tests contain a few fixed shapes; deadlock needs a particular shape and order of completion.",
     [RT + "resource_cycle_breaker.py", RT + "resource.py"],
     [{"name": "dependency declaration that drops edges which would close a circle", "where": RT + "resource_cycle_breaker.py"},
      {"name": "expansion of components without waiting for oneself", "where": RT + "resource.py _expand_dependencies"}],
     [{"comp": 800, "self": 500, "depends": 700, "resval": 600, "n": (4, 12)}, {"comp": 700, "self": 300, "remote": 300, "n": (3, 10)}],
     ["graph.cycle", "deps.missing", "reg.missing"])

prog("R05", "A secret stays marked as secret everywhere it flows",
     "Every value derived from a secret - through combinators, callbacks, nesting in inputs, answers of the engine, method results, stack and "
     "component outputs - is marked secret wherever it leaves the program towards an engine that supports secrets, and values that come from "
     "no secret are not.",
     ["programs", "schedules", "inputs"], "every data flow from a secret to the engine, under every order in which the parts become known",
     "Tests check direct flows with known values; a lost mark needs a combination of nesting, unknowns and timing.",
     [PY + "output.py", RT + "rpc.py", RT + "resource.py", RT + "invoke.py"],
     [{"name": "secretness of combined outputs", "where": PY + "output.py apply, all, from_input"},
      {"name": "marking on the wire", "where": RT + "rpc.py serialize_property, resolve_outputs"}],
     [{"secret": 900, "sec_out": 800}, {"secret": 800, "sec_out": 600, "feat_err": 500}, {"secret": 700, "sec_out": 700, "nested": 800, "comp": 500, "call": 500, "remote": 400},
      {"secret": 700, "preview": 800, "unk_out": 600, "sec_out": 500}, {"secret": 600, "sec_out": 600, "unsecret": 500, "nofeat": 400},
      {"typed": 800, "nestsec": 800, "secret": 600}, {"cfg": 900, "sref": 700, "read": 600, "nestsec": 800}, {"trans": 700, "strans": 600, "legacy": 500, "sec_out": 600},
      {"sref": 900, "read": 800, "preview": 800, "unk_out": 700, "apply": 900}],
     ["*.secret", "opts.aso"])

prog("R06", "Unknown values in a preview stay unknown and never reach callbacks",
     "During a preview, a value the engine does not know yet is sent onwards as unknown wherever it flows, callbacks on unknown values are not "
     "run, and everything that is known is sent and passed to callbacks exactly as in an update.",
     ["programs", "schedules", "inputs"], "every mix of known and unknown values through every combinator, under every schedule",
     "Tests check single unknown values; partially unknown nested values combine with schedule and secretness.",
     [PY + "output.py", RT + "rpc.py", RT + "resource.py"],
     [{"name": "knownness of outputs", "where": PY + "output.py"}, {"name": "unknown sentinel on the wire", "where": RT + "rpc.py"}],
     [{"preview": 950, "!preview": 1, "unk_out": 700}, {"preview": 950, "!preview": 1, "unk_out": 500, "nested": 900, "deep": 800, "apply": 900},
      {"preview": 950, "!preview": 1, "unk_out": 600, "remote": 500, "call": 500, "read": 400, "get": 200},
      {"preview": 950, "!preview": 1, "unk_out": 600, "typed": 800, "nestsec": 800}, {"preview": 950, "!preview": 1, "unk_out": 600, "sref": 600, "read": 500, "legacy": 500},
      {"preview": 950, "!preview": 1, "unk_out": 600, "coro": 900}, {"preview": 950, "!preview": 1, "unk_out": 600, "read": 900, "apply": 900},
      {"preview": 950, "!preview": 1, "provider": 700, "remote": 400, "comp": 500, "call": 400, "invoke": 300, "penv": 300}],
     ["*.unknown", "obj.value", "outs.value", "compout.value", "cb.*"])

prog("R07", "Callbacks run exactly once with the same value under every schedule",
     "A callback on a value runs exactly once, with the value the program's data flow determines, no matter in which order the parts of that "
     "value become known; a callback on something that failed never runs. Structured values keep their declared types and field names.",
     ["programs", "schedules", "inputs"], "every composition of outputs, awaitables and callbacks and every completion order",
     "Tests resolve futures in one order; the combinators must be insensitive to all of them.",
     [PY + "output.py"],
     [{"name": "apply / all / from_input / concat / getitem", "where": PY + "output.py"}],
     [{"apply": 900, "nested": 800, "acb": 600, "coro": 600}, {"apply": 900, "deep": 900, "coro": 600, "unk_out": 100, "preview": 200}, {"cbraise": 200, "corofail": 150, "apply": 800},
      {"typed": 900, "apply": 900, "deep": 700}, {"typed": 500, "legacy": 500, "sref": 500, "read": 400, "apply": 900}, {"coro": 950, "!coro": 1, "unk_out": 300, "preview": 400, "secret": 500},
      {"hyd": 500, "asset": 400, "ansid": 300, "apply": 900}],
     ["cb.*", "obj.value", "outs.value"])

prog("R08", "A program in which something failed never ends successfully",
     "If a registration, read, lookup, output registration or method call is refused, an input or callback raises, or the program itself "
     "raises, then the program is reported as failed - whichever of them it was, whether or not anything consumed its result, and whatever "
     "else was in flight.",
     ["fault_sequences", "schedules", "programs"], "every single failure (and pairs) at every position of every program, under every schedule",
     "Tests inject a failure in one or two positions; losing an error needs the failing work to be unobserved at the end.",
     [RT + "stack.py", RT + "rpc_manager.py", PY + "output.py", "sdk/python/cmd/pulumi-language-python-exec", PY + "automation/_server.py"],
     [{"name": "propagation of exceptions to the end of the program", "where": RT + "stack.py wait_for_rpcs, run_in_stack"},
      {"name": "exit status", "where": "sdk/python/cmd/pulumi-language-python-exec"}],
     [{"err": 350}, {"cbraise": 300, "apply": 800}, {"corofail": 300, "coro": 500}, {"raise": 250, "call": 300, "failures": 400, "invoke": 400},
      {"oaerr": 300, "comp": 600}, {"feat_err": 150, "err": 150, "cbraise": 150, "failures": 200, "catch": 200},
      {"badout": 400, "badref": 400, "sref": 500, "read": 400}, {"cfg": 900, "badcfg": 500, "cbraise": 100}, {"raise": 700, "misuse": 950, "!misuse": 1}, {"badval": 400, "call": 200},
      {"err": 200, "cbraise": 200, "corofail": 150, "_preempt": 40}],
     ["end.false_success"])

prog("R09", "Nothing that depends on a failed resource is ever registered",
     "Once a resource fails, no resource, read, method call or component output that depends on it - by value, explicitly, as parent or "
     "provider - is sent to the engine; what does not depend on it is unaffected until the program ends.",
     ["fault_sequences", "schedules", "programs"], "every failing resource at every position, every dependency shape, every schedule",
     "Tests check a direct dependent of one failure; indirect edges and late failures depend on schedule.",
     [RT + "resource.py", RT + "rpc.py", PY + "output.py"],
     [{"name": "failing every output of a failed resource", "where": RT + "rpc.py resolve_outputs_due_to_exception"},
      {"name": "awaiting parents, providers and dependencies before a request", "where": RT + "resource.py prepare_resource"}],
     [{"err": 500, "depends": 600}, {"err": 450, "comp": 700, "provider": 500}, {"cbraise": 250, "corofail": 200, "apply": 700},
      {"err": 400, "call": 500, "invoke": 400, "read": 300, "remote": 300}, {"badval": 500, "depends": 500, "comp": 500}],
     ["reg.after_failure", "reg.unexpected", "compout.after_failure", "compout.unexpected", "call.unexpected", "invoke.unexpected",
      "cb.unexpected", "outs.value"])

prog("R10", "A program always ends, even when the engine fails or disappears",
     "Whatever the engine refuses, however slowly it answers, and even if it disappears with requests in flight, the program ends within "
     "bounded time; if the engine disappeared before answering what the program needed, the program does not report success to its caller. "
     "(Excepted: the circular waits recorded as known findings of R04 and R12.)",
     ["fault_sequences", "crash_points", "schedules"], "every point at which the engine can refuse, stall or die, under every schedule",
     "Tests never kill the engine; a hang needs an unresolved value at one particular point.",
     [RT + "resource.py", RT + "stack.py", RT + "settings.py", PY + "log.py", PY + "automation/_server.py"],
     [{"name": "failing outputs when a request fails", "where": RT + "resource.py"},
      {"name": "translation of transport errors", "where": RT + "settings.py grpc_error_to_exception"}],
     [{"death": 600}, {"death": 400, "slow": 400, "comp": 600}, {"err": 400, "badout": 200}, {"cbraise": 300, "corofail": 300, "failures": 300, "feat_err": 150},
      {"death": 500, "invoke": 500, "call": 500, "log": 500}, {"death": 500, "err": 200, "_preempt": 40}],
     ["end.false_success"])

prog("R11", "A resource's outputs are what the engine answered for that resource",
     "After its registration is answered, a resource's URN, ID and every output property have the value, unknownness and secretness the engine "
     "answered for that very resource (in an update, inputs standing in where the engine gave nothing), however many answers are in flight.",
     ["schedules", "inputs", "programs"], "every set of answers and every order of their delivery",
     "Tests deliver one canned answer at a time; mixing answers or losing properties needs concurrency and nested values.",
     [RT + "rpc.py", RT + "resource.py"],
     [{"name": "resolving outputs from an answer", "where": RT + "rpc.py resolve_outputs, deserialize_property"},
      {"name": "URN and ID resolution", "where": RT + "resource.py register_resource, read_resource"}],
     [{"sec_out": 500, "unk_out": 500, "refs": 600, "export": 900, "apply": 800}, {"read": 400, "get": 300, "export": 900, "refs": 400},
      {"echo": 900, "export": 900, "remote": 400, "preview": 500, "unk_out": 400}, {"share": 500, "export": 900, "pdeps": 600},
      {"typed": 900, "export": 900, "nestsec": 600}, {"legacy": 800, "export": 900, "echo": 800}, {"sref": 800, "read": 700, "export": 900, "badout": 100},
      {"hyd": 600, "asset": 400, "ansid": 400, "export": 900, "apply": 700}],
     ["cb.value", "cb.missing", "cb.unexpected", "outs.*", "obj.*", "compout.value"])

prog("R12", "A lookup returns its own result, in order, however much else is in flight",
     "A synchronous lookup sends exactly the stated arguments and options (merged, and with its parent's provider, as documented), blocks until "
     "its own answer arrives while other work keeps making progress, and returns that answer or raises; lookups made inside callbacks of other "
     "lookups behave the same. (Excepted: one that needs the result of a callback whose own lookup started earlier.)",
     ["schedules", "inputs", "fault_sequences", "programs"], "every nesting of lookups within callbacks and every order of answers and failures",
     "Tests make lookups one at a time; nested event-loop pumping interacts with everything else in flight.",
     [RT + "invoke.py", RT + "sync_await.py"],
     [{"name": "nested pumping of the event loop", "where": RT + "sync_await.py"}, {"name": "lookup", "where": RT + "invoke.py invoke"}],
     [{"invoke": 900, "apply": 700}, {"invoke": 900, "acb": 600, "nested": 700, "slow": 300}, {"invoke": 900, "failures": 400, "catch": 500},
      {"invoke": 900, "err": 200, "catch": 300, "provider": 500, "ptree": 600}, {"invoke": 950, "ioptv": 900, "provider": 700, "comp": 500},
      {"invoke": 950, "!invoke": 1, "ioptv": 950, "!ioptv": 1, "provider": 900, "!provider": 1, "comp": 900, "!comp": 1, "opts": 0, "invs": 500, "coro": 0, "n": (5, 10)}, {"invoke": 900, "hyd": 600, "asset": 400}],
     ["invoke.*", "obj.value", "cb.value", "end.false_success"])

prog("R13", "A method call sends its arguments with their dependencies and returns its result",
     "A call of a method on a resource sends the stated arguments with, for each, the resources it came from, together with the resource's "
     "provider and version, exactly once; its result carries the answered values with their unknownness, secretness and dependencies.",
     ["schedules", "inputs", "programs", "fault_sequences"], "every argument data flow and every order of answers and failures",
     "Tests do not run calls concurrently with registrations nor with late, secret or unknown arguments.",
     [RT + "invoke.py", RT + "rpc.py"],
     [{"name": "call", "where": RT + "invoke.py call"}],
     [{"call": 900, "resval": 400, "secret": 500}, {"call": 900, "comp": 500, "remote": 400, "provider": 500, "ptree": 500}, {"call": 900, "preview": 600, "unk_out": 500},
      {"call": 900, "failures": 300, "err": 200}, {"call": 900, "hyd": 600, "asset": 500, "refs": 500}],
     ["call.*", "obj.value", "obj.secret", "obj.unknown", "outs.value", "outs.secret", "outs.unknown", "end.false_success"])

prog("R14", "Stack outputs arrive once, complete and faithful",
     "The values a program exports reach the engine exactly once per run, under their names, with resources turned into their data, secrets "
     "marked and unknowns preserved - however late they become known, and also when the same object is exported several times.",
     ["schedules", "inputs", "programs"], "every exported value and every schedule",
     "Tests export a handful of constants and one resource.",
     [RT + "stack.py", RT + "rpc.py", RT + "resource.py"],
     [{"name": "stack outputs", "where": RT + "stack.py Stack, massage"}, {"name": "sending", "where": RT + "resource.py register_resource_outputs"}],
     [{"export": 950}, {"export": 950, "share": 800, "comp": 400}, {"export": 950, "preview": 700, "unk_out": 500, "secret": 500}, {"export": 950, "deep": 900, "asset": 400, "coro": 500},
      {"export": 950, "shape": 800, "share": 400, "comp": 500}, {"export": 950, "shape": 500, "secret": 500, "preview": 500, "unk_out": 500, "hyd": 400},
      {"export": 950, "oaerr": 400, "!oaerr": 1}],
     ["outs.*"])

prog("R15", "Component outputs are sent once, after the component is registered",
     "The outputs a component registers are sent exactly once, for that component's own URN and not before its registration was answered, with "
     "the stated values, secrets and unknowns; they are not sent if they cannot be computed.",
     ["schedules", "programs", "inputs", "fault_sequences"], "every component, output value, schedule and failure",
     "Tests register outputs of one component at a time with known values.",
     [RT + "resource.py", PY + "resource.py"],
     [{"name": "register_resource_outputs", "where": RT + "resource.py"}],
     [{"comp": 900, "compout": 950, "!comp": 1}, {"comp": 900, "compout": 950, "secret": 600, "preview": 600, "unk_out": 500}, {"comp": 900, "compout": 950, "err": 300, "cbraise": 150}, {"comp": 800, "compout": 950, "oaerr": 300}],
     ["compout.*", "end.false_success"])

prog("R16", "Each log message arrives once, at its severity, attached to its resource",
     "Every message the program logs reaches the engine exactly once with its severity, stream and ephemerality, and the URN of the resource it "
     "is about if it is about one, even when the URN becomes known only later; messages of failed programs are reported too.",
     ["schedules", "programs"], "every position of log lines and every order of registration answers",
     "Tests log without a resource or with mocks that answer immediately.",
     [PY + "log.py"], [{"name": "log", "where": PY + "log.py _log"}],
     [{"log": 900, "stream": 700}, {"log": 900, "comp": 600, "slow": 400}, {"log": 900, "apply": 800, "acb": 500}, {"log": 900, "_preempt": 40}],
     ["logs.*"])

prog("R17", "Older engines get the values they understand, and nothing else breaks",
     "Whichever optional features the engine lacks (secrets, resource references, output values, or the feature query itself), the program "
     "still works: values are sent in the plain form such an engine understands, and dependencies and results are unchanged.",
     ["configurations", "schedules", "programs"], "every subset of features, every program, every order of feature answers",
     "Tests run with one fixed feature set.",
     [RT + "settings.py", RT + "rpc.py"],
     [{"name": "feature negotiation", "where": RT + "settings.py monitor_supports_feature"}, {"name": "plain fallbacks", "where": RT + "rpc.py serialize_property"}],
     [{"nofeat": 600}, {"nofeat": 600, "remote": 500, "call": 500, "secret": 600}, {"nofeat": 500, "refs": 600, "resval": 600, "comp": 500}, {"nofeat": 600, "hyd": 600, "asset": 500, "call": 400}, {"nofeat": 600, "_preempt": 40},
      {"feat_err": 700, "secret": 600, "sec_out": 500, "remote": 300, "resval": 400}],
     ["obj.*", "outs.*", "compout.*", "call.*", "invoke.*", "deps.*", "pdeps.*", "opts.*"])


PV = PY + "provider/server.py"
PV_OBS = ["answers of the provider", "requests each monitor receives"]
PV_ANY = ("in.keys", "resp.value", "resp.unknown", "resp.secret", "resp.deps", "obj.*", "opts.*", "deps.*", "pdeps.*", "compout.*", "reg.*", "cb.*",
          "call.*", "invoke.*")

prov("R18", "A component provider answers from exactly what its request carried",
     "Provider code serving a construct or call sees the inputs, options, configuration, project and preview flag its request carried, with "
     "unknownness, secretness and dependencies, and what it registers carries them on. The answer holds the values the code returned, each with "
     "its unknownness, secretness and the resources it came from. It states its own "
     "version and schema when asked.",
     ["inputs", "programs", "schedules"], "every request, every provider code and every order in which values become known",
     "Tests convert single inputs; they do not follow values through provider code with late, unknown and secret parts into the answer.",
     [PV, RT + "rpc.py", PY + "resource.py", PY + "output.py"],
     [{"name": "conversion of inputs", "where": PV + " _construct_inputs, _call_args, _select_value"},
      {"name": "options from the request", "where": PV + " _construct_options"}, {"name": "the answer", "where": PV + " _construct_response, _call_response"}],
     [{}, {"secret": 800, "sec_out": 600}, {"preview": 900, "!preview": 1, "unk_out": 600}, {"depends": 800, "provider": 700, "alias": 600, "opts": 600},
      {"refs": 700, "resval": 700, "comp": 500, "remote": 300}, {"cfg": 900, "oldeng": 500, "secret": 500}, {"call_req": 900, "call": 400, "deep": 800},
      {"typed": 600, "legacy": 400, "nested": 800, "apply": 800}, {"nofeat": 600, "secret": 600}, {"hyd": 500, "asset": 500, "refs": 400}],
     PV_ANY, observe=PV_OBS)

prov("R19", "Requests served by one provider process do not affect each other",
     "However construct and call requests overlap - and whether others fail, raise, are cancelled, lose their engine, or leave work behind - "
     "each is answered as if it were the only one: with its own monitor, project, stack, configuration, preview flag and values.",
     ["schedules", "histories", "fault_sequences"], "every interleaving of requests and every failure or cancellation of the others",
     "Tests serve one request in a fresh process.",
     [PV, RT + "rpc_manager.py", RT + "settings.py", RT + "config.py"],
     [{"name": "serialising of requests", "where": PV + " Construct, Call"}, {"name": "per-context settings", "where": RT + "settings.py, _utils.contextproperty"},
      {"name": "per-context RPC state", "where": RT + "rpc_manager.py"}],
     [{"reqs": (2, 5), "overlap": 900, "cfg": 700}, {"reqs": (2, 4), "err": 500, "overlap": 600}, {"reqs": (2, 4), "cancel": 600, "slow": 300, "overlap": 800},
      {"reqs": (2, 4), "death": 400, "overlap": 700}, {"reqs": (2, 4), "cbraise": 300, "corofail": 200, "braise": 300, "overlap": 600},
      {"reqs": (2, 5), "preview": 500, "cfg": 800, "secret": 500, "nofeat": 500},
      {"reqs": (2, 4), "overlap": 900, "err": 150, "cancel": 150, "_preempt": 40}],
     PV_ANY + ("logs.*",), observe=PV_OBS)

prov("R20", "A provider request is answered once all it started is done, and fails if any of it failed",
     "Every construct or call is answered within bounded time, whatever its engine refuses and even if it disappears. A successful answer leaves "
     "only after everything the request's code started - resources, callbacks, outputs, lookups - is finished; if any of it failed or the code "
     "raised, the answer is an error.",
     ["fault_sequences", "schedules", "crash_points"], "every failure at every position of the provider's code, under every schedule",
     "Tests have no resources in flight when a request is answered and inject no failures.",
     [PV, RT + "stack.py", RT + "rpc_manager.py", PY + "output.py"],
     [{"name": "waiting for outstanding work", "where": RT + "stack.py wait_for_rpcs"}, {"name": "order of answering", "where": PV + " _construct, _call"}],
     [{"apply": 800, "acb": 600, "slow": 300}, {"err": 500}, {"cbraise": 300, "corofail": 300, "apply": 700}, {"death": 500, "slow": 200},
      {"braise": 400, "failures": 400, "invoke": 500, "call": 300}, {"oaerr": 400, "comp": 800, "slow": 300}, {"call_req": 900, "acb": 700, "apply": 800, "cbraise": 100}],
     ["resp.early", "end.false_success", "reg.missing", "reg.unfinished", "compout.missing", "cb.missing"], observe=PV_OBS)


kind("auto", "world_auto",
     "Generated clients of the automation API run operations (inline and local programs, updates, previews, configuration, settings, state, plugins) "
     "concurrently on threads in one process; each operation drives a scripted pulumi command line that checks its arguments and environment, writes "
     "output and event logs in arbitrary pieces, runs the inline program through the real language server, fails, crashes or is refused by the system, "
     "all drawn from the seed.",
     {"real": ["pulumi.automation (stack, command runner, local workspace, language server, event watcher, settings) and the SDK runtime, from /repo's working tree",
               "asyncio, concurrent.futures, protobuf, json, yaml", "files under a scratch directory"],
      "stub": ["pulumi command line (scripted, with a model of its state and flags)", "engine and resource monitor (scripted peer)", "grpc server and transport (simulated)",
               "subprocess, threads, locks, clock, sleep, event-loop selector (simulator seams)"]},
     ["the command line writes complete lines to the event log, in pieces of any size, before it ends, unless it crashes",
      "its output is valid UTF-8 up to a crash", "clients use the documented public API, each Stack from one thread at a time"],
     "deterministic simulation of automation clients + command line + engine, seeded schedules and faults, commands, results and leftovers checked against a reference model",
     "Seeded sampling; a clean run is evidence, not proof. Trusts the simulator, the scripted command line and the model in vf/auto_oracle.py.")

AU = PY + "automation/"


def auto(id, *a, **k):
    k.setdefault("quick", 1800)
    k.setdefault("common", ("stuck", "stuck.wall", "result.false_failure"))
    claim("auto", id, *a, **k)


auto("R21", "Every engine event of an operation is delivered once, in order and unaltered",
     "An operation with an event callback delivers every event the engine reported for it, each exactly once, in the order reported, with every field "
     "as reported, before the operation returns - however the log is written, whatever else runs, and also when the operation fails. A preview's "
     "change summary is the one its own events report.",
     ["schedules", "fault_sequences", "histories"], "every split of the event log into writes, every speed of writer and callback, every failure point",
     "Tests run no event log at all without a CLI; torn lines and the end of the log depend on timing.",
     [AU + "_stack.py", AU + "events.py"],
     [{"name": "watching the event log", "where": AU + "_stack.py _watch_logs"}, {"name": "decoding of events", "where": AU + "events.py EngineEvent.from_json"}],
     [{"events": 950, "!events": 1, "w_config": 3, "w_misc": 3, "w_settings": 1, "w_state": 1}, {"events": 950, "torn": 900, "!torn": 1, "slowcb": 500, "w_preview": 40},
      {"events": 950, "kill": 500, "inline": 900, "progfail": 400}, {"events": 950, "nocancel": 500, "clifail": 400, "w_preview": 40, "sabotage": 500},
      {"events": 950, "cbraise": 500, "sysfail": 200}, {"events": 950, "!events": 1, "clients": (2, 4), "overlap": 950, "torn": 600, "inline": 900},
      {"events": 950, "torn": 500, "kill": 200, "_preempt": 30}],
     ["event.*", "result.value"], observe=["events passed to callbacks", "results of operations"])

auto("R22", "An operation asks the command line what was asked and reports what it answered",
     "Each automation operation runs exactly the commands it stands for, in order, for its own stack, with every option and argument it was given, in "
     "its workspace's directory and environment. It returns what they answered - outputs with their secretness, history, configuration, output "
     "lines - or raises the error class their failure documents, carrying what they reported; it never succeeds when a command failed.",
     ["inputs", "histories", "fault_sequences", "schedules"], "every operation, option and answer, and every command that can fail, in every sequence",
     "Tests of the automation API need a real CLI and do not run here; they sample a few happy paths.",
     [AU + "_stack.py", AU + "_local_workspace.py", AU + "_cmd.py", AU + "errors.py", AU + "_output.py", AU + "_config.py"],
     [{"name": "running a command", "where": AU + "_cmd.py _run_pulumi_cmd"}, {"name": "options to arguments", "where": AU + "_stack.py _parse_extra_args"},
      {"name": "workspace commands", "where": AU + "_local_workspace.py"}, {"name": "error classes", "where": AU + "errors.py create_command_error"}],
     [{}, {"opt": 900, "!opt": 1, "env": 900, "w_config": 5, "w_misc": 5, "inline": 300}, {"clifail": 500, "existing": 500}, {"w_config": 60, "w_misc": 60, "w_state": 40, "clifail": 300},
      {"output": 900, "!output": 1, "bigout": 300, "w_config": 3, "w_misc": 3, "inline": 300}, {"clients": (2, 4), "overlap": 950, "env": 900, "sabotage": 500},
      {"w_misc": 60, "w_state": 40, "w_up": 5, "w_preview": 5, "exotic": 800, "ops": (4, 10), "inline": 200},
      {"hooks": 900, "clifail": 200}, {"badver": 500, "!badver": 1, "clifail": 600, "existing": 600}],
     ["cmd.*", "result.*", "prog.program"], observe=["commands run, with arguments, directory and environment", "results and errors of operations"])

auto("R23", "An automation operation leaves nothing behind, however it ends",
     "After an operation returns or raises - success, failing command, crashed command, failing program, raising callback, or the system refusing a "
     "process, thread, port or file - no temporary file, directory, thread, process or language server of it remains, and later and "
     "concurrent operations behave as if it had never run.",
     ["fault_sequences", "histories", "schedules"], "every point at which an operation can fail, in every sequence of operations",
     "Tests do not fail operations part-way and do not look at what remains.",
     [AU + "_stack.py", AU + "_server.py", AU + "_local_workspace.py", AU + "_cmd.py"],
     [{"name": "clean-up of an operation", "where": AU + "_stack.py Stack.up, preview, refresh, destroy, _run_pulumi_cmd_sync"},
      {"name": "temporary files", "where": AU + "_local_workspace.py, _stack.py import_stack, up"}],
     [{"sysfail": 500, "events": 700}, {"clifail": 450, "events": 700, "inline": 900}, {"cbraise": 500, "events": 800, "output": 700}, {"kill": 600, "inline": 950, "events": 500},
      {"sysfail": 600, "w_state": 60, "w_up": 5, "clifail": 300, "inline": 300}, {"progfail": 600, "inline": 950, "clients": (2, 4), "overlap": 950},
      {"nocancel": 400, "sysfail": 200, "clifail": 200, "events": 800}, {"sabotage": 950, "!sabotage": 1, "events": 700, "inline": 800, "clients": (1, 2)},
      {"events": 800, "sysfail": 200, "clifail": 200, "kill": 200, "_preempt": 30}],
     ["left.*", "result.false_success", "event.missing", "event.extra", "cmd.unexpected", "cmd.missing", "prog.runs", "result.callback"],
     observe=["temporary directory, threads, processes and servers after each operation and at the end", "results of operations"])

auto("R24", "Inline programs of concurrent stacks run as if each were alone",
     "The inline program of an operation runs exactly as often as its engine asks for it, with its own project, stack, configuration and preview flag and its "
     "own engine, whatever other stacks in the process run at the same time; its resources, values, outputs, log lines and failures reach its own "
     "engine only. When it fails, the operation fails.",
     ["schedules", "programs", "histories", "fault_sequences"], "every interleaving of inline programs in one process and every failure of one of them",
     "Tests run one inline program at a time, and not without a CLI.",
     [AU + "_server.py", AU + "_stack.py", RT + "settings.py", RT + "stack.py", RT + "config.py", RT + "rpc_manager.py"],
     [{"name": "language server of an inline program", "where": AU + "_server.py LanguageServer.Run"},
      {"name": "per-context settings", "where": RT + "settings.py, config.py, rpc_manager.py"}],
     [{"inline": 950, "!inline": 1, "w_config": 3, "w_misc": 3, "w_settings": 1, "w_state": 1}, {"inline": 950, "clients": (2, 4), "overlap": 950, "ops": (2, 3), "w_up": 60, "w_preview": 40},
      {"inline": 950, "clients": (2, 4), "progfail": 600, "overlap": 950, "w_up": 60}, {"inline": 950, "clients": (2, 3), "kill": 500, "overlap": 950, "w_up": 60},
      {"inline": 950, "clients": (2, 4), "overlap": 950, "w_up": 60, "prog": {"n": (1, 5), "apply": 800, "acb": 500, "cfg": 700, "secret": 500, "log": 500}},
      {"inline": 950, "clients": (2, 4), "overlap": 950, "w_up": 60, "_preempt": 30}],
     ["prog.*", "result.false_success", "result.error"], observe=["requests each program's engine receives", "how each run ends"])

auto("R25", "Workspace settings and configuration survive every round trip",
     "Project and stack settings written through the workspace, or lying in its files in any format the command line accepts, are read back equal, "
     "with nothing lost, added or retyped. Configuration set through a stack or workspace is what later reads return, with its secretness, and "
     "what callers pass in is never modified.",
     ["inputs", "histories", "configurations"], "every settings value and file format, and every history of reads and writes",
     "Tests round-trip a few fixed files.",
     [AU + "_project_settings.py", AU + "_stack_settings.py", AU + "_local_workspace.py"],
     [{"name": "settings files", "where": AU + "_local_workspace.py project_settings, stack_settings, save_*"},
      {"name": "conversion", "where": AU + "_project_settings.py, _stack_settings.py"}],
     [{"w_settings": 120, "w_config": 30, "w_up": 4, "w_preview": 4, "ops": (3, 8)}, {"w_config": 120, "w_up": 4, "w_preview": 4, "ops": (4, 10), "exotic": 700},
      {"shared": 900, "inline": 900, "w_settings": 60, "env": 900, "existing": 400}, {"w_settings": 80, "w_up": 20, "clients": (2, 4), "overlap": 950}, {"hooks": 800, "w_settings": 50, "w_config": 50, "existing": 400}],
     ["settings.*", "result.value", "cmd.args"], observe=["settings read back", "configuration read back", "files and arguments written"])


kind("dyn", "world_dyn",
     "A generated program creates dynamic resources - some share a provider, a dict of properties, a class; some are made late, or by several "
     "inline programs at once - under the real SDK; then the real dynamic provider process serves generated check, diff, create, read, update and "
     "delete requests for them, many at once, with every thread switch, delay and slow or raising method drawn from the seed.",
     {"real": ["pulumi.dynamic, pulumi.dynamic.__main__ and the SDK runtime under them, from /repo's working tree", "language host entry point, inline LanguageServer",
               "dill, concurrent.futures, asyncio, protobuf"],
      "stub": ["engine (scripted peer)", "grpc.server and gRPC transport (simulated)", "process boundary between program and provider (one process, state passes "
               "only through the requests)", "threads, locks, clock, sleep (simulator seams)"]},
     ["provider code uses the documented public API", "no request lacks the provider's serialised text", "dill serialises a module's classes as documented"],
     "deterministic simulation of program, engine and dynamic provider process, seeded schedules and faults, requests and answers checked against a reference model",
     "Seeded sampling; a clean run is evidence, not proof. Trusts the simulator, the scripted engine and the model in vf/world_dyn.py.")


claim("dyn", "R26", "Each dynamic resource request runs that resource's own provider code",
      "Each check, diff, create, read, update or delete of a dynamic resource runs that resource's own provider, as the program that created it defined "
      "it, exactly once with the values sent, and is answered with what the code returned - or an error if it raised - however many run at once. A "
      "provider is serialised the same way every time. Creating and serving dynamic resources changes no object of the program or of the provider's code.",
      ["programs", "inputs", "schedules", "fault_sequences"], "every provider, program, sequence of requests and interleaving of them",
      "Tests serialise no provider twice, run no requests at once, and do not run the provider process.",
      [PY + "dynamic/dynamic.py", PY + "dynamic/__main__.py", RT + "rpc.py"],
      [{"name": "serialising a provider", "where": PY + "dynamic/dynamic.py serialize_provider"}, {"name": "registration", "where": PY + "dynamic/dynamic.py Resource.__init__"},
       {"name": "serving requests", "where": PY + "dynamic/__main__.py DynamicResourceProviderServicer"}],
      [{}, {"_preempt": 40, "life": (1, 3)}, {"lives": 1000, "n": (2, 5), "provs": (2, 4), "sleep": 800, "life": (3, 8)}, {"inline": 1000, "progs": (2, 4), "n": (2, 6), "_preempt": 20},
       {"kept": 800, "raise": 400, "gone": 500}, {"mixed": 900, "fresh": 800, "share": 600, "inline": 200}, {"unknown": 800, "exotic": 900, "partial": 900}],
      ["dyn.*", "obj.value", "opts.*", "dep.wrong", "reg.*"], quick=3000, observe=["requests the engine receives", "calls of provider code and their arguments", "answers"])


kind("mock", "world_mock",
     "A generated series of unit tests - programs like those of the other checks, under pulumi.runtime.test - runs with mocks set once or by each test; the "
     "mocks answer from a plan, some slowly, some by raising, with every thread switch, delay and fault drawn from the seed.",
     {"real": ["pulumi.runtime.mocks (set_mocks, test, MockMonitor, MockEngine) and the SDK runtime under it, from /repo's working tree",
               "asyncio, concurrent.futures, protobuf"],
      "stub": ["the user's mocks (scripted)", "threads, locks, clock, sleep, event-loop selector (simulator seams)"]},
     ["tests use the documented public API", "tests are run one after another by one thread, as test runners do", "mocks may be called on other threads"],
     "deterministic simulation of a series of unit tests and their mocks, seeded schedules and faults, calls and outcomes checked against a reference model",
     "Seeded sampling; a clean run is evidence, not proof. Trusts the simulator and the models in vf/model.py, vf/world_mock.py.")

claim("mock", "R27", "Tests under mocks see what an engine would see, and fail exactly when they should",
      "A test run with mocks hands each resource and lookup its program makes to the mocks exactly once, with its inputs, project, stack and preview "
      "flag, and gives the program the mocks' answers. It passes only when everything it started is done and nothing of it - its body, a mock, a "
      "registration, the output it returns - failed, and never fails for something an earlier test did.",
      ["programs", "schedules", "fault_sequences", "histories"], "every series of tests, every speed and failure of the mocks and every schedule",
      "The suite uses mocks that answer at once, in tests that pass, on one thread.",
      [RT + "mocks.py", RT + "stack.py", RT + "rpc_manager.py", RT + "sync_await.py", RT + "settings.py"],
      [{"name": "running a test", "where": RT + "mocks.py test"}, {"name": "answering from mocks", "where": RT + "mocks.py MockMonitor"},
       {"name": "settings on the threads that mocks run on", "where": RT + "sync_await.py _run_in_thread"}],
      [{}, {"each": 1000, "tests": (2, 6), "n": (1, 4), "alias": 300}, {"err": 450, "slow": 300}, {"cbraise": 300, "corofail": 300, "apply": 800, "slow": 300},
       {"raise": 400, "failures": 500, "invoke": 600, "catch": 300}, {"wrong": 400, "tests": (2, 5), "acb": 800}, {"oaerr": 300, "comp": 700},
       {"preview": 950, "!preview": 1, "unk_out": 500, "secret": 600}, {"typed": 600, "legacy": 500, "secret": 600, "nestsec": 700, "echo": 800},
       {"read": 700, "log": 700, "cfg": 600, "_preempt": 30}],
      ["mock.*", "reg.*", "obj.*", "opts.*", "deps.*", "pdeps.*", "prec", "graph.cycle", "compout.*", "invoke.*", "cb.*", "logs.*", "end.*"], quick=4000,
      observe=["calls of the mocks and their arguments", "which tests pass"])

prog("R28", "A program runs as it was started, and its failure is shown once",
     "A program started from the command line sees the arguments, working directory, project, stack, organization and preview flag it was started "
     "with, wherever its file or directory lies. When it fails, exactly one error message reaches the engine and names the failure (for an error "
     "of the program itself beginning at the program's own line), and the exit status or answer agrees with it; a program that succeeds shows none.",
     ["configurations", "programs", "fault_sequences", "schedules"],
     "every way to start a program, every failure at every position of it, and every schedule of what else is in flight",
     "Tests of the executor start one fixed program in one place; what is shown for a failure depends on where it happened and what else failed.",
     ["sdk/python/cmd/pulumi-language-python-exec", PY + "automation/_server.py", RT + "stack.py", PY + "log.py", RT + "settings.py"],
     [{"name": "starting the program", "where": "sdk/python/cmd/pulumi-language-python-exec"},
      {"name": "showing its failure", "where": "sdk/python/cmd/pulumi-language-python-exec, automation/_server.py Run"}],
     [{"start": 1000}, {"start": 600, "raise": 700, "n": (1, 4)}, {"start": 600, "err": 400, "cbraise": 200}, {"corofail": 300, "failures": 300, "call": 300, "invoke": 300, "catch": 200},
      {"raise": 500, "log": 700, "err": 150, "inline": 500}, {"death": 300, "slow": 300, "start": 300}, {"oaerr": 300, "comp": 600, "badout": 200}, {"raise": 700, "misuse": 950, "!misuse": 1},
      {"err": 300, "raise": 300, "slow": 500, "_preempt": 40}, {"start": 500, "cfg": 900, "badcfg": 500}],
     ["start.*", "fail.*"], observe=["what the program sees when it starts", "error messages the engine receives", "how the program ends"])


def all_props():
    return _P


def get(pid):
    for p in _P:
        if p["id"] == pid:
            return p
    raise SystemExit("unknown property " + pid)


def relevant(p, violations):
    return [[k, m] for k, m in violations if any(fnmatch.fnmatchcase(k, c) for c in p["classes"])]


def pins(pid):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "pins", "*.json"))):
        d = json.load(open(f))
        if pid in d["properties"]:
            d["name"] = os.path.basename(f)[:-5]
            out.append(d)
    return out


def not_applicable():
    return []
