"""
Writes MANIFEST.json from the table below and the list of check modules present. Run after adding a check.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "P01": "explicit-state exploration of all paths of schema versions up to a depth; each transition executes the real synchronisation on an executable model of the database server, whose resulting state is compared with an independent expectation",
    "P02": "explicit-state exploration of all paths of schema versions up to a depth on an executable model of the database server; in every state reached the real synchronisation is repeated and must send no data definition",
    "P03": "explicit-state exploration of all pairs of schema versions times permissions on an executable model of the database server with rows; each transition executes the real synchronisation, and what must and may remain is computed from the versions and permissions alone",
    "P04": "explicit-state exploration of all changes between schema versions on an executable model of the database server with rows; each transition executes the real change script, and rows and values are compared before and after",
    "P05": "exhaustive enumeration of class graphs (references, links, composite types, enumerations over up to three classes and namespaces), declaration orders and requested subsets; each creation and drop script of the real generator is executed on an executable model of the database server",
    "P06": "explicit-state exploration to a fixpoint: every operation of a finite alphabet is applied by the real library in every reachable content of a table on an executable model of the database server, and compared with a map from key to record",
    "P07": "exhaustive enumeration of source lengths, kinds, batch sizes, field selections and fault positions; the real library runs each against recording stand-ins of the native drivers backed by an executable model of the database server",
    "P08": "stateless exploration of all interleavings (up to equivalent states) of the requests of one to three writers that run the real library under a controlled scheduler on an executable model of the database server and driver; lookup tables are checked in every state",
    "P09": "exhaustive enumeration of positions of a string in a schema, strings over an alphabet of special characters and dialects; each history of operations of the real library is executed on an executable model of the database server under that string and under a plain word, and must agree up to the string; scripts of dialects without a model are compared token by token",
    "P10": "exhaustive enumeration of connection strings over a component alphabet, on the real parser, against a component-wise reference",
    "P11": "exhaustive exploration of server behaviours (accept/decline/fail per attempt) x SSL mode on the real connection code, plus loopback TLS handshakes",
    "P12": "exhaustive enumeration of field values x column selections x all read chunkings up to a bound, on the real reader/writer, against identity",
    "P13": "exhaustive enumeration of result-set shapes x target shapes on the real conversion code, against a reference conversion",
    "P14": "exhaustive enumeration of field types, roles, default values, modes and dialects; the real generator's script is executed on an executable model of the database server, and the resulting columns are probed with the boundary values of the declared type from both sides",
    "P15": "exhaustive fault injection: every call to the database of every operation and of every explored change between schema versions fails in turn (refused, lost, timed out, or with the effect kept), on an executable model of the database server; the error that the real library raises and the outcome of every way of trying again are checked",
    "P16": "exhaustive enumeration of bounded universes of databases (types, defaults, keys, references, names, enumerations, composite types, histories of alterations and synchronisations) in two orders of catalog rows; the real discovery code runs its queries on the catalog of an executable model of the database server, and its description is compared with what the model stores",
    "P17": "explicit-state exploration of all histories of operations on a namespace up to a depth, executed by the real library on an executable model of the database server with similarly named namespaces, tables and users beside it; after each request what does not belong to the namespace is compared with its initial state, and after each operation the outcome with that of the same history on a server without them",
    "P18": "exhaustive enumeration of merge orders and groupings of a bounded family of schema descriptions, against a reference union",
    "P19": "exhaustive enumeration of field types, roles, default values, references and names of columns in bounded universes; source code that the real library writes is executed, classes that it makes are converted back, and both must lead to the same description and script",
    "P20": "exhaustive enumeration of field kinds, roles, modes, generator states and data operations over boundary values; each operation of the real library runs against an executable model of the database server and driver, and each stored value is decoded independently of the library",
    "P22": "stateless exploration of all sequences of random choices up to a bound on deviations, on the real generator",
    "P21": "stateless exploration of all interleavings of dispatched calls, completions and cancellations under a controlled executor and event loop",
}
NOT = "not claimed yet: the check is under construction"

checks = []
na = []
for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")) and pid in TECH:
        checks.append({
            "property": pid,
            "quick_cmd": f"bash run.sh {pid} quick",
            "thorough_cmd": f"bash run.sh {pid} thorough",
            "technique": "model checking: " + TECH[pid],
            "level": "model_checking",
            "level_note": "every execution within the bounds recorded in the evidence file; the implementation itself is executed on each",
        })
    else:
        na.append({"property": pid, "reason": NOT})
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo; the checks replace native drivers and executors from outside.",
    }, f, indent=1)
    f.write("\n")
