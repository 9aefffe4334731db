"""Writes /verif/MANIFEST.json: one check per property with a module in rv/checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "Runtime monitoring: {} over random and hostile histories of the real code"
TECH = {
    "C01": "runtime monitor: forest invariant and reference model after every operation of random histories",
    "C02": "runtime monitor: names and depths recomputed from observed parents after every operation",
    "C03": "runtime monitor: full snapshots before/after injected invalid operations and injected faults",
    "C04": "runtime monitor: reference model of look-ups and views along random histories",
    "C05": "runtime monitor: clock instrumentation and ordinal monitor along random histories",
    "C06": "runtime monitor: differential twin executions (bulk against single operations)",
    "C07": "runtime monitor: identity collisions and cross-process re-execution under other hash seeds",
    "C08": "runtime monitor: relation/port conservation invariant after every operation of random histories",
    "C09": "runtime monitor: oracle over factory calls with random and hostile arguments",
    "C10": "runtime monitor: recorded visit logs against a reference traversal; interleavings of coroutines",
    "C11": "runtime monitor: recorded pairs of traversals against an independent graph model",
    "C12": "runtime monitor: search results against the current hierarchy along histories of moves",
    "C13": "runtime monitor: query results against a reference evaluation; event loop and descriptor leak monitor",
    "C14": "runtime monitor: bijection oracle over mappings of random graphs, re-executions and restorations",
    "C15": "runtime monitor: tensors against an independent model of random graphs and their changes",
    "C16": "runtime monitor: derived matrices against independent formulas, metamorphic permutations",
    "C17": "runtime monitor: round trips of encoded graphs compared element by element",
    "C18": "runtime monitor: sender/receiver equality under lost, repeated and reordered-with-latest updates",
    "C19": "runtime monitor: sparse entries replayed into dense tensors, repeated exports",
    "C20": "runtime monitor: factorization results against an independent model",
    "C21": "runtime monitor: value operations against list and dictionary models, aliasing monitor",
    "C22": "runtime monitor: structural oracle over generated documents (closed references, counts)",
    "C23": "runtime monitor: numeric oracle over generated documents (inertia, geometry, poses, materials)",
    "C24": "runtime monitor: graph and model oracle over generated descriptions run through the interpreter",
    "C25": "runtime monitor: stress of interleaved threads and tasks, results compared with solo executions",
    "C27": "runtime monitor: heavy executions under a CPU and waiting watchdog, judged by the oracles of the other properties",
    "C28": "runtime monitor: captured output against the observed hierarchy along random histories",
    "C26": "runtime monitor: snapshots around each reading, overwritten results, repeated reading, twins which were not read",
}
NOTE = ("Exploration: holds on every execution observed (counts in the evidence file), judged by an oracle of its own; "
        "executions beyond the explored sizes, histories and interleavings are not covered. Trusts CPython, numpy, cbor2, "
        "lxml and the oracle. ")
EXTRA = {
    "C12": "Searches start without the leftovers of earlier ones (known finding, reproduced and reported by the check).",
    "C24": "The generated ANTLR parser is not in the repository: a stand-in interpreting the repository's grammar files is "
           "trusted to deliver the same parse trees.",
    "C25": "Interleavings are sampled with tiny switch intervals, not enumerated; searches (known finding of C12) are left out.",
    "C22": "Domain: trees of links, see DESIGN.md.", "C23": "Domain: shapes with inertia rules, see DESIGN.md.",
    "C17": "Domain: direct nodes, edges and values of the context; weights of relations are not part of the message.",
}
checks = []
for c in sorted(TECH):
    if os.path.exists(os.path.join(HERE, "rv", "checks", c.lower() + ".py")):
        checks.append({"property": c, "quick_cmd": f"./check.sh {c} --tier quick",
                       "thorough_cmd": f"./check.sh {c} --tier thorough",
                       "evidence_file": f"evidence/{c}.json", "technique": TECH[c], "level": "exploration",
                       "level_note": (NOTE + EXTRA.get(c, "")).strip()})
NA = []
have = {c["property"] for c in checks}
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in have:
        NA.append({"property": p, "reason": "check under construction"})
man = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": NA,
       "notes": "No hooks in /repo: the monitors observe the public interface and Python's sys.monitoring events. "
                "Checks import the sources of /repo/framework_python directly (byte code caches are never read)."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
