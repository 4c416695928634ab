#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that rtmpcheck has (grep of its source) and properties.jsonl."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(here + '/rtmpcheck/check_*.go'):
    have |= set(re.findall(r'checks\["(C\d+)"\] = ', open(f).read()))
AI = "abstract interpretation of the SSA form"
TECH = {
 "C01": AI + " over all inputs at once (value-number and bit-slice domain): outcomes compared with the protocol's layout",
 "C02": AI + " over all inputs at once (value-number and bit-slice domain): outcomes compared with the protocol's layout",
 "C03": AI + " over all inputs at once (value-number and bit-slice domain): outcomes compared with the protocol's layout",
 "C04": AI + " over an arbitrary header history, field provenance",
 "C05": AI + " of the receive loop: inductive invariants per chunk stream at the loop head and iteration summaries",
 "C06": AI + " of the receive loop: iteration summaries",
 "C07": AI + " of the writer: fixpoint over the chunking loop with an automaton that absorbs the output",
 "C08": AI + ": message construction, announced length compared with the payload's length term",
 "C09": AI + " over all inputs at once (value-number domain): outcomes compared with the specification",
 "C10": AI + ": result type, provenance and allocation site",
 "C11": AI + ": typestate of the dialogue along every path",
 "C12": AI + ": facts on accepting and refusing paths, provenance of the challenge bytes",
 "C13": AI + " over all inputs at once (value-number domain): outcomes compared with the specification",
 "C14": AI + " with an adversarial source that splits reads anywhere",
 "C15": AI + " with fault injection at every read and write site (error flow)",
 "C16": AI + " of the service loops: typestate of each iteration",
 "C17": AI + ": routing provenance, iteration summaries",
 "C18": "lockset analysis over abstractly interpreted accesses of all exported methods",
 "C19": "lock typestate along all abstractly interpreted paths, lock-order graph",
 "C20": AI + " of the service loops: typestate of closing",
 "C21": AI + " of the service loops with closed inputs",
 "C22": "effect analysis of blocking operations: every delivery is selected together with closing",
 "C23": AI + ": panic freedom of every decoder for arbitrary input",
 "C24": AI + ": upper bounds of allocation sizes",
 "C25": AI + " of the gates over all chunks: decision table",
 "C26": AI + ": dispatch tables from names and ids to fresh objects",
 "C27": AI + " over all inputs at once (value-number domain): outcomes compared with the specification",
 "C28": "ownership and alias analysis of payload memory by abstract interpretation",
 "C29": AI + " of the accept loop: iteration summaries",
 "C30": AI + " of the client's construction and start: wiring and order",
 "C34": AI + " of the dispatcher: typestate of its services",
 "C36": AI + " of every exported operation and loop from the state after package initialisation: effect analysis on global memory",
 "C37": "effect analysis by abstract interpretation of every exported operation and loop: no write to a message that comes from outside or was handed on",
 "C35": AI + " of an arbitrary builder: linear counters and byte-range content",
}
NA = {
 "C31": "amf0, which encodes and decodes the bodies, is not available here (its source is absent), and the mapping is done by reflection inside it: no source to analyse.",
 "C32": "Liveness under an unbounded scheduler and environment: a static argument in reach gives no progress bound (the service loops block by design until the application receives).",
 "C33": "The library has no acknowledgement or bandwidth accounting to analyse; the property quantifies over bytes counted at run time.",
}
NOTE = ("Every path of the analysed functions is covered for all inputs by symbolic terms, path splits and loop fixpoints; nothing is executed. "
        "Trusted: the interpreter rtmpcheck, its models of standard library functions, the signatures in stubs/amf0, go/types and x/tools/go/ssa. "
        "64-bit overflow is assumed away. What cannot be decided is reported as a violation.")
m = dict(version=1, setup_cmd="./check.sh build", checks=[], not_applicable=[],
  notes="Static analysis only: rtmpcheck (Go, vendored x/tools) loads /repo's current source, builds SSA and interprets it abstractly. No hooks in /repo. See DESIGN.md.")
for l in open(here + '/properties.jsonl'):
    i = json.loads(l)["id"]
    if i in have:
        m["checks"].append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
            technique=TECH[i], level="other", level_note=NOTE))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "The check for this property is not finished yet.")))
open(here + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks")
