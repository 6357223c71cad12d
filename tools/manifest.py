#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of judges."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer"))
sys.dont_write_bytecode = True
from judges.table import JUDGES
T = {
 "P01": ("abstract interpretation of MIR: panic obligations", "proof", "all panic sites reachable from the public API are excluded on every path; the models of the standard library are trusted"),
 "P02": ("abstract interpretation of MIR: loop variants, read limits, call-graph cycles", "proof", "each loop has a constant bound; sizes of reads are bounded; no recursion"),
 "P03": ("abstract interpretation of MIR: allocation sizes", "proof", "each allocation is bounded by a constant"),
 "P04": ("abstract interpretation of MIR: dependence of answers on read chunking", "proof", "no condition of any path depends on how much one read returned"),
 "P05": ("abstract interpretation of MIR: stream-position typestate", "proof", "no use of a position left behind by an earlier stage"),
 "P06": ("abstract interpretation of MIR: error paths", "proof", "errors surface only from the initial read"),
 "P07": ("abstract interpretation of MIR: path conditions on the length", "proof", "Empty iff length zero on every path class"),
 "P08": ("abstract interpretation of MIR: answer sets", "proof", "answers of the no-signature paths"),
 "P09": ("type checking per feature set; comparison of path conditions across configurations", "proof", "every single feature, all but one, none and all (thorough: also all pairs) compile; semantics compared for none, each single and all"),
 "P10": ("abstract interpretation of MIR: answer sets versus documentation", "proof", "set of answers of each refinement equals the documented one"),
 "P11": ("abstract interpretation of MIR: answer sets versus enumeration", "proof", "each variant is the answer of a feasible path class"),
 "P12": ("extraction of the signature decision list from MIR; comparison with the table of published magic numbers", "proof", "decision formulas compared with the specification on every cube, cube pair and single deviation"),
 "P13": ("subsumption over the extracted signature decision list", "proof", "no signature shadowed by a more general earlier one"),
 "P14": ("extents of the extracted signature conditions versus the size of the sniffed prefix", "proof", "all extents within the prefix"),
 "P15": ("abstract evaluation of the metadata accessors on every variant", "proof", "all variants, all accessors"),
 "P16": ("abstract interpretation of MIR: loop transfer and exit relations of the track walk", "proof", "flag transfer and exit decision of each multimedia container"),
 "P17": ("abstract interpretation of MIR: position transfer of the container walks", "proof", "next position equals start plus size on every transition"),
 "P18": ("abstract interpretation of MIR: identifier-to-answer relation versus specification", "proof", "decision conditions compared with the table of identifiers"),
 "P19": ("abstract interpretation of MIR: provenance of the fields that answers depend on", "proof", "position, width and byte order of each field compared with the container specification"),
 "P20": ("abstract interpretation of MIR: conditions of the text verdict versus specification", "proof", "conditions on each examined line compared with the definition"),
 "P21": ("abstract interpretation of MIR: search windows", "proof", "windows searched and their overlap"),
 "P22": ("effect analysis over the resolved call graph", "proof", "all functions of the crate and all calls that leave it"),
 "P23": ("abstract interpretation of MIR: delegation of the entry points", "proof", "arguments and results of each entry point"),
 "P25": ("abstract evaluation of comparison, copying and default on every value", "proof", "every ordered pair of formats and of kinds"),
 "P26": ("type-level witnesses: programs that must, and must not, compile against the crate", "proof", "every published format, kind, entry point and accessor; thorough: every single feature"),
 "P24": ("abstract interpretation of MIR: invariants of the search loops, per pattern", "proof", "each search function with each pattern used"),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --thorough",
           "technique": "static analysis: " + T[p][0], "level": T[p][1], "level_note": T[p][2]} for p in props if p in JUDGES]
na = [{"property": p, "reason": NA.get(p, "no check yet")} for p in props if p not in JUDGES]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
