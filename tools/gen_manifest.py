#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = {
 "C01": "bounded exhaustive enumeration of BER-TLV blocks, each run on the real binary against a reference decoder",
 "C02": "exhaustive enumeration of truncations, byte corruptions and invalid values at every position, run on the real binary",
 "C03": "exhaustive enumeration of trees of data objects up to a bound, run on the real binary against a reference decoder",
 "C04": "exhaustive enumeration of field sequences, edits, token strings and truncations, run against a reference decoder",
 "C05": "exhaustive enumeration of texts and blocks; differential judgement of three routes of the real binary and the model",
 "C06": "exhaustive enumeration of values x mask sets x tag kinds, run on the real binary against a reference model",
 "C07": "exhaustive enumeration of tag sequences (permutations with repeats) and trees, run on the real binary",
 "C08": "exhaustive enumeration of bit combinations within bounds, run on the real binary against the EMV bit tables",
 "C09": "exhaustive enumeration of bit combinations x depths; geometric monitor over the real binary's drawings",
 "C10": "complete enumeration of the coded values (65,536 / 256), run on the real binary against reference tables",
 "C11": "complete enumeration of rule pairs and CVM Results values, run on the real binary against a reference model",
 "C12": "exhaustive enumeration of byte values per position and of the compliance decision, run on the real binary",
 "C13": "complete enumeration of service codes and packed values, run on the real binary against reference tables",
 "C14": "exhaustive enumeration of sizes x kinds x routes, run on the real binary against a reference model",
 "C15": "complete enumeration of one- and two-byte tags and bounded longer ones, run on the real binary",
 "C16": "exhaustive enumeration of spellings (separators, case, positions) per operation, run on the real binary",
 "C17": "exhaustive enumeration of the configuration lattice (sources x settings x values), run on the real binary",
 "C18": "exhaustive enumeration of values x colour settings x terminals; monitor over the real binary's escape codes",
 "C19": "bounded exhaustive enumeration of inputs, depths and length boundaries; termination monitor on the real binary",
 "C20": "exhaustive enumeration of lengths, bytes and columns; the dump is parsed back and compared",
 "C21": "exhaustive enumeration of write faults (every write x every answer, and pairs) injected into the real binary",
 "C22": "exhaustive enumeration of option spellings, pairs and triples, run on the real binary against a model of the CLI",
 "C23": "exhaustive enumeration of object sequences and depths; each compared with the objects' own outputs",
 "C24": "exhaustive enumeration of values per kind; both routes of the real binary compared line by line",
 "C26": "exhaustive enumeration of surroundings (clocks, chance, variables, places, inheritance, histories) around the real binary; system-call monitor",
 "C25": "exhaustive enumeration of invalid settings and of every truncation point of configuration files",
}
LEVEL = {"C21": "fault_enumeration"}
NOTE = ("Complete within the spaces the evidence file lists (families with their sizes): every point is executed on the "
        "binary built from /repo's working tree and judged, none is sampled. Nothing is claimed outside those bounds. "
        "Trusted: the reference model and tables in /verif/harness/src (written from the EMV books and the README, not "
        "generated from the code), the fork server shim, and that the binary built at opt-level 2 with the debug "
        "profile's checks behaves as the default build.")
EXTRA = {
 "C21": " Faults are injected at the write(2) boundary of standard output; files and terminals are not involved.",
 "C17": " Uses real files in a scratch directory that the check removes.",
 "C25": " Uses real files in a scratch directory that the check removes; what counts as an invalid value is a fixed list (DESIGN.md).",
 "C18": " Terminal cases use a pseudo-terminal and are skipped (and said so in the evidence) where none can be opened.",
 "C26": " The system-call monitor is a seccomp filter in the fork server's child; where none can be installed the evidence says so and only opened files are watched.",
 "C19": " 'In proportion' is judged by generous fixed limits (20 s and a bound on the output size), never by fine timing.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
                 "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                 "evidence_file": f"evidence/{i}.json",
                 "technique": TECH[i], "level": LEVEL.get(i, "model_checking"),
                 "level_note": NOTE + EXTRA.get(i, "")} for i in ids],
     "not_applicable": [],
     "notes": "No hooks: every property is observable at the command line of the unmodified binary. Defects found are in known-findings.txt."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
