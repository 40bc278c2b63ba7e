#!/usr/bin/env python3
"""Writes MANIFEST.json (run after changing a check's description)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "runtime monitoring: "
T = {
 "P01": M + "differential monitor over equivalent spellings of the same command line, cross-checked with a reference model",
 "P02": M + "grammar-mutation workload, online verdict monitor (refusal, silence of stdout, status) against a reference parser",
 "P03": M + "canonical-text and read-back monitor on every address printed",
 "P04": M + "reference-model oracle on the rows of CIDR displays",
 "P05": M + "reference-model oracle on the rows of lopsided displays",
 "P06": M + "layout monitor on the printed blocks; relational monitor between alone, together, split and resize displays",
 "P07": M + "reference-model oracle on the class label",
 "P08": M + "escape-sequence parser as per-digit colour monitor; colour/no-colour differential monitor",
 "P09": M + "exact set-equality oracle (interval sweep for CIDR, cube subtraction for lopsided networks)",
 "P10": M + "irreducibility and order monitors, permutation and fixpoint differential monitor",
 "P11": M + "range-tiling monitor on the printed list",
 "P12": M + "optimality oracle (unique minimal cover), swap differential monitor",
 "P13": M + "slice monitor: membership, alignment, sufficiency, disjointness",
 "P14": M + "conservation monitor: exact tiling of the network by slices and unused networks",
 "P15": M + "feasibility oracle by exact sums, both directions",
 "P16": M + "reference-model oracle on supernets",
 "P17": M + "partition monitor on numbered subnets",
 "P18": M + "reference-model oracle on the bit transport between masks",
 "P19": M + "online sequence checker on the enumerated stream",
 "P20": M + "online sequence checker on the enumerated lopsided stream",
 "P21": M + "prefix-of-stream checker under an address-space limit and a stopping reader",
 "P22": M + "overflow-checked execution of hostile argument bytes under CPU, memory and output limits with a contract monitor",
 "P23": M + "fault injection at every output byte (size limits, full device, leaving readers), short and interrupted writes, with a prefix and status monitor",
 "P24": M + "repeatability monitor across processes, environments, pretended times, users and hosts, hash seeds and build profiles",
 "P25": M + "cross-mode history monitor (chained command lines)",
 "P26": M + "per-call oracle with exact integers through the API hook, plus command lines across carries",
 "P27": M + "per-call oracle, inverse and order monitor through the API hook, plus resize command lines",
 "P28": M + "per-call set-relation oracle through the API hook, plus minimize and show command lines",
 "P29": M + "per-call conversion oracle through the API hook, plus show and derange command lines",
 "P30": M + "decision-table oracle over pipes, files and pseudo-terminals as output streams",
 "P31": M + "escape-sequence parser with a role oracle for every printed character",
 "P32": M + "system-call trace monitor (strace), directory snapshots, position of standard input",
 "P33": M + "fault-injecting argument workload, truth monitor on the messages",
 "P36": M + "self-description monitor: command lines generated from the usage text the program prints",
 "P35": M + "CPU-time and address-space monitor on operations over huge networks, with the model checking what is read",
 "P37": M + "AddressSanitizer build, Miri and Valgrind over the same command lines, with an output differential to the ordinary build",
 "P38": M + "archive and statement monitor over packager runs in made-up code directories, with installations by dpkg",
 "P39": M + "fault injection at every tool, file-size limits, falsified program headers and signals, with an announcement monitor",
 "P40": M + "Miri-interpreted builds for 32-bit and big-endian platforms compared with the native build, and their API answers with exact integers",
 "P34": M + "differential monitor between builds with different features",
}
NOTE = ("Holds on every execution this run observed (counts, distinct cases and samples in the evidence file); inputs not executed are not covered. "
        "Trusted: the reference model in monitor/src (128-bit integers, written from the properties, not from the code) and std's address parser. "
        "Alarms are believed only when fresh processes of the {} reproduce them.")
checks = []
for i in range(1, 41):
    p = "P%02d" % i
    who = "API-hook build (the operations are private) or of the plain program" if 26 <= i <= 29 else "plain, unhooked program"
    note = NOTE.format(who)
    if i == 40: note = note.replace("fresh processes of the", "freshly interpreted runs, on the platform it is about, of the") + " Trusted here also: Miri's interpretation of those platforms; left out where it or a platform's std is missing, and said so in the evidence."
    if i in (38, 39): note = "Holds on every run of the packaging scripts this check observed (counts, distinct cases and samples in the evidence file); surroundings not tried are not covered. Trusted: the tools the scripts call, Python's readers of archives, and dpkg. Alarms are believed only when they repeat."
    checks.append({
        "property": p,
        "quick_cmd": "VERIF_TIER=quick ./run_check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough ./run_check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": T[p],
        "level": "exploration",
        "level_note": note,
    })
m = {
 "version": 1,
 "setup_cmd": "./run_check.py --setup",
 "hooks": {
  "guard": "cfg(ripcalc_verif) and, for the API operations, also cfg(ripcalc_verif_api)",
  "enable": "cargo rustc --offline --bin ripcalc -- --cfg ripcalc_verif [--cfg ripcalc_verif_api]  (run_check.py does this into /verif/.build)",
  "source_commits": ["fe1de2e0abf5f27f758ec41060f04adc6b6e5381"],
 },
 "checks": checks,
 "not_applicable": [],
 "notes": "One runner, one monitor program, one property per check. Known and repaired defects: KNOWN_FINDINGS.txt. Design: DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
