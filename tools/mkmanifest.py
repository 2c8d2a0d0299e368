#!/usr/bin/env python3
"""MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib")]
import check

TECH = {
 "C01": "TLA+ (TLC): BBS.tla model checked; transition tours of it performed on the real code and recorded random histories validated against it",
 "C02": "TLA+ (TLC): BBS.tla model checked; transition tours and random update histories validated, with per-entry digests",
 "C03": "TLA+ (TLC): schedules of real clients at system-call granularity validated against BBSTrace (linearisation search)",
 "C04": "TLA+ (TLC): scheduled creations of real clients (exhaustive and random schedules) validated against BBSTrace",
 "C05": "TLA+ (TLC): BBS.tla model checked; transition tours, random histories and scheduled concurrent appends validated",
 "C06": "TLA+ (TLC): BBS.tla model checked; transition tours and random histories of board lists validated",
 "C07": "TLA+ (TLC): BBS.tla model checked; transition tours and random draft histories validated",
 "C08": "TLA+ (TLC): BBS.tla model checked (Isolated, HandlesStay); histories over several homes validated with file-system differences and files opened",
 "C09": "TLA+ (TLC): Comments.tla gives the comments of any article; recorded readings of generated articles validated against it",
 "C10": "TLA+ (TLC): BBS.tla gives the listings of any population of boards; recorded listings validated against it",
 "C11": "TLA+ (TLC): Fav.tla gives the tree of any favourites file; recorded readings and writings validated against it",
 "C12": "TLA+ (TLC): Layout.tla states the record layouts; recorded decodings and encodings validated against it",
 "C13": "TLA+ (TLC): Layout.tla states the record layouts; recorded decodings and encodings validated against it",
 "C14": "TLA+ (TLC): DesCrypt.tla states the traditional DES hash; recorded verdicts validated against it",
 "C15": "TLA+ (TLC): LoginLog.tla states the log formats; recorded readings and writings validated against it",
 "C16": "TLA+ (TLC): Shm.tla states segment and layout; recorded histories of handles validated against it",
 "C17": "TLA+ (TLC): Robust.tla: every recorded reading of arbitrary content must end in data or error",
 "C18": "TLA+ (TLC): Token.tla; request histories of the running server validated against it",
 "C19": "TLA+ (TLC): every crash point of real operations enumerated and the histories validated",
 "C20": "TLA+ (TLC): every single system-call failure of real operations enumerated and the histories validated against BBSTrace",
 "C21": "TLA+ (TLC): descriptor balance of every recorded operation, with and without failures, validated",
 "C23": "TLA+ (TLC): Token.tla (routes); request histories of the running server, broken requests included, validated against it",
 "C24": "TLA+ (TLC): TextConv.tla over a table from independent decoders; every code, every character, every short string of the model and many callers at once, validated against it",
 "C25": "TLA+ (TLC): Driver.tla; model checked over all sets of capabilities and failing calls, tours and random histories of data bases over drivers of our own validated against it",
 "C26": "TLA+ (TLC): Settings.tla; model checked over flag values, its values and random account lists performed on the real code and the answers validated against it",
 "C22": "TLA+ (TLC): Cli.tla over BBS.tla; histories of tool invocations validated against it",
}
LEVEL = {"C20": "fault_enumeration"}
NOTE = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
for m in check.MODULES:
    have |= set(importlib.import_module(m).CHECKS)
man = {"version": 1, "setup_cmd": "cd /verif && python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in have:
        c = {"property": p, "quick_cmd": "cd /verif && python3 check.py %s quick" % p,
             "thorough_cmd": "cd /verif && python3 check.py %s thorough" % p, "technique": TECH[p],
             "level": LEVEL.get(p, "model_checking"), "level_note": NOTE.get(p, "see DESIGN.md, " + p),
             "evidence_file": "/verif/evidence/%s.json" % p}
        man["checks"].append(c)
    else:
        man["not_applicable"].append({"property": p, "reason": "its check is not finished yet"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(man["checks"]), "claimed")
