#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the properties the harness registers."""
import json, re, glob
NOTE = {
 "C01": ("generated round trips through the real coders, compared byte for byte", "exploration"),
 "C02": ("file system snapshots before archiving and after extraction, compared", "exploration"),
 "C03": ("archives written are read by an independent strict reader and decoder", "exploration"),
 "C04": ("differential monitoring against an independent encoder of all 13 methods", "exploration"),
 "C05": ("headers built independently, compared field by field with what is reported", "exploration"),
 "C06": ("injected damage; accepted results judged by an independent CRC and strict parser", "fault_enumeration"),
 "C07": ("hostile and mutated archives under panic, exit, processor-time, blocking and memory monitors", "exploration"),
 "C08": ("hostile archives extracted as an unprivileged user; snapshots of everything outside", "exploration"),
 "C09": ("model-based update histories; every member's bytes followed by an independent reader", "exploration"),
 "C10": ("process killed at every file system call (strace injection); state after the kill judged", "fault_enumeration"),
 "C11": ("errors injected at every file system call (strace injection) and by failing streams; result judged", "fault_enumeration"),
 "C12": ("race detector over concurrent handles; results of random histories against a fresh process", "exploration"),
 "C13": ("snapshots of files and open descriptors around operations", "exploration"),
 "C14": ("scripted answers; model of the overwrite policy against the directory", "exploration"),
 "C15": ("readers and writers with random partitions; output, sizes and consumption compared", "exploration"),
 "C16": ("the built program run with generated arguments; files, output and exit status judged", "exploration"),
 "C17": ("selections in generated archives against the list of members", "exploration"),
 "C18": ("generated headers written and read back, compared field by field", "exploration"),
 "C19": ("model of the update options against archive, files and backup", "exploration"),
 "C20": ("archives behind generated stubs against the bare archive", "exploration"),
 "C22": ("captured standard output against what the members processed must give", "exploration"),
 "C21": ("printed listings parsed and compared with the headers", "exploration"),
}
src = "".join(open(f).read() for f in glob.glob("/verif/harness/*.go"))
have = set(re.findall(r'ID: "(C\d\d)"', src))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, level = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"bash /verif/check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {i}",
          "technique": "runtime monitoring: " + t, "level": level,
          "level_note": "Holds on every execution observed; see the evidence file for what the monitors saw. Reach comes from the generators; trusts the independent format implementation in harness/ref, the Go toolchain" + (" and strace." if i in ("C10","C11") else ".")})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor works on exported functions, files, processes and system calls. Repairs of defects are the fix: commits listed in known-findings.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json","a").write("\n")
print(len(checks), "checks,", len(na), "not yet")
