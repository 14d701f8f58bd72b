#!/usr/bin/env python3
"""Writes MANIFEST.json; claims the properties given as arguments (default: all)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = sys.argv[1:] or [p["id"] for p in props]
TRUST_LIB = ("Stand-in code table definitions (tools/mkdef.py) replace the two missing submodules; "
             "the encoders and oracles in harness/gvlib are trusted.")
TRUST_PROJ = " The projection library PROJ is replaced by harness/projstub, so only what grib-rs asks of it is checked."
TRUST_B = "The CSV and table generators and oracles in harness/gvbuild, the syn parser and rustc are trusted."
TECH = {
 "C": "property-based testing: generated GRIB2 streams with shrinking, against a writer-layout or list model",
 "D": "property-based testing: round trip through independent encoders with shrinking",
 "M": "property-based testing: generated section contents against independently stated octet positions",
 "G": "property-based testing: generated grids against independent coordinate formulas",
 "B": "property-based testing: generated definition files against an independent reading of them",
 "L": "property-based testing: generated files run through the command line binary, compared with the writer's layout and the library",
}
SPECIAL = {
 "C02": "property-based testing: random section sequences against an independent grammar recogniser",
 "C04": "property-based testing: differential, generated reader schedules against an in-memory reader",
 "C05": "property-based testing: fault injection at generated reader operations",
 "C06": "mutation fuzzing of structured byte streams, crash and termination oracle",
 "C07": "stateful property-based testing against a list model of the iterator",
 "C08": "stateful property-based testing: interleaved decodes against single decodes",
 "C09": "fuzzing of claimed lengths with an allocation-metering oracle",
 "C10": "property-based testing: generated streams and load histories through a reader that counts octets",
 "C11": "property-based testing: generated faulty streams against a model of the first fault",
 "C12": "property-based testing: generated streams of many gigabytes in a sparse reader, against the encoder's layout",
 "C13": "stateful property-based testing: histories of partial streams against the encoder's layout and the stream over the rest",
 "C14": "property-based testing: generated plans for several threads against the encoder and a single thread",
 "M07": "metamorphic property-based testing: lengthened, shortened and altered section contents",
 "G10": "property-based testing: differential, two build configurations on the same generated inputs",
 "B07": "metamorphic property-based testing: the same definitions in other orders and layouts",
 "D10": "fuzzing of packed data with an allocation-metering oracle",
 "G09": "stateful property-based testing: iterator histories against a list model",
 "L04": "metamorphic property-based testing of command lines, and generated unusable ones with an exit-status oracle",
 "L05": "property-based testing on pseudo-terminals with stand-in pagers, against the output written to a pipe",
 "L06": "fault injection into the outputs of generated command runs, against the undisturbed output",
 "D08": "structure-aware fuzzing of data sections, with a truncation prefix oracle",
 "B06": "property-based testing: generated unusable inputs must fail to compile",
 "L03": "fuzzing of the command line binary with damaged files and arguments, exit-status oracle",
}
checks = []
for p in props:
    i = p["id"]
    if i not in claimed: continue
    note = TRUST_B if i[0] == "B" else TRUST_LIB + (TRUST_PROJ if i in ("G04", "G05", "G07", "G09", "G10", "L01") else "")
    checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                   "technique": SPECIAL.get(i, TECH[i[0]]), "level": "exploration",
                   "level_note": "Random search over generated cases with shrinking; holds for the cases explored (counts in the evidence file), no exhaustiveness. " + note})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(grib_verif)",
               "enable": "RUSTFLAGS='--cfg grib_verif' with GRIB_VERIF_DEF_DIR naming a directory that holds def/CCT and def/GRIB2; build.rs then reads the code tables from there",
               "source_commits": ["47ab251a3f61565a74c19ef4ca4bad8901c36913"]},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "not claimed yet: its check is being built"} for p in props if p["id"] not in claimed],
     "notes": "Known findings and repaired defects: known_findings.txt. Replays: ./run.sh <property> quick --replay <file>."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
