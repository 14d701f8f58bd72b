#!/usr/bin/env python3
"""mkdef.py SEED OUTDIR: writes OUTDIR/def/{CCT,GRIB2}/*.csv, stand-ins for the
code table definition submodules, and OUTDIR/expected.json, which says for every
table what each code means (null: the table as a whole is unusable)."""
import csv, io, json, os, random, sys

seed, out = int(sys.argv[1]), sys.argv[2]
rng = random.Random("grib-verif-def-%d" % seed)
NONE = ["0_0", "1_1", "1_2", "1_3", "1_4", "3_1", "4_0", "4_3", "4_4", "4_5", "5_0"]
L1 = [0, 1, 2, 3, 4, 10, 20]
L2 = {0: list(range(0, 8)) + list(range(13, 21)) + [190, 191], 1: [0, 1, 2], 2: [0, 3, 4, 5],
      3: list(range(0, 7)), 4: list(range(0, 11)), 10: [0, 1, 2, 3, 4, 191], 20: [0, 1, 2]}
SPECIAL = ["Reserved", "Reserved for local use", "Missing"]
WORDS = ["Temperature", "Mass", "Wind", "Flux (net)", "Snow, depth", 'so-called "bulk"', "Höhe", "N/m^2",
         "back\\slash", "tab\there", "Reserved for dreams", "missing", "Missing part", "u' v'", "{x}", "%d", "溫度"]
n_text = [0]

def text(tag):
    n_text[0] += 1
    return "%s %s #%d" % (rng.choice(WORDS), tag, n_text[0])

def rows(tag, size, shape):
    """Rows (code, text) and the meaning per code. shape: dense, or sparse."""
    out, exp, code = [], {}, 0
    while code < size:
        k = rng.random()
        if k < 0.65:
            t = text(tag); out.append((str(code), t)); exp[code] = t; code += 1
        elif k < 0.75:
            n = rng.randint(2, 5); t = text(tag)
            out.append(("%d-%d" % (code, code + n - 1), t))
            for c in range(code, code + n): exp[c] = t
            code += n
        elif k < 0.9:
            n = rng.randint(1, 6); s = rng.choice(SPECIAL[:2])
            out.append((str(code) if n == 1 else "%d-%d" % (code, code + n - 1), s)); code += n
        else:
            out.append(("", "Comment " + text(tag)))
    if shape == "sparse":
        code += rng.randint(1, 3); t = text(tag); out.append((str(code), t)); code += 1
        exp = None
    if rng.random() < 0.8:
        out.append(("%d-254" % code if code < 254 else "254", rng.choice(SPECIAL[:2])))
        out.append(("255", "Missing"))
    return out, exp

def write(path, header, recs):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    b = io.StringIO(); w = csv.writer(b, lineterminator="\n"); w.writerow(header); w.writerows(recs)
    with open(path, "w", encoding="utf-8", newline="") as f: f.write(b.getvalue())

expected = {}
H = ["Title_en", "SubTitle_en", "CodeFlag", "Value", "MeaningParameterDescription_en", "Note_en", "UnitComments_en", "Status"]
def gpath(n): return os.path.join(out, "def", "GRIB2", "GRIB2_CodeFlag_%s_CodeTable_en.csv" % n)
def rec(title, sub, rs): return [[title, sub, c, "", t, "", "", "Operational"] for c, t in rs]

for n in NONE:
    size = rng.randint(3, 120)
    rs, exp = rows("T" + n, size, "sparse" if rng.random() < 0.05 else "dense")
    expected["CODE_TABLE_" + n] = exp
    write(gpath(n), H, rec("Code table " + n, "", rs))
recs = []
for d in L1 + [77]:
    rs, exp = rows("T4_1_%d" % d, rng.randint(3, 60), "dense")
    expected["CODE_TABLE_4_1_%d" % d] = exp
    sub = 'Product discipline %d - "quoted" products' if d % 2 else "Product discipline %d - products: some"
    recs += rec("Code table 4.1", sub % d, rs)
write(gpath("4_1"), H, recs)
recs = []
for d in L2:
    for c in L2[d] + [99]:
        rs, exp = rows("T4_2_%d_%d" % (d, c), rng.randint(3, 40), "sparse" if rng.random() < 0.08 else "dense")
        expected["CODE_TABLE_4_2_%d_%d" % (d, c)] = exp
        recs += rec("Code table 4.2", "Product discipline %d - products, parameter category %d: cat %d" % (d, c, c), rs)
write(gpath("4_2"), H, recs)

# C00: rows without a GRIB number first, "Future versions" at the end
rs = [["0", "0", "0", "Experimental", "Operational"], ["", "1", "", "1 January 1998", "Operational"]]
exp = {0: "Experimental"}
top = rng.randint(5, 35)
for c in range(1, top):
    t = text("C00"); rs.append([str(c), str(c + 2), str(c), t, "Operational"]); exp[c] = t
rs += [["%d-254" % top, "", "", "Future versions", "Operational"], ["255", "255", "255", "Missing", "Operational"]]
write(os.path.join(out, "def", "CCT", "C00.csv"), ["GRIB version number", "BUFR version number", "CREX version number", "Effective date", "Status"], rs)
expected["COMMON_CODE_TABLE_00"] = exp
rs, exp, code = [], {}, 0
top = rng.randint(60, 300)
while code < top:
    k = rng.random()
    if k < 0.75:
        t = text("C11"); rs.append(["%05d" % code, str(code), t, "Operational"]); exp[code] = t; code += 1
    elif k < 0.8: rs.append(["%05d" % code, str(code), ")", "Operational"]); code += 1
    elif k < 0.85: rs.append(["", "", "Comment", "Operational"])
    elif k < 0.92:
        n = rng.randint(2, 9); rs.append(["", "%d-%d" % (code, code + n - 1), rng.choice(["Reserved", "Reserved for other centres"]), "Operational"]); code += n
    else:
        n = rng.randint(2, 4); t = text("C11"); rs.append(["", "%d-%d" % (code, code + n - 1), t, "Operational"])
        for c in range(code, code + n): exp[c] = t
        code += n
rs += [["", "%d-65534" % code, "Reserved for other centres", "Operational"], ["65535", "65535", "Missing value", "Operational"], ["65536-99999", "Not applicable", "Not used", "Operational"]]
write(os.path.join(out, "def", "CCT", "C11.csv"), ["CREX2", "GRIB2_BUFR4", "OriginatingGeneratingCentre_en", "Status"], rs)
expected["COMMON_CODE_TABLE_11"] = exp
json.dump(expected, open(os.path.join(out, "expected.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=0, sort_keys=True)
