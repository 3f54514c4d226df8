"""Writes the "fixed" entries of known_findings.json: one per fix: commit in /repo (and keeps the findings)."""
import json, os, subprocess
PROP = dict(x.split(":") for x in """cd7ec33:C19 a84f802:C22 73f76ba:C22 bc9bfe5:C20 48fa084:C04 81d35d1:C07 c34ce76:C21 e6c6a83:C07 f4fb894:C17
f690f62:C17 4849df0:C16 3023580:C16 ca1515e:C08 41ad101:C04 08ce30f:C01 f91ba15:C06 b6ae7c1:C06 886fce0:C03 4a00714:C08 7f22114:C03 865753a:C18
11a0816:C18 2a1f986:C03 8148aea:C21 3e66b18:C02 a2c4446:C02 0856403:C06 7046042:C06 2ff5142:C14 57465e1:C21 b90426e:C21 fe7f736:C22 0f5c0b0:C22
1f96e58:C23 1500281:C24 8ad01d5:C26 140f041:C26 bfe21a7:C26 542a2c6:C31 13dab60:C31 2ac0202:C30 17756e7:C16 8c8205e:C16 9773932:C17 3139ea2:C32 6b7812e:C32 6794ee9:C32 7dc25b5:C32 c18f385:C32 35f9349:C32""".split())
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(path))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for line in log:
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        out.append("fixed: property={0} {1} {2}".format(PROP[h], h, s[5:]))
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")
print(len(out))
