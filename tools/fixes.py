#!/usr/bin/env python3
"""Records the fix: commits of /repo in known_findings.json (the "fixed" list; it suppresses nothing)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = """3a3a539 P01 340aae6 P01 9a7d5c3 P01 72a6f4c P01 170216e P24 bdb5fbe P11 5eb4c5c P24 fa17150 P04 7a69fd6 P04 931c4af P09 c407137 P09 dc60eb0 P22 cbe509f P06 193eb16 P19
1ecd698 P21 8d82b38 P21 e51a4b4 P07 e0a06b8 P08 d4618a0 P18 1e022d4 P18 531e93d P24 2b65f96 P24 895de96 P24 420c729 P15 68b4043 P15 fe5b559 P20 c115f76 P20 95eda90 P13 9f4444a P25
7d8aebd P25 3de82d5 P25 4d134d9 P11 fbf5c28 P22 badfa86 P12 de43999 P13 c22dc6a P23 88d7931 P18 7f1314d P13 4c61685 P30 8bd6071 P21 96dac40 P21 d4a8635 P21 e4cc457 P22 f9a383d P18
215b93a P17 8f97a53 P17 474cf2a P29 29e498f P29 74254f7 P29 6b92507 P18 57352ef P19 1a81bd9 P19 8f9de10 P14 17be7ab P03 7f455d3 P10 c44c718 P10 077931d P09 26ff0af P24 66a2dd1 P23
ed2d547 P20 8b5420c P22 f258a15 P27""".split()
M = dict(zip(P[::2], P[1::2]))
fixed = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "6c43a22..HEAD"]).decode().splitlines():
    h, s = l.split(" ", 1)
    extra = os.path.join(V, "tools/fixes_more.json")
    more = json.load(open(extra)) if os.path.exists(extra) else {}
    p = M.get(h) or more.get(h)
    assert p, l
    fixed.append("fixed: property=%s %s %s" % (p, h, s.replace("fix: ", "", 1)))
f = V + "/known_findings.json"
k = json.load(open(f))
k["fixed"] = fixed
json.dump(k, open(f, "w"), indent=1)
print(len(fixed))
