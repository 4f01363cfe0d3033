#!/usr/bin/env python3
"""Keeps the "fixed" list of known_findings.json in step with the fix: commits of /repo (run by hand, never by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, "known_findings.json")
PROP = {"9d0f77b": "C07", "153b622": "C08", "fda69e1": "C18", "474d7d8": "C19", "53823e1": "C01", "b1102f7": "C13", "5b7b4eb": "C12", "e39745c": "C22",
        "d875685": "C20", "025d94a": "C05", "ddc687a": "C01", "d155772": "C03", "05a1726": "C07", "0c9aa29": "C10", "3a2898d": "C01", "f380dd0": "C02",
        "43e141d": "C18", "51af094": "C20", "cd52bad": "C22", "af3e537": "C14", "4bef784": "C22", "fde7104": "C05", "40d8f70": "C23", "185b9f1": "C10", "3809556": "C03", "8d43d82": "C19", "dc8c411": "C19", "9d570ee": "C19", "bbf93d3": "C12", "10c2401": "C19", "4405864": "C07", "ef61cc7": "C15", "26f1875": "C16", "6d10462": "C05",
        "61d7464": "C15", "c38b8bb": "C15", "c767eb5": "C15", "e199233": "C15", "8fdabcb": "C15", "aff0322": "C15", "e09f511": "C18", "937bd83": "C03", "bf5970f": "C15", "07c60e7": "C15", "c95a039": "C15",
        "c3aa826": "C14", "9e5b4cc": "C04", "a2e34e9": "C14", "e8abbda": "C03", "3330a99": "C03", "109e08d": "C03", "0875543": "C03", "95dff1e": "C14", "04f94b3": "C03", "e524f6b": "C03", "80ce6b5": "C22", "c81a310": "C05",
        "1d9c3ea": "C24", "e42bc98": "C21", "7ccc7f4": "C24", "791e9e5": "C21", "26a6ad4": "C21", "e498167": "C21", "7f995b1": "C21", "9685f7f": "C21", "cfa6490": "C21", "a294c44": "C21",
        "f26d6e5": "C21", "bc6f89d": "C21", "f808c0b": "C21", "47dfef7": "C21", "853338e": "C21", "e48ca7b": "C21", "a8d9d3a": "C21", "fe39eba": "C21", "bc1f8b9": "C17", "d16f34d": "C11",
        "dcf5eb6": "C22", "dd49894": "C21", "ac47faf": "C21", "541e27f": "C25", "8997965": "C22", "d70eae1": "C21", "c0ceaec": "C15", "4ba1ab5": "C10", "cc998fa": "C25", "4298fe8": "C25", "72f3658": "C25", "46b9a97": "C15", "84d2186": "C25", "f6da817": "C25", "cf25168": "C03", "151a9a7": "C03", "ef3acfb": "C21", "74705f3": "C21", "2caa63e": "C21"}
d = json.load(open(P)) if os.path.exists(P) else {"findings": [], "fixed": []}
old = {f.split()[2]: f for f in d["fixed"]}
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        m = PROP.get(h)
        if h in old:
            out.append(old[h])
        elif m:
            out.append("fixed: property=%s %s %s" % (m, h, s[5:]))
        else:
            print("no property for", l)
d["fixed"] = out
json.dump(d, open(P, "w"), indent=1)
