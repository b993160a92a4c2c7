#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the repairs made in /repo and the recorded findings."""
import json, os, subprocess
F = """ccbf7bc C02|f20e4e4 C01|a882a46 C02|c9f5490 C02|bf0dac3 C02|202299d C02|045f0c4 C02|1830ffa C02|5009cc5 C02|599d27e C02|7663376 C01|9b7326a C20|e735b52 C06|69da98a C04|19b32f2 C04|2739e69 C22|bf65a9a C08|22830c0 C07|8b66f5a C22|53e8a38 C10|ac69e6f C14|d8c07f8 C12|7ec3f9b C06|c3faa63 C09|93646b5 C09|898958b C05|0496128 C05|2069575 C21|f0e7ae1 C21|0ddf238 C21|80f1d1b C10|394e36b C10|5a33e0e C21|c275e4b C13|f52b473 C13|36df95e C14|bc233d1 C14|1e6a662 C14|e922553 C14|838165a C15|2fa5ea4 C16|ad2871c C14|8d925bf C24|8b91e02 C11|23cb889 C11|5e52653 C11|0b3d309 C19|d4cc54d C19|327c092 C05"""
import sys
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixes.txt")
m = dict(x.split() for x in F.split("|"))
if os.path.exists(extra):
    for l in open(extra):
        if l.strip(): a, b = l.split(); m[a] = b
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    assert h in m, h
    fixed.append(f"fixed: property={m[h]} {h} {s[5:]}")
findings = []
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1, ensure_ascii=False)
print(len(fixed), "fixed")
