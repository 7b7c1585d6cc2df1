#!/usr/bin/env python3
"""Writes the fixed: lines of known_findings.txt; the known: lines are kept as they are."""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = """533e6c5 C02|22ba672 C02|2c0038e C01|1c9fb82 C08|4e332ca C07|eea4ec6 C10|becdb66 C17|4ac9457 C20|5cb73aa C04|cc4ae70 C16|5cdaefa C06|1f67039 C06|08bc009 C06|12db4b5 C05|f532c99 C05|24bcac2 C05|a38e7fe C05|c4f443a C05|2799e6d C06|c279772 C09|484b084 C12|f32dd6c C12|cd36817 C11|7e693c4 C11|f66db68 C11|eceff4a C13|a0c6201 C13|cb3035d C15|41812c1 C12|e216fb5 C03|5c2885d C22|08b63c9 C02|395dada C05|3d27e33 C22|f1b04b3 C09|4321170 C09|887d353 C21|c4a7089 C23|8fb325d C21|751f281 C21|d652bdd C23|e8817d5 C23|e9d5546 C21|03f9e86 C23|afec41e C18|2f05eeb C20|fbc0f92 C22|5b6dc61 C05|8ef9f6b C07|621d99d C21|85eee82 C21|f3405cf C06|1e56f9d C11|f75ae67 C13|ce3f17f C12|e070a0d C12|5b3fb82 C15|78f81d9 C17|844c739 C08|2b0dcd2 C08|e216384 C21|2390f5f C10|9a73a77 C09|200ac0c C12|dc06b9b C20|1b35623 C24|cf0546b C24|99469a7 C24|f13d41a C24|87ed62e C08|0fde2a3 C25|f1793c1 C25|6b4bebb C25|e5fb7ea C25|2390f19 C25|fce386f C25|50f2521 C15|e10dba6 C05|b323413 C07|2a5d34b C24"""
ids = dict(x.split() for x in M.split("|"))
p = os.path.join(ROOT, "known_findings.txt")
keep = [l for l in open(p).read().splitlines() if l.startswith("known:") or l.startswith("#")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and h in ids:
        out.append(f"fixed: property={ids[h]} {h} before the fix the library failed here: {s[5:]}")
    elif s.startswith("fix: "):
        import sys; 
        body = subprocess.run(["git","-C","/repo","show","-s","--format=%an",h],capture_output=True,text=True).stdout.strip()
        print("unassigned", h, s, body)
open(p, "w").write("\n".join(keep + out) + "\n")
