#!/usr/bin/env python3
"""add_fixed.py PROPERTY COMMIT WHAT - append a fixed entry to known_findings.jsonl (development helper)"""
import json,sys
p,c,w=sys.argv[1:4]
open('/verif/known_findings.jsonl','a').write(json.dumps({"status":"fixed","property":p,"commit":c,"what":w,"line":f"fixed: property={p} {c} {w}"})+"\n")
