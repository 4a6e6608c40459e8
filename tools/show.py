#!/usr/bin/env python3
"""show.py REPLAY [N]: prints the last N operations of a replay file."""
import json, sys
d = json.load(open(sys.argv[1])); n = int(sys.argv[2]) if len(sys.argv) > 2 else 25
print(d.get("kind")); ops = d.get("operations", [])
print("boot", ops[0]["a"] if ops else "")
for o in ops[-n:]: print(" ", o['op'], o['a'], '->', o.get('r'), o.get('log'), o.get('wake'), *([f"at once {o['pair']}/2, cut at {o['n']}, polled {o['skip']}"] if 'pair' in o else []))
print("allowed:", json.dumps(d.get('specification_allows'))[:1500])
for s in (d.get('specification_states_before') or []): print("state:", s[:1500])
