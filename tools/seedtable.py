"""prints the table of planted bugs for DESIGN.md"""
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| id | property | what it breaks | needs |\n|----|----------|----------------|-------|")
for i in sorted(os.listdir(d)):
    m = json.load(open(f"{d}/{i}/meta.json"))
    print(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
