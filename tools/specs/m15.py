import glob
N="q-strict blk-eol callout-scope nested-sect c-id c-pyign sameline skip-tick di-cmpver f-addloop st-depth brkargs-tag role-old idx-esc c-err".split()
D={}
for f in sorted(glob.glob("/verif/tools/specs/m*.py")):
    ns={}
    try: exec(open(f).read(),ns)
    except Exception: continue
    for m in ns.get("M",[]): D.setdefault(m[0],m)
M=[D[n] for n in N if n in D]
