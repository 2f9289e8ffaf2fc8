ns={}
exec(open('/verif/tools/specs/m3.py').read(),ns)
M=[(m[0],"C28",*m[2:]) for m in ns["M"] if m[0] in ("ts-parent","ts-14")]
exec(open('/verif/tools/specs/m4.py').read(),ns)
M+=[(m[0],"C17",*m[2:]) for m in ns["M"] if m[0] in ("f-bomshort",)]
