exec(open('/verif/tools/specs/m7.py').read())
M=[m for m in M if m[0] in ("b-toclink","b-abs","b-idinfo")]
exec(open('/verif/tools/specs/m4.py').read().replace("M=","N=",1)) if False else None
