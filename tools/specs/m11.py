exec(open("/verif/tools/specs/m6.py").read())
M=[(m[0],"C22")+tuple(m[2:]) for m in M if m[0] in "ip-offset ip-globreg ip-unesc ip-unesc2 ip-unesc3 ip-isdir ip-first".split()]
