src=open("/verif/tools/specs/m6.py").read()
exec(src)
M=[("ip-xinc","C23")+tuple(m[2:]) for m in M if m[0]=="ip-xinc"]
exec("N=[]"); ns={}; exec(open("/verif/tools/specs/m5.py").read(),ns)
M+=[("u-hex","C23")+tuple(m[2:]) for m in ns["M"] if m[0]=="u-hex"]
