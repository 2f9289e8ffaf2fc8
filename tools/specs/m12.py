M=[]
def take(f,names,props):
    ns={}; exec(open("/verif/tools/specs/"+f).read(),ns)
    for m in ns["M"]:
        if m[0] in names.split(): M.append((m[0],props)+tuple(m[2:]))
take("m6.py","ip-abs ip-slash","C11")
take("m3.py","st-fnenc","C11")
take("m1.py","load-imported load-import-scope incl-return src-pushpop","C11")
