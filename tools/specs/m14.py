M=[]
def take(f,names,props):
    ns={}; exec(open("/verif/tools/specs/"+f).read(),ns)
    for m in ns["M"]:
        if m[0] in names.split(): M.append((m[0],props)+tuple(m[2:]))
take("m3.py","di-postanch","C30")
take("m1.py","endsect-anch","C30")
take("m2.py","ttl-end blk-eol","C06")
take("m2.py","cmdid","C09")
take("m3.py","q-strict q-full","C02 C18")
