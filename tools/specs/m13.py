M=[]
def take(f,names,props):
    ns={}; exec(open("/verif/tools/specs/"+f).read(),ns)
    for m in ns["M"]:
        if m[0] in names.split(): M.append((m[0],props)+tuple(m[2:]))
take("m5.py","h-callout h-linecall","C31")
M.append(("h-pyline","C31","syntax_highlight.cpp","(*cl::anychar_p)            [mark_text],\n                            (cl::eol_p | cl::end_p)","(*cl::anychar_p)            [mark_text],\n                            +(cl::eol_p | cl::end_p)"))
