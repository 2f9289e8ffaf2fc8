src=open("/verif/tools/specs/m3.py").read()
exec(src)
keep=["di-yrange","di-idtrim","dg-macro","dg-mode"]
M=[m for m in M if m[0] in keep]
M=[(m[0],{"dg-macro":"C29","di-idtrim":"C29"}.get(m[0],m[1]))+tuple(m[2:]) for m in M]
