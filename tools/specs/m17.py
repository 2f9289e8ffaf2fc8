exec(open("/tmp/w/m15.py").read())
M=[D[n] for n in "brkargs-tag role-old idx-esc c-err".split() if n in D]
