#!/usr/bin/env python3
"""Mutation runs over /repo's sources, to find behaviour that no check watches.

mutate.py WORKDIR SEED COUNT [FILE...]: makes COUNT small random changes, each
in a scratch clone, and runs the checks with few cases until one reports it.
Prints one line per change; survivors are the interesting ones.  The checks
run from this directory, against the clone (QV_REPO).
"""
import os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = "C05 C06 C19 C30 C28 C14 C13 C11 C31 C20 C29 C16 C10 C09 C08 C07 C04 C02 C15 C12 C17 C03 C18 C25 C23 C21 C22 C24 C26 C27 C01".split()
FIRST = {"values": ["C21"], "glob": ["C22", "C12"], "path": ["C23", "C30", "C12"], "utils": ["C24"], "tree": ["C25"], "xml_parse": ["C25"], "files": ["C15", "C17"], "post_process": ["C16"], "symbols": ["C26"],
         "template_stack": ["C10", "C27"], "collector": ["C27"], "cleanup": ["C27"], "syntax_highlight": ["C13", "C31"], "code_snippet": ["C14", "C15"], "doc_info": ["C29"], "id_": ["C07"], "document_state": ["C07", "C08"],
         "bb2html": ["C19", "C20"], "boostbook_chunker": ["C20"], "html_printer": ["C19"], "dependency_tracker": ["C12"], "include_paths": ["C11", "C12", "C22"], "quickbook.cpp": ["C02", "C18"], "stream": ["C15"], "markups": ["C05"],
         "native_text": ["C23"], "state": ["C11", "C28"]}

def candidates(path):
    out = []
    lines = open(path).read().split("\n")
    depth = 0
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        s = code.strip()
        if not s or s.startswith(("#", "*", "/*", "using", "namespace", "template", "struct", "class", "BOOST_ASSERT", "assert", "case ", "typedef")) or "assert" in s:
            continue
        def put(new, what):
            if new != code: out.append((i, l, new, what))
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\|", code):
            r = {"<=": "<", ">=": ">", "==": "!=", "!=": "==", "&&": "||", "||": "&&"}[m.group()]
            put(code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(), r))
        for m in re.finditer(r"(?<![<>=\-])[<>](?![<>=])", code):
            if re.search(r"\b(vector|map|set|list|static_cast|get|tie|boost|std|template|consume|pair|intrusive_ptr|function|const_cast|rule|as|shared_ptr)\b", code): continue
            r = m.group() + "="
            put(code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(), r))
        for m in re.finditer(r"\b(true|false)\b", code):
            r = "false" if m.group() == "true" else "true"
            put(code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(), r))
        for m in re.finditer(r"\b\d+(?=u?\b)", code):
            if '"' in code or "'" in code or "ph::" in code and "arg" in code and m.group() in "12": continue
            put(code[:m.start()] + str(int(m.group()) + 1) + code[m.end():], "%s + 1" % m.group())
            if int(m.group()): put(code[:m.start()] + str(int(m.group()) - 1) + code[m.end():], "%s - 1" % m.group())
        for m in re.finditer(r"!(?=[a-zA-Z_(])", code):
            put(code[:m.start()] + code[m.end():], "drop !")
        for m in re.finditer(r"(?<![\w+])\+\+|(?<!-)--(?!-)", code):
            if "for" in code: continue
            r = "--" if m.group() == "++" else "++"
            if '"' not in code: put(code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(), r))
        for m in re.finditer(r"(?<=[\w)\]]) ([+-]) (?=[\w(])", code):
            if '"' not in code:
                r = " - " if m.group(1) == "+" else " + "
                put(code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(1), r.strip()))
        if re.match(r"[\w.>\-\[\]:]+(\(.*\)| [+|-]?= .*);$", s) and not s.startswith(("return", "delete", "typedef")) and code.count("(") == code.count(")"):
            put(re.match(r"\s*", code).group() + ";", "drop statement")
        if re.match(r"(\+\+|--)[\w.>\-]+;$", s):
            put(re.match(r"\s*", code).group() + ";", "drop statement")
        for m in re.finditer(r"'(\\?.)'", code):
            r = {"[": "]", "]": "[", " ": "_", "\\n": " ", ".": ",", "/": "\\\\", "*": "?", ":": ";", "_": "-"}.get(m.group(1))
            if r: put(code[:m.start(1)] + r + code[m.end(1):], "%s -> %s" % (m.group(1), r))
        for m in re.finditer(r"\b(break|continue);", code):
            r = ";" if m.group(1) == "continue" else "continue;"
            put(code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(), r))
        # grammar
        if re.search(r">>|cl::|\|", code):
            for m in re.finditer(r"\bspace\b|\bblank\b|\bhard_space\b", code):
                r = {"space": "blank", "blank": "space", "hard_space": "space"}[m.group()]
                put(code[:m.start()] + r + code[m.end():], "%s -> %s" % (m.group(), r))
            for m in re.finditer(r"(?<=[\s(])([*+!])(?=[(\w])", code):
                r = {"*": "+", "+": "*", "!": ""}[m.group()]
                if ">>" in code or "=" in code or s[0] in "|*+!(": put(code[:m.start()] + r + code[m.end():], "%s -> %r" % (m.group(), r))
            for m in re.finditer(r"~(?=cl::eps_p)", code):
                put(code[:m.start()] + code[m.end():], "drop ~")
    return out

def run(cmd, env, timeout=900):
    e = dict(os.environ)
    e.update(env)
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"

def main():
    wd, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    repo = wd + "/repo"
    os.makedirs(wd, exist_ok=True)
    if not os.path.exists(repo):
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    files = sys.argv[4:] or sorted(os.path.basename(f) for f in os.listdir(repo + "/src") if f.endswith(".cpp"))
    rng = random.Random(seed)
    env = {"QV_REPO": repo, "QV_BUILD": wd + "/build", "QV_WORKERS": "4", "QV_SCALE": os.environ.get("QV_SCALE", "0.3"), "QV_SHRINK": "0"}
    pool = [(f,) + c for f in files for c in candidates(repo + "/src/" + f)]
    # files of every size get their share
    weights = {f: max(1, sum(1 for p in pool if p[0] == f)) ** 0.6 for f in files}
    for n in range(count):
        f = rng.choices(files, [weights[x] for x in files])[0]
        mine = [p for p in pool if p[0] == f]
        if not mine: continue
        _, i, old, new, what = rng.choice(mine)
        path = repo + "/src/" + f
        text = open(path).read()
        lines = text.split("\n")
        lines[i] = new
        open(path, "w").write("\n".join(lines))
        t0 = time.time()
        order = []
        for k, v in FIRST.items():
            if f.startswith(k): order += v
        order += [c for c in ORDER if c not in order]
        verdict, by = "SURVIVED", ""
        for c in order:
            rc, out = run([sys.executable, V + "/check.py", c], env)
            if "BuildError" in out:
                verdict = "nobuild"
                break
            if rc:
                verdict, by = ("caught" if "VIOLATION" in out else "odd rc %d" % rc), c
                if verdict != "caught": by += " " + out[-200:].replace("\n", " ")
                break
        print("%-9s %-4s %4ds %s:%d [%s] %s" % (verdict, by, time.time() - t0, f, i + 1, what, "" if verdict == "caught" else old.strip()[:110]), flush=True)
        open(path, "w").write(text)
main()
