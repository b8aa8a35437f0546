#!/usr/bin/env python3
"""Development aid: writes a MUTANTS file (see campaign.py) of small syntactic
changes to one or more source files:  mutate.py OUT.py FILE:PROPS ..."""
import re, sys
REPO = "/repo/"
RULES = [
    (r"(?<![<\-=>!])<=(?!=)", "<"), (r"(?<![<\-=>!])>=", ">"),
    (r"(?<=\w\)? )<(?= )", "<="), (r"(?<=\w\)? )>(?= )", ">="),
] if False else [
    (r" <= ", " < "), (r" >= ", " > "), (r" < ", " <= "), (r" > ", " >= "),
    (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if \(!", "if ("), (r"\b0x00\b", "0x01"),
    (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\[(\w+)\]", r"[\1 + 1]"), (r"(\bk[A-Z]\w+)", r"(\1 + 1)"), (r"(\bk[A-Z]\w+)", r"(\1 - 1)"),
    (r"std::move\((.*?)\)", r"\1"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
    (r"(\w+)\.size\(\)", r"(\1.size() - 1)"),(r"(\w+)\.iov_len", r"(\1.iov_len - 1)"),
]
out = []
for spec in sys.argv[2:]:
    f, props = spec.split(":")
    props = props.split(",")
    text = open(REPO + f).read()
    lines = text.split("\n")
    base = re.sub(r"\W", "_", f.split("/")[-1])
    com = False
    started = False
    k = 0
    seen = set()
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s and "*/" not in s: com = True
        if com:
            if "*/" in s: com = False
            continue
        if s.startswith("namespace"): started = True
        if not started or not s or s.startswith(("//", "#", "/*", "*", "namespace", "using", "case ", "default:", "static_assert")) or "ABSL_ASSERT" in s: continue
        code = l.split(" //")[0]
        cands = []
        for pat, rep in RULES:
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2: continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                cands.append(new)
        if re.match(r"^\s+[^{}]*;$", code) and not re.match(r"^\s+(return\b|break|continue|case|const |static |constexpr |using |[\w:<>,\s\*&]+\s[\w]+( = .*)?;$|friend|default)", code) and code.count("(") == code.count(")"):
            cands.append(re.match(r"^\s*", code).group(0) + ";")
        if re.match(r"^\s+(return|break|continue)\b.*;$", code) and "return" not in code:
            pass
        m = re.match(r"^(\s*)(\} else )?if \((.*)\) \{$", code)
        if m:
            cands.append("%s%sif (false && (%s)) {" % (m.group(1), m.group(2) or "", m.group(3)))
            cands.append("%s%sif (true || (%s)) {" % (m.group(1), m.group(2) or "", m.group(3)))
        for new in cands:
            if new == code or (i, new) in seen: continue
            seen.add((i, new))
            # locate this line uniquely: nth occurrence of "\n"+line+"\n"
            old = "\n" + l + "\n"
            nth = 0
            pos = sum(len(x) + 1 for x in lines[:i]) - 1
            nth = 0
            p = -1
            while True:
                p = text.find(old, p + 1)
                if p == pos or p < 0: break
                nth += 1
            if p < 0: continue
            out.append(("%s-%d-%d" % (base, i + 1, k), props, f, [(old, "\n" + new + "\n", nth)]))
            k += 1
    print(f, k)
open(sys.argv[1], "w").write("MUTANTS=[\n" + "".join("%r,\n" % (m,) for m in out) + "]\n")
