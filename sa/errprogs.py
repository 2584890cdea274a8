"""Programs with one static mistake each (data/errors.txt): `== TYPE [option=value]`,
the offending line ends in `#!` (no marker: the position is not checked), followed by
what the message has to name; `== ok` programs are correct neighbours that have to be
accepted.  `--- name` starts another module file."""
import ast
import os
import re


def programs(name="errors.txt"):
    """[(type or 'ok', {module: text}, line or None, module with the error, what the
    message names in order, compiler options)]."""
    out, cur = [], None
    with open(os.path.join(os.path.dirname(__file__), "data", name), encoding="utf-8") as h:
        lines = h.read().split("\n")
    for line in lines[:-1]:
        if line.startswith("== "):
            kind, _, cfg = line[3:].partition("[")
            cfg = dict(x.split("=", 1) for x in cfg.rstrip(" ]").split(";") if x)
            cur = [kind.strip(), {"main": []}, None, None, "main", (),
                   {k: ast.literal_eval(v) for k, v in cfg.items()}]
            out.append(cur)
        elif line.startswith("--- "):
            cur[4] = line[4:].strip()
            cur[1][cur[4]] = []
        else:
            m = cur[1][cur[4]]
            if re.search(r'#!( "[^"]*")*$', line.rstrip()):
                line, _, named = line.rpartition("#!")
                cur[2], cur[3] = len(m) + 1, cur[4]
                cur[5] = tuple(re.findall('"([^"]*)"', named))
                line = line.rstrip()
            m.append(line)
    return [(k, {n: "\n".join(t) + "\n" * (not cfg.pop("eof", 0)) for n, t in ms.items()}, ln, mod, named, cfg)
            for k, ms, ln, mod, _, named, cfg in out]
