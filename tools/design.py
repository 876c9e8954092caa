"""Write DESIGN.md from tools/design.src.md, where @@PROPERTIES@@ is replaced
by one section per property built from properties.jsonl, claims.json and the
mcinfo record of the check program."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def strings(body):
    """Split the initializer of mcinfo to its fields of joined literals."""
    tok = re.findall(r'"((?:[^"\\]|\\.)*)"|([{},])', body)
    fields, cur, depth, lst = [], None, 0, []
    for s, c in tok:
        if c == "{":
            depth += 1
            lst = []
            cur = None
        elif c == "}":
            if cur is not None:
                lst.append(cur)
            fields.append(lst)
            depth -= 1
            cur = None
        elif c == ",":
            if cur is not None:
                (lst if depth else fields).append(cur)
            cur = None
        else:
            cur = (cur or "") + s
    return fields


def main():
    claims = dict((c["property"], c) for c in json.load(
        open(os.path.join(V, "checks", "claims.json")))["claims"])
    extra = json.load(open(os.path.join(V, "tools", "design_extra.json")))
    out = []
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        fn = os.path.join("checks", pid.lower() + ".cpp")
        t = open(os.path.join(V, fn)).read()
        m = re.search(r"const Info mcinfo = \{(.*?)\n\};", t, re.S)
        f = strings(m.group(1))
        x = extra.get(pid, {})
        out.append("### %s %s\n" % (pid, p["title"]))
        out.append("* Program: `%s`. Method: %s." % (
            fn, claims[pid]["technique"]))
        out.append("* Enumerated: " + re.sub(r"\s+", " ", f[2]))
        if x.get("oracle"):
            out.append("* Oracle: " + x["oracle"])
        out.append("* Bounds, quick: %s." % f[3].rstrip("."))
        out.append("* Bounds, thorough: %s." % f[4].rstrip("."))
        if f[5]:
            out.append("* Assumed or not decided: %s." % "; ".join(f[5]))
        out.append("* Beyond tests: " + p["why_tests_cant"])
        if x.get("cost"):
            out.append("* Cost of the quick check: %s." % x["cost"])
        out.append("")
    src = open(os.path.join(V, "tools", "design.src.md")).read()
    fixes = []
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if m:
            fixes.append("* %s (`%s`) %s" % m.groups())
    seeded = []
    sd = os.path.join(V, "seeded")
    for b in sorted(os.listdir(sd)):
        mf = os.path.join(sd, b, "meta.json")
        if not os.path.exists(mf):
            continue
        m = json.load(open(mf))
        seeded.append("| %s | %s | %s | %s |" % (
            b, m["property"], m["what_it_breaks"], m["needs"]))
    rep = {
        "PROPERTIES": "\n".join(out),
        "NFIX": str(len(fixes)),
        "FIXES": "\n".join(sorted(fixes)),
        "SEEDED": "| id | caught by | breaks | needs |\n|---|---|---|---|\n" +
        "\n".join(seeded),
        "MUTATIONS": open(os.path.join(V, "tools", "mutations.md")).read(),
    }
    for k in rep:
        src = src.replace("@@%s@@" % k, rep[k])
    with open(os.path.join(V, "DESIGN.md"), "w") as fp:
        fp.write(src)


main()
