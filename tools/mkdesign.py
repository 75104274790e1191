"""Writes DESIGN.md from tools/DESIGN.in.md, the property table, the checks' own descriptions, tools/costs.json and seeded/*/result.json."""
import ast, glob, json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
import mkprops


def consts(pid):
    out = {}
    for n in ast.parse(open(HERE + "/checks/%s.py" % pid).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def cost(c, tier):
    if not c:
        return "%s: not measured" % tier
    return "%s: %d cases, %d evaluations, %d states, %d transitions, %d comparisons with the reference, %.0f s%s" % (
        tier, c["cases"], c["evaluations"], c["states"], c["transitions"], c["traces_validated_against_impl"], c["wall_s"],
        "" if c.get("exhaustive", True) else " (stopped early)")


def table():
    costs = json.load(open(HERE + "/tools/costs.json"))
    out = []
    for p in mkprops.P:
        k = consts(p["id"])
        q, t = (costs.get(x, {}).get(p["id"]) for x in ("quick", "thorough"))
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("* Decided by: %s (level: %s)." % (p["technique"], p["level"]))
        out.append("* Space: %s." % p["qtext"].rstrip("."))
        out.append("* Unit of work: %s." % k["RULE"].rstrip("."))
        out.append("* Assumes: %s." % "; ".join(k.get("ASSUMPTIONS", []) + [p["note"].rstrip(".")]))
        out.append("* What tests cannot reach: %s." % p["why"].rstrip("."))
        out.append("* Covered: %s; %s.\n" % (cost(q, "quick"), cost(t, "thorough")))
    return "\n".join(out)


def seeds():
    out = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(HERE + "/seeded/*/")):
        m = json.load(open(d + "meta.json"))
        out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], m["what_it_breaks"], m["needs"],
                                                 m.get("caught_by", "?")))
    return "\n".join(out)


s = open(HERE + "/tools/DESIGN.in.md").read().replace("@TABLE@", table()).replace("@SEEDS@", seeds())
fixed = sum(l.startswith("fixed:") for l in open(HERE + "/known_findings.txt"))
s = s.replace("@FIXED@", str(fixed))
open(HERE + "/DESIGN.md", "w").write(s)
