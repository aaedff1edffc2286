"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(here + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"]))
rows.sort()
t = "| caught by | bug | what it breaks | needs |\n|---|---|---|---|\n" + "".join("| %s | `%s` | %s | %s |\n" % r for r in rows)
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n%d bugs, each caught by the quick check of its property:\n\n%s<!-- /seeds -->" % (len(rows), t), s, flags=re.S)
open(p, "w").write(s)
print(len(rows))
