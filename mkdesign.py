"""DESIGN.md from DESIGN.in.md, props, checks, known_findings and seed_results: python3 mkdesign.py"""
import json, os
import checks
from props import P
V = os.path.dirname(os.path.abspath(__file__))
ORACLE = {
    "P01": "expected text and indices rebuilt character by character from the documented action semantics (`common.rs::expect_apply`); UTF-8 and UTF-16 counts computed independently",
    "P02": "`p02ref.rs`: candidates sorted by the documented precedence (mutating first, then start, length, rule order), greedily kept",
    "P03": "each action written out from its documentation (redact, partial first/last n characters, hash of the UTF-8 or UTF-16 bytes in hex)",
    "P04": "`covers`: prefix test on the two paths (with implicit indices skipped where enabled), per string and rule",
    "P05": "scan of the character window before each match for a keyword with word boundaries (`kw.rs::occurs`)",
    "P06": "as P05 with '-'/'_' stripped and the suppressing sense",
    "P07": "textbook check-digit sums over the digits of the text",
    "P08": "independent CRC-32/base-62, ISO 7064 residue with country table entries, base64url+JSON claims, at five instants",
    "P09": "recursive-descent reference parser of the documented dialect with its limits (`dialect.rs`)",
    "P10": "backtracking reference matcher on that parser's tree (`patterns.rs`), leftmost, greedy/lazy as written",
    "P11": "independent decoder of the response; P01's expectation for text and indices",
    "P12": "names split at separators and case changes as documented, keyword words looked up in the sequence of words",
    "P13": "one scanner per rule on the same event, combined by P02's reference",
    "P14": "closed-form expectation per configuration; the same whatever happened before",
    "P15": "recorded requests and their outcomes; best outcome by the documented rank",
    "P16": "set of values matched in excluded fields; matches with such a value are dropped",
    "P17": "recursive expectation over a model tree",
    "P21": "the naive scan result per text; counts from the job list; scheduler in `sched.rs`",
    "P20": "reference counts from the texts and the call history",
    "P19": "list of rule kinds per scanner recorded at creation; the response reader and the naive matcher of P11; heap block count",
    "P18": "the original configuration; the configuration built with the builder API for a hand-written JSON text",
}
costs = json.load(open(os.path.join(V, "costs.json"))) if os.path.exists(os.path.join(V, "costs.json")) else {}
rows = []
for i, p in P.items():
    c = checks.CHECKS[i]
    rows.append(f"### {i}: {p['title']}\n")
    rows.append(f"- **Statement.** {p['statement']}")
    rows.append(f"- **Method.** {p['note']}. Anchors: {', '.join(p['anchors']['files'])}.")
    rows.append(f"- **Oracle.** {ORACLE.get(i, 'see harness')}.")
    rows.append(f"- **Why tests cannot settle it.** {p['why_tests_cant']}")
    rows.append(f"- **Cost.** quick about {costs.get(i, '?')} s.")
    rows.append("- **Bounds** (parameter tuples; their meaning follows the entry name):")
    for r in c["runs"]:
        t = r.get("thorough", r["quick"])
        rows.append(f"  - `{r['entry']}` ({r.get('bounds', 'see harness')}): quick {', '.join(map(str, r['quick']))}" + (f"; thorough {', '.join(map(str, t))}" if t != r["quick"] else ""))
    rows.append("")
fx = []
for l in open(os.path.join(V, "known_findings.jsonl")):
    d = json.loads(l)
    fx.append(f"- {d['what']}")
sd = ["| bug | property | needs | breaks | caught by quick check |", "|---|---|---|---|---|"]
res = json.load(open(os.path.join(V, "seed_results.json"))) if os.path.exists(os.path.join(V, "seed_results.json")) else {}
for i in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    esc = lambda s: s.replace("|", "\\|")
    sd.append(f"| {i} | {m['property']} | {esc(m['needs'])} | {esc(m['what_it_breaks'])} | {res.get(i, '?')} |")
s = open(os.path.join(V, "DESIGN.in.md")).read()
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@FIXES@@", "\n".join(fx)).replace("@@SEEDS@@", "\n".join(sd))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
