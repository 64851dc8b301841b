"""Source of properties.jsonl and MANIFEST.json: python3 props.py"""
import json, os, checks

P = {}


def prop(i, title, statement, over, text, why, files, mech, technique_note):
    P[i] = dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=mech, where=", ".join(files))]), note=technique_note)


prop("P01", "Redaction rewrites exactly the matches and reports true output indices",
     "Scanning a string replaces the text of each reported match by what its match action prescribes and leaves every other byte untouched. The reported start/end indices and shift of every match, in the event's own index encoding, delimit exactly the (possibly replaced) match in the string as it is after the scan, and shift equals end index in the output minus end index in the input.",
     ["inputs", "configurations"], "all strings, sets of disjoint matches, match actions (any mix, any replacement length), UTF-8 and UTF-16 index encodings",
     "Tests use a few ASCII strings with one or two matches; index arithmetic errors need particular combinations of multi-byte characters, replacement lengths and a later match.",
     ["sds/src/scanner/mod.rs", "sds/src/rule_match.rs", "sds/src/encoding.rs"], "accumulated byte and custom-index deltas while matches are applied left to right",
     "the real Scanner::scan run symbolically on symbolic text, match positions and actions")
prop("P02", "Overlapping matches: the documented priority decides, nothing overlaps",
     "When matches of one string overlap, mutating rules win over report-only ones, then the earliest start, then the longest, then the lowest rule index; a match is dropped if and only if it overlaps one that is kept. The returned matches of a string never overlap and are ordered by start, and the text is redacted by exactly the kept matches.",
     ["inputs", "configurations"], "all multisets of match spans and all mixes of mutating / report-only rules",
     "The order of arrival, ties and three-way overlaps are combinatorial; tests fix a handful of layouts.",
     ["sds/src/scanner/mod.rs"], "sort by priority then greedy retention, final sort by start",
     "real Scanner::scan with symbolic match spans against a reference greedy selection")
prop("P03", "Match actions replace what they document, and invalid actions are refused",
     "Redact substitutes the replacement text; hash substitutes the lower-case hexadecimal 64-bit fingerprint of the match's UTF-8 bytes (UTF-16 little-endian bytes for the UTF-16 variant); partial redaction puts exactly n asterisks in place of the first/last min(n, length) characters (not bytes) and keeps the rest; none changes nothing. Each match reports the replacement kind of its action, only 'none' is non-mutating, and partial redaction of zero characters is rejected when the scanner is created while every other action is accepted.",
     ["inputs", "configurations"], "all match texts (every Unicode width), all counts",
     "Tests sample ASCII words and two counts; character/byte confusion only shows on particular width and count combinations.",
     ["sds/src/match_action.rs", "sds/src/scanner/regex_rule/config.rs", "sds/src/scanner/regex_rule/compiled.rs"], "get_replacement per action; validation when the rule is compiled",
     "real get_replacement / scan on symbolic text and counts against a reference written from the documentation")
prop("P04", "Scopes: a rule applies to exactly the fields its scope names",
     "A rule with include paths is applied to a string exactly when some include path is a prefix of the string's path (any path when the scope has no includes), and its matches there are suppressed exactly when some exclude path is a prefix. With implicit wildcard indices enabled, list indices of the string's path may additionally be skipped when comparing, except that an index directly following a skipped one is not compared explicitly. Each match is reported once, with the path of the string it is in, independently of sibling fields visited before.",
     ["inputs", "configurations", "histories"], "all scopes, event shapes and traversal histories",
     "Tests enumerate a few trees; push/pop bookkeeping errors need particular sequences of siblings, nesting and wildcard states.",
     ["sds/src/scoped_ruleset/mod.rs", "sds/src/scoped_ruleset/bool_set.rs", "sds/src/scanner/scope.rs", "sds/src/path.rs"], "rule tree walked in step with the event traversal",
     "real ScopedRuleSet / Scanner::scan on symbolic paths and scopes against a prefix-matching reference")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read()) if os.path.exists("props_more.py") else None

NOT_APPLICABLE = []

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for i in sorted(P):
            d = {k: v for k, v in P[i].items() if k != "note"}
            assert len(d["title"]) <= 80, i
            f.write(json.dumps(d) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "hooks": json.load(open("hooks.json")),
        "checks": [
            {"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
             "technique": "solver-based checking: path-exhaustive symbolic execution of the compiled LLVM IR of /repo's current sources (own executor, Z3), counterexamples replayed natively; " + P[i]["note"],
             "level": "model_checking",
             "level_note": "exhaustive within the bounds of checks.py (reported per run in the evidence file); outside them nothing is claimed"}
            for i in sorted(P) if i in checks.CHECKS],
        "not_applicable": NOT_APPLICABLE + [{"property": i, "reason": P[i].get("na", "no check yet")} for i in sorted(P) if i not in checks.CHECKS],
    }
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    print(len(P), "properties,", len(m["checks"]), "checks")
