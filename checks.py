"""Bounds of every check.  runs: harness entry, parameter tuples per tier, cover points that must be reached."""
ASSUMPTIONS = [
    "x86-64, rustc 1.83 -O1 release semantics (no overflow checks), panic anywhere in a harness is a violation",
    "single thread; allocation succeeds; hash seeds fixed; CPU feature detection reports the SSE2 baseline",
    "network, rayon, farmhash, the forked regex-automata Pool and num_cpus are replaced by the stand-ins in hw/shims",
]
THREADS = [
    ASSUMPTIONS[0],
    "sequentially consistent memory, one thread at a time; preemption before atomic read-modify-writes, atomic stores and non-relaxed atomic loads only, at most the stated number per run; blocking on a lock always gives way",
    "allocation succeeds; hash seeds fixed; CPU feature detection reports no optional features",
    ASSUMPTIONS[2],
]
CHECKS = {
    "P01": {"runs": [
        {"entry": "p01_apply", "quick": [(2, 4, 2, 0), (3, 2, 1, 0), (2, 4, 1, 1)], "thorough": [(3, 4, 2, 0), (4, 2, 3, 0), (3, 4, 2, 1)], "covers": [3]},
        {"entry": "p01_regex", "quick": [(5,)], "thorough": [(9,)], "covers": [1, 2]},
    ]},
    "P02": {"runs": [
        {"entry": "p02_overlap", "quick": [(4, 3, 2)], "thorough": [(5, 3, 3)], "covers": [1, 2, 3]},
        {"entry": "p02_wide", "quick": [(3, 2)], "thorough": [(4, 2)], "covers": [1, 2]},
        {"entry": "p02_many", "quick": [(4,)], "thorough": [(6,)], "covers": [1, 2]},
    ]},
    "P03": {"runs": [
        {"entry": "p03_replacement", "quick": [(3, 4, 4)], "thorough": [(5, 4, 6)], "covers": []},
        {"entry": "p03_config", "quick": [()], "thorough": [()], "covers": []},
        {"entry": "p03_scan", "quick": [(2, 4)], "thorough": [(3, 4)], "covers": []},
    ]},
    "P04": {"runs": [
        {"entry": "p04_scope", "quick": [(2, 1, 1, 2, 1, 1, 0), (2, 1, 1, 2, 1, 1, 1), (2, 1, 1, 2, 2, 1, 1), (2, 1, 0, 1, 2, 2, 1)], "thorough": [(3, 2, 1, 3, 1, 1, 1), (2, 1, 1, 2, 2, 2, 1), (2, 1, 1, 2, 2, 2, 0)], "covers": [1, 2, 3, 4]},
        {"entry": "p04_many", "quick": [(70, 0), (70, 1)], "thorough": [(200, 0), (200, 1)], "covers": [1, 2, 3], "bounds": "rules, implicit wildcards; any list index"},
        {"entry": "p04_regex", "quick": [(2, 0), (2, 1)], "thorough": [(3, 0), (3, 1)], "covers": [1, 2]},
    ]},
    "P05": {"runs": [
        {"entry": "p05_included", "quick": [(5, 1, 3, 0, 0), (4, 2, 2, 4, 1), (4, 4, 3, 0, 0), (4, 1, 3, 2, 1)], "thorough": [(6, 1, 3, 0, 0), (5, 2, 3, 4, 1), (5, 3, 3, 0, 0), (6, 1, 4, 2, 1)], "covers": [1, 2],
         "bounds": "n characters of up to maxw bytes each (every scalar value), look-ahead la, keyword set, token pattern"},
        {"entry": "p05_included", "quick": [(5, 1, 3, 1, 0), (5, 1, 3, 6, 1), (4, 1, 3, 7, 1), (4, 4, 3, 0, 3)], "thorough": [(6, 1, 5, 3, 1), (6, 1, 3, 6, 1), (5, 1, 3, 7, 1), (5, 4, 3, 0, 3)], "covers": [2], "bounds": "as above, multi-word keywords"},
        {"entry": "p05_included", "quick": [(8, 0, 3, 5, 1)], "thorough": [(10, 0, 4, 5, 1)], "covers": [3, 4], "bounds": "longer texts over {x, space, 0}"},
        {"entry": "p05_distance", "quick": [(50, 52, 1), (50, 52, 4), (6, 8, 3)], "thorough": [(50, 60, 1), (50, 60, 2), (50, 60, 3), (50, 60, 4), (1, 4, 1), (6, 8, 3)], "covers": [], "bounds": "keyword to match distance up to maxgap filler characters of the given width"},
        {"entry": "p05_limits", "quick": [(3,)], "thorough": [(4,)], "covers": [1, 2], "bounds": "look-ahead 0..255, 1/49/50/51 keywords, one keyword of n characters"},
    ]},
    "P06": {"runs": [
        {"entry": "p06_excluded", "quick": [(6, 1, 3, 1, 1), (6, 1, 3, 0, 1), (5, 1, 3, 2, 1), (5, 1, 4, 3, 1), (5, 1, 4, 4, 1)], "thorough": [(7, 1, 3, 1, 1), (7, 1, 4, 0, 1), (6, 1, 3, 2, 1), (6, 1, 4, 3, 1), (6, 1, 5, 4, 1)], "covers": [1, 2],
         "bounds": "n characters of up to maxw bytes each, look-ahead la, keyword set, token pattern"},
        {"entry": "p06_excluded", "quick": [(4, 3, 2, 0, 1), (4, 2, 3, 0, 3), (4, 1, 3, 5, 1)], "thorough": [(5, 3, 3, 0, 1), (4, 4, 2, 0, 1), (3, 4, 3, 0, 3), (5, 2, 3, 0, 3), (5, 1, 3, 5, 1)], "covers": [2], "bounds": "as above, wide characters"},
        {"entry": "p06_distance", "quick": [(50, 52, 1), (5, 7, 4)], "thorough": [(50, 60, 1), (50, 60, 3), (50, 60, 4), (2, 5, 1)], "covers": [1, 2], "bounds": "keyword to match distance up to maxgap filler characters of the given width"},
    ]},
    "P07": {"runs": [
        {"entry": "p07_luhn", "quick": [(16, 0, 16, 0), (10, 0, 10, 0), (19, 3, 10, 0), (7, 1, 6, 1), (16, 14, 3, 4)], "covers": [1, 2], "bounds": "total digits, fixed prefix, symbolic characters, 0: symbolic digits / 1: any ASCII / 4: any scalar value"},
        {"entry": "p07_chinese", "quick": [(0, 18)], "covers": [1, 2], "bounds": "18 symbolic characters"},
        {"entry": "p07_chinese", "quick": [(10, 7), (11, 8)], "covers": [2], "bounds": "wrong lengths"},
        {"entry": "p07_nir", "quick": [(15, 0, 15, 0), (15, 11, 4, 1), (15, 12, 4, 1), (15, 6, 3, 4)], "covers": [], "bounds": "as luhn"},
        {"entry": "p07_nhs", "quick": [(10, 0, 5, 0), (10, 3, 5, 0), (10, 5, 5, 0), (10, 7, 4, 1), (11, 7, 3, 1), (10, 7, 3, 4), (10, 2, 6, 0)], "covers": [], "bounds": "as luhn"},
        {"entry": "p07_nhs", "quick": [(11, 3, 8, 0), (8, 0, 8, 0)], "covers": [2], "bounds": "wrong lengths"},
        {"entry": "p07_scan", "quick": [(6,)], "thorough": [(8,)], "covers": [], "bounds": "scan of n symbolic characters with a checksum rule"},
    ]},
    "P08": {"runs": [
        {"entry": "p08_github", "quick": [(1, 1, 6, 1, 0), (2, 1, 6, 1, 0), (0, 1, 7, 1, 1), (1, 2, 6, 2, 0)], "thorough": [(2, 2, 6, 1, 0), (0, 1, 7, 1, 1), (1, 2, 6, 2, 0), (3, 1, 7, 1, 0)], "covers": [1, 2], "bounds": "prefix characters, width, tail characters, width, 0: listed payloads (checksums with 0-4 leading zeros) / 1: one symbolic payload character"},
        {"entry": "p08_github_free", "quick": [(1,)], "thorough": [(1,), (2,)], "covers": [1, 2], "bounds": "payload characters, everything after the separator symbolic"},
        {"entry": "p08_iban", "quick": [(0, 0, 4, 4, 1), (0, 4, 11, 11, 0), (1, 4, 4, 4, 1), (0, 13, 2, 4, 1), (1, 8, 14, 14, 0), (2, 4, 8, 8, 0), (1, 2, 2, 2, 2), (3, 10, 6, 6, 1)], "thorough": [(0, 0, 4, 4, 1), (0, 4, 11, 11, 0), (1, 4, 4, 4, 1), (0, 13, 2, 4, 1), (1, 8, 14, 14, 0), (2, 4, 8, 8, 0), (1, 2, 2, 2, 2), (3, 10, 6, 6, 1), (2, 7, 4, 4, 1), (0, 14, 1, 1, 4), (0, 4, 1, 2, 2)], "covers": [1, 2], "bounds": "IBAN (NO, GB, KZ, BE), window start, window length, symbolic characters in its place, width (0: digits)"},
        {"entry": "p08_jwt_exp", "quick": [(1, 0), (5, 0), (4, 5), (4, 6)], "thorough": [(1, 0), (6, 0), (5, 5), (5, 6)], "covers": [1, 2], "bounds": "symbolic digits of the expiry, mode; five instants x two sub-second values"},
        {"entry": "p08_jwt_exp", "quick": [(4, 1), (1, 2), (4, 3)], "covers": [2], "bounds": "negative, fractional and quoted expiry"},
        {"entry": "p08_jwt_exp", "quick": [(4, 4)], "covers": [1], "bounds": "no expiry claim"},
        {"entry": "p08_jwt_shape", "quick": [(0, 2), (0, 3), (1, 2), (1, 3), (2, 2), (3, 3)], "covers": [1, 2], "bounds": "mode (header, payload, signature, missing part), symbolic ASCII characters"},
        {"entry": "p08_jwt_shape", "quick": [(0, 1), (1, 1)], "covers": [2], "bounds": "as above"},
    ]},
    "P09": {"runs": [
        {"entry": "p09_verdict", "quick": [(4, 0, 0, 2), (3, 5, 0, 2), (3, 2, 2, 2), (3, 3, 3, 2), (1, 9, 4, 2), (2, 9, 4, 1), (1, 9, 5, 1), (3, 1, 1, 1)], "thorough": [(6, 0, 0, 3), (4, 5, 0, 2), (4, 2, 2, 3), (4, 3, 3, 2), (3, 9, 4, 1), (2, 9, 5, 1), (4, 1, 1, 1), (2, 9, 8, 1), (3, 9, 0, 1)], "covers": [1, 2], "bounds": "pattern characters, alphabet (9: any ASCII), template, text characters"},
        {"entry": "p09_quantifier", "quick": [(0,)], "thorough": [(0,), (1,)], "covers": [1, 2], "bounds": "counts around 0, 3000, 2^16, 2^32 and beyond in all four forms"},
        {"entry": "p09_depth", "quick": [(47, 53, 0), (47, 53, 1), (47, 53, 2), (47, 53, 3), (47, 53, 4)], "thorough": [(1, 80, 0), (1, 80, 1), (2, 80, 2), (1, 110, 3), (1, 110, 4)], "covers": [1, 2], "bounds": "nesting levels (or groups side by side) from..to, shape"},
        {"entry": "p09_total", "quick": [(2, 1)], "thorough": [(3, 1)], "covers": [1, 2], "bounds": "any pattern of n ASCII characters"},
    ]},
    "P10": {"runs": [
        {"entry": "p10_posix", "quick": [(4,)], "covers": [1, 3], "bounds": "any character of up to 4 bytes"},
        {"entry": "p10_pattern", "quick": [(4, 0, 0, 3, 1), (1, 9, 0, 2, 4), (3, 1, 1, 2, 2), (4, 1, 1, 1, 4), (3, 2, 2, 4, 1), (3, 3, 3, 3, 1), (3, 6, 7, 3, 1), (1, 9, 4, 2, 4), (1, 9, 5, 1, 4)], "thorough": [(5, 0, 0, 3, 1), (2, 9, 0, 2, 1), (3, 1, 1, 2, 2), (4, 1, 1, 1, 4), (4, 2, 2, 4, 1), (4, 3, 3, 3, 1), (4, 4, 0, 3, 1), (3, 5, 0, 2, 1), (4, 6, 0, 3, 1), (4, 6, 7, 3, 1), (2, 9, 4, 2, 1), (1, 9, 5, 1, 4), (2, 9, 5, 1, 2)], "covers": [1, 2, 3], "bounds": "pattern characters, alphabet (9: any ASCII), template, text characters, width"},
        {"entry": "p10_range", "quick": [(4, 0), (1, 1), (1, 2), (1, 3)], "thorough": [(4, 0), (4, 1), (4, 2), (1, 3)], "covers": [1, 2, 3], "bounds": "text width, shape of the class; 20 x 20 range ends"},
        {"entry": "p10_flags", "quick": [(0, 6, 2)], "thorough": [(0, 6, 4)], "covers": [1, 2, 3], "bounds": "first form, forms, text characters; 7 x 7 flag combinations"},
        {"entry": "p10_tokens", "quick": [(2, 0, 3, 1), (2, 1, 2, 2), (3, 1, 2, 1)], "thorough": [(3, 0, 2, 1), (2, 0, 4, 1), (3, 1, 2, 2), (2, 2, 2, 2)], "covers": [1, 2, 3], "bounds": "pattern tokens, token set, text characters, width"},
    ]},
    "P11": {"runs": [
        {"entry": "p11_scan", "quick": [(0, 3, 3, 1, 0, 0), (0, 3, 0, 1, 0, 0), (0, 3, 4, 1, 2, 3), (1, 2, 2, 2, 0, 1), (1, 2, 1, 0, 1, 0), (2, 2, 2, 2, 0, 0), (3, 2, 1, 1, 1, 1), (4, 1, 2, 2, 2, 2), (5, 2, 2, 1, 0, 0), (6, 1, 2, 2, 0, 0), (6, 1, 0, 1, 4, 0)],
         "thorough": [(0, 5, 3, 1, 0, 0), (0, 5, 0, 1, 0, 0), (0, 4, 4, 1, 2, 3), (1, 3, 3, 3, 0, 1), (2, 3, 3, 2, 0, 0), (3, 3, 2, 1, 1, 1), (4, 2, 3, 2, 2, 2), (5, 3, 2, 1, 0, 0), (6, 2, 2, 2, 0, 0), (6, 2, 0, 1, 4, 0)], "covers": [1, 2, 3],
         "bounds": "event shape, characters per string, width (0: arbitrary bytes), field name width, actions, declared UTF-8 / UTF-16 indices"},
        {"entry": "p11_scan", "quick": [(4, 2, 1, 1, 3, 0)], "covers": [1, 2], "bounds": "as above, report-only rules"},
        {"entry": "p11_scan", "quick": [(7, 0, 1, 1, 0, 0)], "covers": [2], "bounds": "event without strings"},
        {"entry": "p11_large", "quick": [(3, 3, 3), (300, 2, 3), (3, 300, 258), (70000, 1, 3)], "thorough": [(3, 3, 3), (300, 2, 3), (3, 300, 258), (70000, 1, 3), (1, 70000, 300)], "covers": [1, 2], "bounds": "string length, name length, rules; indices up to 2^32-1"},
    ]},
    "P12": {"runs": [
        {"entry": "p12_path", "quick": [(1, 5, 1, 0, 1), (1, 5, 1, 2, 1), (1, 6, 1, 3, 1), (2, 3, 1, 0, 1), (2, 2, 1, 1, 1), (1, 3, 2, 0, 1), (2, 3, 0, 6, 1), (3, 2, 0, 2, 1)], "thorough": [(1, 6, 1, 0, 1), (1, 6, 1, 2, 1), (1, 6, 1, 3, 1), (2, 4, 1, 0, 1), (2, 3, 1, 1, 1), (1, 3, 2, 0, 1), (2, 4, 0, 6, 1), (3, 3, 0, 2, 1), (1, 2, 2, 4, 1)], "covers": [1, 2],
         "bounds": "path segments, characters per name, width (0: the characters that matter), keyword set, feature on"},
        {"entry": "p12_path", "quick": [(3, 2, 1, 3, 1), (2, 3, 1, 6, 0)], "covers": [2], "bounds": "names too short for the keywords; feature off"},
    ]},
    "P13": {"runs": [
        {"entry": "p13_rules", "quick": [(0, 3, 0, 0), (0, 2, 2, 1), (1, 2, 2, 0), (3, 3, 0, 0), (5, 2, 2, 0), (6, 3, 0, 0), (0, 2, 0, 2), (6, 3, 0, 3)], "thorough": [(0, 4, 0, 0), (0, 2, 2, 1), (1, 3, 3, 1), (2, 4, 0, 0), (3, 4, 0, 0), (5, 2, 2, 1), (6, 4, 0, 1), (0, 3, 0, 2), (3, 3, 0, 3)], "covers": [1, 2, 3],
         "bounds": "rule set, characters of field a, of field b (any ASCII), blocked rules (none, one, two in any order, with repeated and unknown ones)"},
        {"entry": "p13_rules", "quick": [(2, 3, 0, 0), (4, 3, 0, 0)], "thorough": [(4, 3, 0, 1)], "covers": [2], "bounds": "as above, keyword and checksum rules"},
    ]},
    "P14": {"runs": [
        {"entry": "p14_history", "quick": [(1, 2, 0, 9), (2, 1, 0, 5), (2, 2, 0, 4), (1, 3, 8, 8)], "thorough": [(1, 3, 0, 9), (1, 4, 8, 8), (2, 2, 8, 8), (2, 2, 0, 9), (3, 1, 0, 5)], "covers": [1, 2], "bounds": "scanners created before (each kept, scanned with or dropped), characters, first configuration, configurations"},
        {"entry": "p14_history", "quick": [(2, 2, 4, 2)], "thorough": [(3, 2, 4, 2)], "covers": [2, 3], "bounds": "as above, with a configuration that must be refused"},
        {"entry": "p14_events", "quick": [(2, 3)], "thorough": [(3, 4)], "covers": [1, 2], "bounds": "characters of an earlier event and of the event"},
        {"entry": "p14_gc", "quick": [(1010, 2, 0), (2010, 1, 1100)], "thorough": [(1010, 3, 0), (2100, 2, 500), (3100, 2, 3000)], "covers": [1, 2], "bounds": "scanners created before, characters, how many of them are alive"},
    ]},
    "P15": {"runs": [
        {"entry": "p15_http", "quick": [(1, 1, 0), (1, 1, 1), (2, 1, 0)], "thorough": [(1, 2, 0), (2, 1, 1), (1, 2, 1)], "covers": [1, 2, 3, 4], "bounds": "matches, endpoints, symbolic status ranges; any status code or transport error per request"},
        {"entry": "p15_pair", "quick": [(1,), (2,)], "covers": [1, 2], "bounds": "matches of two rules with one endpoint"},
        {"entry": "p15_aws", "quick": [(1, 4)], "covers": [4], "bounds": "matches of key id / secret / session / other rules"},
        {"entry": "p15_aws", "quick": [(2, 4), (3, 2), (4, 2)], "thorough": [(2, 4), (3, 4), (5, 2)], "covers": [1, 2, 3, 4], "bounds": "as above"},
        {"entry": "p15_scan", "quick": [(2, 1, 0), (2, 1, 2)], "thorough": [(3, 2, 0), (3, 2, 2)], "covers": [1, 2], "bounds": "characters, width, what can be validated"},
        {"entry": "p15_scan", "quick": [(2, 1, 1), (2, 1, 3)], "thorough": [(3, 1, 1), (3, 1, 3)], "covers": [1], "bounds": "as above"},
    ]},
    "P16": {"runs": [
        {"entry": "p16_multipass", "quick": [(2, 2, 0, 9, 1), (2, 2, 1, 0, 1), (2, 2, 0, 1, 3), (2, 2, 0, 2, 7), (1, 3, 0, 0, 3), (2, 2, 0, 9, 9), (2, 2, 3, 9, 1)], "thorough": [(3, 2, 0, 9, 1), (3, 2, 1, 0, 1), (3, 2, 0, 1, 3), (2, 2, 0, 2, 7), (2, 3, 0, 0, 3), (2, 3, 1, 2, 7), (3, 2, 0, 9, 9), (3, 2, 3, 9, 9)], "covers": [1, 2, 3], "bounds": "characters per field, fields, patterns, mode"},
        {"entry": "p16_multipass", "quick": [(2, 2, 0, 1, 0), (2, 2, 0, 2, 6)], "thorough": [(3, 2, 0, 1, 0), (2, 3, 0, 2, 6)], "covers": [2, 3], "bounds": "multi-pass off"},
        {"entry": "p16_keywords", "quick": [(5, 3)], "thorough": [(7, 3), (6, 2)], "covers": [1, 2], "bounds": "characters in the excluded field, look-ahead"},
    ]},
    "P17": {"runs": [
        {"entry": "p17_simple", "quick": [(0, 2, 1), (1, 2, 1), (2, 1, 1), (3, 2, 0)], "thorough": [(0, 3, 1), (1, 3, 1), (2, 2, 1), (3, 3, 0), (3, 3, 1)], "covers": [1, 2], "bounds": "tree shape, characters per string, redact"},
        {"entry": "p17_json", "quick": [(0, 2, 1, 1), (0, 1, 1, 4), (0, 1, 0, 4), (1, 1, 1, 5), (1, 1, 0, 5), (2, 1, 1, 1), (3, 2, 1, 4)], "thorough": [(0, 3, 1, 1), (0, 2, 1, 5), (1, 2, 0, 5), (1, 2, 1, 5), (2, 2, 1, 4), (3, 3, 1, 5)], "covers": [1, 2], "bounds": "as above, leaf kinds"},
        {"entry": "p17_hashmap", "quick": [(0, 2, 1, 1), (2, 1, 1, 1), (3, 1, 1, 1)], "thorough": [(0, 3, 1, 1), (2, 1, 1, 4), (3, 1, 1, 4)], "covers": [1, 2], "bounds": "as above"},
    ]},
    "P18": {"runs": [
        {"entry": "p18_roundtrip", "quick": [(2, 4, 0), (2, 4, 1), (2, 4, 2), (2, 4, 3), (1, 4, 4), (2, 4, 5), (2, 4, 6), (1, 4, 7)], "thorough": [(3, 4, 0), (3, 4, 1), (2, 4, 2), (3, 4, 3), (1, 4, 4), (3, 4, 5), (2, 4, 6), (2, 4, 7)], "covers": [1], "bounds": "characters of the symbolic string, width, part of the configuration that is symbolic"},
        {"entry": "p18_wire", "quick": [(2, 4, 0, 0), (2, 4, 0, 1), (2, 4, 0, 2), (2, 4, 0, 3), (2, 4, 0, 4), (2, 1, 1, 0), (2, 1, 1, 1), (2, 1, 1, 2), (2, 1, 1, 4)], "thorough": [(3, 4, 0, 0), (3, 4, 0, 1), (3, 4, 0, 2), (3, 4, 0, 3), (3, 4, 0, 4), (3, 1, 1, 0), (3, 1, 1, 1), (3, 1, 1, 2), (3, 1, 1, 4)], "covers": [1], "bounds": "characters, width, escape style, part"},
        {"entry": "p18_scan", "quick": [(4,)], "thorough": [(6,)], "covers": [1, 2], "bounds": "characters"},
        {"entry": "p18_refuse", "quick": [()], "covers": [1, 2], "bounds": "13 forms with one symbolic character, label arity 0..3"},
    ]},
    "P19": {"assumptions": ["handles are used as the C header allows: not after being freed", "a panic inside the library is a violation here, so the conversion of panics to errors is not explored"], "runs": [
        {"entry": "p19_history", "poison": True, "quick": [(4, 1, 1)], "thorough": [(5, 1, 2)], "covers": [2, 3, 5, 6, 7], "bounds": "steps (append, create scanner, free rule, free list, scan or delete scanner), lists, characters per scan"},
        {"entry": "p19_history", "poison": True, "quick": [(4, 2, 1)], "thorough": [(4, 2, 2)], "covers": [2, 3, 5, 7], "bounds": "as above"},
        {"entry": "p19_errors", "poison": True, "quick": [()], "covers": [5], "bounds": "five refused rules, every position"},
        {"entry": "p19_scan", "poison": True, "quick": [(1, 2, 0, 1), (4, 1, 0, 0), (0, 3, 0, 0), (3, 2, 4, 0)], "thorough": [(1, 3, 0, 1), (4, 2, 0, 0), (0, 4, 0, 0), (3, 2, 4, 0), (2, 2, 0, 2)], "covers": [1, 2, 3], "bounds": "event shape, characters per string, width (0: arbitrary bytes), field name width"},
        {"entry": "p19_release", "poison": True, "quick": [(2,)], "thorough": [(4,)], "covers": [5], "bounds": "characters; two rules, three orders of freeing"},
        {"entry": "p19_paths", "poison": True, "quick": [(2,)], "covers": [1, 2], "bounds": "characters of the field name"},
    ]},
    "P20": {"runs": [
        {"entry": "p20_scan", "quick": [(3, 0, 1, 0), (3, 0, 1, 1), (3, 0, 1, 2)], "thorough": [(4, 0, 1, 0), (4, 0, 1, 1), (4, 0, 1, 2)], "covers": [1, 2, 3], "bounds": "characters per field of two events (0: no event), multi-pass, labels of scanner and rules; two fields, two rules"},
        {"entry": "p20_scan", "quick": [(2, 1, 1, 0)], "thorough": [(2, 2, 1, 0)], "covers": [1, 2], "bounds": "as above"},
        {"entry": "p20_scan", "quick": [(3, 0, 0, 0)], "thorough": [(4, 0, 0, 0)], "covers": [1, 3], "bounds": "as above, multi-pass off"},
        {"entry": "p20_life", "quick": [(4,)], "thorough": [(6,)], "covers": [1, 2], "bounds": "steps: create one of three scanners, a refused one, drop one"},
    ]},
    "P21": {"threads": True, "runs": [
        {"entry": "p21_threads", "quick": [(2, 1, 6, 0, 1), (2, 1, 6, 997, 0), (2, 1, 6, 998, 0), (2, 2, 5, 0, 0)], "thorough": [(2, 1, 6, 0, 3), (2, 2, 6, 997, 0), (2, 2, 6, 998, 0), (2, 2, 6, 0, 1), (2, 3, 2, 0, 0)], "covers": [1, 2, 3], "bounds": "threads, preemptions, jobs (create+scan, create+keep, scan with a shared scanner, drop, two scanners, refused scanner), scanners created and dropped before (the store is cleaned at the 1000th), symbolic characters of the text"},
        {"entry": "p21_threads", "quick": [(3, 1, 3, 0, 0)], "thorough": [(3, 1, 6, 0, 0), (3, 1, 3, 997, 1), (3, 2, 2, 0, 0)], "covers": [3], "bounds": "as above"},
    ]},
}
