"""Writes MANIFEST.json from the list of implemented checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the constructor / function over symbolic inputs (types, value intervals, string templates, path conditions)"
CP = ("abstract interpretation of client programs (construct, set, validate, serialize) whose leaves are symbolic; the final abstract value is compared, on every path, "
      "with the value the property prescribes")
TECH = {
    "C01": AI,
    "C02": AI + "; interval domain",
    "C03": AI + "; regular-language equivalence of the accepting path conditions with the documented language (automata product)",
    "C04": AI + "; interval and type domains, exhaustive over the shapes of the fields",
    "C05": AI + "; character-map domain for strings: the escape map of every rendering path is compared with the inverse of the reader's unescape rules",
    "C06": AI + "; string-template domain, one template per literal type and language",
    "C07": AI + "; string-template domain with symbolic sequences: the template of each node is compared with the documented arrangement of its parts, induction over nodes",
    "C08": CP + "; every subset of clauses in the enumerated table, clauses symbolic",
    "C09": CP + "; effect order: no text before validation of every part; invalid parts planted by replacing an attribute",
    "C10": CP + "; whole-query rules, over every clause and every kind of wrong value",
    "C11": CP + "; every position a column can take in a query, for each kind of match clause",
    "C12": CP + "; frame condition of each builder method: all fields but one unchanged, identical",
    "C13": "abstract interpretation with a heap and mutation events: the heap before and after each operation is compared on every path; frozen-dataclass check on the syntax tree",
    "C14": "effect analysis: abstract interpretation that records writes to module-, class- and default-argument objects, memoisation, clock, randomness, environment and "
           "identity reads; both iteration orders of every set; plus a syntax-tree scan of every function of the package for the same effects",
    "C15": CP + "; OR groups up to the enumerated size with symbolic operands",
    "C16": CP + "; payload dictionary compared field by field",
    "C17": AI + "; string-template domain for the MQL printers, induction over nodes",
    "C18": CP + "; context dictionary compared field by field",
    "C19": "abstract interpretation of the MQL visitor over parse trees built by a PEG model of the grammar in the source, for query templates with symbolic leaves drawn from "
           "regular languages; the object obtained is compared with the one the template denotes",
    "C20": "evaluation of the operator tables in the source against each other (writer, reader, converter), entry by entry, by abstract interpretation",
    "C21": CP + "; legacy bodies with symbolic leaves, field by field",
    "C22": AI + "; paths of DeleteQuery.serialize over every shape of column_conditions",
    "C23": CP + "; accept/reject verdict over every operator, nesting and match kind, under both set orders",
    "C24": AI + "; for every pair of classes, the path condition of == implies equality of the hashed tuples",
    "C25": "composition of the printer templates (C17) with the parser model (C19): abstract interpretation of parse, print, parse over templates with symbolic leaves",
    "C26": "dataflow of each number from the place where it is given to the text: every conversion on the way must be one that keeps the value (conversion whitelist, path-sensitive guards)",
}
NA = {
}
NOTE = ("Static: every run re-reads /repo/snuba_sdk and interprets it abstractly over all inputs of each enumerated abstract shape; no package code is run. "
        "Trusts the analyser's transfer functions for Python and the standard library; obligations it cannot decide are reported as undecided, not as alarms.")


def main() -> None:
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "sa", "props", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                           "technique": TECH.get(i, AI), "level": "other", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
