#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the tables below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "bounded exhaustive model checking: every %s run on the real code and compared step by step with %s"
AST = DIFF % ("pattern term x input x start position", "a PEG reference interpreter")
M = {
 "P01": (AST, "all combinator terms to the stated size over all inputs to the stated length and all start offsets"),
 "P02": (AST, "offset after every failing match attempt, plain and skip-policy contexts, one-off before/after patterns"),
 "P03": (AST, "handlers and mappers that reject the n-th call, for every n, in every enumerated term"),
 "P04": (AST, "match and construct of the same pattern object compared directly and with the model"),
 "P05": (AST, "sequence, choice, option, affix, enclosure, branch terms nested in all ways"),
 "P06": (AST, "every bound shape over all inputs, with element patterns of every consuming shape"),
 "P07": (AST, "every bound/skip flag/fixed size over all inputs"),
 "P08": (AST, "all alternative lists to the stated size"),
 "P09": (AST, "lookahead, anchors, literals, consumers in every context"),
 "P10": (DIFF % ("unit, all Unicode scalar values or 256 bytes", "class tables derived independently"), "the single-item domain is covered completely"),
 "P11": (DIFF % ("quantifier x unit x input x start", "a greedy-run reference"), "bounds to 4 plus extreme bounds; inputs over an alphabet with 1-4 byte characters"),
 "P12": (AST, "skip-policy contexts against a model that skips before each leaf"),
 "P13": (DIFF % ("pattern x input x start x number of steps", "a search derived from the table of single attempts"), "all iterator prefixes and resumed searches"),
 "P14": (DIFF % ("operation history on span stores", "a map of lists"), "explicit-state search over operation histories"),
 "P15": (DIFF % ("iterator call history", "the list of items"), "all contents and partial consumptions to the stated size"),
 "P16": (DIFF % ("mapper x input", "an independent conversion"), "full domains where small, boundary-complete otherwise"),
 "P17": (DIFF % ("wrapper stack x pattern x input", "the bare pattern"), "all wrapper stacks to depth 2"),
 "P18": (DIFF % ("input of a recursive grammar", "a recursive-descent reference"), "all inputs to the stated length plus deep nesting"),
 "P19": (AST, "dynamic builders in every position, failing in every stage"),
 "P20": (DIFF % ("macro form x input", "the notation's denotation"), "every macro rule instantiated"),
 "P21": ("explicit-state search over guard operation histories on the real code against a stack model", "all histories to the stated depth, nested guards, all contexts"),
 "P22": (DIFF % ("context operation x position", "slices of the input"), "all positions, valid, inside a character, beyond the end, huge"),
 "P23": ("stateless exhaustive interleaving exploration of real threads under a controlled scheduler", "every interleaving at leaf steps for 2-3 threads"),
 "P24": (DIFF % ("pattern x input in each build configuration", "the default configuration's observations"), "all feature configurations, with a formatting logger installed"),
 "P25": (AST, "all tables to the stated size in array/slice/vector forms"),
 "P26": (AST, "handler call log compared with the model's leaf log"),
 "P27": (DIFF % ("condition x quantifier x input x start", "a filtered greedy-run reference"), "conditions of every kind incl. failing ones"),
 "P28": (DIFF % ("prefix call sequence", "a two-phase automaton"), "all call sequences to the stated length"),
 "P29": (DIFF % ("history of uses of one pattern", "a fresh pattern per use"), "all pairs/triples of uses"),
 "P30": (DIFF % ("history of configuration calls", "a directly built pattern"), "all histories to the stated depth"),
}
sh = open(f"{root}/run.sh").read()
have = set(re.findall(r"P\d\d", sh[sh.index("pkg_of"):sh.index("build()")]))
checks, na = [], []
for l in open(f"{root}/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in have:
        t, n = M[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash run.sh setup", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo. See DESIGN.md."), open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
