"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification checked by TLC; recorded executions validated against it (trace validation)"
MBT = "TLA+ specification checked by TLC; model behaviours replayed on the crate and recorded executions validated by TLC"
CHECKS = {
 "C01": (TV, "Every node and weight of all degrees of a consecutive range and sampled nodes of larger degrees, judged by TLC with the three-term recurrence in 192-bit fixed point; MCRules checks that oracle against moment exactness. Trusts the Java override of BigInt (compared with its TLA+ definition by BigIntCheck)."),
 "C02": (TV, "Sampled and special parameters; every node and weight judged by TLC with the Jacobi recurrence in 192-bit fixed point; mirrored pairs. Known finding: middle node of skewed odd rules."),
 "C03": (TV, "Sampled and special alpha; every node and weight judged by TLC with the Laguerre recurrence in 192-bit fixed point."),
 "C04": (TV, "All degrees of a consecutive range; every node and weight judged by TLC with the Hermite recurrence in 192-bit fixed point."),
 "C05": (TV, "All degrees of a consecutive range and sampled nodes of larger ones against the closed forms computed by TLC."),
 "C06": (TV, "Every evaluation and the value of recorded integrations judged exactly (dyadic rationals); MCQuad shows the specified rules are the composite rules and the judgement accepts every order of summation and rejects damaged recordings."),
 "C07": (TV, "Structure of recorded rules of all families; MCRules shows the judgement accepts right and rejects damaged rules."),
 "C08": (TV, "Every evaluation and the value of recorded integrations judged exactly against the recorded rule."),
 "C09": (MBT, "The fork-join model ParReduce is checked exhaustively for small sizes; execution orders of its behaviours are steered through the real pool; the pool's own schedules are sampled."),
 "C10": (MBT, "par_new in pools of 0 to 16 threads against new by digest of all pairs; schedules sampled."),
 "C11": (TV, "All views of recorded rules compared by TLC with the recorded pairs."),
 "C12": (MBT, "All behaviours of the iterator model up to 3 calls on lengths up to 4 and random longer ones replayed on every iterator type."),
 "C13": (MBT, "Exact IEEE arithmetic in TLA+ (MCParams) decides every recorded operation bit for bit; powers within 4 units. Bit patterns sampled with emphasis on boundaries."),
 "C14": (MBT, "Special and neighbouring parameters over a range of degrees, conversions within model behaviours."),
 "C15": (MBT, "Behaviours of GaussQuad (model checked for small constants) replayed on the crate and validated step by step."),
 "C16": (MBT, "Round trips of all families in five formats, alone and within behaviours of GaussQuad; documents with arbitrary doubles. rkyv archives are only read back unmodified."),
 "C17": (TV, "The same jobs run in five feature configurations, each validated against the specification, and compared by TLC with each other."),
 "C18": (MBT, "A fault at every evaluation and a special value at every sample point of small rules of all families, sequential, parallel, nested, concurrent."),
 "C19": (TV, "Extreme and random parameters, many degrees, extreme bounds and skips, with overflow checks on and a watchdog; 'returns' is an action that must be recorded."),
 "C20": (TV, "A decimal grammar and exactly rounded conversion in TLA+ decide every recorded parse and format."),
 "C21": (MBT, "Construction and integration are functions in the specification: any two recordings with equal arguments must agree, within histories, nested, in threads and across processes."),
}
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=k, quick_cmd=f"python3 check.py {k} quick", thorough_cmd=f"python3 check.py {k} thorough", technique=t, level="model_checking", level_note=n)
                 for k, (t, n) in CHECKS.items()],
         not_applicable=[], notes="No hooks in /repo: everything is observed through the public API. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
