"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []
TECH = "symbolic execution of the real Python source; SMT (z3) decides every assertion over all inputs within bounds"


def prop(id, title, statement, over, text, why, files, mechanism, note, observe=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism]},
    })
    PROPS[-1]["_note"] = note


def not_applicable(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism, None)
    NOT_APPLICABLE.append({"property": id, "reason": reason})


C, Q = "qldpc/codes/common.py", "qldpc/codes/quantum.py"

prop("P01", "Bit-packed weight kernels count exactly",
     "The Hamming weight and symplectic (Pauli) weight computed on bit-packed rows equal the number of nonzero positions, for every bit string and any length. "
     "All implementations (vectorised, fallback without hardware popcount, just-in-time compiled) agree.",
     ["inputs", "configurations"], "every bit string of each checked length (1..130 bits), each implementation",
     "Tests compare a few random rows; a wrong mask or missing carry shows only for particular bit patterns in particular machine words.",
     ["qldpc/codes/distance.py"], [("bit counting and packing", "distance.py: _hamming_weight*, _symplectic_weight*, _rows_to_ints and numba variants")],
     "all 2^n bit strings up to 130 bits (three machine words); numba kernels run as plain Python")
prop("P02", "Exact code distances equal the true minimum weight",
     "The exact distance reported for a classical, CSS, subsystem or general stabilizer code equals the least weight of a nontrivial code word or logical operator, and is undefined (nan) exactly when there is none. "
     "The result does not depend on block size, kernel implementation, machine-word count or on repeating the query.",
     ["inputs", "configurations"], "all check matrices / operator sets within the stated sizes, all block sizes and kernels",
     "Tests check a handful of named codes whose distances are known; Gray-code order, block splitting and multi-word paths break for specific inputs.",
     ["qldpc/codes/distance.py", C], [("distance search", "distance.py: get_distance_classical, get_distance_quantum"), ("code-level wrappers", "common.py: get_distance_exact")],
     "symbolic matrices up to ~20 bits, all block sizes in {0,1,2,3,15}, rows of up to 300 bits with a few symbolic columns")
prop("P03", "Logical operators form a complete symplectic basis",
     "For every code, the logical operators commute with all parity checks, form k dual X/Z pairs that commute with everything else, and k, the number g of gauge qudits and the number of independent stabilizers add up to n. "
     "For subsystem codes the gauge operators lie in the gauge group, form g dual pairs and commute with the logical operators, and swapping the roles of gauge and logical qudits gives the dual code.",
     ["inputs"], "all CSS and general stabilizer/subsystem codes within the stated sizes over GF(2), GF(3) and small extension fields",
     "Tests try a few named and random codes; elimination bugs depend on pivot patterns, ranks and field characteristic.",
     [C], [("logical operators", "common.py: QuditCode.get_logical_ops, CSSCode.get_logical_ops"), ("gauge operators", "common.py: get_gauge_ops, get_dual_subsystem_code")],
     "symbolic check matrices up to ~18 bits; general subsystem codes only where the standard form exists (known finding F01 otherwise)")
prop("P04", "Stabilizer generators span the center of the gauge group",
     "The stabilizers of a code are exactly the products of its parity checks that commute with every parity check; asking for a canonical basis gives independent row-reduced generators of the same group, also per Pauli type and however the code was constructed. "
     "A code counts as a subsystem code exactly when its checks do not all commute.",
     ["inputs", "histories"], "all codes within the stated sizes, in every order of the queries made",
     "Tests compare with stored matrices of few codes; a non-canonical basis goes unnoticed unless rows happen to be dependent.",
     [C, Q], [("stabilizers", "common.py: get_stabilizer_ops, _is_canonicalized"), ("preset stabilizers", "quantum.py: SHPCode")],
     "symbolic check matrices up to ~18 bits over GF(2), GF(3)")
prop("P05", "The standard form is the same code with the promised block structure",
     "The standard form of a parity check matrix generates the same group as the original after undoing the qudit permutation, has identity blocks at the reported pivots, its row and column sectors partition the matrix, and the rows labelled stabilizers are stabilizers.",
     ["inputs"], "all CSS and general codes within the stated sizes",
     "Tests check the documented identity on a few codes; sector bookkeeping depends on the pivot pattern of each matrix.",
     [C], [("standard form", "common.py: QuditCode.get_standard_form_data, CSSCode.get_standard_form_data_xz")],
     "symbolic check matrices up to ~18 bits over GF(2), GF(3); general subsystem codes only where the standard form exists")
prop("P06", "Classical code operations agree with linear algebra",
     "Generators span exactly the words satisfying the checks; duals, codes from generators, tensor products, stacking, puncturing, shortening, membership, equivalence, rank and dimension agree with their definitions on code words. "
     "A user-supplied generator is accepted exactly when it is a basis of the code.",
     ["inputs"], "all check matrices, generators, words and bit selections within the stated sizes over GF(2), GF(3), GF(4), GF(5)",
     "Tests check single examples; degenerate inputs (zero columns, dependent rows, trivial codes) and larger fields are not sampled.",
     [C], [("classical code algebra", "common.py: ClassicalCode.*")],
     "symbolic matrices up to 12 bits, compared with every vector of the ambient space")

if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")):
    exec(open(os.path.join(ROOT, "tools", "props_more.py")).read())

TECH_BY = {}
if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    skip = {x["property"] for x in NOT_APPLICABLE}
    manifest = {
        "version": 1,
        "setup_cmd": "python3 /verif/run_check.py --selftest",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 run_check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 run_check.py {p['id']} --tier thorough",
            "technique": TECH,
            "level": "model_checking",
            "level_note": "bounded, exhaustive within the bounds: " + p["_note"],
        } for p in PROPS if p["id"] not in skip],
        "not_applicable": NOT_APPLICABLE,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
