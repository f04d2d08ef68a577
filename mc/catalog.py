"""The property catalog: properties.jsonl and MANIFEST.json are generated from it (python -m mc.catalog)."""

import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SRC = "src/lightcurvelynx/"

BFS = "explicit-state model checking: breadth-first exploration of operation histories, real code in lock step with a reference model"
ENUM = "bounded exhaustive model checking: every configuration within the bounds executed on the real code against a reference model"

P = []


def prop(pid, title, statement, over, quant, why, files, mechanism, technique, note, observe=()):
    P.append(
        dict(
            id=pid,
            title=title,
            statement=statement,
            over=over,
            quant=quant,
            why=why,
            files=[SRC + f for f in files],
            mechanism=[{"name": n, "where": SRC + w} for n, w in mechanism],
            technique=technique,
            note=note,
            observe=list(observe),
        )
    )


prop(
    "G01",
    "The sampled-parameter store behaves as a table under every history of writes",
    "After any sequence of writes, updates from mappings or from other states, and rejected writes, every parameter of "
    "every node reads back the value last accepted for it, for every sample, and nothing else changed. A write of the "
    "wrong length is rejected and leaves the store as it was; constants are repeated for every sample; parameters marked "
    "as fixed keep their first value. Copies and single-sample slices hold the same values and are independent of the "
    "original; two stores are equal exactly if all of this agrees.",
    ["histories", "inputs"],
    "all write/update/reject histories up to the depth bound over two nodes with two parameters, for 1, 2 and 3 samples",
    "Tests run a few fixed write sequences on one or two layouts; the fixed/forced/rejected/update interactions are "
    "history dependent and their number explodes.",
    ["graph_state.py"],
    [("set / update / copy / extract_single_sample", "graph_state.py"), ("fixed parameter sets", "graph_state.py")],
    BFS,
    "Exhaustive within the stated depth and alphabet; two nodes with two parameters, up to three samples; values are "
    "small constants, lists, arrays, strings and None.",
)

prop(
    "G02",
    "Sampled states survive every chain of conversions unchanged",
    "Converting a set of sampled parameters to a mapping, a nested mapping, a table, a file, or a list of single samples, "
    "and back, in any order and any number of times, keeps every node, parameter, sample count and value, including "
    "single samples, missing values, strings and special numbers. A parameter can be requested by its full name or by "
    "its short name, and ambiguous or unknown names are rejected rather than resolved to some parameter.",
    ["histories", "inputs"],
    "all converter chains up to the bound from all layouts, value kinds and 1-3 samples; all name requests over all layouts",
    "Tests round-trip one or two layouts through single converters; losses appear only for particular value kinds, sample "
    "counts and converter orders.",
    ["graph_state.py"],
    [("to_dict/from_table/to_table/from_list/save_to_file/from_file", "graph_state.py"), ("name resolution", "graph_state.py")],
    ENUM,
    "Exhaustive over the listed layouts and kinds; vector-valued parameters are outside the list conversions.",
)

prop(
    "G03",
    "One joint draw is consistent with every declared dependency",
    "In one draw of a model, every parameter has exactly one value per sample, every consumer of that parameter sees that "
    "value, and every function is evaluated once, on the values its inputs have in the same draw. Values supplied by the "
    "caller replace the drawn ones and everything downstream follows them.",
    ["programs", "inputs"],
    "all 3-node graphs over three node kinds and all sources, all 4-node single-source graphs and diamonds, 1 and 3 samples, "
    "with and without each value supplied by the caller",
    "Tests draw from a handful of hand-written graphs; sharing patterns (diamonds, several outputs, references by node or by "
    "method) multiply with the graph shape.",
    ["base_models.py", "graph_state.py"],
    [("sampling order and single evaluation", "base_models.py"), ("parameter linkage", "base_models.py")],
    ENUM,
    "Exhaustive over graphs with up to four nodes; larger graphs are assumed to compose.",
)

prop(
    "G04",
    "A draw depends on the current declarations only, never on earlier draws or edits",
    "Whatever draws, re-declarations of parameters, renumberings, relabelings or inspections happened before, and from "
    "whichever node they were made, a draw returns exactly what a freshly built graph with the current declarations "
    "returns, under the same node names. Nodes shared by several models stay consistent for all of them.",
    ["histories"],
    "all histories of draw / redeclare / renumber / inspect operations up to the depth bound on graphs shared by several roots",
    "Tests draw once or twice from one root; stale numbering, cached names and shared nodes only show after specific sequences.",
    ["base_models.py"],
    [("graph numbering and node naming", "base_models.py"), ("set_parameter / add_parameter", "base_models.py")],
    BFS,
    "Exhaustive within depth and the listed scenes. Values are read from a draw before another root renumbers shared nodes.",
)

prop(
    "G05",
    "Random draws are determined by the seed or by the caller's generator alone",
    "Two models built alike with the same seeds give the same draws, draw by draw, and draws made with a generator supplied "
    "by the caller depend only on that generator and leave the model's own streams untouched. Every random parameter draws "
    "fresh values for every sample, with the shape its per-sample parameters imply.",
    ["histories", "configurations"],
    "all sequences of own-stream draws, caller-generator draws and reseedings up to the depth bound for every random node class",
    "Tests compare one pair of seeded draws per class; leaking of one stream into the other needs interleaved operations.",
    ["math_nodes/np_random.py", "math_nodes/scipy_random.py", "math_nodes/given_sampler.py", "math_nodes/distribution_sampler.py",
     "math_nodes/ra_dec_sampler.py", "base_models.py"],
    [("random generators of function nodes", "math_nodes/np_random.py"), ("rng_info passing", "base_models.py")],
    BFS,
    "Exhaustive over operation sequences within the depth bound, for each random node class; numpy generators are trusted.",
)

prop(
    "G06",
    "Value and table samplers hand out exactly the given data, row by row",
    "In-order samplers return the given values in order, each once, rows intact, across any split into draws, and refuse to "
    "run past the end; random samplers return only given values, rows intact, each with the probability its weight states; "
    "distribution samplers invert the given cumulative distribution. The caller's data are never modified.",
    ["histories", "inputs"],
    "all draw/reset histories until exhaustion; every script of random quantiles on a grid, for every container type",
    "Tests check a few statistics of random draws; off-by-one positions, row misalignment and biased weights need every quantile.",
    ["math_nodes/given_sampler.py", "math_nodes/distribution_sampler.py"],
    [("cursor of in-order samplers", "math_nodes/given_sampler.py"), ("weighted choice and CDF inversion", "math_nodes/distribution_sampler.py")],
    BFS,
    "Exhaustive over histories and quantile scripts on a 13-point grid; randomness is scripted at numpy's Generator interface.",
)

prop(
    "G07",
    "The dependency graph and parameter tree describe exactly the declared model",
    "The reported dependency graph contains every node and parameter of the model once and exactly the declared edges, and "
    "the parameter tree contains exactly the free constants. Replacing values in the tree and drawing again gives what the "
    "model would give with those constants.",
    ["programs"],
    "all 3-node graphs and all 4-node single-source graphs and diamonds, plus multi-object compositions",
    "Tests inspect two or three graphs; missing or spurious edges depend on the kind of link and sharing.",
    ["base_models.py", "models/multi_object_model.py", "graph_state.py"],
    [("dependency graph construction", "base_models.py"), ("parameter tree", "base_models.py")],
    ENUM,
    "Exhaustive over graphs with up to four nodes.",
)

prop(
    "N01",
    "Expression parameters accept arithmetic only and evaluate it per sample",
    "An expression parameter accepts exactly arithmetic over its named inputs, numbers and the documented functions, and "
    "rejects anything else before any of it runs. For every accepted expression, every back end returns for every sample "
    "the ordinary mathematical value of the expression.",
    ["programs", "inputs"],
    "all expression trees up to the depth bound on all back ends for 1 and 3 samples; every non-arithmetic construct in every position",
    "Tests try a dozen expressions; precedence, back-end differences and rejected constructs are combinatorial.",
    ["math_nodes/basic_math_node.py"],
    [("expression whitelist", "math_nodes/basic_math_node.py"), ("back-end translation", "math_nodes/basic_math_node.py")],
    ENUM,
    "Exhaustive over the grammar to depth 2; values outside a function's real domain are not compared.",
)

exec((VERIF / "mc" / "catalog_more.py").read_text()) if (VERIF / "mc" / "catalog_more.py").exists() else None

NOT_APPLICABLE = []


def write():
    with open(VERIF / "properties.jsonl", "w") as f:
        for p in P:
            sents = p["statement"].count(". ") + 1
            assert len(p["title"]) <= 80, p["id"]
            assert sents <= 3, (p["id"], sents)
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["quant"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": p["mechanism"],
                            "observe_at": p["observe"],
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    na = {pid for pid, _ in NOT_APPLICABLE}
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']} --tier quick",
                "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["note"],
            }
            for p in P
            if p["id"] not in na
        ],
        "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
        "notes": "No hooks in /repo: the checks drive the public API and substitute generators and downloaders.",
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")


if __name__ == "__main__":
    write()
