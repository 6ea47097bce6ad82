#!/usr/bin/env python3
"""Single source of known_findings.json (run: python3 tools/known.py)."""
import json
import os

FIXED = [  # property, commit, what failed
    ("C02", "350eb56", "collating samples whose spatial policy target was padded to the physical board size raised or mixed up the policy"),
    ("C06", "350eb56", "a policy target padded by a fixed board size could not be collated with the pass probability split off"),
    ("C06", "0cd799b", "planes larger than the board were rotated as a whole, moving the board into the padding"),
    ("C08", "0cd799b", "planes larger than the board were rotated as a whole while the policy was rotated within the board"),
    ("C06", "d3e29b8", "sparse rows raised KeyError when extra fields were dropped"),
    ("C06", "b8227ba", "streaming a raw KataGo file without a matching row raised instead of skipping it"),
    ("C07", "5f56d5a", "last move and position coordinates of binary records stayed untransformed while the board was rotated"),
    ("C07", "cd04556", "a packed record with an odd initial position gave the first stone to white"),
    ("C09", "a95f37f", "a map-style composite could not be built for evaluation"),
    ("C11", "b58439d", "a point that makes five in one direction and an overline in another was marked forbidden"),
    ("C11", "4cebd29", "the padding of a smaller board counted as empty points, so forbidden points near its edge were wrong"),
    ("C12", "4cebd29", "the forbidden points of padded samples did not belong to the board of the sample"),
    ("C13", "9cff242", "a constant reported by more than about a hundred evaluation batches was rejected as differing across ranks"),
    ("C13", "5bf07dd", "statistics of a batch whose rows are all padding raised instead of counting nothing"),
    ("C26", "e6c2218", "an npz file given by its bare name could not be split"),
    ("C26", "59e59ae", "a batch containing a position without moves could not be collated"),
    ("C23", "a17ac49", "fixed-side linear models mixed up the rows of a batch of more than one sample"),
    ("C23", "17304a6", "the side-to-move plane filled the padding, so the output of a smaller board depended on its padding"),
    ("C19", "56d7567", "the first value layer of flat models with 256-scaled weights was clipped to twice the range of its int8 export"),
    ("C15", "d807f4a", "a positional output argument let a filter expression overwrite the arrays it filters"),
    ("C15", "b22b9ab", "scalar powers and repeated tuples in a filter expression grew without bound"),
    ("C21", "3cd645e", "gradient accumulation across the end of an epoch ended the training with 'cannot advance with uncommitted planner batches'"),
    ("C21", "0889ba1", "training a vector-quantized model with k-means initialisation ended with 'metric schema changed' at the initialisation"),
    ("C21", "f7b3a2f", "a resumed run with dropout or noise diverged, because data loaders drew a seed from the global generator"),
    ("C21", "6656b41", "a streamed validation pass advanced its epoch, so the validation losses after a resume differed"),
    ("C20", "42faeb1", "payloads given as a generator were staged wrongly or lost when memory ran out"),
    ("C16", "fae53ba", "torch-jit and onnx exports failed with every streamed dataset"),
    ("C16", "0b74804", "after a torch-jit export into the checkpoint folder, the exported graph was taken for the latest checkpoint"),
    ("C17", "1f0e823", "Mix10 exports held unclamped (and not normalised) line features and dropped the feature norm"),
    ("C17", "b7d9116", "a Mix8 text export glued the labels of the policy output arrays to the previous number"),
    ("C17", "3590b96", "a Mix9 text export wrapped the int16 static policy weights to int8"),
    ("C17", "0547336", "a Mix7 net whose policy reads unconvolved channels was exported with wrong policy scales"),
    ("C28", "c6d9f61", "a null, a float such as 1e-05 or an escaped string inside a mapping of a config file became a string"),
    ("C28", "a594693", "test.py dropped the configured data pipelines, so models that need them could not be evaluated"),
    ("C28", "1d49a3d", "board sizes written in YAML (lists) raised 'unhashable type'"),
    ("C28", "b8ae3fa", "test.py refused every run config recorded by train.py because it names cuda_prefetch_batches"),
    ("C24", "c267861", "a local layer normalisation with a scale but no bias raised AttributeError on channels-first input"),
    ("C29", "15ce034", "an entry with a pass policy on a padded board could not be viewed"),
    ("C29", "547345e", "the padding rows of the last batch were viewed as entries"),
    ("C29", "aa7b38f", "the last partial batch of a map-style dataset was not viewed"),
]
# Both are repairs of one line in test_play.py, which counts as a test file by its name and may not be changed here.
KNOWN = [  # property, key, what fails
    ("C29", "play-prefetch", "test_play.py refuses run configs that name cuda_prefetch_batches (Unknown config key)"),
    ("C29", "play-nested", "test_play.py reads nested config mappings as the YAML of their Python text: null, 1e-05 and escaped strings become other strings"),
]

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
entries = [dict(status="fixed", property=p, commit=c, what=w, entry=f"fixed: property={p} {c} {w}") for p, c, w in FIXED]
entries += [dict(status="known", property=p, key=k, what=w) for p, k, w in KNOWN]
with open(path, "w") as f:
    json.dump(entries, f, indent=1)
    f.write("\n")
