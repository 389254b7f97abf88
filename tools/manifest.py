#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ model checked by TLC; trace validation of recorded executions against the specification with TLC"
N = {
 "C01": "Bounded exhaustive exploration of the scoring specification; sampled corpora, variants, parameters and dtypes executed and judged by TLC with exact rational terms (logarithms evaluated in double precision by the harness).",
 "C02": "All forms and numberings of sampled corpora, judged by one specification that ignores the form.",
 "C03": "Exhaustive selection model for small arrays, replayed on every backend; sampled larger arrays.",
 "C04": "Sampled queries in every representation, judged by the representation-free specification.",
 "C05": "Batch model: all interleavings of worker threads over small batches; schedules replayed by gating the workers, plus sampled batches, threads and chunks.",
 "C06": "Same histories on numpy, numba scorer and numba backend against one specification.",
 "C07": "Model with mask before/after; sampled masks, dtypes, layouts, variants and backends.",
 "C08": "Life-cycle model (files, inodes, memory maps) exhaustively checked; its behaviours replayed.",
 "C09": "Every crash point of recorded saves and every torn prefix class injected; recovery judged by the specification of allowed results.",
 "C10": "Life-cycle model; sampled corpora of every content class saved, loaded and retrieved.",
 "C11": "Specification of lines, offsets and indexing evaluated on sampled files, arrangements and index-file histories.",
 "C12": "All interleavings of the steps of concurrent readers in the model; the same schedules forced on the real code.",
 "C13": "Tokenizer state machine model checked; generated and sampled histories replayed.",
 "C14": "Tokenizer state machine model checked; generated and sampled histories replayed.",
 "C15": "Tokenizer state machine with streams: all interleavings in small scopes; generated histories replayed.",
 "C16": "Specification of tokenization over character classes evaluated on sampled texts and settings.",
 "C17": "Tokenizer state machine with save/load; sampled character classes and both JSON libraries.",
 "C18": "Life-cycle model with caller-side actions; its behaviours replayed.",
 "C19": "Life-cycle model with failing index attempts; its behaviours replayed.",
 "C20": "Sampled corpora of every supported kind, judged by the retrieval specification.",
 "C21": "Every kind of invalid request interleaved with valid ones, judged by the retrieval specification.",
 "C22": "Hub state machine model checked; behaviours replayed on a local stand-in of the hub.",
 "C23": "Loader/merge specification with crash points; sampled data sets on disk.",
 "C26": "All interleavings of tampering, saving and reading in the model; every file with every request and sampled histories replayed with pickles whose payload creates a scratch file.",
    "C25": "All rankings and judgements of few documents in the model; sampled evaluations judged by exact terms (logarithms and averages evaluated in double precision by the harness).",
 "C24": "Timer state machine model checked; all short histories and sampled long ones replayed with a scripted clock.",
}
NA = {}
have = sys.argv[1:] or [p for p in N]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[], notes="TLA+ specifications in spec/, harness in harness/; see DESIGN.md.")
for p, note in N.items():
    if p in have:
        m["checks"].append(dict(property=p, quick_cmd=f"/opt/venv/bin/python check.py {p}",
                                thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {p}",
                                technique=TV, level="model_checking", level_note=note + " Trusts TLC, the harness recording, and numpy for evaluating logarithms." if p in ("C01","C02","C04","C05","C06","C07") else note + " Trusts TLC and the harness recording."))
    else:
        m["not_applicable"].append(dict(property=p, reason="check under construction"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
