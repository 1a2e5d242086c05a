#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per line of properties.jsonl."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("round trip of generated types and values, against an independent reference decoder", "random types x values; round trip, exact consumption; all values of small leaf types"),
    "C02": ("differential against an independent reference encoder", "random types x values in several serde spellings; byte equality with a reference encoder written from the format"),
    "C03": ("exhaustive enumeration up to 16 bits, generated 32/64-bit integers against a closed-form encoding", "8/16-bit exhaustively, wider around every size boundary and at random"),
    "C04": ("structured fuzzing of typed decoding against a reference decoder", "hostile and mutated bytes under random types; verdict, value and consumption compared; panics, aborts and hangs observed in worker processes"),
    "C05": ("fault injection at every cut point of generated encodings", "all cut positions of every generated encoding up to a size, all error kinds"),
    "C06": ("metamorphic: fragmented and interrupted transports against one-piece transports", "random fragmentations and interruptions of generated operations"),
    "C07": ("fault injection at every write of generated values", "all failure positions up to a size, several failure modes"),
    "C08": ("model-based histories on one stream", "random operation sequences over one stream with mixed serializers and deserializers"),
    "C09": ("round trip and differential on generated headers", "random headers to the nesting limit, widths around every count boundary"),
    "C10": ("structured fuzzing of header decoding against a reference decoder", "all inputs of up to 3 bytes, random, mutated and deeply nested ones"),
    "C11": ("round trip of generated bodies under their headers, differential against the reference encoder", "random headers x conforming bodies"),
    "C12": ("differential: typed against dynamic encoding and decoding", "random header-describable types x values, both directions"),
    "C13": ("structured fuzzing of dynamic decoding against a reference decoder", "hostile and mutated bytes under random headers"),
    "C14": ("generated bodies and single deviations against a reference predicate", "random headers x conforming, deviating and unrelated bodies"),
    "C15": ("fuzzing with an allocation-counting allocator", "hostile claims in typed, dynamic and header decoding; peak and total allocation against a bound linear in the input"),
    "C16": ("round trips and algebraic laws on generated numbers, bytes computed independently", "generated numbers in several forms, loose wire bytes; wrapper, adapter and conversion routes compared"),
    "C17": ("round trips on generated dates, all day boundaries, hostile wire integers", "every supported year's boundaries and random days; hostile wire integers; wrapper, adapter and conversion compared"),
    "C18": ("round trips on generated instants and offsets, hostile wire integers", "generated instants and offsets, hostile wire integers; routes compared"),
    "C19": ("generated maps with keys of every kind, against a reference verdict", "key kinds x positions x nestings"),
    "C20": ("generated programs: derived headers against the format's, values decoded under them", "one generated program of structs and enums per seed, with random values; generated programs the derive must refuse"),
    "C21": ("generated programs: built-in type headers against the structural header, values decoded under them", "one generated program of type compositions per seed, with random values"),
    "C22": ("differential between builds of all 32 feature selections", "the same generated cases through 32 builds, per-lane comparison"),
    "C23": ("generated unsupported requests on arbitrary bytes, no-panic and equal-value oracle", "random request shapes x bytes"),
    "C24": ("generated operation lists judged by a model, replayed after failures, reversed, inside one another and on threads", "random operation lists; four threads; no control of the interleaving"),
    "C25": ("failures injected into the user code of generated values, against a reference serializer and deserializer", "every turn of user code in small values, a spread in large ones; with and without failing transports"),
    "C26": ("scaling of generated values, a metamorphic relation between a value and one of sixteen times its size", "every operation on generated values grown along one dimension; time, memory and transport calls; a wide margin between linear and quadratic"),
}
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    tech, note = T[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique="property-based testing: " + tech, level="exploration",
                       level_note=note + "; absence of violations is not proved"))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[])
with open(f"{ROOT}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
