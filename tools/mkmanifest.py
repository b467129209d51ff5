#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when the list of checks changes)."""
import json, os
T = {
"C01": "property-based round trip over random message types built at run time",
"C02": "property-based: Size against the length of Marshal, at every nested message",
"C03": "property-based differential: encodings read by google.golang.org/protobuf and a reference codec",
"C04": "property-based differential: generated legal encodings against google.golang.org/protobuf and a reference decoder",
"C05": "structured fuzzing with mutated and adversarial input: no panic, hang, write to the input, or excess allocation",
"C06": "structured fuzzing: verdict and value against a strict reference parser; all truncations",
"C07": "property-based: one planted defect per input, path and cause of the error against the reference parser",
"C08": "model-based: sequences of decodes into one message against a reference model of merge; concatenation law",
"C09": "metamorphic: inserting unknown fields and dropping declared ones leaves the rest of the result alone",
"C10": "property-based: presence of every field in encodings and decoded messages against a reference codec",
"C11": "model-based: random map contents, entry encodings and destinations against a reference map model",
"C12": "model-based: random lists, growth, spare capacity and packing against a reference list model",
"C13": "stateful: histories over colliding types in a fresh process each, against a stateless reference",
"C14": "stateful with random schedules: concurrent first use in fresh processes under the race detector, results against a reference",
"C15": "metamorphic: overwriting inputs, outputs and neighbours, and pairwise comparison of reachable memory",
"C16": "property-based: invalid arguments of generated types against the documented errors",
"C17": "property-based under fault injection: continuous garbage collection with freed memory overwritten, checked pointers",
"C18": "grammar-based generation of .proto files, differential against google.golang.org/protobuf on the same descriptors",
"C19": "grammar-based generation of .proto files; type checker, compiler and declaration list as oracles; metamorphic on requests",
"C20": "stateful: programs over options against a model",
"C21": "property-based: generated nesting shapes and depths, families entered at any type, against a reference codec",
"C22": "differential: the tree against a copy with regenerated codecs over random types, values and inputs",
"C23": "property-based with all boundary values: exact bytes computed independently, in every position",
"C24": "stateful: histories with failing calls against a stateless reference",
"C25": "stateful: histories over types with generated bad declarations, refusal expected, the others against a reference codec",
"C26": "stateful: histories of calls with weak pointers to everything dropped, under garbage collection; heap growth over repeated histories",
"C27": "model-based: chains of compatible versions of random message types against a reference codec",
"C29": "random types and values; allocated objects counted against the objects of the result",
"C30": "property-based: the model-based checks of the other properties in a GOARCH=386 build",
"C31": "property-based and stateful: the model-based checks of the other properties, and histories under garbage collection, in builds by go1.23 to go1.26",
"C32": "property-based, differential against google.golang.org/protobuf on messages of types generated by protoc-gen-go",
"C28": "grammar-based generation of .proto files with comments; the parsed output against the descriptors",
}
NOTE = "Generated cases only: no claim about those not reached. Counts, classes and samples are in the evidence file; a failure is shrunk to a minimal case. The quick run is a pure function of tree and VERIF_SEED%s."
EXTRA = {"C14": " up to the schedules the machine produces", "C17": " up to the moments at which the collector runs"}
checks = [dict(property=k, quick_cmd="./check %s" % k, thorough_cmd="VERIF_TIER=thorough ./check %s" % k,
               evidence_file="evidence/%s.json" % k, technique=t, level="exploration", level_note=NOTE % EXTRA.get(k, ""))
          for k, t in T.items()]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
json.dump(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=[]), open(out, "w"), indent=1)
open(out, "a").write("\n")
