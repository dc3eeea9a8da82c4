#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties are those with an entry in NOTES."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
R = "random types and values, every decision recorded, failures shrunk; "
NOTES = {
 "C01": ("property-based testing: random types x values against an RFC 4506 reference encoder", "Sampled types and values; trusts the reference encoder in codec/src/model.rs, written from RFC 4506 and the README."),
 "C02": ("property-based testing: decoding reference and own encodings, round trip", "Sampled types and values; trusts the reference encoder."),
 "C03": ("property-based testing: every cut point and random suffixes of generated encodings", "All cuts of encodings up to 96 octets, sampled cuts beyond."),
 "C04": ("property-based testing: corrupted encodings against an RFC 4506 reference decoder (differential)", "Sampled corruptions, aimed at lengths, discriminants, flags, strings and characters; non-canonical input the documentation leaves open is not judged."),
 "C05": ("fuzzing: hostile octets with a counting allocator and panic/abort/hang detection", "Sampled octets and types; the allocation bound has a generous constant and factor."),
 "C06": ("property-based testing: decode, re-encode, decode relation on conforming and corrupted octets", "Sampled; types that drop duplicates (sets, maps with repeated keys) are left out."),
 "C07": ("fault injection by property-based testing: unrepresentable parts at every position of random values", "Sampled positions and surroundings; lengths beyond 2^32-1 are real 4 GiB buffers or claimed lengths."),
 "C08": ("property-based testing: opaque fields in random surroundings against the reference codec", "Sampled; fixed arrays of a list of sizes up to 65537 octets."),
 "C09": ("property-based testing: random number assignments against the reference codec", "Sampled assignments and surroundings."),
 "C12": ("metamorphic property-based testing: the whole against its separately encoded parts, and respelled types", "Sampled types and values; no reference encoder involved."),
 "C10": ("property-based testing: random enums deriving XdrIndexer, compiled and run against a reference encoding", "Sampled enums of up to 18 variants and 14 fields; the user's mappings are generated to agree with each other."),
 "C11": ("property-based testing: random enums deriving XdrUnion, compiled and run against a reference encoding", "Sampled enums, discriminant types and mappings; variants hold the discriminant first."),
 "C13": ("property-based testing: random interface definitions, printed, parsed and compared (round trip)", "Sampled interfaces; inline types nest at most two deep."),
 "C14": ("metamorphic property-based testing: random layouts and comments against the plain layout", "Sampled layouts, at the places where the language's parser takes white space or comments."),
 "C15": ("fuzzing: edited, truncated and random token texts against an independent recursive-descent parser (differential)", "Sampled texts; trusts the independent parser in gen/src/refparse.rs."),
 "C16": ("property-based testing: numbers in generated code (read with syn) against a 128-bit reference evaluation; undefined and out-of-range numbers injected", "Sampled interfaces; bounds of variable-length data do not appear in generated code."),
 "C17": ("fuzzing: well-typed and wild interfaces x all 32 option combinations, with panic, overflow, stack and hang detection", "Sampled interfaces; gaps of at most 4 digits where they are filled with variants."),
 "C18": ("property-based testing: generated code compiled with rustc, its shape read with syn and its types built from literals", "Sampled interfaces x options; one probe of a known finding."),
 "C19": ("property-based testing: generated structs compiled and run against a reference wire format", "Sampled interfaces, options and values."),
 "C20": ("property-based testing: generated enums compiled and run, every enumerator and the numbers around them", "Sampled enums and options; all enumerators of each."),
 "C21": ("property-based testing: generated unions compiled and run, every label and discriminants without one", "Sampled unions and options; all labels of each."),
 "C22": ("metamorphic property-based testing: repeated, permuted, joined and reduced interfaces against the code of each definition", "Sampled interfaces x options."),
 "C23": ("property-based testing: the built command on random files and argument lists against the library", "Sampled files and arguments; the library's generator is the reference, judged by the other checks."),
 "C25": ("metamorphic property-based testing: octets decoded alone against the same octets inside random surroundings", "Sampled types, octets and surroundings; no reference decoder involved."),
 "C26": ("property-based testing: default values of generated types compiled, encoded, checked against the definition's wire format and decoded", "Sampled interfaces and options, including types which hold themselves; two known findings."),
 "C27": ("property-based testing: incremental reading of valid encodings from every kind of starting point", "Sampled types, values and starting lengths; long encodings are followed over their last 150 octets."),
 "C24": ("metamorphic property-based testing: typedefs replaced by what they stand for", "Sampled interfaces x options with typedefs removed (the command's only setting); wire format follows from equal code."),
}
TODO = "not built yet"
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {p['id']}", "technique": NOTES[p["id"]][0],
             "level": "exploration", "level_note": NOTES[p["id"]][1]} for p in props if p["id"] in NOTES],
 "not_applicable": [{"property": p["id"], "reason": TODO} for p in props if p["id"] not in NOTES],
 "notes": "All checks are generated-input searches against explicit oracles; see DESIGN.md. The tier comes from VERIF_TIER, the seed from VERIF_SEED. Failures are written to replays/ and run again with ./check.sh replay FILE.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
