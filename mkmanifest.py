#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a working check."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
CLAIMED = {
    "C01": ("exploration", "deterministic simulation: seeded fault outcomes of sub-parsers, checked against a reference machine after every step",
            "Random combinator programs run on the real engine; every sub-parser outcome (succeed, refuse, push or pop and then refuse) is decided by the seed. Stack contents at every sub-parser entry and at the end are compared with a reference model. Sampling, not proof."),
    "C02": ("exploration", "deterministic simulation: the same seeded run through every entry point, compared",
            "Each simulated run drives the check-only and the tree-building entry points with identical sub-parser outcomes and compares result, position, stack and error. Sampling, not proof."),
    "C03": ("exploration", "deterministic simulation with injected sub-parser outcomes against a reference PEG machine",
            "Tree, end position and success are compared with an independent PEG machine for random programs, inputs and sub-parser outcomes. Sampling, not proof."),
    "C04": ("exploration", "deterministic simulation with injected sub-parser outcomes against a reference error tracker",
            "The structured and the rendered error of each failed run are compared with a reference computed from the recorded history of attempts. Sampling, not proof."),
    "C05": ("exploration", "deterministic simulation with injected sub-parser outcomes, pair view against the reference derivation",
            "Pairs are compared with the derivation found by the reference machine, through several containers and repeatedly. Sampling, not proof."),
    "C06": ("exploration", "deterministic simulation: seeded baton scheduler over parses on real threads, nested parses, injected panics",
            "Parses on several threads advance one step at a time under a seeded scheduler, with nested parses and injected panics, and are compared with their solo runs. Sampling, not proof."),
    "C07": ("exploration", "deterministic simulation: step-counted runs with cancellation injected at a seeded step",
            "Every attempt is a step of the simulated run; the recorded history is checked against retry bounds, and refusal of everything from a seeded step must end the run within the bound. Sampling, not proof."),
    "C08": ("exploration", "deterministic simulation of output sinks and formatting callbacks that refuse, fill up, tear writes, are interrupted or panic at seeded points",
            "Each simulated run renders a random object to a healthy sink, compares the text and the callbacks with a reference layout, renders it again under each of a seeded list of faults and checks report, prefix and silence after the refusal. Sampling, not proof."),
    "C09": ("exploration", "deterministic simulation of the storage below std::fs with seeded I/O faults, against an independent loader",
            "The real loader and derive run on a simulated disk; each storage call may fail, return short, be interrupted or lie about sizes, and files may be missing, unreadable, not text or mutated. The result is compared with an independent grammar parser and loader over exactly the bytes that were delivered; a later healthy load must be complete. Sampling, not proof."),
    "C10": ("exploration", "deterministic simulation of the storage with files replaced at seeded calls during the load, against an independent loader",
            "Random import graphs (diamonds, cycles, several spellings of one file) on a disk that changes during the load; structure, single reading, version consistency and termination within a bound of storage calls are checked. Sampling, not proof."),
    "C11": ("exploration", "deterministic simulation of the storage: recorded reads compared with recorded dependencies",
            "The history of simulated storage calls gives the files actually read; dependency sets (nested modules too) and include statements in generated code must equal it. Sampling, not proof."),
    "C12": ("exploration", "deterministic simulation: hash seeds, clock, storage delivery and thread interleaving under a seeded scheduler",
            "The same derivation runs under other hash seeds, clock values and storage behaviour, after other derivations, interleaved with others on threads at every storage call, and in another process; the code must be identical. Sampling, not proof."),
    "C13": ("exploration", "deterministic simulation of sub-parsers handed to generated parsers as rule arguments, against an interpreter of the grammar text",
            "Parsers derived by the real macro from seeded grammars (several files, modules, aliases) are compiled and driven with sub-parsers whose outcomes the seed decides; acceptance, positions, stack, sub-parser calls and error reports are compared with an independent interpreter. Sampling, not proof."),
    "C14": ("exploration", "deterministic simulation of sub-parsers handed to generated parsers, node tree, accessors and pairs against the reference derivation",
            "For each successful simulated parse the tree, every accessor result and the pairs are compared with the derivation found by an independent interpreter of the grammar text. Sampling, not proof."),
    "C15": ("exploration", "deterministic simulation of damaged storage: seeded torn, lost, stale and flipped writes and careless edits, then repair, against a reference reading of the grammar",
            "Each simulated run derives a generated project whole, under each of a seeded series of damages, and whole again, on a simulated disk in one process. An independent reading of the stored text decides whether it still means something. Sampling, not proof; grammars only the compiler can judge are not judged."),
}
NA = {
    "C90": "Pure function of its arguments (text and offsets): no schedule, clock, I/O, sub-parser outcome or other party takes part, so there is nothing to simulate or inject; deciding it is input generation or proof.",
    "C91": "Static tables compared with a published table: a pure function of one character, with nothing to schedule or inject.",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            level, tech, note = CLAIMED[i]
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(i, "A simulator for it is under construction; not claimed yet.")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the seams are the TypedNode trait, fmt::Write, and the C library calls below std::fs. Fixes of defects found are the commits starting 'fix:', listed in known-findings.json."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
