#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: seeded search over "
NOTE = ("Exploration: a clean batch is evidence, not proof. Every run is a pure function of VERIF_SEED and the code; "
        "a failing run is minimised and replayed in a fresh process before it is reported. ")
C = {
"C01": ("read splits, interrupted reads, delays and hash seeds; differential against one whole, uninterrupted delivery",
        "Both executions run the real reader; the oracle is their equality, so damaged and malformed streams are covered as well."),
"C02": ("failure positions, error kinds and delivery schedules; differential against the failure-free run plus a line and error-identity oracle",
        "Trusts the catalogue writer's record of which bytes belong to which entry."),
"C03": ("crash points (byte offsets of a torn write); differential against the complete catalogue plus a writer-side model of what was stored",
        "Trusts the catalogue writer's record of line positions."),
"C04": ("task schedules with preemption inside library code, interleaved and re-entrant readers, failures, panics; differential against each reader alone",
        "Tasks run one at a time (sequential consistency): weak-memory effects are out of reach. Locks, once-cells and condition variables of std are scheduled through their futex calls."),
"C05": ("arrival patterns, endless and stalling sources; bound on the bytes asked for at each delivery",
        "The bound is computed by the catalogue writer for undamaged catalogues."),
"C06": ("hostile bytes, damaged catalogues, interleaved ends of file, failures and interruptions; step, stack, memory and CPU bounds",
        "Hang and memory bounds are finite stand-ins for 'for ever': 20000 fruitless reads, 8 s of CPU, 1 GB; stack 2 MB."),
"C07": ("delivery and task schedules over generated catalogues; exact reference model",
        "Reference model and writer are written independently of the reader."),
"C08": ("delivery and task schedules over generated catalogues with hostile comments; exact reference model plus differential against the comment-free catalogue",
        "Forms that the format leaves open (empty flags, trailing commas) are not generated."),
"C09": ("delivery schedules, failures, damage, hash seeds; exact header model, checked at open and after every step",
        "Language values are limited to plain tags, whose normal form is undisputed."),
"C10": ("lost, duplicated and reordered variant lines, interleaved catalogues with other rules, time of lookup; independent C expression evaluator",
        "Counts for which C leaves the value undefined (overflow, division by zero, beyond 2^63-1) are only required not to crash (C06)."),
"C11": ("histories of reads, failures, ends and drops between looks at held units and clones; invariant: same answers",
        "Looks at every answer of the unit's public interface."),
"C12": ("stored-byte and stored-line damage; differential against the undamaged catalogue plus malformed-line oracle",
        "Malformed lines come from a list that the format's grammar excludes under any reading."),
"C13": ("ends, failures, abandonment, source panics and rounds; allocator accounting and drop counting",
        "Growth is judged on 4-5 MB streams; leaks on 6 to 8 repeated rounds with everything dropped."),
"C14": ("requests after ends and failures whose source recovers, fails again or goes on; invariant over the recorded history",
        "The source records every read after the end."),
"C15": ("stalls in one reader's source under task schedules with preemption; progress of all others, deadlock detection",
        "A stall is lifted only when nobody else can run; whoever waits then was blocked by it."),
"C17": ("read failures, damage, malformed and misplaced lines and hostile headers at any position; text check plus differential against the same stream with lines inserted in front, delivered otherwise",
        "The wording of a report is free; only line, tokens and the source's message must be in it."),
"C18": ("sequences of iterator calls and adaptors over delivery schedules, failures and damage; differential against the same reader driven by next alone",
        "The reference execution runs the real reader too, so damaged and malformed streams are covered as well."),
"C19": ("kinds of growth, read sizes, interruptions, failures and histories of a parser; steps, allocations and reads counted by the simulator, compared with the run on four times as much",
        "Steps are edges of the control flow of poreader and of the std code instantiated in it (LLVM's coverage pass in a build of its own); inside regex, whose engines change with the length of a line, only gross growth counts. Work inside memcpy is not counted."),
}
m = dict(version=1,
    setup_cmd="bash build.sh all",
    checks=[dict(property=k, quick_cmd=f"bash check.sh {k}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {k}",
                 evidence_file=f"evidence/{k}.json", technique=T + v[0], level="exploration", level_note=NOTE + v[1]) for k, v in C.items()],
    not_applicable=[
        dict(property="C16", reason="Equality of two messages is a pure function of two values in memory: no schedule, time, I/O, fault or second party for it to depend on, so there is nothing to simulate."),
    ],
    notes="No hooks in /repo: sources, allocation, locks, clock, sleep and randomness are intercepted below the library (Read trait, global allocator, libc symbols). See DESIGN.md.")
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
