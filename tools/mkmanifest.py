"""Writes /verif/MANIFEST.json from the list of checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from mkprops import P
REF = ("explicit enumeration of a bounded space of boards, every candidate answer evaluated by a reference model, compared with the real solver's answer set")
NOTE = ("Every board of the listed spaces goes through the real decode/program/clingo/encode path and its answer set must equal the set the reference "
        "model accepts; sizes are bounded (about 2x2 to 4x5). Trusts the reference rules and clingo itself.")
CHECKS = {
    "C01": ("model_checking", REF, NOTE), "C02": ("model_checking", REF, NOTE), "C03": ("model_checking", REF, NOTE),
    "C04": ("model_checking", REF, NOTE), "C05": ("model_checking", REF, NOTE), "C06": ("model_checking", REF, NOTE),
    "C07": ("model_checking", "explicit enumeration of every single mark and of pairs of marks on small boards; the answers must be exactly the unmarked answers that agree with the marks",
            "Marks: shading, green, numbers, symbols, sides, lines, crosses at every place of up to 3 boards per puzzle type. The unmarked answers come from the solver (C01-C06 decide them)."),
    "C08": ("model_checking", "explicit enumeration of every set of sides that gets white margin; answers and refusals compared with the board without it",
            "Every subset of the four sides plus wider margins, on up to 3 boards with answers and one without per puzzle type, one margin on every bundled example."),
    "C09": ("model_checking", "stateless exploration of every outcome of the random picks of the region search under a controlled random module",
            "All pick sequences where their number is small, otherwise all sequences with at most 1-2 deviations from the first outcome; all wall sets up to 3x3 / 2x4 for the region search itself."),
    "C16": ("model_checking", "enumeration of limit values over boards with 0 to 150 answers, answers counted by the reference model",
            "Limits 0, 1, 2, 3, k-1, k, k+1, 10 for boards with k answers."),
    "C17": ("model_checking", "explicit exploration of all request histories up to a depth, each from a forked fresh process",
            "Six kinds of request per type up to depth 3 (2 for costly types), all pairs of base boards of a type, all ordered pairs of types, whole-registry rounds."),
}
CHECKS.update({
    "C14": ("model_checking", "exhaustive enumeration of drawn elements, alone and in ordered pairs, over positions, margins, layers and styles, against an independent writer of the format",
            "All elements at every place of 1x1 to 4x5 boards with 2-7 margins; all ordered pairs of elements on 2x2; mixed boards."),
    "C15": ("model_checking", "exhaustive enumeration of answer elements over drawn elements and positions, read by an independent reader, plus the answers of real boards of every type",
            "Every answer atom at every place over every drawn element of the same and neighbouring places in both layers; pairs of atoms; four answers of two boards per type."),
})
CHECKS.update({
    "C10": ("model_checking", "explicit enumeration of every colouring, side set and clue placement on small boards against the models of the generated rule",
            "All rectangles of up to 9 cells (some with holes), all clue cells, all options solvers use; quick 12 000 rule runs."),
    "C11": ("model_checking", "explicit enumeration of every line drawing on small boards against the models of the generated rule",
            "All boards of up to 9 cells plus 3x4 to 4x4 (thorough 5x5) for loops; all directions, ends, areas, inside/outside points."),
    "C12": ("model_checking", "explicit enumeration of every colouring and division on small boards against the models of the generated rule; full table of pieces and orientations",
            "Colourings up to 12 cells, divisions up to 12 sides (thorough 17), rectangle divisions up to 4x4."),
    "C13": ("model_checking", "explicit enumeration of every colouring, numbering and side set on small boards against the models of the generated rule",
            "All boards of up to 9 cells, all comparison targets, all areas of boards up to 2x3."),
})
CHECKS.update({
    "C18": ("model_checking", "exhaustive enumeration of corrupted requests (one and two at a time) and of a failure at every call of every solving step, against the real ASGI application",
            "About 250 corruptions of the body and the stored board, invalid boards of 109 types, chunked and cut-off bodies, injected failures; after each a valid request must be answered in full."),
    "C19": ("model_checking", "exhaustive exploration of every ordering of engine events and clock readings under a fake engine and a virtual clock",
            "Up to 4 models, every finish/stall/limit/interrupt point relative to the time limit, sequences of up to 3 requests."),
    "C22": ("model_checking", "enumeration of requests per puzzle type, browser entry points compared with the server on each",
            "Boards with no, few and many answers, every option value, invalid boards; main_deploy.py is imported without the clingo package, and the engine takes the options the page passes."),
})
CHECKS.update({
    "C20": ("model_checking", "stateless exploration of every order of event-loop turns of concurrent requests against the real ASGI application, and of line-level preemptions when the server runs requests in threads",
            "Two and three requests of every type with bodies in 1-2 chunks: all interleavings for cheap types, up to 1-2 preemptions otherwise; every single preemption point if requests run in threads."),
    "C21": ("model_checking", "explicit-state exploration of the real start and build scripts over all sequences of starts, builds, edits, additions, deletions, and process ends between file operations",
            "All operation sequences up to 5 operations with equal trees merged (thorough: until no new tree appears), every kind of file operation as a crash point (thorough: every one); each bundle is loaded the way the browser does."),
    "C24": ("model_checking", "explicit exploration of all discovery and import orders of small sets of solvers and of all rotations of the real one; consistency of every type over registry, metadata, menu, API and browser build",
            "All permutations of 3-4 solvers times all import prefixes up to 2, all rotations and single pre-imports of the 133 real ones, the page request of every example posted to the API."),
    "C23": ("model_checking", "explicit exploration of all sequences of user actions and replies on the real page script, compared with a reference model after every event",
            "All sequences up to 4 events, up to 8 with equal states merged (thorough 6 / 10), both server and browser mode, up to two requests on the way, nine kinds of reply; the document, the board and the network are stand-ins."),
})
DONE = json.load(open(os.path.join(os.path.dirname(__file__), "done.json")))
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Checks: ./run <property>; VERIF_TIER=thorough enlarges the spaces. Replays: ./replay <file>."}
for p in P:
    i = p["id"]
    if i in DONE:
        lv, t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run {i}",
                            "technique": t, "level": lv, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
