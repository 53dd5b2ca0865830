"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are awkward to edit by hand)."""
import json, os
P = []
SOL = "bundled examples: one or two boards per puzzle type, each with a single known answer"
def p(id, title, st, over, q, why, files, mech, state=(), obs=()):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(obs) or ["run_solver(puzzle, url, options)['url']", "POST /api/solve/"],
                          "hook_needed": None}})
WHY = ("The tests solve the %s; over all boards and clue layouts nothing tests that a rule is neither too strong (a legal answer lost), "
       "too weak (an illegal answer shown, a non-unique board called unique) nor tied to board size or position.") % SOL
p("C01", "Shading puzzles with given regions: answers are exactly the legal ones",
  "For every board of a shading puzzle whose rules refer to given regions (aqre, aquarium, chocona, cocktail, heyablock, heyawake, hinge, lits, mannequin, "
  "martini, norinori, paintarea, shimaguni, stostone, tilepaint, usoone), every answer returned obeys the published rules of that puzzle type and the clues, and every "
  "colouring that obeys them is returned (up to the answer limit); a contradictory board returns no answer.",
  ["inputs"], "all boards: sizes, region partitions, clue layouts, options, and all their legal colourings", WHY,
  ["solver/*.py", "noqx/rule/*.py", "noqx/clingo.py", "noqx/puzzle/penpa.py"],
  [("one rule generator per puzzle type", "solver/<type>.py:solve"), ("region flood fill", "noqx/rule/helper.py:full_bfs"), ("shared rules", "noqx/rule/{common,neighbor,reachable,shape}.py")])
p("C02", "Shading puzzles without regions: answers are exactly the legal ones",
  "For every board of a shading puzzle whose clues stand in cells or outside the grid (akichiwake-free types such as nurikabe, hitori, kurodoko, yajikazu, nonogram, tapa, canal, cave, creek, "
  "yinyang, snake, mochikoro, nurimisaki, tasquare ...), every answer returned obeys the published rules and the clues, and every colouring that obeys them is returned (up to the answer limit); "
  "a contradictory board returns no answer.".replace("akichiwake-free types such as ", ""),
  ["inputs"], "all boards: sizes, clue layouts, options, and all their legal colourings", WHY,
  ["solver/*.py", "noqx/rule/*.py", "noqx/clingo.py", "noqx/puzzle/penpa.py"],
  [("one rule generator per puzzle type", "solver/<type>.py:solve"), ("shared rules", "noqx/rule/{common,neighbor,reachable,shape,variety}.py"), ("tapa pattern table", "solver/tapa.py / noqx/rule/variety.py")])
p("C03", "Loop and path puzzles: answers are exactly the legal ones",
  "For every board of a loop or path puzzle (slitherlink, masyu, yajilin, simpleloop, haisu, numlin, hashi, castle, pipelink, tapaloop, geradeweg, balance ...), every answer returned is a set of lines that "
  "obeys the published rules and the clues, and every drawing that obeys them is returned (up to the answer limit); a contradictory board returns no answer.",
  ["inputs"], "all boards: sizes, regions, clue layouts, options, and all their legal line drawings", WHY,
  ["solver/*.py", "noqx/rule/loop.py", "noqx/rule/reachable.py", "noqx/clingo.py"],
  [("one rule generator per puzzle type", "solver/<type>.py:solve"), ("loop rules", "noqx/rule/loop.py"), ("single loop / route connectivity", "noqx/rule/loop.py, noqx/rule/reachable.py")])
p("C04", "Area division puzzles: answers are exactly the legal ones",
  "For every board of an area division puzzle (shikaku, nawabari, fillmat, tatamibari, tentaisho, compass, araf, pentominous, fivecells, ncells, squarejam ...), every answer returned is a division into "
  "connected areas that obeys the published rules and the clues, and every division that obeys them is returned (up to the answer limit); a contradictory board returns no answer.",
  ["inputs"], "all boards: sizes, clue layouts, options, and all their legal divisions", WHY,
  ["solver/*.py", "noqx/rule/shape.py", "noqx/rule/reachable.py", "noqx/rule/common.py"],
  [("one rule generator per puzzle type", "solver/<type>.py:solve"), ("edge and bulb/clue reachability", "noqx/rule/reachable.py"), ("rectangle/omino enumeration", "noqx/rule/shape.py")])
p("C05", "Number placement puzzles: answers are exactly the legal ones",
  "For every board of a number or letter placement puzzle (sudoku and its variants, fillomino, kakuro, skyscrapers, ripple, easyasabc, doppelblock, factors, minarism, kropki, sukoro ...), every answer returned "
  "obeys the published rules, the clues and the chosen options, and every filling that obeys them is returned (up to the answer limit); a contradictory board returns no answer.",
  ["inputs"], "all boards: sizes, regions, clue layouts, options, and all their legal fillings", WHY,
  ["solver/*.py", "noqx/rule/common.py", "noqx/rule/neighbor.py", "noqx/rule/reachable.py"],
  [("one rule generator per puzzle type", "solver/<type>.py:solve"), ("unique/fill rules", "noqx/rule/common.py")])
p("C06", "Object placement puzzles: answers are exactly the legal ones",
  "For every board of an object placement puzzle (akari, tents, starbattle, battleship, statuepark, magnets, mines, binairo, gokigen, shakashaka, pentopia, hakoiri ...), every answer returned obeys the published "
  "rules, the clues and the chosen options, and every placement that obeys them is returned (up to the answer limit); a contradictory board returns no answer.",
  ["inputs"], "all boards: sizes, regions, clue layouts, options, and all their legal placements", WHY,
  ["solver/*.py", "noqx/rule/shape.py", "noqx/rule/variety.py", "noqx/rule/neighbor.py"],
  [("one rule generator per puzzle type", "solver/<type>.py:solve"), ("piece tables and orientations", "noqx/rule/shape.py"), ("shape sets", "noqx/rule/variety.py")])
p("C07", "Marks the player already made restrict the answers exactly",
  "When a board carries marks the player already made (shaded, lit or green cells, symbols, numbers, drawn lines, crosses on lines or sides), the answers returned are exactly those answers of the unmarked board that agree "
  "with every mark. This holds for every puzzle type and every mark of a kind that the type's answers consist of.",
  ["inputs"], "all puzzle types x all boards x all single marks and pairs of marks",
  "The bundled examples start from boards without player marks, so almost no mark of any kind is exercised by a test.",
  ["solver/*.py", "noqx/puzzle/penpa.py", "noqx/clingo.py"], [("hint handling loop at the end of each solver", "solver/<type>.py:solve"), ("answer layer decoding", "noqx/puzzle/penpa.py:decode")])
p("C08", "A board's answers do not depend on the blank margin around it",
  "Adding white-space margin to any side of a board, which moves every cell in the stored format, changes neither whether it can be solved nor any answer: the answers returned are the same drawings, moved by the margin. "
  "This holds for every puzzle type and every combination of margins.",
  ["inputs", "configurations"], "all puzzle types x all boards x all margin combinations",
  "All but a few examples have one fixed margin each; no test compares two margins.",
  ["noqx/puzzle/penpa.py", "solver/*.py", "noqx/clingo.py"], [("coordinate conversion", "noqx/puzzle/penpa.py"), ("outside clues at row/column -1", "solver/<type>.py")])
p("C09", "The order in which regions and their cells are found never changes the answers",
  "The region search starts from cells picked at random; whichever cells are picked, the regions found are the connected parts of the grid cut by the drawn walls, and the set of answers of every board is the same. "
  "Clues that belong to a region take effect wherever in the region they stand.",
  ["schedules", "inputs"], "all outcomes of the random picks x all region boards of all region puzzle types",
  "A test run sees one random order; an error that needs another order appears as an unreproducible failure.",
  ["noqx/rule/helper.py", "solver/*.py"], [("random seed cell selection", "noqx/rule/helper.py:full_bfs"), ("area numbering", "solver/<type>.py")])
p("C10", "Shared connectivity and reachability rules mean what they say",
  "On every board, the shared rules for 'all cells of a colour are connected', 'no group is cut off from the border', 'a clue sees/reaches exactly N cells', 'every group has N cells / one clue', with 4- or 8-way adjacency, "
  "inside regions, or cut by drawn walls, admit exactly the colourings in which that statement is true.",
  ["inputs", "programs"], "all small boards x all colourings x all rule options",
  "Tests call these rules on no board of their own (they check error cases and the generated text); solvers use only some of their options.",
  ["noqx/rule/reachable.py", "noqx/rule/neighbor.py"], [("reachability rules", "noqx/rule/reachable.py"), ("adjacency", "noqx/rule/neighbor.py")], obs=["models of the generated logic program projected to the cell colour"])
p("C11", "Shared loop and line rules mean what they say",
  "On every board, the shared rules for lines (each cell has zero or two / at most two / crossing line ends, a single loop, a single route, direction, straight and turning cells, loop sides inside and outside, separation of symbols by the loop) "
  "admit exactly the drawings in which that statement is true.",
  ["inputs", "programs"], "all small boards x all line drawings x all rule options",
  "Tests only see them through the examples of particular loop puzzles, with one drawing each.",
  ["noqx/rule/loop.py", "noqx/rule/reachable.py"], [("loop rules", "noqx/rule/loop.py")], obs=["models of the generated logic program projected to the lines"])
p("C12", "Shared shape rules recognise exactly the shapes they name",
  "On every board, the shared rules that recognise or forbid shapes (polyominoes in all orientations, given shapes, rectangles, squares, 2x2 blocks, same-shape groups, nori dominoes) hold exactly of the colourings and divisions that have, or "
  "do not have, those shapes.",
  ["inputs", "programs"], "all small boards x all colourings x all shapes x all rule options",
  "Tests exercise each shape rule through a couple of examples; orientations and border positions are not covered.",
  ["noqx/rule/shape.py", "noqx/rule/variety.py"], [("shape tables and orientation generation", "noqx/rule/shape.py")], obs=["models of the generated logic program projected to the cell colour"])
p("C13", "Shared counting, filling and neighbourhood rules mean what they say",
  "On every board, the shared rules for 'exactly/at least/at most N in this row, column, region, neighbourhood or visible line', 'all different', 'fill from these values', 'no two adjacent' hold exactly of the fillings for which the statement is true.",
  ["inputs", "programs"], "all small boards x all fillings x all rule options",
  "Tests exercise each rule with the fixed parameters of a few examples.",
  ["noqx/rule/common.py", "noqx/rule/neighbor.py", "noqx/rule/variety.py"], [("count/display/unique rules", "noqx/rule/common.py"), ("adjacency counts", "noqx/rule/neighbor.py")], obs=["models of the generated logic program projected to the cell colour"])
p("C14", "A submitted board is read exactly as drawn",
  "For every board in the stored format, the given numbers, letters, arrow clues, symbols, shaded cells, walls, lines and crosses are read at the cell, corner or side where they were drawn, for every position, margin, layer and style. "
  "Nothing that was not drawn is read, and marks meant only for the player (pencil candidates) are ignored.",
  ["inputs"], "all positions x all element kinds x all styles x all margins x both layers",
  "Tests decode a handful of saved boards.",
  ["noqx/puzzle/penpa.py", "noqx/puzzle/__init__.py"], [("decoder", "noqx/puzzle/penpa.py:decode")], obs=["the decoded puzzle object", "POST /api/solve/"])
p("C15", "An answer is drawn exactly, and never overwrites the problem",
  "Every cell, side, line, number or symbol of an answer the solver finds appears in the returned board at its own place and with its own value, and nothing else is added. What the author drew as the problem comes back unchanged, and an answer element never replaces it.",
  ["inputs"], "all positions x all answer element kinds x all problem boards x margins",
  "Tests compare the returned string with one saved string for one board per type.",
  ["noqx/puzzle/penpa.py", "noqx/clingo.py"], [("encoder", "noqx/puzzle/penpa.py:encode"), ("answer storage", "noqx/clingo.py:store_solution")])
p("C16", "Answers are distinct, limited, and complete below the limit",
  "The list of answers of a request never contains the same drawing twice, never exceeds the configured maximum, and, when it is shorter than the maximum, contains every answer. An impossible board gives an empty list.",
  ["inputs", "configurations"], "all puzzle types x all boards x all values of the answer limit",
  "Every test board has a unique answer, so neither duplicates nor the limit are ever exercised.",
  ["noqx/clingo.py", "solver/*.py"], [("answer limit and projection", "noqx/clingo.py:ClingoSolver")])
p("C17", "A request's result does not depend on the requests before it",
  "Solving a board gives the same answers in a fresh process and after any sequence of earlier requests, including requests for the same or other puzzle types, malformed boards, boards with no answer, and requests with different options.",
  ["histories"], "all request histories up to a depth over all puzzle types",
  "Each test solves one board; solver objects and module tables are shared for the life of the process and only sequences expose leftovers.",
  ["noqx/manager.py", "noqx/clingo.py", "solver/*.py"], [("solver reset at the start of a request", "noqx/rule/common.py / Solver.reset"), ("shared singletons", "noqx/manager.py:modules")],
  state=[("Solver.program", "logic program being built, kept between requests", "noqx/manager.py"), ("pattern tables", "grow across requests", "solver/tapa.py")])
p("C18", "Every request to the solve API gets the right status, never a wrong answer",
  "For every request body the server answers with the answers for a valid board, with status 400 and a detail text for a board the puzzle type refuses, status 504 on a timeout, and some error status (4xx or 5xx) with a detail text for a request it cannot read "
  "(missing or mistyped fields, unknown puzzle type, corrupt or wrongly shaped boards) or when a step of solving fails. A request that fails never returns partial answers, and the server keeps serving correct answers afterwards.",
  ["inputs", "fault_sequences"], "all single and double corruptions of a request; a failure at every step of solving",
  "Tests post a few hand-written bad bodies.",
  ["main.py", "noqx/clingo.py", "noqx/manager.py"], [("exception to status mapping", "main.py:solver_api")], obs=["HTTP status and body"])
p("C19", "A time limit never yields partial or wrong answers",
  "Whenever the solving engine finishes, stalls, finds models late or is interrupted at any point, a request ends either with the complete (or limit-reaching) list of answers or with a timeout error, and the engine is stopped. Time spent by one request does not count against another.",
  ["schedules", "fault_sequences"], "all orderings of engine events (model found, finished, limit reached) relative to the clock",
  "Tests use one real-time timeout; the orderings around the limit are not reachable by sleeping.",
  ["noqx/clingo.py", "main.py"], [("wait/cancel/elapsed test", "noqx/clingo.py:ClingoSolver.solve, run_solver")])
p("C20", "Concurrent requests do not influence each other",
  "When several requests are in progress at once, each gets the answers (or error) it would get alone, whatever the interleaving.",
  ["schedules"], "all interleavings of 2-3 requests over the server's scheduling points",
  "Tests issue requests one after another.",
  ["main.py", "noqx/manager.py", "noqx/clingo.py", "solver/*.py"], [("async handler without await between reset and solve", "main.py:solver_api"), ("shared singletons", "noqx/manager.py")], obs=["HTTP responses"])
p("C21", "Starting the server and building the static site are repeatable and complete",
  "After any sequence of server starts and deployment builds, the front-end metadata lists exactly the installed puzzle types with their options and examples, the deployment switch is off for the server and on in the bundle, and the static bundle contains every file the browser build loads, current and the same whatever was built or interrupted before.",
  ["histories", "configurations"], "all start/build sequences up to a depth, with stale or missing files",
  "Tests run the web application in one process and look at no generated file.",
  ["main.py", "main_deploy.py", "penpa-edit/prepare_deployment.js"], [("metadata and switch writer", "main.py")], obs=["penpa-edit/solver_metadata.js", "dist/"])
p("C22", "The in-browser solver gives the same answers as the server",
  "For every board and option set, the program, the answers and the errors produced through the browser entry points equal those produced by the server for the same request.",
  ["inputs", "configurations"], "all puzzle types x boards x options",
  "No test calls the browser entry points.",
  ["main_deploy.py", "noqx/clingo.py", "penpa-edit/prepare_deployment.js"], [("browser entry points", "main_deploy.py"), ("shared storage of answers", "noqx/clingo.py:store_solution")], obs=["main_deploy functions", "run_solver"])
p("C23", "The page's solve, browse and reset controls always show a consistent state",
  "In every sequence of user actions and server replies, the page shows the n-th answer exactly when it says it does, reset returns the problem as it was before solving, controls are re-enabled after every reply or failure, and options are sent for the puzzle type they belong to.",
  ["histories", "schedules"], "all sequences of UI events and replies (success, empty, error, network failure) up to a depth",
  "There are no front-end tests.",
  ["penpa-edit/app.js"], [("solve/cycle/reset handlers", "penpa-edit/app.js")], obs=["page controls, board import/export calls, requests sent"])
p("C24", "Every installed puzzle type is listed, loadable and consistent",
  "Every puzzle type installed is registered once under its own name, carries a name, a category the menu knows, at least one example that decodes and whose options exist, and is served under the same name by the API, the metadata and the browser build; what is registered does not depend on discovery or import order, and loading again never replaces or loses a type.",
  ["configurations", "histories"], "all puzzle types x discovery orders x repeated loading",
  "Tests iterate over whatever was registered, so a type that is lost or shadowed is not noticed.",
  ["noqx/manager.py", "solver/*.py", "main.py"], [("discovery and registration", "noqx/manager.py:load_solvers"), ("metadata", "noqx/manager.py:list_solver_metadata")], obs=["metadata, API replies"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
