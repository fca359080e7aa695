#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (and checks that
every claimed property has a check module)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                       why_tests_cant=why, anchors=a), technique, note, level))


EXEC = ["pkg/core/execute/executor.go", "pkg/core/model/cmd.go"]
NOTEST = "The existing tests only exercise the text parsers of single sequences and env groups; "
TV = "TLA+ specification %s: TLC enumerates small cases completely and they are replayed on the real binary; seeded larger runs of the real binary are judged by TLC (trace validation)"
BB = ("Specification checked exhaustively by TLC within the stated bounds; the implementation is bound to it by replaying "
      "model behaviours and by trace validation on a freshly built binary, so the implementation side is bounded by the cases run. ")

P("C01", "A sequence runs each command once, in order, up to the first failure",
  "The commands of a sequence start one after the other in the order written, each exactly once, and none starts before the one before it has ended. "
  "When a command fails and nothing marks its failure as tolerated, no later command of the sequence, nor of any flow around it, starts. "
  "The exit status of the process is zero exactly if nothing failed that way.",
  ["programs", "configurations"], "all sequences, over all installed modules and flows, any nesting, any set of failing programs",
  NOTEST + "none executes a sequence, and order and stopping must hold for every shape of sequence and every failing position.",
  EXEC + ["pkg/core/model/executing.go", "pkg/ticat/ticat.go"],
  [("sequence loop", "pkg/core/execute/executor.go executeFlow/executeCmd"), ("program execution", "pkg/core/model/cmd.go executeFile/execute"), ("exit status", "pkg/ticat/ticat.go")],
  TV % "TicatExec", BB + "Sequences up to length 8, flows nested up to 6 deep.", observe=["trace written by test modules", "exit status"])

P("C02", "A flow behaves as the calls its text lists, at any nesting depth",
  "Calling a flow runs the calls of its text in place of the call, recursively, as if they had been written there (its own env values stay inside it). "
  "A command which has both a flow and a program runs the flow first and the program only after the whole flow has succeeded. "
  "How a call is spelled - abbreviation or full name, positional or named arguments - makes no difference.",
  ["programs"], "all flows built from flows and modules, of any depth and spelling",
  NOTEST + "no test expands a flow; the claim is over all nestings.",
  ["pkg/core/model/cmd.go", "pkg/core/execute/executor.go", "pkg/core/model/flow.go"],
  [("flow expansion", "pkg/core/model/cmd.go executeFlow/executeFileNFlow/Flow"), ("inner execution", "pkg/core/execute/executor.go Execute")],
  TV % "TicatExec", BB + "Complete enumeration of three-level nestings of flow and flow-with-program commands; random up to 6 levels.")

P("C03", "A tolerated failure ends its command only; everything else goes on",
  "When a call marked to tolerate errors fails, directly or anywhere inside the flow it calls, execution continues with the next call as if it had succeeded, in the env of the caller. "
  "A command declared quiet about errors makes the sequence stop with an ordinary failure status instead of an error report, unless the call tolerates it. "
  "Changes a failed program made to the env are kept exactly if its failure was tolerated.",
  ["programs", "fault_sequences"], "all sequences and all sets of failing programs, tolerated calls and quiet commands",
  NOTEST + "no test lets a command fail.",
  EXEC + ["pkg/core/model/executing.go", "pkg/core/model/sys_argv.go"],
  [("tolerating a failure", "pkg/core/model/cmd.go Execute"), ("restoring the call stack", "pkg/core/model/cmd.go Execute"), ("status of sub flows", "pkg/core/model/executing.go")],
  TV % "TicatExec", BB + "All combinations of failing/tolerated/quiet on a flow of two and sequences of up to two calls, larger ones random.")

P("C04", "Every argument given reaches the command it was given to, or is refused",
  "A program receives its declared arguments in declared order: for each the value given in the call by position, by name or by abbreviation of the name, else the value the env holds for that argument, else its default. "
  "Text which cannot be bound - an unknown name, one value too many, a dangling assignment - makes the whole invocation fail before anything runs; of two values for one argument the later counts. "
  "Values are passed on unchanged but for surrounding white space, whatever characters they contain (a lone `--` is reserved), also through flows that forward their own arguments.",
  ["inputs", "programs"], "all argument lists over names, abbreviations, values and separators; all call chains forwarding them",
  "The parser tests check a handful of fixed argument lists and never what a program receives.",
  ["pkg/core/parser/env.go", "pkg/core/parser/cmd.go", "pkg/core/model/args.go", "pkg/core/model/argv.go", "pkg/core/model/parsing.go"],
  [("binding of words to arguments", "pkg/core/parser/env.go TryParseRaw"), ("argument values", "pkg/core/model/env.go GetArgv"), ("passing to programs", "pkg/core/model/cmd.go executeFile")],
  TV % "TicatExec and TicatArgs", BB + "All word lists up to length 3 (quick, sampled for the replay) or 4 (thorough) over an 11-word alphabet (TicatArgs), plus programs of TicatExec.")

P("C05", "Argument and constant mappings set the env keys they name, nothing else",
  "When a command starts, the constants it declares are written to their env keys, and each argument mapped to an env key writes that key if the argument was given, or if it has a default and the key has no value yet. "
  "An argument neither given nor defaulted leaves the key alone, and so does the default when the key already has a value. "
  "The values are visible to the command itself and to everything after it in the session.",
  ["programs", "configurations"], "all declared mappings, all ways to give or omit arguments, all earlier values",
  NOTEST + "no test covers mappings.",
  ["pkg/core/model/env_mapper.go", "pkg/core/model/parsing.go", "pkg/core/model/args_auto_map.go"],
  [("constant mapping", "pkg/core/model/env_mapper.go"), ("argument mapping", "pkg/core/model/parsing.go ApplyMappingGenEnvAndArgv")],
  TV % "TicatExec", BB)

P("C06", "An env value is visible exactly where its scope says",
  "A value written in front of the first command of a sequence holds for the whole session; written at a later call it holds during that call only; written at the head of a flow it holds during that flow only; saved values hold unless one of these overrides them. "
  "When a call or flow ends, however it ends, all values of its own are gone and the values outside are what they were, except for what was shared with the session on purpose. "
  "Removing a key removes it from its scope and all wider ones.",
  ["programs", "histories"], "all placements of writes, removals and reads over sequences, calls, flows, programs and saved values",
  NOTEST + "no test evaluates an env during execution.",
  ["pkg/core/model/env.go", "pkg/core/model/parsing.go", "pkg/core/execute/executor.go", "pkg/core/model/cmd.go"],
  [("layered lookup and removal", "pkg/core/model/env.go"), ("layer per call", "pkg/core/model/parsing.go GenCmdEnv"), ("layer per flow", "pkg/core/model/cmd.go executeFlow")],
  TV % "TicatEnv/TicatExec", BB + "One key: all placements in a two-level program; six keys random.",
  state=["env layers"], observe=["env in the session record at start and end of each call", "env file given to programs"])

P("C07", "Programs and ticat exchange the session env without loss",
  "A program finds every session-wide env value in the env file it is given, byte for byte, and what it appends there - new values, changed values, removals - is the session's env for all later commands and for ticat's own commands once it has succeeded. "
  "Later lines win over earlier ones, values may hold any characters of a line including separators, and any length. "
  "What a failing, not tolerated program wrote has no effect.",
  ["inputs", "histories"], "all keys and values, all sequences of programs writing and reading",
  NOTEST + "no test runs a module.",
  ["pkg/core/model/proto.go", "pkg/core/model/cmd.go", "pkg/core/model/env.go"],
  [("writing the env file", "pkg/core/model/proto.go saveEnvToSessionFile/EnvOutput"), ("reading it back", "pkg/core/model/proto.go LoadEnvFromFile/EnvInput"), ("around each program", "pkg/core/model/cmd.go executeFile")],
  TV % "TicatExec and TicatEnvStore", BB + "Values are opaque to the specification; the harness draws them from an adversarial alphabet and lengths up to 200 KB.")

P("C08", "Unprovided env reads refuse the whole sequence before anything runs",
  "If some command of a sequence, at any depth of flows, declares that it reads an env key, and neither a value exists for it at that point nor an earlier command in execution order declares to write or maybe write it, the invocation is refused with a failing status and no program starts. "
  "If every declared read is provided for, the sequence is not refused for this reason. "
  "Optional reads never refuse anything.",
  ["programs", "configurations"], "all sequences of readers, writers and flows, all ways values come into being",
  NOTEST + "no test checks env operations.",
  ["pkg/core/model/env_ops.go", "pkg/core/execute/executor.go", "pkg/mods/builtin/env.go"],
  [("static walk", "pkg/core/model/env_ops.go CheckEnvOps"), ("refusal", "pkg/core/execute/executor.go verifyEnvOps")],
  TV % "TicatExec", BB + "13824 programs enumerated.")

P("C09", "A sequence with any error in it runs nothing at all",
  "A misspelled command, an argument error or a malformed env group anywhere in the sequence, a flow at any depth which cannot be expanded or parsed, or a missing operating system command some involved command declares to depend on: each makes the invocation fail before the first command starts. "
  "No program runs, and no stored state changes.",
  ["programs", "inputs"], "all sequences with one or more errors at any position and depth",
  "The parser tests check that some malformed texts give errors, not that nothing is executed.",
  ["pkg/core/execute/executor.go", "pkg/core/model/dep.go", "pkg/core/parser", "pkg/cli/display/parse_err.go"],
  [("parse errors", "pkg/cli/display/parse_err.go HandleParseResult"), ("dependencies", "pkg/core/model/dep.go CollectDepends"), ("expansion errors", "pkg/core/model/cmd.go Flow")],
  TV % "TicatExec", BB)

P("C10", "Templates in flows are replaced by current values, or the flow is refused",
  "Every template in a flow's text is replaced, when the flow is entered, by the value its key has at that moment in the flow's env, else by the argument of that name; values holding templates are replaced in turn. "
  "A repeated section is replaced by one copy per element of the list value it names, in order. "
  "A template without value or one whose value contains itself makes the call fail; a flow is never executed with a template left in it.",
  ["programs", "inputs"], "all flow texts with templates and repeated sections, all values",
  NOTEST + "no test renders a template.",
  ["pkg/core/model/template.go", "pkg/core/model/cmd.go"],
  [("rendering", "pkg/core/model/template.go"), ("flow expansion", "pkg/core/model/cmd.go Flow")],
  TV % "TicatExec", BB)

P("C11", "Inspecting or saving a sequence never executes it",
  "When a sequence ends in a command that describes, searches or saves it - or such a command is applied to it in the tail notation - none of the described commands is executed, whatever the sequence contains. "
  "Such commands change no stored env value and no hub entry, and saving changes nothing but the saved flow.",
  ["programs"], "all sequences, all inspecting commands, all their notations",
  NOTEST + "no test applies an inspecting command to a sequence.",
  ["pkg/core/execute/executor.go", "pkg/mods/builtin/dump_flow.go", "pkg/mods/builtin/flow.go", "pkg/mods/builtin/utils.go"],
  [("moving the command to the front", "pkg/core/execute/executor.go moveLastPriorityCmdToFront"), ("clearing the rest", "pkg/mods/builtin/utils.go clearFlow")],
  TV % "TicatTail", BB)

P("C12", "The session record tells exactly what was executed and how it ended",
  "The record kept for an invocation lists every command that was started, in order and nested as it was called, the env each started and ended with, and for each that ended whether it succeeded. "
  "It says how the whole ended, and a record without an end belongs to an invocation that is still running or was broken off. "
  "Nothing that did not run is recorded as run.",
  ["programs", "fault_sequences"], "all sequences, all failing positions, all nestings",
  NOTEST + "no test writes or reads a session record.",
  ["pkg/core/model/executing.go", "pkg/core/model/executed.go", "pkg/core/model/session.go", "pkg/core/model/cmd.go"],
  [("writing the record", "pkg/core/model/executing.go"), ("hooks around each call", "pkg/core/model/cmd.go Execute")],
  TV % "TicatExec", BB, observe=["the status file of the session"])

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, tech, note, level in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --quick" % i,
                       "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import fw, tlc, vt\" && java -version",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
