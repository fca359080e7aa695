P("C15", "Saved env values come back in every later invocation, exactly and only they",
  "After an env save every session-wide value a user set that differs from its default is present, byte for byte, in each later invocation until it is changed and saved again or removed by the commands made for that; nothing else appears. "
  "Values set without saving, values local to a call or flow, and arguments of calls never come back. "
  "Clearing the saved env brings back the defaults, at once and in later invocations.",
  ["histories", "inputs"], "all histories of setting, removing, resetting and saving over several invocations; all values",
  NOTEST + "no test saves an env or looks at a second invocation.",
  ["pkg/mods/builtin/env.go", "pkg/core/model/proto.go", "pkg/core/model/env.go"],
  [("saving", "pkg/mods/builtin/env.go SaveEnvToLocal"), ("writing and reading the file", "pkg/core/model/proto.go SaveEnvToFile/LoadEnvFromFile"), ("filtering", "pkg/core/model/proto.go, env.go FlattenAll")],
  TV % "TicatEnvStore", BB + "Histories of up to 4 invocations; values from an adversarial alphabet.")

P("C16", "An env snapshot brings back what was saved in it; others are untouched",
  "Loading a snapshot gives every key the snapshot holds the value it had when the snapshot was taken, in the running session, and changes no other key. "
  "Taking, replacing or removing a snapshot affects that snapshot only, replacing needs to be allowed explicitly, and a refused or failed operation changes nothing.",
  ["histories"], "all histories of taking, loading, removing snapshots and changing values in between",
  NOTEST + "no test takes a snapshot.",
  ["pkg/mods/builtin/env_snapshot.go", "pkg/core/model/proto.go"],
  [("snapshot commands", "pkg/mods/builtin/env_snapshot.go")],
  TV % "TicatEnvStore", BB + "Two snapshot names, histories of up to 4 invocations.")

P("C30", "Env commands change exactly the keys they name",
  "Setting, adding, updating, mapping and removing env keys changes exactly the named key, removing by prefix exactly the keys under that prefix, and resetting exactly the session's values. "
  "Adding an existing key, updating a missing one, mapping a missing one and asserting a different value fail and change nothing. "
  "Later commands and programs of the same sequence see the new values.",
  ["histories", "inputs"], "all histories of env commands over any keys and values, in sequences and flows",
  NOTEST + "no test runs an env command.",
  ["pkg/mods/builtin/env.go", "pkg/core/model/env.go"],
  [("env commands", "pkg/mods/builtin/env.go")],
  TV % "TicatEnvStore", BB)

P("C20", "Commands are available exactly while what provides them is linked and enabled",
  "A command of a repo or directory can be run exactly while that repo or directory is in the hub and enabled (in the next invocation after the change), in the version last fetched by adding or updating. "
  "Disabling, purging or clearing takes its commands away and nobody else's; enabling brings them back. Where several enabled ones provide a command of the same name, the first in the hub's list provides it.",
  ["histories"], "all histories of hub commands over any number of repos listing each other, and remote changes in between",
  NOTEST + "no test uses the hub.",
  ["pkg/mods/persist/hub_meta", "pkg/mods/builtin/hub.go", "pkg/mods/builtin/mod.go"],
  [("loading the modules of the hub", "pkg/mods/builtin/mod.go"), ("conflicts", "pkg/core/model/cmds.go"), ("hub list", "pkg/mods/persist/hub_meta/hub_meta.go")],
  TV % "TicatHub", BB + "Local git repos stand in for the remote ones (git's url rewriting); four repos with branches, three local dirs, one shared command.")

P("C21", "The hub's list and its managed copies change exactly as the hub commands say",
  "Adding a repo links it and, once each, every repo it lists directly or indirectly, clones what is missing and never re-links what a user disabled. "
  "Disabling and enabling touch the selected entries' state only; purging removes only disabled, selected entries, and clearing all of them; a managed copy on disk is deleted exactly with its link and a local directory never. "
  "Updating only adds newly listed repos. A failed hub command leaves the list as it was; the list is readable for every later invocation.",
  ["histories", "faults"], "all histories of hub commands, remote changes and unreachable remotes",
  NOTEST + "no test uses the hub.",
  ["pkg/mods/persist/hub_meta", "pkg/mods/builtin/hub.go"],
  [("hub commands", "pkg/mods/builtin/hub.go"), ("clone, pull and expand", "pkg/mods/persist/hub_meta/hub_repo.go"), ("list file", "pkg/mods/persist/hub_meta/hub_meta.go")],
  TV % "TicatHub", BB + "As C20.")

P("C22", "A saved flow does what the sequence it was saved from does",
  "A sequence saved as a flow runs, whenever called under its name, the same programs with the same argument values, the same env values and in the same order as the sequence itself run directly, whatever characters the values hold; "
  "where the format cannot hold a value saving fails and nothing is saved. Arguments given to the saved flow override the ones of its commands.",
  ["inputs"], "all command sequences, env settings and argument values saved and run later",
  NOTEST + "no test saves a flow.",
  ["pkg/mods/builtin/flow.go", "pkg/core/model/template.go", "pkg/mods/persist/flow_file"],
  [("saving", "pkg/mods/builtin/flow.go SaveFlow"), ("rendering a sequence as text", "pkg/core/model/proto.go SaveFlowToStr"), ("flow file", "pkg/mods/persist/flow_file")],
  TV % "TicatExec", BB + "The saved flow is, for the specification, a flow of the same sequence with all automatic arguments; values from an adversarial alphabet.")

P("C23", "Saved flows change exactly as the flow commands say",
  "Saving creates or, only if allowed (by answering or by the argument for it), replaces exactly the flow of the given name; renaming, removing, describing, clearing and moving affect exactly the flows named. "
  "No flow is overwritten or lost unless agreed; a name of another command is refused; describing changes the help only, other settings of the file stay; an operation that fails or is declined changes nothing. A stored flow never makes another command unavailable. Each later invocation lists and runs exactly what is then stored.",
  ["histories"], "all histories of flow commands with any answers to their questions",
  NOTEST + "no test touches a saved flow.",
  ["pkg/mods/builtin/flow.go", "pkg/mods/persist/flow_file", "pkg/mods/persist/meta_file"],
  [("flow commands", "pkg/mods/builtin/flow.go"), ("flow file", "pkg/mods/persist/flow_file/flow_file.go"), ("loading flows", "pkg/mods/builtin/mod.go")],
  TV % "TicatFlows", BB + "Four flow names (also nested and abbreviated paths, flows saved straight into a directory, files edited by hand), one linked or unlinked directory, histories of up to 14 commands; sequences do not call themselves.")

P("C34", "Automatic arguments of a flow reach the commands they were taken from",
  "A flow with automatic arguments takes exactly the arguments its mapping selects from the commands it is made of, in the given or found order, with their defaults and abbreviations; "
  "a value given to the flow reaches the commands declaring the argument, an ungiven one leaves them as they are, and the flow's own arguments are unaffected. The result is the same in every invocation.",
  ["inputs", "order"], "all flows with automatic arguments, mapping lists, nestings, calls of them",
  NOTEST + "the tests of automatic arguments check one mapping list.",
  ["pkg/core/model/args_auto_map.go", "pkg/core/model/cmd.go", "pkg/mods/persist/mod_meta"],
  [("mapping", "pkg/core/model/args_auto_map.go"), ("reading args.auto", "pkg/mods/persist/mod_meta/mod_reg.go")],
  TV % "TicatExec", BB)

P("C25", "Background commands run apart from the rest, and are waited for",
  "A command with a delay runs once, not before its delay, with the arguments and env values of the moment it was scheduled, while what follows goes on at once. Neither sees the other's later changes of the env (except settings explicitly applied early). "
  "Waiting commands block until exactly the tasks they name have ended, in any order of waiting; at the end all remaining tasks are waited for unless that was switched off. "
  "Each task's output is shown complete and in one piece when it is waited for; a task failing at the end makes the whole fail, one tolerated does not.",
  ["interleavings", "faults"], "all interleavings of foreground and background programs, waits and failures",
  NOTEST + "no test runs anything in the background.",
  ["pkg/core/execute/executor.go", "pkg/core/model/bg_tasks.go", "pkg/mods/builtin/bg_tasks.go"],
  [("scheduling", "pkg/core/execute/executor.go asyncExecute"), ("tasks and output", "pkg/core/model/bg_tasks.go"), ("waiting", "pkg/mods/builtin/bg_tasks.go")],
  TV % "TicatBg", BB + "The programs block on pipes and are released one at a time in the order of the behaviour, so every interleaving of program ends is reachable; up to ten programs. Background tasks scheduling others are excluded (not allowed by ticat).")

P("C24", "Hooks run exactly when a session ends",
  "After all commands of a session ran, the command set as done or error hook (whichever the outcome calls for) and then the exit hook run once each, with the env values the session ended with; a session refused before its checks runs none. "
  "Nothing else of the session changes by them: what ran, what is recorded, the exit status, except that a failing hook ends ticat with a failure without running the others.",
  ["faults", "inputs"], "all sequences setting hooks, with any outcome of the commands and of the hooks",
  NOTEST + "no test sets a hook.",
  ["pkg/ticat/ticat.go", "pkg/mods/builtin/builtin.go"],
  [("end of a session", "pkg/ticat/ticat.go exitEventHook"), ("hook commands", "pkg/mods/builtin/builtin.go RegisterHookCmds")],
  TV % "TicatHooks", BB)

P("C18", "However it is spelled, a call reaches the one command its names mean",
  "A path of names, at each level the name or one of its abbreviations, however separators, blanks and env groups are placed among them, leads to the one command registered under it, with the env values stored under the real path and key names and the arguments given; "
  "each name and abbreviation means one thing, given by the first that declared it: a later module claiming it is refused and changes nothing for those already there. What cannot be resolved is refused and runs nothing.",
  ["inputs"], "all trees of modules (with clashing names, abbreviations and env keys) and all spellings of calls",
  "The parser tests have a handful of spellings in one fixed tree, none loads modules.",
  ["pkg/core/parser", "pkg/core/model/cmds.go", "pkg/core/model/env_abbr.go", "pkg/mods/persist/mod_meta"],
  [("resolving", "pkg/core/parser/cmd.go"), ("command tree and abbreviations", "pkg/core/model/cmds.go"), ("env abbreviations", "pkg/core/model/env_abbr.go"), ("registering modules", "pkg/mods/persist/mod_meta/mod_reg.go")],
  TV % "TicatNames", BB + "Trees of up to 8 modules from two directories, paths of up to three levels.")

P("C19", "A broken module or a stray file costs nothing but itself",
  "Whatever lies in the linked directories and among the saved flows (malformed, half written, binary, unreadable or dangling files, clashing modules), ticat starts, and every other module loads, resolves and runs exactly as without it.",
  ["inputs", "faults"], "all directory contents",
  NOTEST + "no test loads a module.",
  ["pkg/mods/builtin/mod.go", "pkg/mods/persist/mod_meta", "pkg/mods/persist/meta_file", "pkg/core/model/errs.go"],
  [("scanning directories", "pkg/mods/builtin/mod.go loadLocalMods"), ("registering modules", "pkg/mods/persist/mod_meta/mod_reg.go"), ("tolerated errors", "pkg/core/model/errs.go")],
  TV % "TicatNames", BB + "Junk is a stuttering step of the specification; up to six junk files per tree, from a grammar of meta-file fragments, raw bytes, links and odd names.")

P("C13", "Retrying a broken session runs exactly what is left of it",
  "Retrying a recorded session - broken by a failure, by ticat getting killed at any point, or itself a retry - runs every command which did not succeed according to that record, in the original order and with the arguments and env it would have had, and none which succeeded. "
  "When nothing fails any more, the attempts together have run every command of the sequence, and it ends with the env and the exit status of an unbroken run.",
  ["crash_points", "fault_sequences", "programs"], "all sequences of nested flows, all places to fail or to be killed at, any chain of retries",
  NOTEST + "no test records a session.",
  ["pkg/core/model/executed.go", "pkg/core/model/executing.go", "pkg/core/model/cmd.go", "pkg/core/execute/executor.go", "pkg/mods/builtin/sessions.go"],
  [("reading the record", "pkg/core/model/executed.go ParseExecutedFlow"), ("masks of what is done", "pkg/core/model/executed.go GenExecMasks"), ("running with masks", "pkg/core/model/cmd.go execute, pkg/core/execute/executor.go executeFlow"), ("retry commands", "pkg/mods/builtin/sessions.go retrySession")],
  TV % "TicatRetry", BB + "Up to four attempts, each with one fault at the 1st to 6th program (or killing ticat there). Not explored: flow files changed between the attempts, values with line breaks (the record is line based). One known finding (held).")

P("C14", "Every session leaves one record, which lasts until it expires or is removed",
  "Each invocation with a session leaves one record of its own, newer than all before, and no other operation makes one. Listing shows exactly the records matching the asked outcome (running, succeeded, failed) and all keywords, in the order they were made, the newest ones if limited; the last session is the newest one with commands which is not hidden. "
  "Removing takes away exactly the records named or matching, running ones only if forced; starting a session takes away exactly those older than the keeping duration and not running. Nothing else in the directory is touched.",
  ["histories", "crash_points"], "all histories of sessions, listings, removals and passing time, with sessions killed or still running",
  NOTEST + "no test makes a session.",
  ["pkg/core/model/session.go", "pkg/mods/builtin/sessions.go", "pkg/core/model/executed.go"],
  [("making and expiring", "pkg/core/model/session.go SessionInit"), ("listing", "pkg/core/model/session.go ListSessions"), ("removing", "pkg/core/model/session.go CleanSession/CleanSessions, pkg/mods/builtin/sessions.go"), ("last session", "pkg/mods/builtin/sessions.go getLastSession")],
  TV % "TicatSessions", BB + "Histories of up to 45 operations. Time is made to pass by renaming the records, running sessions are stand-in processes; records made within one second are not ordered.")

P("C17", "A change of a store which is broken off leaves the old or the new, nothing else",
  "If a command changing the saved env, an env snapshot, a saved flow or the hub's list is broken off at any moment - ticat is killed, or the file system refuses a write - every store afterwards reads back complete: with exactly what it held before, or exactly what the command was to make of it (for a command that saves several things one after the other, some of them new and the others old). "
  "Everything else is untouched, ticat starts as ever, and a repeated command does what it would have done. A command which reports success has changed the store.",
  ["crash_points", "faults"], "all stores and changes, broken off at any system call or written byte",
  NOTEST + "no test stores anything, none breaks a command off.",
  ["pkg/core/model/proto.go", "pkg/mods/persist", "pkg/mods/builtin/env.go", "pkg/mods/builtin/flow.go", "pkg/mods/builtin/hub.go"],
  [("saving env files", "pkg/core/model/proto.go SaveEnvToFile"), ("saving flows", "pkg/mods/persist/meta_file/meta_file.go Save"), ("saving the hub's list", "pkg/mods/persist/hub_meta WriteReposInfoFile")],
  TV % "TicatCrash", BB + "Kills are injected at system calls of ticat itself (its own child process), or after a written byte by a file size limit; power loss (what a file system loses of written data) is out of reach here. Git repositories are not cloned (no network).")

P("C26", "Join and repeat run a command once for each combination, in order",
  "Running joined values runs the command once for every combination of the values, each list in its order and the first list varying slowest, with the values of the combination as its args or env; repeating runs it exactly the given number of times. "
  "The runs follow each other like calls of a sequence: a failing one ends it there and fails the whole (or, where tolerated, doesn't), the lists are used up by the run, and what can't be run (no list, a bad range, a missing command) is refused without running anything.",
  ["inputs", "programs"], "all lists of values and ranges, all commands run for them, any place to fail",
  NOTEST + "no test joins or repeats anything.",
  ["pkg/mods/builtin/join.go", "pkg/mods/builtin/misc.go", "pkg/mods/builtin/builtin.go"],
  [("joining and running", "pkg/mods/builtin/join.go"), ("repeating", "pkg/mods/builtin/misc.go"), ("args of a call", "pkg/core/model/cmd_def.go, pkg/core/model/env.go")],
  TV % "TicatRepeat", BB + "Up to three lists of up to three values. Excluded: ranges of fractions (rounding), the env left by the run of a nested join.")

P("C27", "In forest mode and selftests each command gets the env its frame started with",
  "Once a sequence is in forest mode, every following command of it runs with the env as it was, however the ones before changed it, and in the order written; what one does to the env is gone when it ends. It lasts to the end of that flow, through tolerated failures and nested flows, and not beyond. "
  "Selftest runs exactly the commands with the asked tag, each once in a fixed order, apart from each other in the same way, and fails if one of them fails.",
  ["programs"], "all sequences and nested flows entering forest mode anywhere, all tagged commands",
  NOTEST + "no test runs a sequence.",
  ["pkg/core/execute/executor.go", "pkg/core/model/forest.go", "pkg/mods/builtin/blender.go", "pkg/mods/builtin/misc.go"],
  [("forest mode", "pkg/core/model/forest.go, pkg/core/execute/executor.go executeFlow"), ("selftest", "pkg/mods/builtin/misc.go")],
  TV % "TicatRepeat", BB + "Flows nested up to four deep, up to ten tagged commands.")

P("C28", "Invocations at the same time don't damage each other's stores",
  "However invocations of ticat changing and reading the saved env, snapshots, saved flows and the hub's list overlap, each store holds at every moment one complete content: what one of them made of a content it had read. A change may get lost to a later one of the same store, it is never mixed with another, and stores nobody changes stay as they are. "
  "A reader gets a content which was there while it ran. A save which is not refused for its own reasons succeeds.",
  ["schedules"], "all schedules of any changes and reads of the stores",
  NOTEST + "no test stores anything or runs two invocations.",
  ["pkg/core/model/proto.go", "pkg/mods/persist", "pkg/mods/builtin/env.go", "pkg/mods/builtin/flow.go", "pkg/mods/builtin/hub.go"],
  [("saving env files", "pkg/core/model/proto.go SaveEnvToFile"), ("saving flows", "pkg/mods/persist/meta_file/meta_file.go Save"), ("saving the hub's list", "pkg/mods/persist/hub_meta WriteReposInfoFile")],
  TV % "TicatTogether", BB + "Two or three invocations; each but one is stopped (SIGSTOP) at a chosen system call while the others run, so schedules with one switch per invocation are reached.")

P("C35", "How things are shown never changes what is done",
  "Whatever is set of how things are shown - what to show, how much, how wide, in which style, colored or not - and however it is changed on the way, a sequence runs the same programs with the same args, env and order, ends the same way and leaves the same record.",
  ["programs", "inputs"], "all sequences under all settings of what is shown",
  NOTEST + "no test shows anything while running a sequence.",
  ["pkg/core/execute", "pkg/cli/display", "pkg/mods/builtin/display.go", "pkg/mods/builtin/verbose.go"],
  [("showing while running", "pkg/core/execute/executor.go, pkg/cli/display"), ("settings", "pkg/mods/builtin/verbose.go, display.go")],
  TV % "TicatExec", BB + "24 switches, widths from 1 to 400, styles and limits, changed by up to two commands on the way.")

P("C31", "What programs print is shown and kept, what they read they get",
  "Everything a program prints is shown, on the stream it was printed to, unchanged and complete, one program after the other; and exactly this is kept in a log file the session's record names, also when the program fails, unless its command says not to (then there is none). "
  "An error names the log of the program which failed. Programs read ticat's own standard input, each continuing where the ones before stopped.",
  ["inputs", "programs"], "all programs, any output of any size, anything failing",
  NOTEST + "no test runs a program.",
  ["pkg/core/model/cmd.go", "pkg/core/model/bg_tasks.go", "pkg/core/model/executing.go", "pkg/cli/display/err.go"],
  [("starting a program", "pkg/core/model/cmd.go executeFile"), ("its streams", "pkg/core/model/bg_tasks.go SetupForExec"), ("log files", "pkg/core/model/cmd.go genLogFilePath")],
  TV % "TicatProgs", BB + "Up to 200 KB at once; commands in the background are judged by C25. The order between the two streams is not judged.")

P("C33", "A program is started as its command and the env say",
  "The program of a command is run by the runner the env in effect for the call says for what its file name ends with (with the words given for it), else by bash; in its own directory, with the session's path and then the values of the command's args in their order. "
  "The keys a command names for its begin, end and duration have those times when later commands run.",
  ["inputs", "programs"], "all file names and places, all settings of runners in all layers of the env",
  NOTEST + "no test runs a program.",
  ["pkg/core/model/cmd.go", "pkg/mods/persist/mod_meta/mod_reg.go", "pkg/mods/builtin/mod.go", "pkg/mods/builtin/dbg.go"],
  [("starting a program", "pkg/core/model/cmd.go executeFile"), ("times", "pkg/core/model/cmd.go Execute"), ("definitions", "pkg/mods/persist/mod_meta/mod_reg.go")],
  TV % "TicatProgs", BB + "Stand-ins record how the interpreters were started; ten extensions.")
P("C29", "Searching and listing show exactly the commands which match",
  "A search lists, each once, every loaded command (and place in the command tree) in whose properties - name, path, abbreviations, help, tags, source, kind, arguments, env keys and what is done to them, things it depends on - all given keywords occur, and no other. "
  "Restricting it to a branch, a source, a tag or a depth lists exactly those of them which are there; searching by tags lists what has one of the tags; asking who writes a key lists exactly the commands which are declared to. "
  "How much is shown about each does not change which are listed, and searching and listing run nothing.",
  ["inputs", "catalogues"], "all catalogues of commands, all keywords, branches, sources, tags and depths",
  NOTEST + "no test searches.",
  ["pkg/cli/display/cmds.go", "pkg/core/model/cmds.go", "pkg/core/model/cmd.go", "pkg/core/model/env_mapper.go", "pkg/core/model/env_ops.go", "pkg/core/model/args.go",
   "pkg/mods/builtin/dump_cmds.go", "pkg/mods/builtin/tags.go", "pkg/mods/builtin/help.go", "pkg/mods/builtin/api.go"],
  [("walking the tree", "pkg/cli/display/cmds.go dumpCmd"), ("matching", "pkg/core/model/cmds.go MatchFind, pkg/core/model/cmd.go MatchFind"), ("queries", "pkg/mods/builtin/dump_cmds.go, tags.go, help.go")],
  TV % "TicatFind", BB + "Catalogues of 12 places from two linked directories; keywords of at most 4 words.")
P("C32", "What is said about a command is what it is defined as",
  "The description of a command tells its help, tags, arguments with their abbreviations, defaults and allowed values, the env keys it writes, fills from arguments, reads or may read and write, what it depends on, its kind, flow, program and the file which defines it, as they are in that file, however it is asked for; "
  "the value of a key or argument named as a secret is not shown unless `display.sensitive` is set. The `api` commands tell other programs the same.",
  ["inputs", "definitions"], "all definitions of commands, all ways to ask",
  NOTEST + "no test loads a definition and describes it.",
  ["pkg/cli/display/cmds.go", "pkg/mods/persist/mod_meta/mod_reg.go", "pkg/core/model/cmd.go", "pkg/core/model/env_ops.go", "pkg/mods/builtin/dump_cmd.go", "pkg/mods/builtin/api.go", "pkg/cli/display/utils.go"],
  [("describing", "pkg/cli/display/cmds.go dumpCmd"), ("definitions", "pkg/mods/persist/mod_meta/mod_reg.go"), ("secrets", "pkg/core/model/env.go IsSensitiveKeyVal, pkg/cli/display/utils.go mayMaskSensitiveVal")],
  TV % "TicatFind", BB + "Single-line help; defaults without quotes inside.")
P("C36", "A description tells what running would do, and does nothing",
  "Describing a sequence instead of running it (desc, desc.more, desc.full, desc.flow and their shortcuts) lists the commands which running it would start, in the order they would be started and nested as they would be, "
  "with the values given to their arguments as far as these do not depend on what programs do - also when earlier flows are not shown, because they are shown already (then this is said), are too deep, of trivial, quiet or packed commands. "
  "It says how many things keep the sequence from being run, and which (desc.depends, desc.env-ops-check): exactly the missing OS commands and the env keys read but not provided for which running would be refused. "
  "A sequence whose flows cannot be expanded is an error. Nothing is run and nothing stored changes.",
  ["inputs", "programs"], "all sequences and commands, all ways to ask, all depths",
  NOTEST + "no test describes a sequence.",
  ["pkg/cli/display/flow.go", "pkg/mods/builtin/dump_flow.go", "pkg/core/model/dep.go", "pkg/core/model/env_ops.go", "pkg/cli/display/env_ops.go", "pkg/cli/display/dep.go"],
  [("describing", "pkg/cli/display/flow.go dumpFlowCmd"), ("what keeps it from running", "pkg/core/model/env_ops.go CheckEnvOps, pkg/core/model/dep.go CollectDepends"), ("commands", "pkg/mods/builtin/dump_flow.go")],
  TV % "TicatDesc", BB + "Arguments, names, nesting and refusals are judged, not the layout; calls scheduled for the background are not described in the cases.")
P("C37", "What is told about a session is what its record says",
  "Describing a session which was run (the last one or by its id; with or without what changed, shallow or deep) shows of each command whether it was finished, failed, was not finished or was not run, as it is in the session's record, at its place in the sequence - "
  "also if ticat was killed while it ran, if env definitions are among the commands and if the flows depend on values which are no longer what they were. A command which failed is shown with all flows it was called in, however deep; with details shown, what the env was at the start of a command and what it changed are the ones recorded. "
  "Describing a session runs nothing and changes nothing.",
  ["programs", "fault_sequences", "crash_points"], "all sequences, all commands failing in them, all points at which it is killed, all ways to ask",
  NOTEST + "no test runs a session and asks for it.",
  ["pkg/mods/builtin/sessions.go", "pkg/cli/display/flow.go", "pkg/core/model/executed.go"],
  [("describing", "pkg/cli/display/flow.go dumpFlow, dumpFlowCmd"), ("the record", "pkg/core/model/executed.go ParseExecutedFlow, CalResultInCaseIncompleted"), ("commands", "pkg/mods/builtin/sessions.go")],
  TV % "TicatSessDesc", BB + "Calls in the background, retried sessions and quiet commands are not in the cases; the layout is not judged.")
