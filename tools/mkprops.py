#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=["src/"+f for f in files],
      state=[dict(name=a,meaning=b,where="src/"+c) for a,b,c in state],
      mechanism=[dict(name=a,where="src/"+b) for a,b in mech],
      observe_at=list(observe),hook_needed=None)))
H="helena_dialect/"
p("C01","Control flow and result codes compose exactly",
 "Running any script performs its sentences in order, each exactly once, until one produces a non-OK result, and every construct (if, when, while, loop, eval, closures, macros, procs, guards, scopes, return/break/continue/error/pass) turns the result code and value of its body into the prescribed outcome, at any nesting depth. A loop ends only by break, its exhausted source, a false test or a propagated code; its value is that of the last iteration body that completed normally. A proc, scope or namespace body never leaks a code other than OK or ERROR, whereas macros, closures and eval let every code through.",
 ["programs","inputs"],"all programs built from control-flow commands, nested to any depth, with any result code raised at any point",
 "The tests exercise each construct alone or one level deep; which code meets which enclosing construct, after how many iterations and from which position, is a product they sample a handful of times.",
 [H+"controls.go",H+"core.go",H+"procs.go",H+"closures.go",H+"macros.go",H+"scopes.go",H+"basic_commands.go","core/compiler.go"],
 [("Process trampoline",H+"core.go Process.Run"),("continuation callbacks",H+"controls.go"),("ExecuteUntil","core/compiler.go")],
 [("process stack","program contexts awaiting a result",H+"core.go ProcessStack")],["Process.Run result","order of calls to host commands"])
p("C02","Yield suspends and resumes exactly where it left off",
 "When a script yields, at any depth inside commands that support it, its process stops with the yielded value, and resuming it with a value makes that value the result of the yield and continues as if the yield had been an ordinary command returning it: nothing is re-executed, skipped or lost, however many times, and whichever other processes or coroutines run in between. A coroutine is inactive before its first wait, active until its body finishes, then done; wait and yield run it up to its next yield or its end, a done or failed coroutine never runs again, and every misuse is an error and never a crash.",
 ["schedules","histories","programs"],"all placements of yields in all programs and all interleavings of resumptions of several processes and coroutines",
 "Interleavings of several suspended computations and yields at every nesting position grow combinatorially; tests cover one yield at a time in hand-picked places.",
 [H+"coroutines.go",H+"core.go",H+"controls.go",H+"aliases.go",H+"ensembles.go","core/compiler.go"],
 [("Process.YieldBack/Run",H+"core.go"),("ResumableCommand.Resume","core/compiler.go ExecuteUntil"),("coroutine state machine",H+"coroutines.go")],
 [("coroutineState","inactive/active/done",H+"coroutines.go"),("ProgramState","PC, stack, frames, pending result","core/compiler.go")],
 ["Process.Run","$coroutine wait/yield/active/done"])
p("C03","Catch runs the right handlers exactly once",
 "For every result code of a catch body, exactly the handler for that code runs, once, with the body's value bound locally; its result replaces the body's, pass re-raises the original result (or, for yield, lets the yield out and resumes the body afterwards), and the finally handler runs exactly once after the body and handler have completed, unless a handler itself ends abnormally. A one-argument catch reports the code and value of its body whatever commands the body uses.",
 ["programs","fault_sequences"],"all combinations of body outcome, handler set, handler outcome, finally outcome, with suspensions at any point and catches nested in each other",
 "The product of body code x handler set x handler code x finally code x suspension point x nesting is far larger than the listed cases, and it is in the crossings (yield in a handler with finally, pass out of nested catches) that state machines go wrong.",
 [H+"controls.go"],[("catchCmd.run state machine",H+"controls.go")],
 [("catchState.step","progress through body, handler, finally",H+"controls.go")],["Process.Run","host command trace"])
p("C04","Variables, constants and locals keep their contract",
 "A constant never changes or disappears once defined; a variable has the value last set until unset; locals (arguments of macros and closures, loop and handler variables) hide outer names only inside their body (directly: a body run inside it, such as a nested loop's or handler's, has its own locals and does not see these), cannot be set, unset or made constant, and vanish afterwards; names never leak between scopes. let, set and unset with tuples of names apply entirely or not at all, and exists/get agree with $name in every state.",
 ["histories","programs"],"all sequences of let/set/unset/get/exists with simple, tuple and qualified names, across scopes and local scopes",
 "A map's history is unbounded and the failures are order dependent (a partial tuple assignment, a shadowed name later unset); tests fix one short history each.",
 [H+"core.go",H+"variables.go",H+"controls.go",H+"closures.go",H+"macros.go"],
 [("checkNamedConstant/Variable/Local, DestructureValue",H+"core.go")],
 [("scopeContext.Constants/Variables","name bindings of a scope",H+"core.go"),("Scope.localSlots/localValues","local bindings",H+"core.go")],["$name","get","exists","set/let/unset results"])
p("C05","Commands resolve lexically and scopes stay isolated",
 "A command name resolves to the nearest definition along the chain of enclosing scopes, then to a number, and otherwise is an error; redefinition takes effect for later calls only. Procs run in a fresh scope inside their definition scope, closures in their definition scope, macros in their caller's scope, scope and namespace bodies once in a new child scope that later eval and call (and namespace subcommands and imports) keep using; nothing defined inside becomes visible outside except through those commands.",
 ["programs","histories"],"all programs defining, redefining, importing and calling commands across nested scopes, namespaces, procs, closures and macros",
 "Visibility is a relation between definition site, call site and time; tests check single pairs.",
 [H+"core.go",H+"scopes.go",H+"namespaces.go",H+"procs.go",H+"closures.go",H+"macros.go"],
 [("ResolveCommand/ResolveNamedCommand",H+"core.go"),("NewChildScope/NewLocalScope",H+"core.go"),("namespace import/call",H+"namespaces.go")],
 [("scopeContext.parent/Commands","command tables and their chain",H+"core.go")],["call results","namespace subcommands"])
p("C06","Argument binding follows the argspec, whole and unambiguous",
 "For every argspec and argument list, the call is accepted exactly when the argument count and options fit, and then every argument is bound to exactly one parameter: required ones always, optional ones left to right while arguments remain, the remainder takes the rest in order, options by name in any order, flags by presence, defaults and guards evaluated once for exactly the parameters they concern. Otherwise the call fails with the usage or option error and binds nothing; argspec commands, procs, closures, macros and ensembles agree.",
 ["inputs","configurations"],"all argspecs (required, optional, default, remainder, options, flags, guards in any order) against all argument lists",
 "The binding algorithm's cases multiply with the position of the remainder, the number of optionals and options; tests enumerate a few shapes with a few lengths.",
 [H+"argspecs.go",H+"arguments.go"],[("BuildArguments",H+"arguments.go"),("ApplyArguments/SetArguments/CollectArguments/CheckArity",H+"argspecs.go")],
 [("Argspec.Args/Slots/NbRequired/NbOptional/HasRemainder/OptionSlots","compiled argument shape",H+"argspecs.go")],["argspec value set/usage","proc/closure/macro calls"])
p("C07","Values never change once created",
 "No command, however it is called, changes a value that some variable, constant, collection, argument or earlier result already holds: lists, dictionaries, tuples, scripts, argspecs and qualified words obtained earlier keep the same content whatever happens later. Two holders of the same value can never influence each other through it.",
 ["histories","programs"],"all sequences of operations on shared values, including values captured from argument lists, remainders and frames",
 "Aliasing damage shows up only when a later, unrelated operation overwrites shared storage with spare capacity; tests look at a result immediately after the call that made it.",
 ["core/values.go","core/compiler.go",H+"lists.go",H+"dicts.go",H+"tuples.go",H+"argspecs.go",H+"ensembles.go",H+"core.go",H+"scripts.go"],
 [("copying in list/dict operations",H+"lists.go"),("frame slicing","core/compiler.go"),("remainder tuples",H+"argspecs.go")],
 [("ListValue.Values, DictionaryValue.Map, TupleValue.Values","backing storage","core/values.go")],["re-reading every live value after every operation"])
p("C08","Modules load once, never circularly, and export only what they say",
 "For every import graph, each module body runs at most once per registry however many importers and names it has, circular imports are reported as errors wherever the cycle closes, and a failed load leaves no trace, so that a later import tries again. An importer sees exactly the exported names it asks for (renamed as asked), bound to the module's own scope and variables, and nothing else crosses between modules.",
 ["configurations","histories","fault_sequences"],"all import graphs over a set of module files and named modules, with failures at any point of a load and any order of imports",
 "Graphs, partial failures and repeated imports are combinatorial; the tests have a few fixed files.",
 [H+"modules.go"],[("ModuleRegistry reserve/release/register",H+"modules.go"),("importModule/exportCommand",H+"modules.go")],
 [("ModuleRegistry","modules by path or name, and those being loaded",H+"modules.go")],["import/export/module results","side effects of module bodies"])
p("C09","Collection and string commands agree with their mathematical model",
 "list, dict, tuple and string commands compute what finite sequences, finite maps and sequences of characters prescribe (length, at, range, append, insert, remove, replace, sort, get, add, merge, foreach, comparisons) for every index, range, key and size, including empty, negative and out-of-range ones, and report the documented error otherwise. The functional laws linking them (a replaced range is a removal followed by an insertion, what is added can be got back and no other key changes) always hold.",
 ["inputs","histories"],"all collections, indices, ranges, keys and sequences of operations",
 "Boundary behaviour is quantified over all index pairs and lengths; tests take two or three of each.",
 [H+"lists.go",H+"dicts.go",H+"tuples.go",H+"strings.go","core/values.go"],
 [("list/dict/string subcommands",H+"lists.go")],(),["results of every subcommand"])
p("C10","Tokenizing loses nothing and locates everything",
 "For every input string the tokens, concatenated, are exactly the input; each token's position is its true offset, line and column; its literal is what the syntax rules prescribe for its source text (escapes, line continuations); and token boundaries depend only on the text. Taking the tokens one at a time gives the same tokens as tokenizing at once, and a tokenizer can be reused.",
 ["inputs"],"all input strings, including unterminated escapes, mixed newlines and non-ASCII text",
 "All strings; the tests list examples per token type.",
 ["core/tokenizer.go","core/source.go"],[("Tokenizer.Next and escapes","core/tokenizer.go"),("SourceCursor/position tracking","core/tokenizer.go")],(),["Tokenize output"])
p("C11","Words and sentences evaluate compositionally",
 "Each word of a sentence evaluates, left to right and exactly once, to the value its syntax denotes (literals, strings, here- and tagged strings, tuples, blocks, expressions, substitutions, qualified words, any chain of index and key selectors, compound words) and expansion splices a tuple's elements in place; the sentence then calls the command named by its first word with exactly those arguments, and ^ and |> denote the previous result. Meaning depends only on the parts, so the same word means the same wherever it occurs.",
 ["programs","inputs"],"all words and sentences the grammar can build, in every combination and nesting",
 "Word forms compose recursively; tests cover each form and some pairs.",
 ["core/compiler.go","core/syntax.go","core/selectors.go","core/values.go"],
 [("emitWord/emitStems/emitQualified","core/compiler.go"),("ExecuteUntil","core/compiler.go"),("selectors","core/selectors.go")],
 [("ProgramState.stack/frames","operand stack","core/compiler.go")],["command arguments as received","Executor results"])
p("C12","Compiled programs are pure and interruptible at any instruction",
 "Executing a compiled program in pieces, stopping and continuing at any instructions, has the same effects and result as executing it at once; executing it again, or interleaved with other executions of itself, with separate states, gives each the same outcome as alone. A program state that has been reset behaves as a new one.",
 ["schedules","programs"],"all programs, all sets of stop points, all interleavings of executions sharing a program",
 "Tests run compiled programs straight through, plus one or two hand-made interruptions.",
 ["core/compiler.go",H+"core.go"],[("ExecuteUntil","core/compiler.go"),("ProgramState.Reset and its pool",H+"core.go")],
 [("ProgramState","PC, CC, stack, frames, result, command","core/compiler.go")],["Executor.ExecuteUntil"])
p("C13","Displayed values read back as the same value",
 "The display form of any value made of nil, booleans, integers, reals, strings, tuples, lists, dictionaries, scripts with a source and qualified words (with keys or indices) is source text that parses and evaluates back to an equal value, whatever the characters inside and however deep the nesting.",
 ["inputs"],"all displayable values",
 "All values; tests display a few of each type and do not read them back in combination.",
 ["core/display.go","core/values.go","core/syntax.go"],[("Display/DisplayLiteral/DisplayBlock","core/display.go"),("Displayable values","core/values.go")],(),["core.Display then parse and evaluate"])
p("C14","Interpreters are independent of one another",
 "Interpreters created separately never influence each other: running any scripts on them, one after the other, alternately (each suspended while others run), or on parallel goroutines, gives each the outcome it has alone, with no data race.",
 ["schedules","programs"],"all sets of programs on separate root scopes, all schedules",
 "Shared pools and caches leak only under particular interleavings of several live interpreters; tests run one interpreter at a time on one goroutine.",
 [H+"core.go",H+"controls.go",H+"ensembles.go","core/compiler.go"],[("sync.Pool of program states, continuations and control states",H+"core.go"),("script program cache","core/values.go")],
 [("continuationValuePool, programStatePool, *CmdStatePool","objects recycled across interpreters",H+"core.go")],["outcomes per interpreter","race detector"])
p("C15","Numbers, booleans and logic obey arithmetic",
 "Arithmetic and comparison commands give the exact mathematical result whenever operands and result are representable in double precision, integers and reals mix without surprise, every numeric value converts to text and back unchanged, and text that is not a number is rejected. Logical commands evaluate their operands left to right, once, stopping at the first that decides, and pass any other result code through.",
 ["inputs","programs"],"all numbers, operand lists of any length, and operand scripts with any outcome",
 "Quantified over all operands and all mixtures of literals and scripts with side effects.",
 [H+"math.go",H+"numbers.go",H+"logic.go","core/values.go"],[("operator commands",H+"numbers.go"),("and/or state machines",H+"logic.go"),("number parsing","core/values.go")],(),["results","host command trace"])
p("C16","Diagnostics are accurate and change nothing",
 "Turning on position and error-stack capture changes no script's outcome or effects. When a script fails, the captured error stack has one level per active call, innermost first, each giving the sentence that was executing and where it is in the source; an error that is caught leaves nothing behind.",
 ["programs","configurations"],"all programs, with the capture options on and off, and errors raised at any depth",
 "Tests check a few stacks on fixed scripts; equality with and without the options is never compared.",
 [H+"core.go","core/errors.go","core/compiler.go"],[("error stack capture",H+"core.go Process.Run"),("OpCodePositions","core/compiler.go")],
 [("ErrorStack","captured levels","core/errors.go")],["Result.Data of failed runs"])
p("C17","The Picol dialect executes Tcl-like scripts faithfully",
 "Running any script of the Picol dialect gives the outcome its commands prescribe: procs bind arguments (with defaults and args) in a fresh scope, return/break/continue/error travel to the construct that consumes them, if/while/for and conditions evaluate their scripts in order and once, set and incr act on the variables of their own scope only, and commands are found in the callers' scopes.",
 ["programs","inputs"],"all Picol programs",
 "Tests cover each command alone.",
 ["picol_dialect/picol_dialect.go"],[("command implementations","picol_dialect/picol_dialect.go")],(),["results","host command trace"])
p("C18","No script can crash or wedge the interpreter",
 "Whatever commands a script calls with whatever arguments (wrong number, wrong type, odd values, in any state), evaluation ends with a result code and value; a misuse is an ERROR with a message, leaves the interpreter usable, and changes nothing it should not have changed. The host never sees a panic or an internal value.",
 ["inputs","histories"],"all commands and subcommands with all argument lists over all value types, in all states reachable by earlier commands",
 "Argument lists are unbounded and the failing ones are unusual combinations of type and count; tests try the documented errors.",
 [H+"argspecs.go",H+"arguments.go",H+"controls.go",H+"ensembles.go",H+"lists.go",H+"strings.go",H+"dicts.go","core/compiler.go","core/parser.go","core/values.go"],
 [("argument checks at the head of every Execute",H+"*.go")],(),["panics","result codes","state after a failed call"])
p("C19","Help, usage and introspection tell the truth",
 "For every command, the help text and the usage in its arity error describe the same signature, a call is rejected for arity exactly when it does not fit that signature, help accepts every prefix of a valid call, and the subcommands listed by a command are exactly those it accepts. Asking for help or introspecting never executes or changes anything.",
 ["inputs","configurations"],"all built-in and user-defined commands, including nested ensembles and namespaces, with all argument prefixes",
 "User-defined signatures are unbounded, and agreement between help, error and behaviour is a relation tests check one side at a time.",
 [H+"arguments.go",H+"argspecs.go",H+"ensembles.go",H+"namespaces.go",H+"subcommands.go",H+"basic_commands.go"],
 [("BuildUsage/Help methods",H+"arguments.go")],(),["help results","arity errors","subcommands lists"])
p("C20","Ensembles dispatch exactly like a direct call",
 "Calling an ensemble with arguments and a subcommand is the same as calling that subcommand's command directly with the ensemble arguments, guards applied, followed by the rest: same arguments, same result, same suspension behaviour, for any ensemble argspec, any kind of subcommand and nested ensembles. Without a subcommand it returns its arguments, and an unknown one is an error with no effect.",
 ["inputs","configurations","programs"],"all ensemble argspecs, subcommand implementations and argument lists",
 "Dispatch rewrites argument vectors in place and has a fast path; what matters is the combination of argspec shape, subcommand kind and retained arguments.",
 [H+"ensembles.go"],[("EnsembleCommand.Execute/Resume",H+"ensembles.go")],
 [("ensemble argspec and scope","subcommand table",H+"ensembles.go")],["results of ensemble calls versus direct calls"])
p("C21","Parsing is total, faithful and incremental",
 "Every token sequence either parses to the script its text denotes, or is rejected with the error for its first offence, or is reported as incomplete exactly when some continuation could complete it; no input makes the parser crash. Parsing a stream step by step, with any pauses, gives the same outcome as parsing at once, and positions recorded in the syntax tree are those of the source text.",
 ["inputs","schedules"],"all token sequences and all ways of splitting parsing into steps",
 "All inputs; tests list accepted and rejected examples per construct.",
 ["core/parser.go","core/syntax.go"],[("Parser contexts and Parse/ParseStream/Close","core/parser.go"),("SyntaxChecker","core/syntax.go")],
 [("parser context stack","open constructs","core/parser.go")],["parse results, syntax trees, positions"])
p("C22","Tuple commands, aliases and command values are transparent",
 "Calling a command through a tuple prefix, an alias, a command value, an imported name or any nesting of these is the same as calling it directly with the prefix arguments followed by the call's own: same result code, value, errors, effects, suspension and resumption.",
 ["programs"],"all commands called through all chains of prefixes, aliases, values and imports, including commands that yield",
 "Equivalence over all chains and all commands; tests check one level for a few commands.",
 [H+"core.go",H+"aliases.go",H+"namespaces.go",H+"tuples.go"],[("ExpandPrefixCommand, resolveLeadingTuple",H+"core.go"),("aliasCommand",H+"aliases.go")],(),["results of indirect versus direct calls"])
p("C23","The command line runs scripts and sessions faithfully",
 "The command-line program runs a script file with the same effects as embedding it, shows its value and exits with 0, or shows its error message on standard error and exits with another status. In a session, lines are read until the input is complete (no open construct, no line continuation); a complete input is evaluated exactly once and its outcome (the value and its type, or the error message below the levels of its error stack) is shown before the next prompt; a malformed input is reported without evaluating any of it; definitions and variables persist from one input to the next whatever the outcome of the inputs between; an input without commands shows the last value again; `source` evaluates a file in the session, `exit` ends it.",
 ["inputs","histories"],"all script files and all sequences of input lines",
 "All sequences of inputs, with all ways of splitting them into lines and all outcomes in between; the command line has no tests.",
 ["cli/cli.go","core/display.go","main.go"],[("run/prompt/source","cli/cli.go")],[("last result and text read so far","input buffer","cli/cli.go")],["standard output, standard error, exit status"])
p("C24","Native commands give scripts exactly what the Go functions give",
 "The commands of the bundled native modules return to scripts what the Go functions they are named after return, for all arguments. Regular expressions: compiling (also with POSIX rules) accepts and refuses the same expressions with the same messages; searching gives the leftmost match, preferring the first alternatives or, after Longest or with POSIX rules, the longest text, with the texts and byte positions of all groups (-1 for those that took no part); the variants for all matches give the successive matches that do not overlap, at most n, all for a negative n, nil when there is none; splitting, replacing with and without expansion of $name, quoting, counting and naming groups follow the same matches. Reading a file gives its whole content or the error of the system; each log call logs one record with its level and message and nothing else. Missing, extra or unsuitable arguments and unknown methods are errors that name the problem and have no effect. A compiled expression is displayed as a placeholder that reads back as a block with just a comment.",
 ["inputs","histories"],"all expressions, texts, counts, templates, file contents and messages, and all sequences of calls on shared expressions",
 "The result depends on the product of expression, text, count and method; the tests call each method once or twice on one expression, and the os and slog modules have no tests.",
 ["native/go_regexp/go_regexp.go","native/go_os/go_os.go","native/go_slog/go_slog.go","core/display.go"],[("RegexpCmd.Execute","native/go_regexp/go_regexp.go"),("OsCmd.Execute","native/go_os/go_os.go"),("SlogCmd.Execute","native/go_slog/go_slog.go"),("UndisplayableValueWithLabel","core/display.go")],
 [("RegexpValue","compiled expression, shared by all copies of the value","native/go_regexp/go_regexp.go")],["command results","log records"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import collections
for x in P: assert len(x["title"])<=80,x["title"]
print(len(P))
