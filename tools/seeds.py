"""Planted bugs, written from the properties and the code alone (see seedtool.py)."""
H = "helena_dialect/"
BUGS = []
def bug(id, property, edits, needs, breaks, cases=None, go=None, race=False, cli=False):
    b = dict(cli=cli, id=id, property=property, edits=edits, needs=needs, breaks=breaks, race=race)
    if go: b["go"] = go
    else: b["cases"] = cases
    BUGS.append(b)

bug("C03-finally-last", "C03",
    [(H+"controls.go", "\t\tcase \"finally\":\n\t\t\ti += 2\n\t\t}\n\t}\n\treturn i\n}\nfunc (catchCmd) findFinallyIndex",
      "\t\tcase \"finally\":\n\t\t\treturn len(args)\n\t\t}\n\t}\n\treturn i\n}\nfunc (catchCmd) findFinallyIndex")],
    "a finally handler written before the handler that should run",
    "handlers written after finally never run",
    [["catch {error x} finally {emit f} error e {emit $e; idem handled}"], ["catch {break} finally {emit f} break {emit b; idem handled}"],
     ["catch {error x} error e {emit $e} finally {emit f}"]])
bug("C05-command-cache", "C05",
    [(H+"core.go", "\tcontext := scope.Context\n\tfor context != nil {\n\t\tcommand := context.Commands[name]\n\t\tif command != nil {\n\t\t\treturn command.Command()\n\t\t}",
      "\tcontext := scope.Context\n\tif command := context.inherited[name]; command != nil {\n\t\treturn command\n\t}\n\tfor context != nil {\n\t\tcommand := context.Commands[name]\n\t\tif command != nil {\n\t\t\tif context != scope.Context {\n\t\t\t\tif scope.Context.inherited == nil {\n\t\t\t\t\tscope.Context.inherited = map[string]core.Command{}\n\t\t\t\t}\n\t\t\t\tscope.Context.inherited[name] = command.Command()\n\t\t\t}\n\t\t\treturn command.Command()\n\t\t}"),
     (H+"core.go", "\tCommands  map[string]core.CommandValue\n}", "\tCommands  map[string]core.CommandValue\n\n\t// Commands found in the enclosing contexts\n\tinherited map[string]core.Command\n}"),
     (H+"core.go", "\tscope.Context.Commands[name] = core.NewCommandValue(command)", "\tscope.Context.Commands[name] = core.NewCommandValue(command)\n\tdelete(scope.Context.inherited, name)")],
    "a command called from a child scope, redefined in the enclosing scope, then called again from the same child scope",
    "the call from the child scope still reaches the old definition",
    [["macro cmd {} {idem one}; scope s {cmd}; emit [s eval {cmd}]; macro cmd {} {idem two}; s eval {cmd}"]])
bug("C07-append-alias", "C07",
    [(H+"lists.go", "\tvalues2 := append([]core.Value{}, values...)\n\tfor i := 2; i < len(args); i++ {", "\tvalues2 := values\n\tfor i := 2; i < len(args); i++ {")],
    "two lists appended in turn to the same list, itself the result of an append with spare capacity",
    "the second append overwrites the elements of the first result",
    [["set base [list () append (1 2 3) (4) (5)]; set x [list $base append (a)]; set y [list $base append (b)]; emit $x; emit $y; emit $base"]])
bug("C08-failed-load-reserved", "C08",
    [(H+"modules.go", "\tresult, module := createModule(moduleRegistry, filepath.Dir(modulePath), *parseResult.Script)\n\tmoduleRegistry.Release(modulePath)\n\treturn result, module",
      "\tresult, module := createModule(moduleRegistry, filepath.Dir(modulePath), *parseResult.Script)\n\tif result.Code != core.ResultCode_OK {\n\t\treturn result, nil\n\t}\n\tmoduleRegistry.Release(modulePath)\n\treturn result, module")],
    "a module whose body fails, imported a second time",
    "the second import reports a circular import instead of trying again",
    go=r'''package main

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"os"
	"path/filepath"
)

func main() {
	d, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "m.lna"), []byte("error boom"), 0o644)
	scope := hd.NewRootScope(nil)
	hd.InitCommandsForModule(scope, hd.NewModuleRegistry(nil), d)
	out := ""
	for _, src := range []string{"import m.lna", "import m.lna"} {
		r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
		res := scope.PrepareProcess(scope.Compile(*r.Script)).Run()
		out += core.Display(res.Value, nil) + ";"
	}
	os.WriteFile(filepath.Join(d, "m.lna"), []byte("idem fine"), 0o644)
	r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize("import m.lna"), nil)
	res := scope.PrepareProcess(scope.Compile(*r.Script)).Run()
	out += fmt.Sprint(res.Code)
	fmt.Println(out)
	if out != "boom;boom;0" {
		os.RemoveAll(d)
		os.Exit(1)
	}
}
''')
bug("C12-reset-command", "C12",
    [("core/compiler.go", "\tstate.CC = 0\n\tstate.Command = nil\n\tstate.Result = OK(NIL)\n}", "\tstate.CC = 0\n\tstate.Result = OK(NIL)\n}")],
    "a program state whose last execution ended with a |> sentence, reset and used for a program starting with |>",
    "the recycled state does not behave as a new one: |> ignores its argument order",
    go=r'''package main

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"os"
)

func main() {
	scope := hd.NewRootScope(nil)
	hd.InitCommandsForModule(scope, hd.NewModuleRegistry(nil), ".")
	compile := func(src string) *core.Program {
		r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
		return scope.Compile(*r.Script)
	}
	state := core.NewProgramState()
	scope.Execute(compile("idem a; |>"), state)
	state.Reset()
	p := compile("|> list")
	a := scope.Execute(p, core.NewProgramState())
	b := scope.Execute(p, state)
	x, y := fmt.Sprint(a.Code, core.Display(a.Value, nil)), fmt.Sprint(b.Code, core.Display(b.Value, nil))
	fmt.Println(x, "/", y)
	if x != y {
		os.Exit(1)
	}
}
''')
bug("C16-tail-level", "C16",
    [(H+"core.go", "\t\t\tif result.Code != core.ResultCode_YIELD && context.callback == nil {", "\t\t\tif (result.Code != core.ResultCode_YIELD || context.state.PC+1 >= uint(len(context.program.OpCodes))) && context.callback == nil && process.stack.Depth() > 2 {")],
    "an error raised in a body evaluated by the last sentence of another body, itself called from a third one",
    "levels of the captured error stack are missing",
    go=r'''package main

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"os"
)

func main() {
	o := &hd.ScopeOptions{CapturePositions: true, CaptureErrorStack: true}
	scope := hd.NewRootScope(o)
	hd.InitCommandsForModule(scope, hd.NewModuleRegistry(nil), ".")
	out := ""
	for _, src := range []string{
		"macro a {} {idem 1; b}; macro b {} {idem 2; c}; macro c {} {idem 3; error x}; idem 0; a",
		"eval {idem 1; if true {idem 2; if true {idem 3; if true {error y}}}}",
	} {
		r := core.NewParser(&core.ParserOptions{CapturePositions: true}).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
		res := scope.PrepareProcess(scope.Compile(*r.Script)).Run()
		out += fmt.Sprint(res.Code, core.Display(res.Value, nil))
		if es, ok := res.Data.(*core.ErrorStack); ok {
			out += fmt.Sprint(" ", es.Depth())
		}
		out += ";"
	}
	fmt.Println(out)
	if out != "3x 4;3y 5;" {
		os.Exit(1)
	}
}
''')
bug("C18-when-body", "C18",
    [(H+"controls.go", "\twhenCmdStatePool.Put(state)\n\tif body.Type() != core.ValueType_SCRIPT {\n\t\treturn core.ERROR(\"body must be a script\")\n\t}\n\tprogram := scope.CompileScriptValue(body.(core.ScriptValue))",
      "\twhenCmdStatePool.Put(state)\n\tif body.Type() == core.ValueType_STRING {\n\t\treturn core.ERROR(\"body must be a script\")\n\t}\n\tprogram := scope.CompileScriptValue(body.(core.ScriptValue))")],
    "when with a body that is neither a script nor a string",
    "the interpreter panics",
    [["when (true [list (a)])"], ["when (false {} (1 2))"], ["when (true [idem 3])"], ["when (true abc)"], ["when (true {idem a})"]])
bug("C22-prefix-twice", "C22",
    [(H+"core.go", "\tif result2.Code == core.ResultCode_YIELD {\n\t\treturn core.YIELD_STATE(result2.Value, expandPrefixState{command, result2})\n\t}\n\treturn result2\n}\n\nvar expandPrefixCmd",
      "\tif result2.Code == core.ResultCode_YIELD {\n\t\treturn core.YIELD_STATE(result2.Value, expandPrefixState{command, commandResult})\n\t}\n\treturn result2\n}\n\nvar expandPrefixCmd")],
    "a command called through a prefix that yields twice, from different inner commands",
    "the second resumption goes to the state of the first",
    [["set f [[macro {} {emit [yield 1]; emit [yield 2]; idem done}]]; ((catch) {yield a; yield b} yield v {emit $v; pass} finally {yield c})"],
     ["((catch) {yield a} finally {yield b; yield c})"], ["alias k catch; k {error e} error m {emit [yield $m]; yield n} finally {emit [yield f]}"]])
bug("C01-while-continue", "C01",
    [(H+"controls.go", "\t\tcase core.ResultCode_CONTINUE:\n\t\tcase core.ResultCode_OK:\n\t\t\tstate.lastResult = result\n\t\tdefault:\n\t\t\twhileCmdStatePool.Put(state)\n\t\t\treturn result\n\t\t}\n\t\treturn whileCmdLoop(state)",
      "\t\tcase core.ResultCode_CONTINUE, core.ResultCode_OK:\n\t\t\tstate.lastResult = result\n\t\tdefault:\n\t\t\twhileCmdStatePool.Put(state)\n\t\t\treturn result\n\t\t}\n\t\treturn whileCmdLoop(state)")],
    "a while loop with a constant test, whose last iteration before break ended with continue",
    "the loop ends with the code CONTINUE, and its value is lost",
    [["set i 0; while true {set i [+ $i 1]; if [$i > 2] {break}; if [$i > 1] {continue}; idem v$i}"], ["while true {break}"]])
bug("C20-subcommand-state", "C20",
    [(H+"ensembles.go", "\t\treturn core.YIELD_STATE(result2.Value, ensembleSubcommandState{subcommand, result2})", "\t\treturn core.YIELD_STATE(result2.Value, state)")],
    "an ensemble whose subcommand yields a second time from a different state",
    "the subcommand is resumed with the state of its first suspension",
    [["ensemble e {x} {alias sub ((catch))}; e {yield a} sub finally {yield b; yield c}"],
     ["ensemble e2 {x} {ensemble f {y} {alias s catch}}; e2 1 f 2 s"], ["ensemble e3 {x} {alias sub eval}; e3 {emit [yield 1]; emit [yield 2]; idem 3} sub"]])
bug("C07-qualified-alias", "C07",
    [("core/values.go", "\t\t\tselectors := make([]Selector, len(value.Selectors))\n\t\t\tcopy(selectors, value.Selectors)\n\t\t\tresult, selector := CreateKeyedSelector(keys)", "\t\t\tselectors := value.Selectors\n\t\t\tresult, selector := CreateKeyedSelector(keys)")],
    "a qualified word held by a variable and selected further by key",
    "the word held by the variable gains the key too",
    [["set q [idem a(x)]; set r $q(y); idem ($q $r)"], ["set q [idem a(x)]; exists $q(y); idem $q"]])
bug("C21-comment-nesting", "C21",
    [("core/parser.go", "\t\tif node.delimiterLength == uint(len(delimiter)) {\n\t\t\tnode.nesting++", "\t\tif node.delimiterLength <= uint(len(delimiter)) {\n\t\t\tnode.nesting++")],
    "a block comment containing the opening of a block comment with a longer delimiter",
    "the comment is not closed where it should",
    [["#{a ##{ b }#; idem ok"], ["#{a ##{ b }## c }#; idem ok"], ["##{a #{ b }##; idem ok"]])
bug("C14-free-list", "C14",
    [(H+"core.go", "var programStatePool = sync.Pool{\n\tNew: func() any {\n\t\treturn core.NewProgramState()\n\t},\n}\n", "type programStateList struct {\n\tstates []*core.ProgramState\n}\n\nfunc (list *programStateList) Get() *core.ProgramState {\n\tif n := len(list.states); n > 0 {\n\t\tstate := list.states[n-1]\n\t\tlist.states = list.states[:n-1]\n\t\treturn state\n\t}\n\treturn core.NewProgramState()\n}\nfunc (list *programStateList) Put(state *core.ProgramState) {\n\tlist.states = append(list.states, state)\n}\n\nvar programStatePool programStateList\n"),
     (H+"core.go", "\t\tscope,\n\t\tprogram,\n\t\tprogramStatePool.Get().(*core.ProgramState),", "\t\tscope,\n\t\tprogram,\n\t\tprogramStatePool.Get(),"),
     (H+"core.go", "\t\tcontinuation.Program,\n\t\tprogramStatePool.Get().(*core.ProgramState),", "\t\tcontinuation.Program,\n\t\tprogramStatePool.Get(),")],
    "two interpreters running on parallel goroutines",
    "they share execution states",
    race=True, go=r"""package main

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"os"
	"sync"
)

func main() {
	var wg sync.WaitGroup
	bad := false
	var mu sync.Mutex
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}()
			for i := 0; i < 50; i++ {
				scope := hd.NewRootScope(nil)
				hd.InitCommandsForModule(scope, hd.NewModuleRegistry(nil), ".")
				src := "set s 0; macro add {x} {set s [+ $s $x]}; loop i {if [$i == 20] {break}; idem $i} v {eval {idem 2}} {if true {add $i}}; idem $s"
				src = "set s 0; macro add {x} {set s [+ $s $x]}; loop i v {if [$i >= 20] {break}; idem $i} {if true {add $v}}; idem $s"
				r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
				res := scope.PrepareProcess(scope.Compile(*r.Script)).Run()
				if core.Display(res.Value, nil) != "190" {
					mu.Lock()
					fmt.Println(core.Display(res.Value, nil))
					bad = true
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad {
		os.Exit(1)
	}
}
""")

bug("C02-macro-scope-reuse", "C02",
    [(H+"macros.go", "\tguard       core.Value\n}\n\nfunc newMacroCommand", "\tguard       core.Value\n\n\t// Subscope of the last call\n\tcaller   *Scope\n\tsubscope *Scope\n}\n\nfunc newMacroCommand"),
     (H+"macros.go", "\tsubscope := scope.NewLocalScope(macro.argspec.Argspec.Slots, values)\n", "\tif macro.caller != scope {\n\t\tmacro.caller = scope\n\t\tmacro.subscope = scope.NewLocalScope(macro.argspec.Argspec.Slots, values)\n\t}\n\tsubscope := macro.subscope\n\tsubscope.localValues = values\n")],
    "two processes of the same scope calling the same macro, which yields",
    "the locals of the suspended call change",
    go=r"""package main

import (
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"os"
)

func main() {
	scope := hd.NewRootScope(nil)
	hd.InitCommandsForModule(scope, hd.NewModuleRegistry(nil), ".")
	prepare := func(src string) *hd.Process {
		r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
		return scope.PrepareProcess(scope.Compile(*r.Script))
	}
	prepare("macro m {a} {yield; idem $a}").Run()
	p1, p2 := prepare("m 1"), prepare("m 2")
	p1.Run()
	p2.Run()
	a, b := core.Display(p1.Run().Value, nil), core.Display(p2.Run().Value, nil)
	fmt.Println(a, b)
	if a != "1" || b != "2" {
		os.Exit(1)
	}
}
""")
bug("C06-option-group", "C06",
    [(H+"argspecs.go", "\t\t\tif optionSlot < firstSlot || optionSlot >= lastSlot {", "\t\t\tif optionSlot >= lastSlot {")],
    "an option of an earlier group given again among the options of a later group",
    "the option is accepted where it does not belong",
    [["proc p (?-a? ?a? x ?-b ?b?) {idem [get a -]$x}", "argspec (-a ?a? x -b ?b? y) set (1 -a 2 3); idem [get a -]$x$y", "argspec (-a ?a? x -b ?b? y) set (-b 2 3)"],
     ["argspec (-a ?a? x -b ?b? -c ?c? y) set (1 -b 4 -a 2 3); idem [get a -]$x$y"]])
bug("C23-blank-lines", "C23",
    [("cli/cli.go", '\t\t\t\trl.SetPrompt("... ")\n\t\t\t\tcmd += "\\n"\n', '\t\t\t\trl.SetPrompt("... ")\n\t\t\t\tif len(line) > 0 {\n\t\t\t\t\tcmd += "\\n"\n\t\t\t\t}\n')],
    "an input over several lines, one of which is blank inside a string or ends a comment",
    "blank lines disappear from the input",
    [({}, 'idem "a\n\nb"\n'), ({}, 'set a {b\n\n c}\nidem ok\n')], cli=True)
bug("C23-source-process", "C23",
    [("cli/cli.go", "\treturn helena_dialect.CreateContinuationValue(scope, program)\n", "\treturn scope.PrepareProcess(program).Run()\n")],
    "a sourced file that yields, sourced in a coroutine",
    "resuming continues after the source command instead of inside the file",
    [({"f": "yield 1; set x 2; idem [+ $x 1]"}, "set c [coroutine {idem got[source f]}]\n[$c] wait\n[$c] wait\n"), ({"f": "idem a; nocmd"}, "source f\n")], cli=True)
bug("C23-last-result", "C23",
    [("cli/cli.go", "\tresult := process.Run()\n\tlastResult = result\n\tif result.Code == core.ResultCode_ERROR {\n", "\tresult := process.Run()\n\tif result.Code == core.ResultCode_ERROR {\n"),
     ("cli/cli.go", "\t\tprintErrorStack(result.Data.(*core.ErrorStack))\n\t}\n\treturn processResult(result)", "\t\tprintErrorStack(result.Data.(*core.ErrorStack))\n\t}\n\tif result.Value != core.NIL {\n\t\tlastResult = result\n\t}\n\treturn processResult(result)")],
    "an input without commands after one whose value is nil",
    "an older value is shown",
    [({}, "idem a\nidem []\n\nidem ok\n")], cli=True)
R = "native/go_regexp/go_regexp.go"
IMP = "import go:regexp (regexp)\n"
bug("C24-compile-cache", "C24",
    [(R, "type RegexpCmd struct{}\n", "type RegexpCmd struct{}\n\nvar compiled = map[string]*regexp.Regexp{}\n"),
     (R, "\t\tre, err := regexp.Compile(expr)\n\t\tif err != nil {\n\t\t\treturn core.ERROR(err.Error())\n\t\t}\n",
         "\t\tif re, ok := compiled[expr]; ok {\n\t\t\treturn core.OK(NewRegexpValue(re))\n\t\t}\n\t\tre, err := regexp.Compile(expr)\n\t\tif err != nil {\n\t\t\treturn core.ERROR(err.Error())\n\t\t}\n\t\tcompiled[expr] = re\n")],
    "an expression compiled twice, one of the values then made to prefer longest matches",
    "the other value prefers longest matches too",
    [({}, IMP + "set a [regexp Compile a|ab]; set b [regexp Compile a|ab]\nregexp Longest $a\nregexp FindString $b ab\n")], cli=True)
bug("C24-empty-match", "C24",
    [(R, "\t\tmatch := re.regexp.MatchString(s)\n\t\treturn core.OK(core.BOOL(match))\n", "\t\tmatch := re.regexp.FindString(s)\n\t\treturn core.OK(core.BOOL(match != \"\" || re.regexp.FindStringIndex(s) != nil && len(s) == 0))\n")],
    "an expression that only matches the empty text somewhere",
    "it is said not to match",
    [({}, IMP + "regexp MatchString [regexp Compile {b*$}] a\n")], cli=True)
bug("C24-no-group", "C24",
    [(R, "\t\tvalues := make([]core.Value, len(match))\n\t\tfor i, m := range match {\n\t\t\tvalues[i] = core.INT(int64(m))\n\t\t}\n",
         "\t\tvalues := make([]core.Value, 0, len(match))\n\t\tfor i := 0; i < len(match); i += 2 {\n\t\t\tif match[i] >= 0 {\n\t\t\t\tvalues = append(values, core.INT(int64(match[i])), core.INT(int64(match[i+1])))\n\t\t\t}\n\t\t}\n")],
    "positions of an expression with a group that took no part in the match",
    "the positions of later groups move to the place of the missing one",
    [({}, IMP + "regexp FindStringSubmatchIndex [regexp Compile {(a)|(b)}] b\n")], cli=True)
bug("C24-file-lines", "C24",
    [("native/go_os/go_os.go", "\t\treturn core.OK(core.STR(string(data)))\n", "\t\ttext := string(data)\n\t\tif n := len(text); n > 1 && text[n-1] == '\\n' && text[n-2] == '\\n' {\n\t\t\ttext = text[:n-1]\n\t\t}\n\t\treturn core.OK(core.STR(text))\n")],
    "a file that ends with a blank line",
    "the last line end is lost",
    [({"f": "a\n\n"}, "import go:os (os)\nidem [os ReadFile f]x\n")], cli=True)
