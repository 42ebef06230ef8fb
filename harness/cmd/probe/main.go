package main

import (
	"bufio"
	"fmt"
	"helena/core"
	hd "helena/helena_dialect"
	"os"
	"strings"
)

type emitCmd struct{ log *[]string }

func (e emitCmd) Execute(args []core.Value, _ any) core.Result {
	s := []string{}
	for _, a := range args[1:] {
		s = append(s, disp(a))
	}
	*e.log = append(*e.log, strings.Join(s, " "))
	if len(args) == 2 {
		return core.OK(args[1])
	}
	return core.OK(core.NIL)
}
func disp(v core.Value) string {
	if v == nil {
		return "<nil>"
	}
	return core.Display(v, func(d any) string { return fmt.Sprintf("{#{%T}#}", d) })
}
func run(src string) (out string) {
	log := []string{}
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("%v PANIC %v", log, r)
		}
	}()
	scope := hd.NewRootScope(nil)
	hd.InitCommandsForModule(scope, hd.NewModuleRegistry(&hd.ModuleOptions{}), ".")
	scope.RegisterNamedCommand("emit", emitCmd{&log})
	toks := core.Tokenizer{}.Tokenize(src)
	p := core.NewParser(nil)
	r := p.ParseTokens(toks, nil)
	if !r.Success {
		return "PARSE " + r.Message
	}
	prog := scope.Compile(*r.Script)
	pr := scope.PrepareProcess(prog)
	n := 0
	for {
		res := pr.Run()
		if res.Code == core.ResultCode_YIELD && n < 5 {
			n++
			log = append(log, "Y:"+disp(res.Value))
			pr.YieldBack(core.STR(fmt.Sprintf("r%d", n)))
			continue
		}
		return fmt.Sprintf("%v %s %s", log, core.RESULT_CODE_NAME(res), disp(res.Value))
	}
}
func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		t := strings.ReplaceAll(sc.Text(), "\\n", "\n")
		fmt.Println(sc.Text(), "\n   =>", run(t))
	}
}
