package rec

import (
	"helena/core"
	pd "helena/picol_dialect"
)

// picol runs the program in a Picol interpreter.
func (x *execution) picol() {
	scope := pd.NewPicolScope(nil)
	pd.InitPicolCommands(scope)
	scope.Commands["emit"] = emitCmd{x.r}
	scope.Commands["tick"] = tickCmd{x.r}
	for _, src := range x.mains {
		pres := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
		if !pres.Success {
			x.r.add(M{"k": "parse", "msg": pres.Message})
			continue
		}
		res := scope.Evaluator.EvaluateScript(*pres.Script)
		x.r.add(M{"k": "end", "c": CodeName(res), "v": Value(res.Value)})
	}
}
