package main
import ("fmt";"helena/core";"helena/picol_dialect";"bufio";"os")
func main(){
 sc:=bufio.NewScanner(os.Stdin)
 for sc.Scan(){
  func(){ defer func(){ if e:=recover();e!=nil {fmt.Println(sc.Text(),"PANIC",e)}}()
  s:=picol_dialect.NewPicolScope(nil); picol_dialect.InitPicolCommands(s)
  r:=core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(sc.Text()),nil)
  if !r.Success {fmt.Println("parse",r.Message);return}
  res:=s.Evaluator.EvaluateScript(*r.Script)
  fmt.Println(sc.Text(),"=>",res.Code,core.Display(res.Value,nil))
  }()
 }
}
