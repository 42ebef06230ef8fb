package gen

import (
	. "hv/lang"
	"hv/rec"
)

// a profile with statement weights only
func simple(w string, mains, stmts, budget, depth int) func(g *G, p *rec.Program) {
	return func(g *G, p *rec.Program) {
		g.W = weights(w)
		g.budget = budget
		g.MaxD = depth
		g.mains(p, 1+g.n(mains), stmts)
	}
}

func init() {
	profiles["C01"] = simple("jump=250 loopjump=350 emit=8 compute=4 set=6 if=10 when=10 while=8 loop=12 foreach=8 catch=5 proc=4 closure=4 macro=4 call=6 jumpif=6 eval=5 nested=10 guarded=4 truth=4 recurse=60 guard=30 looppat=20", 2, 4, 14, 4)
	profiles["C02"] = simple("jump=150 loopjump=200 emit=4 set=4 if=6 while=4 loop=8 foreach=4 catch=8 proc=5 closure=4 macro=5 call=8 yield=18 coroutine=14 corerr=4 eval=5 scope=3 namespace=2 ensemble=3 when=5 nested=4 truth=2 alias=2 tuplecmd=2 pass=200 guard=40 recurse=80 looppat=8 inter=30 resume=14", 3, 4, 12, 4)
	profiles["C02i"] = interProgram
	profiles["C03"] = simple("jump=300 loopjump=200 pass=250 emit=5 set=3 if=4 loop=4 while=2 catch=20 proc=4 closure=3 macro=3 call=5 yield=6 nested=8 guarded=4 coroutine=4 jumpif=6 looppat=8 resume=10", 2, 3, 12, 4)
	profiles["C04"] = simple("jump=60 loopjump=100 emit=5 set=14 let=10 destruct=14 get=14 unset=8 exists=8 if=4 loop=6 foreach=4 proc=6 closure=6 macro=6 call=8 scope=5 namespace=5 catch=3 eval=3 argspec=3", 3, 5, 16, 3)
	profiles["C05"] = simple("jump=80 emit=5 set=6 get=4 proc=8 closure=8 macro=8 call=12 scope=10 namespace=12 ensemble=6 alias=6 module=4 unknown=6 eval=4 if=3 meta=3 recurse=100 tuplecmd=3 redef=15", 3, 4, 14, 3)
	profiles["C06"] = simple("jump=40 emit=4 set=4 proc=10 closure=10 macro=10 call=14 argspec=14 options=24 ensemble=4 meta=2 guard=250", 2, 4, 12, 3)
	profiles["C07"] = simple("jump=40 emit=4 set=6 immut=24 fork=16 coll=4 foreach=4 proc=4 closure=3 call=4 sort=4 script=4 word=3 loop=3 get=3 destruct=3 scope=2 qualsel=8", 2, 3, 14, 3)
	profiles["C08"] = modulesProgram
	profiles["C08g"] = func(g *G, p *rec.Program) { graphProgram(g, p, g.idx) }
	profiles["C09"] = simple("jump=30 emit=4 set=8 coll=14 collraw=30 sort=6 foreach=8 convert=8 compute=4 script=3 arity=3", 2, 5, 14, 3)
	profiles["C11"] = simple("jump=60 emit=6 set=6 let=3 word=24 badword=2 intrinsic=14 compute=8 get=4 destruct=4 eval=5 script=5 proc=3 call=4 tuplecmd=4 loop=3 qualsel=6", 2, 4, 12, 4)
	profiles["C12"] = simple("jump=120 loopjump=150 emit=8 set=8 let=2 if=4 while=2 loop=6 foreach=3 catch=4 proc=4 closure=4 macro=5 call=8 yield=14 eval=5 coroutine=4 word=14 intrinsic=20 compute=8 coll=4 tuplecmd=5 alias=3 ensemble=3 nested=3 resume=8 when=3", 2, 4, 12, 3)
	profiles["C14"] = simple("jump=100 loopjump=100 emit=8 set=8 let=4 if=3 when=6 loop=4 while=3 foreach=3 catch=8 proc=6 closure=5 macro=6 call=10 yield=10 eval=6 coroutine=6 scope=5 namespace=5 ensemble=8 alias=6 tuplecmd=6 module=8 argspec=4 options=5 sort=4 number=3 redef=10 resume=4 inter=6", 2, 4, 12, 3)
	profiles["C15"] = simple("jump=20 emit=4 set=6 number=30 truth=12 logic=8 convert=6 if=4 while=3 meta=2 arity=2", 2, 6, 14, 4)
	profiles["C18"] = simple("jump=30 emit=3 set=8 misuse=90 proc=3 closure=3 ensemble=2 namespace=2 yield=2 call=3 redef=2", 2, 6, 14, 3)
	// to be damaged: nothing that runs natively without bounds
	profiles["wild"] = simple("jump=120 loopjump=200 pass=100 emit=3 compute=6 number=6 coll=6 collraw=6 set=6 let=3 destruct=4 get=4 unset=3 exists=2 if=5 when=5 while=4 loop=6 foreach=5 catch=7 proc=6 closure=6 macro=6 call=9 scope=4 namespace=4 ensemble=4 eval=4 script=3 intrinsic=4 word=6 argspec=3 options=4 meta=2 immut=2 fork=2 sort=2 convert=3 arity=4 help=3 misuse=8 truth=2 nested=3 redef=2 qualsel=2", 1, 4, 12, 4)
	profiles["C19"] = simple("jump=30 emit=2 set=4 help=60 meta=20 arity=18 proc=8 closure=8 macro=6 ensemble=14 namespace=8 scope=5 alias=5 coroutine=3 options=6 call=6 argspec=4 redef=3 guard=200", 1, 5, 10, 2)
	profiles["C20"] = simple("jump=80 emit=4 set=5 ensemble=24 meta=8 proc=4 closure=3 macro=4 call=10 alias=5 coll=5 namespace=4 guard=200 redef=4 resume=8", 2, 4, 12, 3)
	profiles["C22"] = simple("jump=80 emit=4 set=5 alias=20 tuplecmd=20 proc=5 closure=5 macro=4 call=10 ensemble=4 namespace=4 scope=3 loop=3 when=3 catch=4 yield=3 intrinsic=2 eval=4 redef=4 resume=12", 2, 4, 12, 3)
	profiles["all"] = simple("jump=120 loopjump=250 pass=120 guard=100 recurse=80 emit=4 compute=4 number=3 coll=3 collraw=3 set=5 let=3 destruct=3 get=3 unset=2 exists=2 if=4 when=4 while=3 loop=5 foreach=4 catch=6 proc=5 closure=5 macro=5 call=8 jumpif=3 yield=5 scope=3 namespace=3 ensemble=3 coroutine=4 corerr=2 alias=3 tuplecmd=3 module=2 eval=3 script=2 intrinsic=3 word=4 badword=1 argspec=2 options=3 meta=2 immut=2 fork=2 sort=1 convert=2 unknown=1 arity=3 help=2 truth=2 guarded=3 nested=3 looppat=3 redef=3 qualsel=1 inter=5 resume=4", 3, 4, 16, 4)
	// diagnostics: error stacks captured, no yields out of the main programs
	cap := simple("jump=120 loopjump=100 guard=100 recurse=50 emit=3 compute=5 set=5 let=3 destruct=3 get=3 if=5 when=4 while=3 loop=4 foreach=3 catch=4 proc=8 closure=8 macro=6 call=12 scope=3 namespace=4 ensemble=4 alias=3 tuplecmd=3 module=2 eval=5 script=2 word=4 argspec=2 options=2 arity=2 unknown=6 coroutine=4 corerr=12 badword=1", 2, 4, 14, 4)
	profiles["C16"] = func(g *G, p *rec.Program) {
		g.Err = 70
		p.Cap = true
		cap(g, p)
		for _, s := range p.Mains {
			if g.p(500) {
				s.Ss = append(s.Ss, S(Lit("error"), g.val(kStr)))
			}
		}
	}
}
