From 36384aee4ed442cd59c68f42dfed59d71776059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 01/45] fix: catch without handlers runs its body in a process

---
 src/helena_dialect/controls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 537d40c..1759852 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -606,7 +606,7 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.ERROR("body must be a script")
 		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
-		result := scope.Execute(program, nil)
+		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
 		switch result.Code {
 		case core.ResultCode_OK,
-- 
2.43.0


From 136d4287a6317f15bf89f239d7c3a99ad321ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:42 +0000
Subject: [PATCH 02/45] fix: run default argument scripts in a process

---
 src/helena_dialect/argspecs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 5cd7a8b..6d66b2c 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -170,7 +170,7 @@ func (argspec ArgspecValue) setSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
@@ -376,7 +376,7 @@ func (argspec ArgspecValue) setPositionalSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
-- 
2.43.0


From 09343ac1ad679122dbd7357afe1c60a839adc0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 03/45] fix: resuming a catch after an unhandled yield no
 longer panics

---
 src/helena_dialect/controls.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 1759852..08b9275 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -622,7 +622,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
-	state := result.Data.(*catchState)
+	state, ok := result.Data.(*catchState)
+	if !ok {
+		// Unhandled yield, body and finally handler are already complete
+		return core.OK(result.Value)
+	}
 	if state.step == catchStateStep_inBody {
 		state.bodyProcess.YieldBack(result.Value)
 	} else {
-- 
2.43.0


From 4d1b1803f8e78f0d3efaced460395b56db30be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 04/45] fix: catch rejects bodies that are not scripts instead
 of panicking

---
 src/helena_dialect/controls.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 08b9275..45e9486 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -644,8 +644,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_beforeBody:
 			{
 				body := state.args[1]
-				// TODO check type
-				program := scope.CompileScriptValue(body.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(body.(core.ScriptValue))
 				state.bodyProcess = scope.PrepareProcess(program)
 				state.step = catchStateStep_inBody
 			}
@@ -679,14 +678,14 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 						)
 						program := subscope.CompileScriptValue(
 							handler.(core.ScriptValue),
-						) // TODO check type
+						)
 						state.process = subscope.PrepareProcess(program)
 					}
 				case core.ResultCode_BREAK,
 					core.ResultCode_CONTINUE:
 					{
 						handler := state.args[i+1]
-						program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+						program := scope.CompileScriptValue(handler.(core.ScriptValue))
 						state.process = scope.PrepareProcess(program)
 					}
 				default:
@@ -721,7 +720,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					return state.result
 				}
 				handler := state.args[i+1]
-				program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(handler.(core.ScriptValue))
 				state.process = scope.PrepareProcess(program)
 				state.step = catchStateStep_inFinally
 			}
@@ -797,6 +796,12 @@ func (catchCmd) findFinallyIndex(args []core.Value) int {
 	return i
 }
 func (catchCmd) checkArgs(args []core.Value) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(CATCH_SIGNATURE)
+	}
+	if args[1].Type() != core.ValueType_SCRIPT {
+		return core.ERROR("body must be a script")
+	}
 	i := 2
 	for i < len(args) {
 		result, keyword := core.ValueToString(args[i])
@@ -817,6 +822,9 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 					if result, _ := core.ValueToString(args[i+1]); result.Code != core.ResultCode_OK {
 						return core.ERROR(`invalid ` + keyword + ` handler parameter name`)
 					}
+					if args[i+2].Type() != core.ValueType_SCRIPT {
+						return core.ERROR(keyword + ` handler body must be a script`)
+					}
 					i += 3
 				}
 			}
@@ -827,6 +835,9 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 			case 1:
 				return core.ERROR(`wrong #args: missing ` + keyword + ` handler body`)
 			default:
+				if args[i+1].Type() != core.ValueType_SCRIPT {
+					return core.ERROR(keyword + ` handler body must be a script`)
+				}
 				i += 2
 			}
 		default:
-- 
2.43.0


From da9dda4a194e67c29477779d04309a2e732a4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:44 +0000
Subject: [PATCH 05/45] fix: a failed coroutine is done

---
 src/helena_dialect/coroutines.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 8f6aa2e..937ed66 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -103,8 +103,10 @@ func (cmd *coroutineCommand) run() core.Result {
 	case core.ResultCode_YIELD:
 		return core.OK(result.Value)
 	case core.ResultCode_ERROR:
+		cmd.state = coroutineState_done
 		return result
 	default:
+		cmd.state = coroutineState_done
 		return core.ERROR("unexpected " + core.RESULT_CODE_NAME(result))
 	}
 }
-- 
2.43.0


From e68f65688b7703cbaf0dac7bdb80cddd3c3d2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 06/45] fix: a coroutine cannot be resumed from its own body

---
 src/helena_dialect/coroutines.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 937ed66..4bc495d 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -15,6 +15,7 @@ type coroutineCommand struct {
 	scope   *Scope
 	body    core.ScriptValue
 	state   coroutineState
+	running bool
 	process *Process
 }
 
@@ -54,6 +55,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 {
 			return ARITY_ERROR("<coroutine> wait")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is running")
+		}
 		if cmd.state == coroutineState_inactive {
 			cmd.state = coroutineState_active
 			program := cmd.scope.CompileScriptValue(cmd.body)
@@ -83,6 +87,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if cmd.state == coroutineState_done {
 			return core.ERROR("coroutine is done")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is running")
+		}
 		if len(args) == 3 {
 			cmd.process.YieldBack(args[2])
 		}
@@ -94,7 +101,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 }
 
 func (cmd *coroutineCommand) run() core.Result {
+	cmd.running = true
 	result := cmd.process.Run()
+	cmd.running = false
 	switch result.Code {
 	case core.ResultCode_OK,
 		core.ResultCode_RETURN:
-- 
2.43.0


From d676ec188c66ec6aaf4e0fcdcd47279514f8d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 07/45] fix: resuming a yield turns its result code back into
 OK

---
 src/core/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index a9a5a89..fac9fcf 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -781,6 +781,9 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			if result.Code != ResultCode_OK {
 				return result
 			}
+		} else {
+			// Non-resumable commands result in the value passed back
+			state.SetResult(OK(state.Result.Value))
 		}
 	}
 	for state.PC < stop {
-- 
2.43.0


From 6c5704243c66728d78656a9340ec7563081901d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 08/45] fix: read command states before returning them to their
 pool

---
 src/helena_dialect/controls.go | 25 ++++++++++++++++---------
 src/helena_dialect/logic.go    |  6 ++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 45e9486..6b90dc2 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -145,8 +145,9 @@ func loopCmdNextIteration(state *loopCmdState) core.Result {
 }
 func loopCmdNextSource(state *loopCmdState) core.Result {
 	if state.activeSources == 0 && len(state.sources) > 0 {
+		lastResult := state.lastResult
 		loopCmdStatePool.Put(state)
-		return state.lastResult
+		return lastResult
 	}
 	state.iSource++
 	if state.iSource >= len(state.sources) {
@@ -191,8 +192,9 @@ func loopCmdBody(state *loopCmdState) core.Result {
 		state := data.(*loopCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			loopCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -266,8 +268,9 @@ func whileCmdLoop(state *whileCmdState) core.Result {
 		state := data.(*whileCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -291,15 +294,17 @@ func whileCmdTest(state *whileCmdState) core.Result {
 			return result2
 		}
 		if !b {
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		}
 		return CreateContinuationValueWithCallback(state.scope, state.bodyProgram, state, func(result core.Result, data any) core.Result {
 			state := data.(*whileCmdState)
 			switch result.Code {
 			case core.ResultCode_BREAK:
+				lastResult := state.lastResult
 				whileCmdStatePool.Put(state)
-				return state.lastResult
+				return lastResult
 			case core.ResultCode_CONTINUE:
 			case core.ResultCode_OK:
 				state.lastResult = result
@@ -356,11 +361,12 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			ifCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return ifCmdNext(result.Value, state.scope, state.args, state.i)
+			return ifCmdNext(result.Value, scope, args, i)
 		})
 	} else {
 		return ifCmdNext(test, scope, args, i)
@@ -550,18 +556,19 @@ func whenCmdTest(command core.Value, state *whenCmdState) core.Result {
 	})
 }
 func whenCmdBody(state *whenCmdState) core.Result {
-	whenCmdStatePool.Put(state)
+	scope := state.scope
 	var body core.Value
 	if state.i == len(state.cases)-1 {
 		body = state.cases[state.i]
 	} else {
 		body = state.cases[state.i+1]
 	}
+	whenCmdStatePool.Put(state)
 	if body.Type() != core.ValueType_SCRIPT {
 		return core.ERROR("body must be a script")
 	}
-	program := state.scope.CompileScriptValue(body.(core.ScriptValue))
-	return CreateContinuationValue(state.scope, program)
+	program := scope.CompileScriptValue(body.(core.ScriptValue))
+	return CreateContinuationValue(scope, program)
 }
 func (whenCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	if len(args) > 3 {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 260f6a1..4551d56 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -251,11 +251,12 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return andCmdNext(result.Value, state.scope, state.args, state.i)
+			return andCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
@@ -300,11 +301,12 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return orCmdNext(result.Value, state.scope, state.args, state.i)
+			return orCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
-- 
2.43.0


From 92f1de82b1ea4f8c5ec95968675e9dccbd0ccd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 09/45] fix: selector rules must not alias the operand stack

---
 src/core/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index fac9fcf..454b629 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -858,7 +858,7 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			{
 				rules := state.LastFrame
 				value := state.Pop()
-				result, selector := executor.resolveSelector(rules)
+				result, selector := executor.resolveSelector(append([]Value{}, rules...))
 				if result.Code != ResultCode_OK {
 					return result
 				}
-- 
2.43.0


From dae37c0966ffec492804c2b1596bf9952186b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 10/45] fix: remainder tuples of argspecs with options must not
 alias the arguments

---
 src/helena_dialect/argspecs.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 6d66b2c..ffdf76f 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -192,9 +192,10 @@ func (argspec ArgspecValue) setSlotValues(
 					// No remainder
 					value = core.TUPLE([]core.Value{})
 				} else {
-					value = core.TUPLE(
-						args[slots[slot] : slots[slot]+int(remainders)],
-					)
+					value = core.TUPLE(append(
+						[]core.Value{},
+						args[slots[slot]:slots[slot]+int(remainders)]...,
+					))
 				}
 			}
 		}
-- 
2.43.0


From e666f5ae4f1518b9a7e01b21aa0158d070e20e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 11/45] fix: reject all argspecs with several remainder
 arguments

---
 src/helena_dialect/arguments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 44d6ea5..6b6dcac 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -105,7 +105,7 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 		if _, ok := argnames[arg.Name]; ok {
 			return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
 		}
-		hasRemainder = arg.Type == ArgumentType_REMAINDER
+		hasRemainder = hasRemainder || arg.Type == ArgumentType_REMAINDER
 		argnames[arg.Name] = struct{}{}
 		args = append(args, arg)
 	}
-- 
2.43.0


From 19612e5704670d202725d80591f13b7add1c3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 12/45] fix: reject empty and invalid names in two-word
 argument specifiers

---
 src/helena_dialect/arguments.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 6b6dcac..206bd30 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -224,12 +224,16 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 						(nameOrDefault == "" || nameOrDefault == "?") {
 						return core.ERROR("empty argument name"), Argument{}
 					}
-					if result1.Code == core.ResultCode_OK && nameOrGuard[0] == '?' {
+					if result1.Code == core.ResultCode_OK && nameOrGuard != "" && nameOrGuard[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:    nameOrGuard[1:],
 							Type:    ArgumentType_OPTIONAL,
 							Default: specs[1],
 						}
+					} else if result2.Code != core.ResultCode_OK {
+						return core.ERROR("invalid argument name"), Argument{}
+					} else if nameOrDefault == "" || nameOrDefault == "?" {
+						return core.ERROR("empty argument name"), Argument{}
 					} else if nameOrDefault[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:  nameOrDefault[1:],
-- 
2.43.0


From 6b57cfc16f0fa5a34921f3268502d93fa6f7d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 13/45] fix: report options without value at the end of
 arguments

---
 src/helena_dialect/argspecs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index ffdf76f..3471be7 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -319,6 +319,11 @@ func (argspec ArgspecValue) findSlots(
 				slots[optionSlot] = i
 				i++
 			case OptionType_OPTION:
+				if i+1 >= len(args) {
+					return core.ERROR(
+						`missing value for option "` + OptionName(arg.Option.Names) + `"`,
+					), findSlotsResult{}
+				}
 				switch arg.Type {
 				case ArgumentType_REQUIRED:
 					nbRequired -= 2
-- 
2.43.0


From d791c52d47b63ea368fd48ed9d8f37afe24aa798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 14/45] fix: help on ensemble subcommands taking fewer
 arguments than the ensemble

---
 src/helena_dialect/arguments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 206bd30..8c34ea6 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -303,7 +303,7 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 
 func BuildUsage(args []Argument, skip uint) string {
 	result := ""
-	for i, arg := range args[skip:] {
+	for i, arg := range args[min(skip, uint(len(args))):] {
 		if i != 0 {
 			result += " "
 		}
-- 
2.43.0


From 910b4e423031d9ff67c494d2e9bbba2effefdd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 15/45] fix: string operators on operands with no string
 representation

---
 src/helena_dialect/strings.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a21609b..608bd30 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -251,18 +251,14 @@ func STRING_OPERATOR_ARITY_ERROR(operator string) core.Result {
 }
 
 type binaryCmd struct {
-	name      string
-	whenEqual bool
-	fn        func(op1 string, op2 string) bool
+	name string
+	fn   func(op1 string, op2 string) bool
 }
 
 func (cmd binaryCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 3 {
 		return STRING_OPERATOR_ARITY_ERROR(cmd.name)
 	}
-	if args[1] == args[2] {
-		return core.OK(core.BOOL(cmd.whenEqual))
-	}
 	result1, operand1 := core.ValueToString(args[1])
 	if result1.Code != core.ResultCode_OK {
 		return result1
@@ -280,12 +276,12 @@ func (cmd binaryCmd) Help(args []core.Value, options core.CommandHelpOptions, co
 	return core.OK(core.STR(STRING_OPERATOR_SIGNATURE(cmd.name)))
 }
 
-var eqCmd = binaryCmd{"==", true, func(op1 string, op2 string) bool { return op1 == op2 }}
-var neCmd = binaryCmd{"!=", false, func(op1 string, op2 string) bool { return op1 != op2 }}
-var gtCmd = binaryCmd{">", false, func(op1 string, op2 string) bool { return op1 > op2 }}
-var geCmd = binaryCmd{">=", true, func(op1 string, op2 string) bool { return op1 >= op2 }}
-var ltCmd = binaryCmd{"<", false, func(op1 string, op2 string) bool { return op1 < op2 }}
-var leCmd = binaryCmd{"<=", true, func(op1 string, op2 string) bool { return op1 <= op2 }}
+var eqCmd = binaryCmd{"==", func(op1 string, op2 string) bool { return op1 == op2 }}
+var neCmd = binaryCmd{"!=", func(op1 string, op2 string) bool { return op1 != op2 }}
+var gtCmd = binaryCmd{">", func(op1 string, op2 string) bool { return op1 > op2 }}
+var geCmd = binaryCmd{">=", func(op1 string, op2 string) bool { return op1 >= op2 }}
+var ltCmd = binaryCmd{"<", func(op1 string, op2 string) bool { return op1 < op2 }}
+var leCmd = binaryCmd{"<=", func(op1 string, op2 string) bool { return op1 <= op2 }}
 
 func registerStringCommands(scope *Scope) {
 	command := newStringCommand(scope)
-- 
2.43.0


From aa82288470a25f439b988194320a3f76e2cc2d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:20 +0000
Subject: [PATCH 16/45] fix: list and string ranges ending at the largest
 integer

---
 src/helena_dialect/lists.go   | 6 +++---
 src/helena_dialect/strings.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index d5532af..324be46 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last+1, length)]))
+		return core.OK(core.LIST(values[first : min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -164,7 +164,7 @@ func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length)+1), length):]
 	newValues := make([]core.Value, 0, len(head)+len(tail))
 	newValues = append(append(newValues, head...), tail...)
 	return core.OK(core.LIST(newValues))
@@ -234,7 +234,7 @@ func (listReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length)+1), length):]
 	result2, insert := ValueToArray(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 608bd30..9fcfc72 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last+1, length)]))
+		return core.OK(core.STR(str[first : min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -161,7 +161,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length)+1), length):]
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -227,7 +227,7 @@ func (stringReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length)+1), length):]
 	result2, insert := core.ValueToString(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
-- 
2.43.0


From 00bc7f43dfadb4afcbf063930aad7d471d7a6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 17/45] fix: list and string remove silently ignored an extra
 argument

---
 src/helena_dialect/lists.go   | 2 +-
 src/helena_dialect/strings.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 324be46..660b74e 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -146,7 +146,7 @@ const LIST_REMOVE_SIGNATURE = "list value remove first last"
 type listRemoveCmd struct{}
 
 func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(LIST_REMOVE_SIGNATURE)
 	}
 	result, values := ValueToArray(args[1])
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 9fcfc72..bedda1f 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -143,7 +143,7 @@ const STRING_REMOVE_SIGNATURE = "string value remove first last"
 type stringRemoveCmd struct{}
 
 func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	result, str := core.ValueToString(args[1])
@@ -165,7 +165,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 5 {
+	if len(args) > 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	return core.OK(core.STR(STRING_REMOVE_SIGNATURE))
-- 
2.43.0


From a33fe1b8498bd202917e6e94fd2b20acf378e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 18/45] fix: help list foreach accepts the index argument

---
 src/helena_dialect/lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 660b74e..f2b1c7f 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -409,7 +409,7 @@ func (listForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (listForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(LIST_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(LIST_FOREACH_SIGNATURE))
-- 
2.43.0


From 9fce737f844ddd10a50130b329da6510deac134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 19/45] fix: ensembles must not modify the arguments kept by
 their subcommands

---
 src/helena_dialect/ensembles.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/helena_dialect/ensembles.go b/src/helena_dialect/ensembles.go
index c40c2aa..febe9cb 100644
--- a/src/helena_dialect/ensembles.go
+++ b/src/helena_dialect/ensembles.go
@@ -189,29 +189,21 @@ func (ensemble *EnsembleCommand) Execute(args []core.Value, context any) core.Re
 	if command == nil {
 		return UNKNOWN_SUBCOMMAND_ERROR(subcommand)
 	}
-	var result core.Result
+	// Note: subcommands may keep their arguments, so don't share the args array
+	cmdline := make([]core.Value, 1, len(args)-1)
+	cmdline[0] = command
 	if ensemble.argspec.Argspec.IsFast() {
-		// Here we can just modify the args array in place and avoid the
-		// overhead of copying it to a new array. This provides a huge speedup
-		// for most subcommand dispatches.
-		old := args[minArgs]
-		copy(args[2:minArgs+1], args[1:minArgs])
-		args[1] = command
-		result = command.Command().Execute(args[1:], scope)
-		copy(args[1:minArgs], args[2:minArgs+1])
-		args[minArgs] = old
+		cmdline = append(cmdline, args[1:minArgs]...)
 	} else {
-		cmdline := make([]core.Value, 1, len(args)-1)
-		cmdline[0] = command
 		// Note: this will only collect the required args and ignore the remainder so we can just pass the whole array
 		result2, values := ensemble.argspec.CollectArguments(scope, args[1:minArgs], 0)
 		if result2.Code != core.ResultCode_OK {
 			return result2
 		}
 		cmdline = append(cmdline, values...)
-		cmdline = append(cmdline, args[minArgs+1:]...)
-		result = command.Command().Execute(cmdline, scope)
 	}
+	cmdline = append(cmdline, args[minArgs+1:]...)
+	result := command.Command().Execute(cmdline, scope)
 	if result.Code == core.ResultCode_YIELD {
 		state := ensembleSubcommandState{command.Command(), result}
 		return core.YIELD_STATE(result.Value, state)
-- 
2.43.0


From 246dd2eca3a5763e952cd8e6ea1ebc4dd61fb724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 20/45] fix: incomplete tagged strings and block comments no
 longer panic

---
 src/core/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 7a52698..d75740a 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -974,6 +974,9 @@ func (parser *Parser) closeTaggedString(literal string) bool {
 	if literal != node.tag {
 		return false
 	}
+	if parser.stream.End() {
+		return false
+	}
 	next := parser.stream.Current()
 	if next.Type != TokenType_STRING_DELIMITER {
 		return false
@@ -1071,6 +1074,9 @@ func (parser *Parser) openBlockComment(token Token, delimiter string, nested boo
 // Attempt to close the block comment parsing context, report whether the context was closed
 func (parser *Parser) closeBlockComment() bool {
 	node := parser.context.node.(*blockCommentNode)
+	if parser.stream.End() {
+		return false
+	}
 	token := parser.stream.Current()
 	if token.Type != TokenType_COMMENT {
 		return false
-- 
2.43.0


From 493d58cf0dda06826224047be228801d8a9f1cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 21/45] fix: errors raised before the first instruction have no
 position

---
 src/helena_dialect/core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index b0361eb..9a56eaa 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -163,7 +163,7 @@ func (process *Process) Run() core.Result {
 				errorStack := result.Data.(*core.ErrorStack)
 				var level core.ErrorStackLevel
 				var frame = append([]core.Value{}, context.state.LastFrame...)
-				if context.program.OpCodePositions != nil {
+				if context.program.OpCodePositions != nil && context.state.PC > 0 {
 					level = core.ErrorStackLevel{
 						Frame:    &frame,
 						Source:   context.program.Source,
-- 
2.43.0


From 4821d8d46bcc2ec613ae6e288ec02f2d963a8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 22/45] fix: escaped non-ASCII characters are kept as is

---
 src/core/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tokenizer.go b/src/core/tokenizer.go
index 4e0c325..73b3817 100644
--- a/src/core/tokenizer.go
+++ b/src/core/tokenizer.go
@@ -165,7 +165,7 @@ func (tokenizer *Tokenizer) Next() *Token {
 					emittedToken = tokenizer.addToken(TokenType_CONTINUATION, position, &literal)
 					break
 				}
-				escape := string(e) // Default value for unrecognized sequences
+				escape := string([]byte{e}) // Default value for unrecognized sequences
 				if isEscape(e) {
 					escape = string(getEscape(e))
 				} else if isOctal(e) {
-- 
2.43.0


From 2d19f509858ed800eaef4e55159cad95aec8198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 23/45] fix: string indexes and ranges use the same characters

---
 src/core/values.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/values.go b/src/core/values.go
index 22f9fa2..36b6e07 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -394,7 +394,7 @@ func StringAtOrDefault(value string, index Value, def Value) Result {
 			return ERROR(`index out of range "` + fmt.Sprint(i) + `"`)
 		}
 	}
-	return OK(StringValue{string(value[i])})
+	return OK(StringValue{value[i : i+1]})
 }
 
 func (value StringValue) Display(_ DisplayFunction) string {
-- 
2.43.0


From f3ddbdf4d50113816dbe88de071f19fb7aab0a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 24/45] fix: strings containing backslashes are displayed
 quoted

---
 src/core/display.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/display.go b/src/core/display.go
index 9b62e00..0e7e4a3 100644
--- a/src/core/display.go
+++ b/src/core/display.go
@@ -6,6 +6,7 @@ package core
 
 import (
 	"regexp"
+	"strings"
 )
 
 // Value display function
@@ -65,7 +66,7 @@ func DisplayLiteralOrString(str string) string {
 	if len(tokens) == 0 {
 		return `""`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT && !strings.Contains(str, `\`) {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"({[]`)
@@ -82,7 +83,7 @@ func DisplayLiteralOrBlock(str string) string {
 	if len(tokens) == 0 {
 		return `{}`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT && !strings.Contains(str, `\`) {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"#(){}[\]]`)
-- 
2.43.0


From ab90e6e633d5facfff28076c3706e2a978ee7a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 25/45] fix: reject remainder and duplicate option arguments

---
 src/helena_dialect/arguments.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 8c34ea6..fa0c4b8 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -93,6 +93,15 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 					`argument for flag "` + OptionName(lastOption.Names) + `" must be optional`,
 				), nil
 			}
+			if arg.Type == ArgumentType_REMAINDER {
+				return core.ERROR(
+					`argument for option "` + OptionName(lastOption.Names) + `" cannot be a remainder`,
+				), nil
+			}
+			if _, ok := argnames[arg.Name]; ok {
+				return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
+			}
+			argnames[arg.Name] = struct{}{}
 			arg.Option = lastOption
 			args = append(args, arg)
 			lastOption = nil
-- 
2.43.0


From 7a528669e87143417cfa348d24f9a08696d00586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 26/45] fix: picol comparison of blocks no longer panics

---
 src/picol_dialect/picol_dialect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 7b6c833..43e4cdd 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -186,11 +186,11 @@ func compareValuesCmd(
 
 var eqCmd = compareValuesCmd(
 	"==",
-	func(op1 core.Value, op2 core.Value) bool { return op1 == op2 || asString(op1) == asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return asString(op1) == asString(op2) },
 )
 var neCmd = compareValuesCmd(
 	"!=",
-	func(op1 core.Value, op2 core.Value) bool { return op1 != op2 && asString(op1) != asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return asString(op1) != asString(op2) },
 )
 
 func compareNumbersCmd(
-- 
2.43.0


From 4e359a3f0cade69c6cf0b056692077e1a67bced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 27/45] fix: picol procs with defaults before args no longer
 panic

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 43e4cdd..f3eda63 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -499,7 +499,7 @@ func (proc procCommand) Execute(args []core.Value, context any) core.Result {
 		argspec := proc.argspecs[p]
 		var value core.Value
 		if p == len(proc.argspecs)-1 && argspec.name == "args" {
-			value = core.TUPLE(append([]core.Value{}, args[a:]...))
+			value = core.TUPLE(append([]core.Value{}, args[min(a, len(args)):]...))
 			a = len(args) - 1
 		} else if p < len(args)-1 {
 			value = args[a]
-- 
2.43.0


From 797d155499636b12afcf31c64dd70b6a151b47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 28/45] fix: picol while silently ignored extra arguments

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index f3eda63..69f0b51 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -367,7 +367,7 @@ var forCmd = makeCommand(
 var whileCmd = makeCommand(
 	func(args []core.Value, context any) core.Result {
 		scope := context.(*PicolScope)
-		if len(args) != 3 && len(args) != 5 {
+		if len(args) != 3 {
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-- 
2.43.0


From b253956e28798ea13bcd0752b3f3beee8e4eabe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 29/45] fix: picol commands reject bodies that are not scripts
 instead of panicking

---
 src/picol_dialect/picol_dialect.go | 32 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 69f0b51..9072859 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -62,6 +62,8 @@ func asString(value core.Value) (s string) { _, s = core.ValueToString(value); r
 
 var EMPTY = core.OK(core.STR(""))
 
+var INVALID_SCRIPT = core.ERROR("invalid script")
+
 func ARITY_ERROR(signature string) core.Result {
 	return core.ERROR(`wrong # args: should be "` + signature + `"`)
 }
@@ -301,12 +303,16 @@ var ifCmd = makeCommand(
 			return testResult
 		}
 		var script core.ScriptValue
+		var isScript bool
 		if testResult.Value.(core.BooleanValue).Value {
-			script = args[2].(core.ScriptValue)
+			script, isScript = args[2].(core.ScriptValue)
 		} else if len(args) == 3 {
 			return EMPTY
 		} else {
-			script = args[4].(core.ScriptValue)
+			script, isScript = args[4].(core.ScriptValue)
+		}
+		if !isScript {
+			return INVALID_SCRIPT
 		}
 		result := scope.Evaluator.EvaluateScript(script.Script)
 		if result.Code != core.ResultCode_OK {
@@ -325,10 +331,13 @@ var forCmd = makeCommand(
 		if len(args) != 5 {
 			return ARITY_ERROR("for start test next command")
 		}
-		start := args[1].(core.ScriptValue)
+		start, isStart := args[1].(core.ScriptValue)
 		test := args[2]
-		next := args[3].(core.ScriptValue)
-		script := args[4].(core.ScriptValue)
+		next, isNext := args[3].(core.ScriptValue)
+		script, isScript := args[4].(core.ScriptValue)
+		if !isStart || !isNext || !isScript {
+			return INVALID_SCRIPT
+		}
 		var result core.Result
 		result = scope.Evaluator.EvaluateScript(start.Script)
 		if result.Code != core.ResultCode_OK {
@@ -371,7 +380,10 @@ var whileCmd = makeCommand(
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-		script := args[2].(core.ScriptValue)
+		script, isScript := args[2].(core.ScriptValue)
+		if !isScript {
+			return INVALID_SCRIPT
+		}
 		var result core.Result
 		for {
 			result = evaluateCondition(test, scope)
@@ -619,12 +631,16 @@ var procCmd = makeCommand(
 		if len(args) != 4 {
 			return ARITY_ERROR("proc name args body")
 		}
-		name, _argspecs, body := args[1], args[2], args[3]
+		name, _argspecs := args[1], args[2]
+		body, isScript := args[3].(core.ScriptValue)
+		if !isScript {
+			return INVALID_SCRIPT
+		}
 		result, argspecs := valueToArgspecs(_argspecs)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
-		scope.Commands[asString(name)] = procCommand{argspecs, body.(core.ScriptValue)}
+		scope.Commands[asString(name)] = procCommand{argspecs, body}
 		return EMPTY
 	},
 )
-- 
2.43.0


From eb95936864f012e6a15f55829c523f4045ea7581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 30/45] fix: invalid word structures are errors and no longer
 panic

---
 src/core/evaluator.go       | 27 ++++++++++++++++-----------
 src/helena_dialect/core.go  | 17 ++++++++++++++++-
 src/helena_dialect/lists.go | 11 ++++++++++-
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/core/evaluator.go b/src/core/evaluator.go
index eafcab4..1dd5e92 100644
--- a/src/core/evaluator.go
+++ b/src/core/evaluator.go
@@ -52,7 +52,8 @@ func NewCompilingEvaluator(
 // Evaluate a script and return result
 //
 // This will compile then execute the script
-func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
+func (evaluator *CompilingEvaluator) EvaluateScript(script Script) (result Result) {
+	defer recoverSyntaxError(&result)
 	program := evaluator.compiler.CompileScript(script)
 	return evaluator.executor.Execute(program, nil)
 }
@@ -60,7 +61,8 @@ func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
 // Evaluate a sentence and return result
 //
 // This will execute a single-sentence script
-func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result {
+func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) (result Result) {
+	defer recoverSyntaxError(&result)
 	script := Script{}
 	script.Sentences = append(script.Sentences, sentence)
 	program := evaluator.compiler.CompileScript(script)
@@ -71,15 +73,18 @@ func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result
 //
 // This will execute a single-word program
 func (evaluator *CompilingEvaluator) EvaluateWord(word Word) (result Result) {
-	defer func() {
-		if err := recover(); err != nil {
-			if e, ok := err.(SyntaxError); ok {
-				result = ERROR(e.message)
-			} else {
-				panic(err)
-			}
-		}
-	}()
+	defer recoverSyntaxError(&result)
 	program := evaluator.compiler.CompileWord(word)
 	return evaluator.executor.Execute(program, nil)
 }
+
+// Turn syntax errors into ERROR results
+func recoverSyntaxError(result *Result) {
+	if err := recover(); err != nil {
+		if e, ok := err.(SyntaxError); ok {
+			*result = ERROR(e.message)
+		} else {
+			panic(err)
+		}
+	}
+}
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 9a56eaa..6b0c04f 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -303,7 +303,22 @@ func (scope *Scope) NewLocalScope(slots map[string]uint, values []core.Value) *S
 	return child
 }
 
-func (scope *Scope) Compile(script core.Script) *core.Program {
+// Compile the given script into a program
+//
+// Scripts with syntax errors give a program failing with that error
+func (scope *Scope) Compile(script core.Script) (program *core.Program) {
+	defer func() {
+		if err := recover(); err != nil {
+			if e, ok := err.(core.SyntaxError); ok {
+				program = scope.CompilePair(
+					core.NewCommandValue(errorCmd{}),
+					core.STR(e.Error()),
+				)
+			} else {
+				panic(err)
+			}
+		}
+	}()
 	return scope.compiler.CompileScript(script)
 }
 func (scope *Scope) Execute(program *core.Program, state *core.ProgramState) core.Result {
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index f2b1c7f..e5bfedb 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -427,7 +427,16 @@ func ValueToList(value core.Value) (core.Result, core.ListValue) {
 	return core.ListValueFromValue(value)
 }
 
-func ValueToArray(value core.Value) (core.Result, []core.Value) {
+func ValueToArray(value core.Value) (result core.Result, values []core.Value) {
+	defer func() {
+		if err := recover(); err != nil {
+			if _, ok := err.(core.SyntaxError); ok {
+				result, values = core.ERROR("invalid list"), nil
+			} else {
+				panic(err)
+			}
+		}
+	}()
 	if value.Type() == core.ValueType_SCRIPT {
 		script := value.(core.ScriptValue)
 		if script.Cache.Values != nil {
-- 
2.43.0


From d73c2713c5b18825e2bbcc5c3189faf3e5e069bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 31/45] fix: sessions wait for the line following a
 continuation

---
 src/cli/cli.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index db60c81..ca5adea 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -198,16 +198,18 @@ func prompt() {
 var lastResult = core.OK(core.NIL)
 
 func run(scope *helena_dialect.Scope, cmd string) (core.Value, error) {
-	input := core.NewStringStream(cmd)
-	tokens := []core.Token{}
-	output := core.NewArrayTokenStream(tokens, input.Source())
-	(&core.Tokenizer{}).TokenizeStream(input, output)
+	// Look for a continuation before the end of line
+	tokens := core.Tokenizer{}.Tokenize(cmd + "\n")
 	if len(tokens) > 0 &&
 		tokens[len(tokens)-1].Type == core.TokenType_CONTINUATION {
 		// Continuation, wait for next line
 		return nil, recoverableError{"continuation"}
 	}
 
+	input := core.NewStringStream(cmd)
+	output := core.NewArrayTokenStream([]core.Token{}, input.Source())
+	(&core.Tokenizer{}).TokenizeStream(input, output)
+
 	parser := core.NewParser(&core.ParserOptions{CapturePositions: true})
 	parseResult := parser.ParseStream(output)
 	if !parseResult.Success {
-- 
2.43.0


From c6851291da19c5052f4738d13276c515124b4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 32/45] fix: number comparisons no longer panic on script
 operands

---
 src/helena_dialect/numbers.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/helena_dialect/numbers.go b/src/helena_dialect/numbers.go
index 7b2b8ae..0fa7c31 100644
--- a/src/helena_dialect/numbers.go
+++ b/src/helena_dialect/numbers.go
@@ -126,16 +126,12 @@ func arithmetics(args []core.Value, operand1 float64) core.Result {
 
 func binaryOp(
 	operator string,
-	whenEqual bool,
 	fn func(op1 float64, op2 float64) bool,
 ) func(args []core.Value, operand1 float64) core.Result {
 	return func(args []core.Value, operand1 float64) core.Result {
 		if len(args) != 3 {
 			return OPERATOR_ARITY_ERROR(operator)
 		}
-		if args[0] == args[2] {
-			return core.OK(core.BOOL(whenEqual))
-		}
 		result, operand2 := core.ValueToFloat(args[2])
 		if result.Code != core.ResultCode_OK {
 			return result
@@ -144,12 +140,12 @@ func binaryOp(
 	}
 }
 
-var eqOp = binaryOp("==", true, func(op1 float64, op2 float64) bool { return op1 == op2 })
-var neOp = binaryOp("!=", false, func(op1 float64, op2 float64) bool { return op1 != op2 })
-var gtOp = binaryOp(">", false, func(op1 float64, op2 float64) bool { return op1 > op2 })
-var geOp = binaryOp(">=", true, func(op1 float64, op2 float64) bool { return op1 >= op2 })
-var ltOp = binaryOp("<", false, func(op1 float64, op2 float64) bool { return op1 < op2 })
-var leOp = binaryOp("<=", true, func(op1 float64, op2 float64) bool { return op1 <= op2 })
+var eqOp = binaryOp("==", func(op1 float64, op2 float64) bool { return op1 == op2 })
+var neOp = binaryOp("!=", func(op1 float64, op2 float64) bool { return op1 != op2 })
+var gtOp = binaryOp(">", func(op1 float64, op2 float64) bool { return op1 > op2 })
+var geOp = binaryOp(">=", func(op1 float64, op2 float64) bool { return op1 >= op2 })
+var ltOp = binaryOp("<", func(op1 float64, op2 float64) bool { return op1 < op2 })
+var leOp = binaryOp("<=", func(op1 float64, op2 float64) bool { return op1 <= op2 })
 
 func floatToValue(f float64) core.Value {
 	i := int64(f)
-- 
2.43.0


From 7a40e0774339fb83cdb6ad6269ed71bc4894da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 33/45] fix: unhandled yield of a nested catch no longer
 resumes the wrong catch

---
 src/helena_dialect/controls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 6b90dc2..6647867 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -669,6 +669,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 				i := cmd.findHandlerIndex(state.bodyResult.Code, state.args)
 				if i >= len(state.args)-1 {
 					state.result = state.bodyResult
+					if state.result.Code == core.ResultCode_YIELD {
+						// Inner state must not be mistaken for ours upon resume
+						state.result.Data = nil
+					}
 					state.step = catchStateStep_beforeFinally
 					continue
 				}
-- 
2.43.0


From 64c393ba15b2d556c30f00bb71bf096cf714952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 34/45] fix: help of dict foreach accepts the index argument

---
 src/helena_dialect/dicts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index 38e6be4..5c673dd 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -375,7 +375,7 @@ func (dictForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (dictForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(DICT_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(DICT_FOREACH_SIGNATURE))
-- 
2.43.0


From 517abd0e8544b5b2d41d825b689c268efbeeeaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 35/45] fix: error levels keep the sentence that failed

---
 src/core/compiler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index 454b629..7f02cc1 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -623,6 +623,9 @@ type ProgramState struct {
 	// Last closed frame
 	LastFrame []Value
 
+	// Memory of the last closed frame
+	closedFrame []Value
+
 	// Program counter
 	PC uint
 
@@ -639,6 +642,7 @@ type ProgramState struct {
 func NewProgramState() *ProgramState {
 	return &ProgramState{
 		stack:        make([]Value, 0, 64),
+		closedFrame:  make([]Value, 0, 16),
 		frames:       make([]int, 1, 16),
 		frameResults: append(make([]Result, 0, 16), OK(NIL)),
 		PC:           0,
@@ -684,7 +688,9 @@ func (state *ProgramState) CloseFrame() {
 	length := state.frames[len(state.frames)-1]
 	state.frames = state.frames[:len(state.frames)-1]
 	state.frameResults = state.frameResults[:len(state.frameResults)-1]
-	state.LastFrame = state.stack[length:]
+	// Note: values pushed afterwards must not overwrite the closed frame
+	state.closedFrame = append(state.closedFrame[:0], state.stack[length:]...)
+	state.LastFrame = state.closedFrame
 	state.stack = state.stack[:length]
 }
 
-- 
2.43.0


From 1e12e0b3eed3189fb5cf7fc1f86d91917f596a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 36/45] fix: trailing dollars in tuples, blocks and expressions
 are literals

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index d75740a..0c5412d 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -630,6 +630,7 @@ func (parser *Parser) openTuple(token Token) {
 
 // Close the tuple parsing context
 func (parser *Parser) closeTuple() {
+	parser.closeSentence()
 	parser.popContext()
 }
 
@@ -662,6 +663,7 @@ func (parser *Parser) openBlock(token Token) {
 
 // Close the block parsing context
 func (parser *Parser) closeBlock() {
+	parser.closeSentence()
 	node := (parser.context.node).(*blockNode)
 	range_ := parser.stream.Range(node.start, parser.stream.CurrentIndex()-1)
 	value := ""
@@ -699,6 +701,7 @@ func (parser *Parser) openExpression(token Token) {
 
 // Close the expression parsing context
 func (parser *Parser) closeExpression() {
+	parser.closeSentence()
 	parser.popContext()
 }
 
-- 
2.43.0


From 3bb4a08a87d2787f2e2a20041ff664724108571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 37/45] fix: selectors following an index in strings

---
 src/core/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/parser.go b/src/core/parser.go
index 0c5412d..77b70c7 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -682,7 +682,9 @@ func (parser *Parser) parseExpression(token Token) ParseResult {
 	switch token.Type {
 	case TokenType_CLOSE_EXPRESSION:
 		parser.closeExpression()
-		parser.continueSubstitution()
+		if parser.expectSource() {
+			parser.continueSubstitution()
+		}
 		return PARSE_OK(nil)
 
 	default:
-- 
2.43.0


From f940cae54be4b07a3a84e8a6d8cae3e818465801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 38/45] fix: line comments no longer hide unterminated contexts

---
 src/core/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/parser.go b/src/core/parser.go
index 77b70c7..1bdd921 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -500,6 +500,10 @@ func (parser *Parser) Next() ParseResult {
 // This method is useful when testing for script completeness in interactive
 // mode and prompt for more input
 func (parser *Parser) CloseStream() ParseResult {
+	if _, ok := parser.context.node.(*lineCommentNode); ok {
+		// The end of the stream closes line comments, but nothing around them
+		parser.closeLineComment()
+	}
 	if parser.context.node != nil {
 		switch (parser.context.node).(type) {
 		case *tupleNode:
@@ -514,8 +518,6 @@ func (parser *Parser) CloseStream() ParseResult {
 			return PARSE_ERROR("unmatched here-string delimiter")
 		case *taggedStringNode:
 			return PARSE_ERROR("unmatched tagged string delimiter")
-		case *lineCommentNode:
-			parser.closeLineComment()
 		case *blockCommentNode:
 			return PARSE_ERROR("unmatched block comment delimiter")
 		default:
-- 
2.43.0


From e3d3aa1ba4adbe90ab7aee6e3bff7b710280008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 39/45] fix: variadic subcommands check that their value is
 given

---
 src/helena_dialect/dicts.go   | 6 ++++++
 src/helena_dialect/lists.go   | 3 +++
 src/helena_dialect/scripts.go | 3 +++
 src/helena_dialect/strings.go | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index 5c673dd..3e3de94 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -165,6 +165,9 @@ const DICT_REMOVE_SIGNATURE = "dict value remove ?key ...?"
 type dictRemoveCmd struct{}
 
 func (dictRemoveCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_REMOVE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
@@ -191,6 +194,9 @@ const DICT_MERGE_SIGNATURE = "dict value merge ?dict ...?"
 type dictMergeCmd struct{}
 
 func (dictMergeCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_MERGE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index e5bfedb..b1c94ed 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -123,6 +123,9 @@ const LIST_APPEND_SIGNATURE = "list value append ?list ...?"
 type listAppendCmd struct{}
 
 func (listAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(LIST_APPEND_SIGNATURE)
+	}
 	result, values := ValueToArray(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/scripts.go b/src/helena_dialect/scripts.go
index 5293c32..2e7d60c 100644
--- a/src/helena_dialect/scripts.go
+++ b/src/helena_dialect/scripts.go
@@ -82,6 +82,9 @@ const SCRIPT_APPEND_SIGNATURE = "script value append ?script ...?"
 type scriptAppendCmd struct{}
 
 func (scriptAppendCmd) Execute(args []core.Value, context any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(SCRIPT_APPEND_SIGNATURE)
+	}
 	result := valueToScript(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index bedda1f..b425e6c 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -120,6 +120,9 @@ const STRING_APPEND_SIGNATURE = "string value append ?string ...?"
 type stringAppendCmd struct{}
 
 func (stringAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(STRING_APPEND_SIGNATURE)
+	}
 	result, str := core.ValueToString(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
-- 
2.43.0


From 1f7c8fae79a50492c1243c7b90192c6b07fadc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 40/45] fix: keep the error stacks of finished processes apart
 from those of their callers

---
 src/core/errors.go         |  5 +++++
 src/helena_dialect/core.go | 13 +++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/errors.go b/src/core/errors.go
index cfb5187..c523512 100644
--- a/src/core/errors.go
+++ b/src/core/errors.go
@@ -30,6 +30,11 @@ func NewErrorStack() *ErrorStack {
 	return &ErrorStack{[]ErrorStackLevel{}}
 }
 
+// Return a copy of the error stack
+func (errorStack *ErrorStack) Clone() *ErrorStack {
+	return &ErrorStack{append([]ErrorStackLevel{}, errorStack.stack...)}
+}
+
 // Return depth of the stack, i.e. number of levels
 func (errorStack *ErrorStack) Depth() uint {
 	return uint(len(errorStack.stack))
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 6b0c04f..b450115 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -121,7 +121,7 @@ func NewProcess(scope *Scope, program *core.Program, options *ProcessOptions) *P
 
 func (process *Process) Run() core.Result {
 	if process.stack.Depth() == 0 {
-		return process.lastResult
+		return snapshotResult(process.lastResult)
 	}
 	context := process.stack.CurrentContext()
 	result := context.scope.Execute(context.program, context.state)
@@ -187,7 +187,7 @@ func (process *Process) Run() core.Result {
 		process.stack.Pop()
 		if process.stack.Depth() == 0 {
 			// Reached bottom of stack, stop there
-			process.lastResult = result
+			process.lastResult = snapshotResult(result)
 			break
 		}
 
@@ -207,6 +207,15 @@ func (process *Process) Run() core.Result {
 	}
 	return result
 }
+
+// Callers push their own levels to the error stacks they get, so keep and
+// return copies
+func snapshotResult(result core.Result) core.Result {
+	if errorStack, ok := result.Data.(*core.ErrorStack); ok {
+		result.Data = errorStack.Clone()
+	}
+	return result
+}
 func (process *Process) SetResult(result core.Result) {
 	context := process.stack.CurrentContext()
 	context.state.SetResult(result)
-- 
2.43.0


From 43b442cf683cee32a79afc47c684d3eef0b26325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 41/45] fix: log messages of slog Error without a stray
 attribute

---
 src/native/go_slog/go_slog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 263251d..4bda15f 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -36,7 +36,7 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
 		msg, _ := asString((args[2]))
-		slog.Error(msg, "toto", 1)
+		slog.Error(msg)
 	case "Info":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
-- 
2.43.0


From 7c38331192999fea2cbfcdf070c43a7ea92da90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 42/45] fix: reject extra arguments of native os and slog
 methods

---
 src/native/go_os/go_os.go     | 2 +-
 src/native/go_slog/go_slog.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/native/go_os/go_os.go b/src/native/go_os/go_os.go
index 03035d9..ab3aa73 100644
--- a/src/native/go_os/go_os.go
+++ b/src/native/go_os/go_os.go
@@ -26,7 +26,7 @@ func (OsCmd) Execute(args []core.Value, _ any) core.Result {
 	// https://pkg.go.dev/os
 	switch method {
 	case "ReadFile":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "os ReadFile name"`)
 		}
 		name, _ := asString((args[2]))
diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 4bda15f..baf5aab 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -26,25 +26,25 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 	// TODO Attrs and Values https://pkg.go.dev/log/slog@go1.22.2#hdr-Attrs_and_Values
 	switch method {
 	case "Debug":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Debug msg"`)
 		}
 		msg, _ := asString((args[2]))
 		slog.Debug(msg)
 	case "Error":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
 		msg, _ := asString((args[2]))
 		slog.Error(msg)
 	case "Info":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
 		}
 		msg, _ := asString((args[2]))
 		slog.Info(msg)
 	case "Warn":
-		if len(args) < 3 {
+		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Warn msg"`)
 		}
 		msg, _ := asString((args[2]))
-- 
2.43.0


From a01c68f03fdcda0d267632b4b0a4f0ea48cb946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 43/45] fix: report native os and slog arguments without string
 representation

---
 src/native/go_os/go_os.go     |  5 ++++-
 src/native/go_slog/go_slog.go | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/native/go_os/go_os.go b/src/native/go_os/go_os.go
index ab3aa73..cb37183 100644
--- a/src/native/go_os/go_os.go
+++ b/src/native/go_os/go_os.go
@@ -29,7 +29,10 @@ func (OsCmd) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "os ReadFile name"`)
 		}
-		name, _ := asString((args[2]))
+		result, name := core.ValueToString(args[2])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
 		data, err := os.ReadFile(name)
 		if err != nil {
 			return core.ERROR(err.Error())
diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index baf5aab..9ba5a0f 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -29,25 +29,37 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Debug msg"`)
 		}
-		msg, _ := asString((args[2]))
+		result, msg := core.ValueToString(args[2])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
 		slog.Debug(msg)
 	case "Error":
 		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
-		msg, _ := asString((args[2]))
+		result, msg := core.ValueToString(args[2])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
 		slog.Error(msg)
 	case "Info":
 		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
 		}
-		msg, _ := asString((args[2]))
+		result, msg := core.ValueToString(args[2])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
 		slog.Info(msg)
 	case "Warn":
 		if len(args) != 3 {
 			return core.ERROR(`wrong # args: should be "slog Warn msg"`)
 		}
-		msg, _ := asString((args[2]))
+		result, msg := core.ValueToString(args[2])
+		if result.Code != core.ResultCode_OK {
+			return result
+		}
 		slog.Warn(msg)
 	}
 	return core.OK(core.NIL)
-- 
2.43.0


From 4123f89231188fc655a5d7c9d2f695f72df298f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 44/45] fix: report unknown methods of the native slog command

---
 src/native/go_slog/go_slog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 9ba5a0f..cd02001 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -61,6 +61,9 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 			return result
 		}
 		slog.Warn(msg)
+
+	default:
+		return core.ERROR("unsupported method " + method)
 	}
 	return core.OK(core.NIL)
 }
-- 
2.43.0


From 8db135c0ea6c02126d5c37750e220ec8eb4664ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 45/45] fix: display labels with comment delimiters as valid
 block comments

---
 src/core/display.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/display.go b/src/core/display.go
index 0e7e4a3..32a3f1e 100644
--- a/src/core/display.go
+++ b/src/core/display.go
@@ -23,8 +23,13 @@ func UndisplayableValue() string {
 }
 
 // Undisplayable values represented as a label in block comment within a block.
+// Comment delimiters are lengthened so that they don't occur in the label.
 func UndisplayableValueWithLabel(label string) string {
-	return `{#{` + label + `}#}`
+	hashes := "#"
+	for strings.Contains(label, hashes+"{") || strings.Contains(label, "}"+hashes) {
+		hashes += "#"
+	}
+	return `{` + hashes + `{` + label + `}` + hashes + `}`
 }
 
 // Helena displayable object
-- 
2.43.0

