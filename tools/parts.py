"""What each property's check consists of."""

def traces(plan_quick, plan_thorough=None, budget=40, tbudget=600):
    def f(ctx):
        plan = plan_quick if ctx.quick else (plan_thorough or [(p, n * 15) for p, n in plan_quick])
        ctx.trace_part(plan, budget if ctx.quick else tbudget)
    return f

def syntax(what, plan, tplan, budget=40, tbudget=600):
    def f(ctx):
        ctx.trace_part(plan if ctx.quick else tplan, budget if ctx.quick else tbudget, 2500, "syntax", "HSyntaxTrace",
                       ctx.report_syntax(what))
    return f
def model(name, tname=None, **kw):
    return lambda ctx: ctx.model(name, (name if ctx.quick else tname or name) + ".cfg", **kw)

MC = "model_checking"
PROPS = {}
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C11", "C15", "C16", "C20", "C22"]:
    PROPS[p] = (MC, [traces([(p, 2400), ("all", 300)])])

PROPS["C02"] = (MC, [traces([("C02", 1800), ("C02i", 450), ("all", 300)])])
PROPS["C08"] = (MC, [traces([("C08", 1200), ("C08g", 500)])])

PROPS["C10"] = (MC, [syntax("tokens", [("enum", 3616), ("rand", 48000)], [("enum", 813616), ("rand", 400000)]), model("HSyntaxProps", "HSyntaxProps5")])
PROPS["C21"] = (MC, [syntax("parse", [("enum", 3616), ("rand", 48000)], [("enum", 813616), ("rand", 400000)]), model("HSyntaxProps", "HSyntaxProps5")])

PROPS["C19"] = (MC, [model("HHelpProps", "HHelpProps5"), traces([("C19", 2400), ("all", 200)])])
PROPS["C12"] = (MC, [traces([("C12", 1100), ("C12b", 400)])])
PROPS["C14"] = (MC, [traces([("C14", 700), ("C14p", 120)], budget=36), lambda ctx: ctx.race_part("C14p", 120 if ctx.quick else 3000)])

FATALS = ["alias-of-itself", "aliases-of-each-other", "guard-calls-its-own", "coroutine-in-coroutine", "proc-in-proc", "closure-in-closure",
          "scope-in-scope", "ensemble-in-ensemble", "eval-in-eval", "catch-in-catch", "tuple-of-tuples", "list-of-lists"]
def wild(n, tn, budget=12, tbudget=900):
    return lambda ctx: ctx.trace_part([("wild", n if ctx.quick else tn)], budget if ctx.quick else tbudget, 100, "record", "HWildTrace", ctx.report_wild)
PROPS["C18"] = (MC, [lambda ctx: ctx.fatal_part(FATALS), wild(1600, 200000), traces([("C18", 2400), ("all", 200)], budget=32)])

def picol(n, tn, budget=40, tbudget=600):
    return lambda ctx: ctx.trace_part([("C17", n if ctx.quick else tn)], budget if ctx.quick else tbudget, 150, "record", "HPicolTrace")
PROPS["C17"] = (MC, [picol(4800, 72000)])

def display(plan, tplan, budget=40, tbudget=600):
    return lambda ctx: ctx.trace_part(plan if ctx.quick else tplan, budget if ctx.quick else tbudget, 3000, "display", "HDisplayTrace", ctx.report_display)
PROPS["C13"] = (MC, [model("HDisplayProps", "HDisplayProps4"), lambda ctx: ctx.display_probes(),
                     display([("enum", 43392), ("rand", 45000)], [("enum", 650892), ("rand", 1000000)])])

def sessions(plan, tplan, budget=45, tbudget=600):
    def f(ctx):
        ctx.build_cli()
        ctx.trace_part(plan if ctx.quick else tplan, budget if ctx.quick else tbudget, 60, "record", "HCliTrace", ctx.report_cli)
    return f
PROPS["C23"] = (MC, [sessions([("C23", 600), ("C23p", 300), ("C23f", 240)], [("C23", 9000), ("C23p", 4500), ("C23f", 3600)])])

def native(n, tn, budget=40, tbudget=600):
    return lambda ctx: ctx.trace_part([("native", n if ctx.quick else tn)], budget if ctx.quick else tbudget, 250, "native", "HNativeTrace", ctx.report_native)
PROPS["C24"] = (MC, [model("HRegexpProps", "HRegexpProps4"), native(6000, 150000)])

NOTES = {
 "default": ("TLA+ specification of the Helena machine; TLC validates recorded runs of the implementation against it",
   "Every recorded run of generated programs must be a behaviour of the specification, event by event. Exhaustive only over the recorded programs; trusts the recorder and the generator's source printer (harness/)."),
}
NOT_APPLICABLE = {}
ALL = ["C%02d" % i for i in range(1, 25)]
for p in ALL:
    if p not in PROPS:
        NOT_APPLICABLE[p] = "check not built yet"
