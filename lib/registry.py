"""Which code decides which property."""
import gencheck
import messages
import plugincheck
import treecheck

COMMON = ["TLC, the Go toolchain and the harness's recording are correct", "within the stated bounds"]
TYPES = "only the message types in lib/schemas.py"


def run(ctx):
    if ctx.prop in messages.PROPS:
        return "model_checking", COMMON + [TYPES] + messages.check(ctx)
    if ctx.prop == "C19":
        return "model_checking", COMMON + treecheck.check(ctx)
    if ctx.prop == "C16":
        return "model_checking", COMMON + gencheck.check(ctx)
    if ctx.prop == "C17":
        return "model_checking", COMMON + plugincheck.check_requests(ctx)
    if ctx.prop == "C18":
        return "model_checking", COMMON + plugincheck.check_processes(ctx)
    raise SystemExit("no property " + ctx.prop)
