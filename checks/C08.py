"""C08: generation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, lex


def one(ctx, i):
    if i % 30 == 29:
        return lex.large(ctx, i, "gen")
    return lex.setup(ctx, i, "gen")


def body(ctx):
    ctx.traces("TraceLex", one, ctx.size(3000, 30000))


if __name__ == "__main__":
    sys.exit(core.main("C08", body))
