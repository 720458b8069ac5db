"""C19: callers' arrays and the library are isolated from each other."""
import objects
LEVEL = 'model_checking'
RULE = 'behaviours of the two-object machine in which callers overwrite their arrays and results, for every class; every query against a fresh object in a process of its own'


def run(ctx):
    return objects.run(ctx, 'C19', *((120, 45) if ctx.tier == 'thorough' else (14, 30)))
