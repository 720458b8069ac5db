"""C18: results depend on current parameters only."""
import objects
LEVEL = 'model_checking'
RULE = 'behaviours of the two-object machine (assignments, aliases, refused assignments, queries, new objects) for every class; every query against a fresh object in a process of its own'


def run(ctx):
    return objects.run(ctx, 'C18', *((120, 45) if ctx.tier == 'thorough' else (10, 30)))
