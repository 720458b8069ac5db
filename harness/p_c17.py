"""C17: invalid parameters are refused and leave the object as it was; valid ones are accepted and read back."""
import objects
LEVEL = 'model_checking'
RULE = 'every parameter of every class with every form of invalid value (assignment and construction) and of valid value, every query with every form of invalid points; and behaviours of the two-object machine'


def run(ctx):
    return objects.run(ctx, 'C17', *((60, 45) if ctx.tier == 'thorough' else (4, 30)))
