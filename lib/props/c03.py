from props import parsecommon as pc


def run(ctx):
    pc.run(ctx, ["AllDerivations"], True)
