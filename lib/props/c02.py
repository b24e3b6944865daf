from props import parsecommon as pc


def run(ctx):
    pc.run(ctx, ["OnlyDerivations"], True, broken="OnlyDerivations")
