from props import parsecommon as pc


def run(ctx):
    pc.run(ctx, ["AcceptsLanguage", "ItemsValid"], False, props=["Ends"])
