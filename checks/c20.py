"""C20: configuration files. Cli.tla specifies each line as the option it
stands for; MC_Conf proves it (a line has the effect of the option, later lines
override, options override, other lines do nothing); T_Cli judges invocations
of the real program with configuration files of any content and size."""
from checks import clicase


def run(ctx):
    ctx.theorem("MC_Conf", ctx.scale("MC_Conf", "MC_Conf_deep"))
    clicase.config(ctx)
