"""C19: arguments. Cli.tla specifies the program as a machine that takes its
configuration and its arguments one after the other and decides what is to be
generated, shown or refused; MC_Cli proves of it that an option means the same
in every form and place; T_Cli judges invocations of the real program: standard
output, entropies, exit status."""
from checks import clicase


def run(ctx):
    ctx.theorem("MC_Cli", ctx.scale("MC_Cli", "MC_Cli_deep"))
    clicase.options(ctx)
