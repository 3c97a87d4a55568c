"""Command lines of the program, run inside this process."""
import contextlib
import os


@contextlib.contextmanager
def inside(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def run(args, answers='', cwd=None):
    """dict(out, crash, error): what is shown, the exception that escaped (or ''), was an error shown"""
    from click.testing import CliRunner
    from quantas.cmdline.commands.cmd_quantas import cli
    from quantas.cmdline.utils.messages import quantas_error
    args = [str(a) for a in args]
    if args[:2] == ['export', 'seismic'] and 'seismic' not in cli.commands['export'].commands:
        # the command exists, but the program does not list it
        from quantas.seismic.commands.cmd_export import seismic_export as cli
        args = args[2:]
    with inside(cwd or os.getcwd()):
        r = CliRunner().invoke(cli, args, input=answers)
    crash = ''
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        crash = '%s: %s' % (type(r.exception).__name__, r.exception)
        import traceback
        tb = traceback.extract_tb(r.exc_info[2])
        crash += ' at %s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
    shown = quantas_error().strip()
    return dict(out=r.output, crash=crash, code=r.exit_code, error=shown in r.output or r.exit_code == 2)
