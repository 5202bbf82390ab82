import contextlib, errno, stat, types
from unittest import mock


def bmaptool(*args):
    """Run the command in this process; returns (exit status, what it printed)."""
    import logging
    from bmaptools import CLI

    out = io.StringIO()
    logging.getLogger().handlers[:] = []
    CLI.log.handlers[:] = []
    with mock.patch.object(sys, "argv", ["bmaptool"] + list(args)), contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            status = CLI.main()
        except SystemExit as e:
            status = e.code
        except BaseException as e:
            out.write("uncaught %r\n" % e)
            status = 1
    return status or 0, out.getvalue()


def fake_gpg(*good):
    """A 'gpg' module for which the signatures of every file are as given."""
    g = types.ModuleType("gpg")
    g.constants = types.SimpleNamespace(SIGSUM_VALID=1)
    g.errors = types.SimpleNamespace(GPGMEError=type("GPGMEError", (Exception,), {}), BadSignatures=type("BadSignatures", (Exception,), {}))
    sigs = [types.SimpleNamespace(summary=int(x), fpr="F%d" % n, status=(0, 0, "Bad signature")) for n, x in enumerate(good)]

    class Context:
        def get_key(self, fpr):
            return types.SimpleNamespace(uids=[types.SimpleNamespace(name="n", email="e")])

        def verify(self, data, signature=None, sink=None):
            return data.read(), types.SimpleNamespace(signatures=sigs)

    g.Context = Context
    sys.modules["gpg"] = g
