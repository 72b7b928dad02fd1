"""C11: a command step runs its command once and succeeds exactly on exit status 0."""
from .exec_common import *


class S(ExecSpec):
    records = False


SLOW = ()
ASSUMPTIONS = ["the placeholders of the message are attributes of the target", "str.format with the target's attributes is a fixed function of the template and the target", "the shell can be started"]
TRUSTED = ["subprocess: Popen/communicate/returncode as documented", "bytes.decode with errors=replace never fails"]


def units(prog):
    s = S(prog)
    return [(s, [s.do_ft] + s.do_plain + [s.ex_call, s.ex_init, s.upd_once])]
