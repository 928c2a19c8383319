"""Imported once per worker process: seams first, then the code under test from /repo's tree."""
import gc
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")
SDK = os.path.join(REPO, "sdk/python/lib")
if SDK not in sys.path:
    sys.path.insert(0, SDK)
sys.dont_write_bytecode = True
os.environ["PULUMI_VF"] = "1"
for _k in [k for k in os.environ if k.startswith("PULUMI_") and k != "PULUMI_VF"]:
    del os.environ[_k]

from . import seams  # noqa: E402,F401
from . import kernel  # noqa: E402
from . import net  # noqa: E402,F401
from . import proc  # noqa: E402

proc.install()

import logging  # noqa: E402

import pulumi  # noqa: E402
import pulumi.automation  # noqa: E402
import pulumi.dynamic  # noqa: E402
import pulumi.provider  # noqa: E402
import pulumi.provider.server  # noqa: E402
import pulumi.runtime  # noqa: E402
import pulumi.runtime.mocks  # noqa: E402
import pulumi.runtime.proto  # noqa: E402,F401

assert os.path.realpath(pulumi.__file__).startswith(os.path.realpath(SDK)), pulumi.__file__

kernel.configure_line_hook([os.path.dirname(os.path.realpath(pulumi.__file__)) + os.sep,
                            os.path.dirname(pulumi.__file__) + os.sep])

try:
    from . import typed  # noqa: E402,F401  no import while threads may be preempted inside it
except Exception:  # noqa: BLE001  then the programs that use it fail, and are judged
    pass

try:
    from . import refs  # noqa: E402
    refs.install()
except Exception:  # noqa: BLE001  likewise
    pass

_plain_hash = object.__hash__


def _res_hash(self):
    d = self.__dict__
    h = d.get("_vf_h")
    if h is None:
        s = kernel.SIM
        if s is None:
            return _plain_hash(self)
        s.serial += 1
        h = (s.serial * 2654435761 ^ s.seed * 40503) & 0xFFFFFFFF
        d["_vf_h"] = h
    return h


pulumi.Resource.__hash__ = _res_hash
logging.getLogger("asyncio").setLevel(logging.CRITICAL)
gc.collect()
gc.freeze()
