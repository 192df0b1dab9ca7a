"""For monitors that live in the same process as the code they watch."""
import os, sys, shutil
import common
from common import scratch


class Sandbox:
    """A scratch directory for everything the ekosis package wants to write, and the package imported."""
    def __init__(self, app="vapp", instance="0", env=None):
        self.dir = scratch("vi_")
        os.environ.update({f"ECOENV_{k}": self.dir for k in ("LOG_DIR", "BUFFER_DIR", "LOCK_DIR", "DEFAULT_DIR")})
        os.environ.update(env or {})
        sys.argv = [f"{self.dir}/{app}.py", "-i", instance, "-lfo"]
        import ekosis  # noqa
        common.CODE_IN_PROCESS = True

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def preload():
    """Third-party imports done once in the parent, so that forked children start quickly."""
    import pydantic, sqlalchemy, sqlalchemy.orm, sqlalchemy.dialects.sqlite, asyncio, uuid, logging.handlers, statistics, timeit, argparse  # noqa
    class M(pydantic.BaseModel):
        a: int = 1
    M(a=2).model_dump_json()
    e = sqlalchemy.create_engine("sqlite://")
    with e.connect() as c:
        c.execute(sqlalchemy.text("select 1"))
    e.dispose()
