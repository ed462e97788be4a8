"""Command line: python -m mc.run C01 [--tier T] [--replay FILE]"""
import argparse
import os
import shutil
import sys
import tempfile

parser = argparse.ArgumentParser()
parser.add_argument("property")
parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
parser.add_argument("--replay")
parser.add_argument("--repo")
args = parser.parse_args()
if args.repo:
    os.environ["MC_REPO"] = args.repo

# tensorflow leaves files it generates; everything temporary of this run goes into one folder
scratch = tempfile.mkdtemp(prefix="mc-check-")
os.environ["TMPDIR"] = tempfile.tempdir = scratch

from mc import core, env  # noqa
core.REPO = os.environ.get("MC_REPO", "/repo")
env.setup(core.REPO)
sys.stdout.flush()
try:
    code = core.run_check(args.property.upper(), args.tier, args.seed, args.replay)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.stdout.flush()
sys.stderr.flush()
os._exit(code)
