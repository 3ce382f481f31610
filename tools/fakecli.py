"""A stand-in for the CLI, for demonstrations: answers by command and notes down what it was given."""
import contextlib
import json
import os
import sys
import tempfile

SCRIPT = '''#!%s -I
import json, os, signal, sys, time
here = os.path.dirname(os.path.abspath(__file__))
args = sys.argv[1:]
with open(here + "/log", "a") as f:
    f.write(json.dumps({"args": args, "env": dict(os.environ), "cwd": os.getcwd()}) + "\\n")
if args[:1] == ["version"]:
    print("v3.39.0")
    sys.exit(0)
best = max((k for k in json.load(open(here + "/answers")) if " ".join(args).startswith(k)), key=len, default=None)
a = json.load(open(here + "/answers")).get(best, {})
for step in a.get("events", []):
    if isinstance(step, str):
        path = args[args.index("--event-log") + 1]
        with open(path, "a") as f:
            f.write(step)
    else:
        time.sleep(step)
sys.stdout.write(a.get("out", ""))
sys.stdout.flush()
sys.stderr.write(a.get("err", ""))
sys.stderr.flush()
if a.get("signal"):
    os.kill(os.getpid(), a["signal"])
sys.exit(a.get("code", 0))
'''


class Cli:
    def __init__(self, d):
        self.d = d

    def answers(self, answers):
        with open(self.d + "/answers", "w") as f:
            json.dump(answers, f)

    def calls(self, command=""):
        with open(self.d + "/log") as f:
            return [c for c in map(json.loads, f) if " ".join(c["args"]).startswith(command)]


@contextlib.contextmanager
def cli(answers):
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(d + "/bin")
        with open(d + "/bin/pulumi", "w") as f:
            f.write(SCRIPT % sys.executable)
        os.chmod(d + "/bin/pulumi", 0o755)
        old = dict(os.environ)
        os.environ["PATH"] = d + "/bin:" + old["PATH"]
        c = Cli(d + "/bin")
        c.answers(answers)
        os.mkdir(d + "/work")
        c.work = d + "/work"
        with open(d + "/work/Pulumi.yaml", "w") as f:
            f.write("name: proj\nruntime: python\n")
        try:
            yield c
        finally:
            os.environ.clear()
            os.environ.update(old)


def check(cond, msg):
    if not cond:
        print("BROKEN:", msg)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("fine")
    sys.stdout.flush()
    os._exit(0)
