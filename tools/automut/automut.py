#!/usr/bin/env python3
"""automut.py FILE ... -- CHECK ...: systematic mutants of source files; those that build and pass the tests are run
against the checks until one catches them.  Development aid: no check uses this.  State in /tmp/automut.jsonl."""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
LOG = os.environ.get("AUTOMUT", "/tmp/automut.jsonl")
J = int(os.environ.get("J", "4"))
lock = threading.Lock()
free = list(range(J))


def one(f, m, checks):
    with lock:
        k = free.pop()
    s = f"/tmp/automut-{k}"
    try:
        shutil.rmtree(s, ignore_errors=True)
        shutil.copytree("/repo", s + "/repo", ignore=shutil.ignore_patterns(".git"))
        p = os.path.join(s, "repo", f)
        t = open(p, "rb").read()
        open(p, "wb").write(t[:m["a"]] + m["repl"].encode() + t[m["b"]:])
        r = subprocess.run(["go", "build", "./..."], cwd=s + "/repo", env=ENV, capture_output=True, text=True)
        if r.returncode:
            return "nobuild"
        try:
            r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd=s + "/repo", env=ENV, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return "tests"
        if r.returncode:
            return "tests"
        env = dict(ENV, VERIF_REPO=s + "/repo", VERIF_OUT=s + "/out")
        for c in checks:
            try:
                r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), c], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return "TIMEOUT " + c
            if r.returncode == 1:
                return "caught " + c
            if r.returncode:
                return "BROKEN " + c + " " + (r.stdout + r.stderr)[-400:]
        return "SURVIVED"
    finally:
        shutil.rmtree(s, ignore_errors=True)
        with lock:
            free.append(k)


def main():
    i = sys.argv.index("--")
    files, checks = sys.argv[1:i], sys.argv[i + 1:]
    done = set()
    if os.path.exists(LOG):
        for l in open(LOG):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["b"], d["repl"]))
    todo = []
    for f in files:
        out = subprocess.run(["go", "run", os.path.join(HERE, "gen.go"), "--", os.path.join("/repo", f)], env=ENV, capture_output=True, text=True, check=True, cwd=HERE).stdout
        for l in out.splitlines():
            m = json.loads(l)
            if (f, m["a"], m["b"], m["repl"]) not in done:
                todo.append((f, m))
    random.seed(5)
    random.shuffle(todo)
    todo = todo[:int(os.environ.get("MOST", "100000"))]
    print(len(todo), "mutants", flush=True)

    def job(x):
        f, m = x
        res = one(f, m, checks)
        with lock:
            with open(LOG, "a") as o:
                o.write(json.dumps(dict(m, file=f, res=res)) + "\n")
        if res not in ("nobuild", "tests") and not res.startswith("caught"):
            print(f"{f}:{m['line']} {m['kind']} {m['old']!r} -> {m['repl']!r}: {res}", flush=True)
    with cf.ThreadPoolExecutor(J) as ex:
        list(ex.map(job, todo))


main()
