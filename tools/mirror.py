#!/usr/bin/env python3
"""Mirrors the library part of /repo into /verif/build/mirror, ready to be model checked.

    mirror.py [REPO] [OUT]

The sources are copied byte for byte, except for lines appended to src/lib.rs:

    extern crate vstd as std;

which makes every `std::...` path of the crate (std::sync, std::thread, std::time, std::fs, ...)
resolve to /verif/engine/vstd, a std look-alike whose synchronisation, threads, clock and file-system
calls are owned by the model checker. Nothing depends on how the sources spell or group their imports.

Cargo.toml: the git dependency tikv-client becomes the path dependency /verif/engine/tikv-client (an
environment model of the client), sled the path dependency
/verif/engine/sled (a model of sled inside controlled executions, the real one elsewhere), [patch.crates-io], [[bench]] and dev-dependencies go, and vstd is
added. Of src/bin only the server is kept (the other program is a console for TiKV), and it is built as it
is; tests and benches are left out. Files are rewritten only when changed.
"""
import os
import re
import sys

HERE = os.path.dirname(os.path.realpath(__file__))
VERIF = os.path.dirname(HERE)

SERVER = "src/bin/monolith-server.rs"
INJECT = """
// ---- appended by /verif/tools/mirror.py ----
extern crate vstd as std;
"""


def manifest(text):
    text = re.sub(r"^\[patch\.[^\]]*\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)
    text = re.sub(r"^\[\[(?:bench|bin|test|example)\]\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)
    text = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)
    text = re.sub(r"^tikv-client\s*=.*\n", "", text, flags=re.M)
    # only the benchmarks use it
    text = re.sub(r"^criterion\s*=.*\n", "", text, flags=re.M)
    eng = os.path.join(VERIF, "engine")
    text = re.sub(r"^sled\s*=.*\n", 'sled = { path = "%s/sled" }\n' % eng, text, flags=re.M)
    extra = 'tikv-client = { path = "%s/tikv-client" }\nvstd = { path = "%s/vstd" }\n' % (eng, eng)
    text = re.sub(r"^\[dependencies\]\n", lambda m: m.group(0) + extra, text, count=1, flags=re.M)
    text = re.sub(
        r"^\[package\]\n",
        "[package]\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false\nworkspace = \"%s/harness\"\n" % eng,
        text,
        count=1,
        flags=re.M,
    )
    return text + '\n[[bin]]\nname = "monolith-server"\npath = "%s"\n' % SERVER


def write(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def main():
    repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    out = sys.argv[2] if len(sys.argv) > 2 else os.path.join(VERIF, "build", "mirror")
    kept = set()
    for top, dirs, files in os.walk(os.path.join(repo, "src")):
        rel = os.path.relpath(top, repo)
        if rel == "src":
            dirs.sort()
        for f in files:
            name = os.path.join(rel, f)
            if rel.startswith("src/bin") and name != SERVER:
                continue
            if rel == "src" and f == "main.rs":
                continue
            data = open(os.path.join(repo, name), "rb").read()
            if name == "src/lib.rs":
                data += INJECT.encode()
            write(os.path.join(out, name), data)
            kept.add(name)
    cargo = open(os.path.join(repo, "Cargo.toml")).read()
    write(os.path.join(out, "Cargo.toml"), manifest(cargo).encode())
    for top, dirs, files in os.walk(os.path.join(out, "src")):
        for f in files:
            rel = os.path.relpath(os.path.join(top, f), out)
            if rel not in kept:
                os.remove(os.path.join(top, f))


if __name__ == "__main__":
    main()
