#!/usr/bin/env python3
"""Copies the sources of /repo that the monitors run into /verif/.build/ws.

/repo cannot be resolved by cargo offline (its manifests name git and registry
dependencies that are not on this machine), so the checks compile a derived
workspace: the packages of /repo, byte for byte, except that the unavailable
dependencies in DROP are taken out of the manifests and that tests, schemas and
examples are left out.  A file is only rewritten when its content differs, so
that cargo rebuilds exactly what changed in /repo since the last run.
"""
import os
import re
import sys

REPO = os.environ.get("VMON_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(HERE, ".build", "ws")
DROP = ("cw4-voting-v1", "cw-core-interface-v1", "osmosis-test-tube", "dao-migrator")
SKIP_DIRS = {".git", "target", "schema", "examples", "tests", "node_modules"}
SKIP_REL = {"contracts/external/dao-migrator", "ci", "packages/dao-testing"}
seen = set()


def put(rel, data):
    path = os.path.join(WS, rel)
    seen.add(rel)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def main():
    for top in ("Cargo.toml", "contracts", "packages"):
        full = os.path.join(REPO, top)
        if os.path.isfile(full):
            files = [top]
        else:
            files = []
            for root, dirs, names in os.walk(full):
                rel = os.path.relpath(root, REPO)
                dirs[:] = sorted(
                    d for d in dirs
                    if d not in SKIP_DIRS and os.path.join(rel, d) not in SKIP_REL
                )
                files += [os.path.join(rel, n) for n in sorted(names)]
        for rel in files:
            if not rel.endswith((".rs", ".toml", ".md", ".json", ".proto")):
                continue
            with open(os.path.join(REPO, rel), "rb") as f:
                data = f.read()
            if rel.endswith("Cargo.toml"):
                text = data.decode()
                text = re.sub(
                    r"(?m)^(%s)\s*=.*$" % "|".join(map(re.escape, DROP)), "", text
                )
                # the left-out members
                text = text.replace('  "ci/*",\n', "")
                data = text.encode()
            put(rel, data)
    for root, dirs, names in os.walk(WS):
        for n in names:
            rel = os.path.relpath(os.path.join(root, n), WS)
            if rel not in seen and rel != "Cargo.lock":
                os.remove(os.path.join(root, n))


if __name__ == "__main__":
    sys.exit(main())
