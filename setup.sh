#!/bin/bash
# Checks that the toolchain is there and that the specification type-checks. Every check builds its own drivers.
set -e
cd "$(dirname "$0")"
command -v quint g++ clang++ python3 >/dev/null
test -x /opt/vp/venv/bin/python
for f in spec/*.qnt; do quint typecheck "$f" | tail -3; done
quint test spec/theorems.qnt --main=theorems --max-samples=1 --match=layoutTest | tail -3
mkdir -p build evidence
