#!/bin/bash
# trydemo.sh <id>: demo on /repo and on the mutated scratch copy /tmp/mut/repo
(cd /repo && bash /verif/seeded/$1/demo.sh > /tmp/d1.out 2>&1); a=$?
(cd /tmp/mut/repo && gofmt -l $(git diff --name-only) ; bash /verif/seeded/$1/demo.sh > /tmp/d2.out 2>&1); b=$?
echo "$1: unchanged exit $a, mutated exit $b"; tail -3 /tmp/d1.out; head -8 /tmp/d2.out
