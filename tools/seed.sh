#!/bin/bash
# seed.sh <id>: the scratch copy /tmp/mut/repo holds the change and seeded/<id>
# holds demo_test.go and meta.json: record the patch and try the demonstration,
# the repository's tests and the check
cd /verif; tools/mkd.sh $1 $2
git -C /tmp/mut/repo diff > seeded/$1/patch.diff
tools/trydemo.sh $1
git -C /tmp/mut/repo checkout -q -- .
tools/catch.sh $1
