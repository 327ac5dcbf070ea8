#!/bin/bash
# usage: mkseed.sh <id>: turns the working-tree diff of the scratch copy
# /tmp/mut/repo into /verif/seeded/<id>/patch.diff
git -C /tmp/mut/repo diff > /verif/seeded/$1/patch.diff; git -C /tmp/mut/repo checkout -q -- .; wc -l /verif/seeded/$1/patch.diff
