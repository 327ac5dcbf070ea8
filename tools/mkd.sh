#!/bin/bash
# mkd.sh <id> [pkg]: (re)create seeded/<id>/demo.sh from the template
cd /verif; mkdir -p seeded/$1; sed "s#@PKG@#${2:-zzdemo}#g; s#@EXTRA@#$3#" tools/demo.sh.tmpl > seeded/$1/demo.sh; chmod +x seeded/$1/demo.sh
