#!/bin/sh
# refresh the reference snapshot from the current /repo (run by hand after a reviewed "fix:" commit)
set -e
rm -rf /verif/ref/enterprise
mkdir -p /verif/ref
cd /repo
find enterprise -name '*.py' | while read f; do mkdir -p /verif/ref/$(dirname $f); cp $f /verif/ref/$f; done
