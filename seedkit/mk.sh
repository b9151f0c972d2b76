#!/bin/bash
# mk.sh ID: (re)creates the support files of seeded/ID
set -e
k=$(cd "$(dirname "$0")" && pwd); d=$k/../seeded/$1
mkdir -p "$d"
rm -rf "$k/../seeded/$1/shim"
cp -r "$k/../shim" "$d/shim"; rm -rf "$d/shim/glog"
cp "$k/fakes.h" "$k/build.sh" "$k/../mkconfig.py" "$d/"
