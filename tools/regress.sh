#!/bin/bash
# tools/regress.sh C07-multiply NAME: keep a replay file as a regression input
d=$(cd "$(dirname "$0")/.." && pwd)
id=${1%%-*}
mkdir -p "$d/regress/$id"
cp "$d/replays/$1.json" "$d/regress/$id/$2.json"
