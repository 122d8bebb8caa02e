#!/bin/bash
# bundles the TypeScript package of the current directory with stand-ins for the packages it imports, and runs demo.js on it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
NODE_PATH=/opt/veriftools/node/node_modules node "$here/run.js" "$PWD" "$tmp"
