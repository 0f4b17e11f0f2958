#!/bin/bash
# Checks that the tools are there and that every specification parses.
set -eu
D=$(cd "$(dirname "$0")" && pwd)
cd "$D"
java -version 2>&1 | head -1
python3 --version
(. /opt/vp/env.sh 2>/dev/null || true; go version)
T=$(mktemp -d /tmp/zeropb-setup-XXXXXX)
trap 'rm -rf "$T"' EXIT
cp spec/*.tla "$T/"
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd "$T"
parse() {
  java -XX:-UsePerfData -Djava.io.tmpdir="$T" -cp "$J" tla2sany.SANY "$1.tla" > "$1.log" 2>&1 || { cat "$1.log"; exit 1; }
  if grep -qE '^\*\*\* Errors|Fatal errors' "$1.log"; then cat "$1.log"; exit 1; fi
}
P=$D/spec/pools
cp "$P/Small.tla" Pools.tla; cp "$P/DSmall.tla" DPools.tla; cp "$P/TreeArgs.tla" SPools.tla
cp "$P/PluginFiles.tla" GPools.tla; cp "$P/SchemaMany.tla" SchemaPools.tla
for m in Layout MCMessage MCDecode MCRead MCPair Trace StringTree Plugin PluginProc PluginTrace Gen; do parse "$m"; done
echo ok
