#!/bin/bash
# nothing is installed: check that the tools exist and that the specification typechecks
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
for t in gcc quint java python3; do command -v $t > /dev/null; done
ls spec/*.qnt | xargs -P 8 -n 1 sh -c 'quint typecheck "$0" > /dev/null'
(cd spec/tla; ls *.tla | xargs -P 8 -n 1 java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY > /dev/null)
