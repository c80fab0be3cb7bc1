#!/bin/bash
# setup.sh DIR: lay the driver beside a demonstration
d=$1; s=/verif/sim/src
mkdir -p $d/drive/src
cp /verif/tools/demo/Cargo.toml $d/drive/
cp /verif/tools/demo/src/*.rs $s/{grammar,ldrive,lgrammar,ops,patn,pdrive,streams}.rs $d/drive/src/
cp /verif/tools/demo/demo.sh $d/; chmod +x $d/demo.sh
