#!/bin/bash
# m.sh PROP CASES file old new : one line verdict of a mutation
p=$1; n=$2; shift 2
echo "== $p $1 | ${2:0:70} -> ${3:0:70}"
MUTARGS="--cases $n" /verif/tools/mut.sh $p "$@" 2>&1 | grep -v observed | cut -c1-220 | head -${LINES_MAX:-2}
