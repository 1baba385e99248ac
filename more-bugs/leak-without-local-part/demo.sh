#!/bin/bash
# run in /repo after the build: exit 0 if the property holds
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc-13 -O1 -w -fopenmp  -Ilibgrpp -o "$t/demo" "$d/demo.c" libgrpp/*.c -Wl,--wrap=malloc,--wrap=calloc,--wrap=free -lm -lpthread || exit 2
timeout 250 "$t/demo"
