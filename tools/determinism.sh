#!/bin/bash
# Event-list hashes of every run, for several seeds: in one process, split over eight, and in reverse order of the pieces.
# Prints the properties for which any line differs.
cd "$(dirname "$0")/.."
PLAIN=$(python3 build.py plain); TSAN=$(python3 build.py tsan)
N=${2:-240}; D=$(mktemp -d)
for P in M01 M02 M03 M04 M05 I01 S01 S02 S03 O01 L01 L02 D01 D02 D03 F01 F02 F03 C01 T01 W01; do
  S=$PLAIN; [ $P = D03 ] && S=$TSAN
  for seed in ${1:-1 2 3}; do
    $S hash $P --seed $seed --from 0 --to $N > $D/a &
    K=$((N / 6)); for i in 0 1 2 3 4 5; do $S hash $P --seed $seed --from $((i * K)) --to $(((i + 1) * K)) > $D/b$i & done
    wait
    for i in 0 1 2 3 4 5; do cat $D/b$i; done > $D/b
    cmp -s $D/a $D/b && echo "$P seed $seed: $N runs, equal" || { echo "$P seed $seed: DIFFERENT"; diff $D/a $D/b | head -4; }
  done
done
rm -rf "$D"
