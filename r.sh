for c in "$@"; do timeout 900 /verif/target/debug/fxharness $c ${T:-quick} ${S:-1} /tmp/o_$c.json /tmp/lits.txt; echo $c rc=$?; grep -E '"(ok|what|input|evaluations|seconds|exhausted_r1cs|truncated_r1cs)"' /tmp/o_$c.json | cut -c1-600| tr '\n' ' '; echo; done
