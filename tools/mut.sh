#!/bin/bash
# mut.sh <check> <file-relative-to-c-impl> <perl-subst>   run a check against a mutated scratch copy
D=$(mktemp -d /tmp/mutXXXX); mkdir -p $D/c-impl; cp -a /repo/c-impl/. $D/c-impl/
perl -0pi -e "$3" $D/c-impl/$2
if diff -q $D/c-impl/$2 /repo/c-impl/$2 >/dev/null; then echo "NO CHANGE"; rm -rf $D; exit 9; fi
diff $D/c-impl/$2 /repo/c-impl/$2 | head -8
VERIF_REPO=$D $(dirname $0)/../run.sh $1 | grep -v "^  .skipped" | cut -c1-300 | awk "/violated|inconcl|error/ && n++>1 {next} /^VIOLATION/ && m++ {next} {print substr(\$0,1,200)}"
echo "rc=${PIPESTATUS[0]}"; rm -rf $D
