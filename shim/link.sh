#!/bin/sh
# link.sh OUT OBJ...   Links the worker.  A shim for internal functions (int_*.o) whose symbols the library no longer
# provides is left out (its checks then report that they could not run) instead of making every check fail.
out=$1; shift
for try in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do
  if $CC -o $out.tmp "$@" -lm 2>$out.err; then mv $out.tmp $out; exit 0; fi
  bad=$(grep -o 'int_[a-z0-9_]*\.[oc]' $out.err | head -1 | sed 's/\.[oc]$//')
  [ -n "$bad" ] || { cat $out.err; exit 1; }
  echo "leaving out $bad:"; grep -m3 undefined $out.err
  new=; for o in "$@"; do case $o in */$bad.o) ;; *) new="$new $o";; esac; done
  set -- $new
done
exit 1
