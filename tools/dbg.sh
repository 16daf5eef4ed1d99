#!/bin/bash
# dbg.sh FILE HARNESS "DEFS" cbmc-args...   plain-mode build and run, human readable
f=$1; h=$2; d=$3; shift 3
I="-I/verif/proofs"; for s in include src src/utils src/base_alloc src/ctl src/memspaces src/memtargets src/provider src/pool src/critnib src/ravl src/coarse src/uthash; do I="$I -I/repo/$s"; done
goto-cc $I -I/verif/proofs/include -D_GNU_SOURCE -DUMF_VERSION=0.11.0 -DVP_PLAIN $d --function $h -o /tmp/dbg_$h.gb /verif/proofs/$f || exit 1
timeout ${T:-300} cbmc /tmp/dbg_$h.gb --unwinding-assertions $X --no-malloc-may-fail --drop-unused-functions --slice-formula --verbosity 8 "$@" 2>&1
