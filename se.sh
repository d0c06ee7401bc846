#!/bin/bash
# dev helper: se.sh ENTRY [opts]
p=${1:0:3}; LL=${LL:-/verif/.build/h_$p/harness.ll}; e=$1; shift; rm -f /tmp/o_$e.json
(ulimit -v 8000000; timeout 900 /verif/.build/engine/release/symex --ll $LL --entry $e --timeout 20 --out /tmp/o_$e.json "$@" >/tmp/o_$e.log 2>&1); echo "$e $?"; python3 -c "
import json;d=json.load(open('/tmp/o_$e.json'));d.pop('functions');print(' ',{k:d[k] for k in ('paths','insts','forks','merges','cuts','asserts','asserts_by_rewriting','asserts_by_solver','panics_refuted','queries','solver_s','max_query_s','by','wall_s','unknown','unsupported','reach')})
for v in d['violations'][:2]: print('  VIOL',v['id'],v['what'][:1500], v['model'][:300])" 2>/dev/null || tail -3 /tmp/o_$e.log
