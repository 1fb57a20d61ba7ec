#!/bin/bash
# check.sh ID: decides one property of /repo's working tree by static analysis (see DESIGN.md).
# Tier from VERIF_TIER (quick|thorough). Exit 0: holds on everything analysed; 1: VIOLATION; 2: no answer.
id=$1
here=$(cd "$(dirname "$0")" && pwd)
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1 ;; esac
s0=$(date +%s.%N)
since() { python3 -c "import sys,time;print('%.2f' % (time.time()-float(sys.argv[1])))" "$s0"; }
mkdir -p "$here/out/replay" "$here/evidence"
case $id in
  C01|C06|C12) cfgs="rel nostd small" ;;
  C10) cfgs=serde ;;
  C11) cfgs="rel nostd" ;;
  C13) cfgs="rel small serde" ;;
  C14) cfgs="rel chk serde chksmall" ;;
  C15) cfgs="rel serde" ;;
  C16) exec python3 "$here/tools/matrix.py" C16 "$tier" "$seed" 0 ;;
  C18) cfgs=schema ;;
  C19) cfgs="rel small" ;;
  C05|C07) cfgs="rel small" ;;
  C02|C03|C04|C08|C09|C17) cfgs=rel ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac

# reject LINES...: the interface the property is about does not type-check
reject() { # file with compiler output, what
  local r="$here/out/replay/$id.txt"
  { echo "property $id: $2"; echo; cat "$1"; } >"$r"
  python3 - "$here/evidence/$id.json" "$id" "$tier" "$seed" "$(since)" "$2" <<'P'
import json,sys
f,i,t,s,w,x=sys.argv[1:]
json.dump({"property":i,"tier":t,"seed":int(s),"level":"other","coverage":{"explanation":"type checking of the programs that use the interface the property is about: "+x,"programs_rejected":1},"wall_s":float(w),"violations":1},open(f,"w"),indent=1)
P
  echo "$2"; grep -m4 -A6 '^error' "$1"
  echo "VIOLATION property=$id replay=$r"
  exit 1
}

# type-level witnesses
wit=0
case $id in C13) wf=w-layout; wn=10 ;; C17) wf=w-order; wn=12 ;; C19) wf=w-threads; wn=22 ;; *) wf= ;; esac
if [ -n "$wf" ]; then
  rm -rf "$here"/out/wit/debug/.fingerprint/chf-* "$here"/out/wit/debug/.fingerprint/witness-*
  if (cd "$here/witness" && RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0 cargo check -q --offline --target-dir "$here/out/wit" --features "$wf") >"$here/out/wit.log" 2>&1; then wit=$wn
  elif grep -q '^error' "$here/out/wit.log" && (cd "$here/witness" && RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0 cargo check -q --offline --target-dir "$here/out/wit") >/dev/null 2>&1; then
    reject "$here/out/wit.log" "type-level witness $wf is rejected by the compiler"
  else echo "witness not analysable" >&2; head -20 "$here/out/wit.log" >&2; fi
fi

: "${wit:=0}"
if [ "$id" = C13 ]; then
  if python3 "$here/tools/borrow.py" "$here/out/borrow" >"$here/out/borrow.log" 2>&1; then wit=$((wit + $(sed -n 's/^ok //p' "$here/out/borrow.log")))
  elif [ $? = 1 ] && grep -q '^accepted' "$here/out/borrow.log"; then
    sed -i 's/^accepted/error: accepted/' "$here/out/borrow.log"
    reject "$here/out/borrow.log" "a program using a dangling or aliased reference is accepted"
  else echo "borrow witnesses not analysable" >&2; head -20 "$here/out/borrow.log" >&2; fi
fi

(flock 8; cd "$here/sa" && cargo build --release --offline -q --target-dir "$here/out/sa-target") 8>"$here/out/salock" 2>"$here/out/sa.log" || { cat "$here/out/sa.log" >&2; exit 2; }
args=()
for c in $cfgs; do
  if bash "$here/tools/build_ir.sh" "$c" "$here/out/$c"; then args+=("$c=$here/out/$c")
  else
    # does the crate itself compile here? If not, C16 is the property that is broken.
    if grep -q 'could not compile `chf`' "$here/out/$c.err"; then
      echo "configuration $c does not compile (property C16); analysed without it" >&2
      [ "$c" = "${cfgs%% *}" ] && reject "$here/out/$c.err" "the crate does not compile in configuration $c"
    elif grep -q 'could not compile `harness`' "$here/out/$c.err"; then
      reject "$here/out/$c.err" "a user of the public interface no longer compiles in configuration $c"
    else cat "$here/out/$c.err" >&2; exit 2; fi
  fi
done
exec "$here/out/sa-target/release/chfsa" check "$id" --tier "$tier" --seed "$seed" --verif "$here" --started "$(since)" --witness "$wit" "${args[@]}"
