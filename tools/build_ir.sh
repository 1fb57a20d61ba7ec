#!/bin/bash
# build_ir.sh CONFIG OUT: compiles /repo and the harness to LLVM IR (no LLVM passes run) for one
# configuration and writes the list of IR files of exactly this build to OUT. Nothing is executed.
set -u
cfg=$1; out=$2
here=$(cd "$(dirname "$0")/.." && pwd)
tgt=$here/out/target
case $cfg in
  rel)   feat=std,io; extra=() ;;
  nostd) feat=; extra=() ;;
  small) feat=std,io,small-hash; extra=() ;;
  chk|chksmall)
         feat=std,io,serde; [ $cfg = chksmall ] && feat=std,io,small-hash
         extra=()
         for p in chf harness hex-conservative bitcoin-io; do
           extra+=(--config "profile.dev.package.$p.overflow-checks=true" --config "profile.dev.package.$p.debug-assertions=true")
         done ;;
  serde) feat=std,io,serde; extra=() ;;
  schema) feat=std,io,schemars; extra=() ;;
  *) echo "unknown configuration $cfg" >&2; exit 2 ;;
esac
mkdir -p "$tgt"
exec 9>"$here/out/lock"; flock 9
# Always recompile the analysed crate: never trust timestamps.
rm -rf "$tgt"/x86_64-unknown-linux-gnu/debug/build/chf "$tgt"/x86_64-unknown-linux-gnu/debug/build/harness \
       "$tgt"/x86_64-unknown-linux-gnu/debug/.fingerprint/chf-* "$tgt"/x86_64-unknown-linux-gnu/debug/.fingerprint/harness-*
cd "$here/harness" || exit 2
CARGO_TARGET_DIR=$tgt RUSTFLAGS="--emit=llvm-ir -C no-prepopulate-passes" CARGO_INCREMENTAL=0 \
  cargo +nightly build --offline -q --lib -Zbuild-std=core,alloc,std,panic_abort --target x86_64-unknown-linux-gnu \
  --no-default-features --features "$feat" "${extra[@]}" --message-format=json >"$out.json" 2>"$out.err"
rc=$?
if [ $rc -ne 0 ]; then
  python3 - "$out.json" >>"$out.err" <<'P'
import json,sys
for l in open(sys.argv[1]):
    try: m=json.loads(l)
    except ValueError: continue
    if m.get('reason')=='compiler-message' and m['message'].get('level')=='error': print(m['message'].get('rendered',''))
P
  exit 1
fi
python3 - "$out.json" "$out" <<'P'
import json,sys,os,re
o=[]
for l in open(sys.argv[1]):
    try: m=json.loads(l)
    except ValueError: continue
    if m.get('reason')!='compiler-artifact': continue
    for f in m['filenames']:
        b=os.path.basename(f)
        if not b.startswith('lib') or not (b.endswith('.rlib') or b.endswith('.rmeta')): continue
        ll=os.path.join(os.path.dirname(f), re.sub(r'\.r(lib|meta)$','.ll',b[3:]))
        if os.path.exists(ll): o.append((m['target']['name'].replace('-','_'), ll))
o=sorted(set(o))
if not any(n=='harness' for n,_ in o): sys.exit('no harness IR')
# keep this build's files apart from later builds of other configurations
d=sys.argv[2]+'.d'
os.makedirs(d,exist_ok=True)
with open(sys.argv[2],'w') as w:
    for n,f in o:
        if n in('harness','chf'):
            t=os.path.join(d,n+'.ll')
            if os.path.exists(t): os.remove(t)
            import shutil; shutil.copyfile(f,t); f=t
        w.write(n+' '+f+'\n')
P
