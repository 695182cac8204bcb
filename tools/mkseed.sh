#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "breaks"  — takes the uncommitted change in /repo as the bug,
# /tmp/w/demo/* as the demo files (prog.c + want by default).
id=$1; S=/verif/seeded/$id; mkdir -p $S
git -C /repo diff > $S/patch.diff; git -C /repo checkout -q -- .
[ -s $S/patch.diff ] || { echo empty patch; exit 1; }
cp /tmp/w/demo/* $S/
[ -f $S/demo.sh ] || cat > $S/demo.sh <<'D'
#!/bin/bash
# Translates, compiles and runs prog.c; its output has to be as in "want".
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d) || exit 2; trap 'rm -rf "$W"' EXIT
mkdir -p "$W/home/tmp" "$W/home/bin"; ln -s "$R/lib" "$W/home/lib"; export CHELANG_HOME="$W/home"
cp "$D"/*.c "$W/"; cp -r "$D"/data "$W/" 2>/dev/null
cd "$W" || exit 2
timeout 60 "$R/target/debug/che" genc "$W/prog.c" "$W/out" || { echo "does not translate"; exit 1; }
gcc -std=gnu99 -w -g -fwrapv "$W"/out/*.c -lm -lpthread -o "$W/a" || { echo "does not compile"; exit 1; }
timeout 20 "$W/a" > "$W/got" 2>/dev/null; echo "rc=$?" >> "$W/got"
diff "$W/got" "$D/want" || exit 1
exit 0
D
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
rm -rf /tmp/w/demo; mkdir -p /tmp/w/demo
