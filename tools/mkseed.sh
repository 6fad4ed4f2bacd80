#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" : patch from /tmp/sr_edit (a copy of /repo/include edited in place) and demo.cpp on stdin
set -eu
d=/verif/seeded/$1; mkdir -p $d
(cd /tmp/sr_edit && git diff) > $d/patch.diff
cat > $d/demo.cpp
cat > $d/demo.sh <<'X'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d); trap 'rm -rf "$o"' EXIT
g++ -std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -w -Iinclude "$d/demo.cpp" -o "$o/demo" || exit 3
timeout 60 "$o/demo"
X
python3 - "$@" <<'P'
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
(cd /tmp/sr_edit && git checkout -q .)
