#!/bin/bash
# mkseed.sh ID PROPERTY PKG "needs" "what it breaks" < demo test source: takes the
# change from /tmp/sc (a scratch copy of /repo), writes /verif/seeded/ID. A sixth
# argument names a file of helpers, which becomes part of the demonstration.
ID=$1; S=/verif/seeded/$ID; mkdir -p $S
cat > $S/demo_test.go
git -C /tmp/sc diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change in /tmp/sc"; exit 1; }
git -C /tmp/sc checkout -q -- .
python3 - "$@" <<'P'
import json,sys
i,p,pkg,needs,what=sys.argv[1:6]
extra=""
if len(sys.argv)>6:
    import shutil; shutil.copy(sys.argv[6],f"/verif/seeded/{i}/helper_test.go")
    extra=f', \\"$PWD/{pkg}/zz_helper_test.go\\": \\"$D/helper_test.go\\"'
json.dump({"property":p,"needs":needs,"what_it_breaks":what},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
open(f"/verif/seeded/{i}/demo.sh","w").write(f'''#!/bin/bash
# Run in the repository's top directory: fails if the defect is present.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
echo "{{\\"Replace\\": {{\\"$PWD/{pkg}/zz_demo_test.go\\": \\"$D/demo_test.go\\"{extra}}}}}" > "$T/overlay.json"
export GOTOOLCHAIN=local GOPROXY=off
sed 's/^go .*/go 1.25.0/' go.mod > "$T/go.mod" && cp go.sum "$T/go.sum" || exit 2
go test -modfile "$T/go.mod" -overlay "$T/overlay.json" -count=1 -timeout 200s -run '^TestDemo' ./{pkg}
''')
P
