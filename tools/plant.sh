#!/bin/bash
# plant.sh ID [--nochk]   with the bug applied in /repo's working tree and demo.sh,
# main.go and meta.json in seeded/ID: record the patch and confirm everything.
# PLANT_REPO and PLANT_VERIF name a clone of /repo and a copy of /verif to work in instead.
R=${PLANT_REPO:-/repo} V=${PLANT_VERIF:-/verif}
id=$1; d=/verif/seeded/$id
git -C $R diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Runs main.go (beside this file) against the module in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
unset GOROOT
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
echo '{"Replace":{"'"$PWD"'/zzdemo/main.go":"'"$here"'/main.go"}}' > "$w/overlay.json"
go build -overlay "$w/overlay.json" -o "$w/demo" ./zzdemo || exit 2
mkdir "$w/scratch"
cd "$w/scratch" && timeout -k 5 120 "$w/demo" "$w/scratch" "$here"
D
chmod +x "$d/demo.sh"
cd $R
if [ $R = /repo ]; then bash /tmp/rt.sh; else (
 export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin GOFLAGS="-mod=mod -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off
 unset GOROOT; go vet ./... && go test -count=1 ./...); fi > /tmp/plant.log 2>&1 && echo "tests pass" || { echo "TESTS FAIL"; grep -v '^ok' /tmp/plant.log | tail -5; }
bash "$d/demo.sh" > /tmp/plant.demo 2>&1; echo "demo with patch: $? $(tail -1 /tmp/plant.demo | cut -c1-150)"
if [ "$2" != --nochk ]; then
 for p in $prop $3; do
  bash $V/run.sh $p quick > /tmp/plant.chk 2>&1; echo "check $p: $? $(grep -m1 VIOLATION /tmp/plant.chk | cut -c1-200)"
 done
fi
git -C $R checkout -- .
bash "$d/demo.sh" > /tmp/plant.demo 2>&1; echo "demo clean: $? $(tail -1 /tmp/plant.demo | cut -c1-150)"
git -C $R status --short | head -3
python3 /verif/tools/orig.py $id
