# run all checks against the copy
cd /verif
ids=${1:-$(python3 -c "
import json
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)['id']
    if i[0]!='N': print(i)")}
cp /verif/known_findings.txt /tmp/vd/
cd /tmp/rf/repo/src && GO111MODULE=off GOPATH=/opt/vp/gopath go vet ./util ./collection 2>&1 | grep -v '^#' | grep -v 'vet: \|Sprintf\|should have signature' | head
echo $ids | tr ' ' '\n' | VERIF_REPO=/tmp/rf/repo VERIF_DIR=/tmp/vd xargs -P 7 -I{} sh -c 'timeout 900 ${AN:-/tmp/an} {} > /tmp/rf/out.{} 2>&1; tail -1 /tmp/rf/out.{}' | grep -v '^OK'
echo done
