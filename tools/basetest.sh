#!/bin/bash
# run the repository's stable tests on a copy of /repo; prints what fails
w=$(mktemp -d /tmp/bt.XXXXXX); cp -a /repo/. $w/; export w
unshare -m bash -c 'mount --bind $w /repo; bash /opt/vp/test.sh $w.json >$w.log 2>&1'
python3 -c "
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(json.load(open('$w.json')).get('passed',[]))
m=[x for x in s if x not in p]
print(len(s)-len(m),'pass; failing:',m[:10])"
rm -rf $w $w.json $w.log
