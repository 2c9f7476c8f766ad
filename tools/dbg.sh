#!/bin/bash
# stack of a crashing P25 replay: tools/dbg.sh replays/P25-x.json
python3 - "$1" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); open('/tmp/ch','w').write(' '.join(map(str,d['choices'])))
P
exe=$(ls -t build/${2:-asan}-props_prog-* | head -1)
gdb -batch -ex run -ex bt --args $exe replay --id P25 --choices /tmp/ch --out /tmp/o.json --rec /tmp/rec --tier quick 2>&1 | grep -E "^#|Assert|runtime|ERROR" | grep -v "/usr/include\|nptl\|raise" | cut -c1-250 | head -20
