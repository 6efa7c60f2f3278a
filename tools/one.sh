#!/bin/bash
# one.sh PROP entry args [symx flags]: build the bitcode of PROP's first group and run one instance
P=$1; E=$2; A=$3; shift 3; G=${G:-0}
python3 - $P $E $G <<'PY'
import sys; sys.path.insert(0,'/verif/tools'); import vp,props,tempfile,os,shutil
p,e,g=sys.argv[1:]; vp.setup(); G=dict(props.PROPS[p]['groups'][int(g)]); G['entries']=sorted(set([e]+[i['entry'] for i in G['instances']('quick')])); shutil.rmtree('/tmp/one',ignore_errors=True); os.makedirs('/tmp/one'); b=vp.Build(G,'/tmp/one'); b.symbolic()
PY
exec /verif/build/symx /tmp/one/m.bc --entry $E --args "$A" -v "$@"
