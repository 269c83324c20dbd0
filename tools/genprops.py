#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/genprops.py)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                     observe_at=observe or [],hook_needed=None)))
SV="internal/service/deckard_service.go"; Q="internal/queue/queue.go"; HK="internal/queue/queue_housekeeper.go"
MC="internal/queue/cache/memory_cache.go"; RC="internal/queue/cache/redis_cache.go"; RS="internal/queue/cache/redis_cache_scripts.go"
MS="internal/queue/storage/memory_storage.go"; MG="internal/queue/storage/mongo_storage.go"; ST="internal/queue/storage/storage.go"
MAIN="internal/cmd/deckard/main.go"; CFG="internal/config/"; AU="internal/audit/audit.go"; SH="internal/shutdown/shutdown.go"
exec(open(os.path.join(os.path.dirname(__file__),'props_body.py')).read())
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
