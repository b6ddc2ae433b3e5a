import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
MAIN="TLA+ specification (TLC): design model checked against a property kernel, its behaviours replayed into the real engine, recorded traces validated by TLC"
T={c["id"]:MAIN for c in P}
T["C17"]="TLA+ specification of concurrent start (TLC); its schedules replayed into real starts, recorded answers validated by TLC"
T["C18"]="TLA+ specification of a backend (TLC); its operation sequences replayed into both backends, answers validated by TLC"
T["C23"]="TLA+ specification of concurrent operations (TLC); its programs run by real threads on both backends, recorded histories checked for a sequential explanation by TLC"
N={}
for c in P:
    N[c["id"]]="TLC explores the scopes of this property exhaustively up to the stated depth and by random walks; every replayed behaviour of the real code is validated step by step. Trusted: the virtual clock and quiescence detection of the harness, TLC; behaviours outside the scopes, walks and sampled scenarios are not covered."
N["C06"]+=" The delay function is checked for all retry counts up to 69 and samples up to 2^31-2."
N["C13"]+=" Order of notifications is only required of hooks that do not suspend; panicking executions are exempt from after-hooks."
N["C14"]="As for the others, with control runs of each type alone. Known finding: the same id in two types (not generated)."
N["C18"]+=" The Redis backend talks to an in-process server implementing the list and hash commands it uses, not to a real Redis."
N["C23"]="TLC explores all programs of two threads with two operations; the programs, and larger random ones, are run by real threads with delays injected into memory allocation, so that the interleavings are sampled, not enumerated; TLC decides for every recorded history whether a sequential order explains it."
N["C19"]+=" Failures during the completion of an execution are not promised anything and are excluded."
N["C20"]+=" Jobs recorded as Running at the crash are not promised anything."
m=dict(version=1,setup_cmd="""python3 -c "import ajlib; ajlib.build()" """.strip(),
 checks=[dict(property=c["id"],quick_cmd="python3 check.py "+c["id"],thorough_cmd="VERIF_TIER=thorough python3 check.py "+c["id"],
   technique=T[c["id"]],level="model_checking",level_note=N[c["id"]]) for c in P],
 not_applicable=[],
 notes="No hooks in /repo: the harness interposes clock_gettime and epoll_wait in its own process and uses the public API with a custom backend.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
