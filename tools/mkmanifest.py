import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech={
'C01':'seeded deterministic simulation with stalls and preemption; Wing-Gong linearizability check of every history',
'C02':'seeded deterministic simulation with pauses between the two halves of operations; strengthened linearizability with per-key exclusion windows',
'C03':'seeded deterministic simulation of aborts at every tree shape; prepare/finalize sweep over all keys afterwards',
'C04':'seeded deterministic simulation with stalls, then a fair schedule; completion within a step bound',
'C05':'seeded deterministic simulation; overlap of reservations, operations and stopped intervals in the recorded history',
'C06':'seeded deterministic simulation; interval bounds on every length query, exact equality at rest and across restarts',
'C07':'seeded deterministic simulation of readers stalled inside a call under churn; presence-interval check of every result',
'C08':'seeded deterministic simulation of long insert/remove cycles; block count must stop growing',
'C09':'seeded deterministic simulation; iteration results against per-key presence intervals and an ordered map',
'C10':'seeded deterministic simulation; prefix iteration, count, minimum and maximum against presence intervals and an ordered map',
'C11':'seeded deterministic simulation; minimum and maximum against presence intervals and an ordered map',
'C12':'seeded deterministic simulation; counts against presence intervals and an ordered map',
'C13':'seeded deterministic simulation of save/load/restart histories with both trees used afterwards, against an ordered map',
'C14':'seeded deterministic simulation with injected write errors at every byte; result, termination, leftover tasks and content',
'C15':'seeded deterministic simulation with truncated and failing streams at every byte; every one must be rejected',
'C16':'seeded deterministic simulation delaying the background task from before its first step to after Close, including a Close while callers are working',
'C20':'seeded deterministic simulation of clients working on several trees with values unique to each; every tree judged against its own history, and memory shared between trees by the race detector',
'C19':'seeded deterministic simulation of commands with arbitrary arguments at arbitrary moments; output against presence intervals and, at rest, against the stored keys',
'C18':'seeded deterministic simulation with stalls; vector-clock happens-before race detection on every instrumented access',
'C21':'seeded deterministic simulation stopping callers for ever at any point; the others must complete within a step bound, with results judged as in C01 and C07 to C12',
'C22':'seeded deterministic simulation with every buffer a caller lends compared byte by byte, shared between callers and overwritten after use; results judged as in C01 and C09 to C12',
'C23':'seeded deterministic simulation starting from recorded states of earlier builds, delivered in pieces of any size, with concurrent use and further restarts; judged against what was stored',
'C17':'seeded deterministic simulation of long histories with aborts and restarts against an ordered map',
}
note=("Seeded search: no violation in the simulated executions of this run (counts, fault kinds and distinct executions in the evidence file); not exhaustive. "
"Runs the real package, compiled from the working tree after a mechanical rewrite that sends scheduling, atomics, channels, clocks and slot accesses to the simulator; "
"capacity constants (block size, batch length, node-256 threshold, epoch length) are varied next to the shipped ones. Trusts the rewrite, the simulator and the oracles; "
"sequentially consistent memory; callers follow the documented protocol.")
extra={'C23':' Runs with the shipped constants only; the recorded states are those of the original commit and of the repaired one (cmd/dst/golden).',
'C18':' Happens-before edges come from the simulated locks, channels, atomics and task starts; only accesses in the executed schedules are judged.',
'C08':' The plateau rule needs small blocks and short epochs, so the shipped constants are not used here.',
}
na={
'N01':'pure function of its input: no schedule, time, I/O or second party for a simulation to decide; exercised only indirectly by C17 (every key length) ',
'N03':'memory per key and throughput on real hardware cannot be decided under a simulated scheduler',
}
checks=[]
for p in props:
    i=p['id']
    if i in tech:
        checks.append({'property':i,'quick_cmd':f'./check.sh {i}','thorough_cmd':f'./check.sh {i} -tier thorough','evidence_file':f'evidence/{i}.json','technique':tech[i],'level':'exploration','level_note':note+extra.get(i,'')})
m={'version':1,'setup_cmd':'./check.sh C01 -setup','hooks':{'guard':'none: no hook is committed in /repo','enable':'check.sh rewrites a scratch copy of the working tree (cmd/instrument) into build/, which routes scheduling, atomics, locks, channels, clocks and slot accesses to simrt','source_commits':[]},'checks':checks,'not_applicable':[{'property':k,'reason':v.strip()} for k,v in na.items()],
'notes':'Known findings and fixes: KNOWN_FINDINGS. Replay a violation with ./check.sh ID -replay FILE.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
