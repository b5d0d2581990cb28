import json,os,sys
ROOT=os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
built=sys.argv[1:]
props=[json.loads(l) for l in open(os.path.join(ROOT,'properties.jsonl'))]
TECH={
'C01':'deterministic simulation: seeded scheduler decides every thread switch (lines and bytecode instructions) of real threads; answers compared with an isolated reference run',
'C02':'deterministic simulation: seeded histories of queries and interleaved, abandoned or collected streams; answers compared with an isolated reference run',
'C03':'deterministic simulation with fault injection: asynchronous exceptions and stack exhaustion at seeded steps inside the library; later answers compared with an isolated reference run',
'C04':'deterministic simulation: seeded consumers that stop at any point in any way; prefixes compared with an isolated reference run, simulated time of first suggestions compared between small and enlarged dictionaries',
'C05':'deterministic simulation with fault injection: errors at seeded points of simulated file I/O and asynchronous exceptions during loads; content compared with a clean load and a clean reload',
'C06':'deterministic simulation with fault injection: simulated file I/O with seeded short, interrupted and re-chunked reads and containers; content compared with the model of the generated dictionary',
'C07':'deterministic simulation with fault injection: seeded corruption of archives at rest and in transit; outcome compared with the intact archive',
'C08':'deterministic simulation with fault injection: atomic replacement of files at seeded points of a load; content compared with all consistent combinations of versions',
'C09':'deterministic simulation with fault injection: accounting of simulated and real file handles over successful and failing loads, garbage collector off',
'C10':'deterministic simulation: one script of queries in interpreters with seeded hash seeds, random states, simulated clocks, locales and working directories; outputs compared',
'C11':'deterministic simulation: seeded histories and schedules of loads, rewrites, failures and queries over several dictionaries; content and answers compared with isolated loads',
'C12':'deterministic simulation with fault injection: simulated system folders with seeded contents, faults and changes during the search; outcome compared with a model of the documented search',
'C20':'deterministic simulation with fault injection: files deleted, replaced, overwritten, moved or failing and working directory changed at seeded points after a load; answers compared with an isolated reference run',
'C21':'deterministic simulation with fault injection: seeded sequences and schedules of loads (also failing ones), queries and suspended streams from seeded process states; settings of the process compared before and after',
'C22':'deterministic simulation: complete calls, and forks, made by a handler at seeded steps inside other calls; answers compared with an isolated reference run, waits for oneself detected',
'C23':'deterministic simulation: seeded histories of queries, open streams, copies and pickles (also made by a handler at a seeded step inside a call, also received by another interpreter), drops; answers and contents compared with an isolated reference run',
'C13':'deterministic simulation: long seeded histories of queries with abandoned and interrupted streams; allocator state monitored for growth',
}
NA={}
for p in props:
    if 14<=int(p['id'][1:])<=19:
        NA[p['id']]='A pure function of the dictionary and one word: it involves no concurrency, time, I/O, fault or other party, so there is no schedule or fault for a simulation to decide; that the function value does not depend on any of these is C01-C03, C10 and C11.'
man={'version':1,'setup_cmd':'./setup.sh','checks':[],'not_applicable':[],
'notes':'All checks are commands of one simulator (dst/). Replay a violation with ./check replay FILE. Known findings and fixed defects: known-findings.txt. Design: DESIGN.md.'}
NOTE='Seeded exploration with a fixed number of runs per tier (VERIF_SEED determines them all): violations found are real executions of /repo, absence is evidence on the explored runs only.'
for p in props:
    i=p['id']
    if i in built:
        man['checks'].append({'property':i,'quick_cmd':f'./check {i}','thorough_cmd':f'VERIF_TIER=thorough ./check {i}','evidence_file':f'evidence/{i}.json','technique':TECH[i],'level':'exploration','level_note':NOTE})
    elif i in NA:
        man['not_applicable'].append({'property':i,'reason':NA[i]})
json.dump(man,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
