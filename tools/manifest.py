import json
idx=dict(l.split()[:2] for l in open('/verif/mc/checks/INDEX') if l.strip())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
'tri':('exhaustive enumeration of operation histories on the real code, compared with a brute-force reference',"Bounded: all histories up to a depth over alphabets of positions that include the degenerate cases. Trusts the reference geometry (exact integer predicates, half-plane clipping)."),
'fit':('exhaustive enumeration of point groups and histories on the real code, compared with a direct computation',"Bounded: all groups and histories over the listed alphabets, images, block and cache sizes. Cases in which exact rounding is ambiguous are counted but not judged. Trusts the reference computation."),
'rast':('exhaustive enumeration of shapes on the real code, compared with exact rational borders',"Bounded: all shapes over the listed grids. Trusts the reference; borders that hit a pixel boundary in the middle of a slope with rounding error may fall to either side."),
'algo':('exhaustive exploration of generations of the real algorithms under enumerated mutations, fitnesses and result orders',"Bounded: all choices for the listed populations, generations and menus of mutations and fitnesses, on the real code through its interfaces; fitnesses are either enumerated or those of the real functions. Assumes tasks handed to the worker pool run eventually."),
'sched':('stateless model checking of the real code under a controlled scheduler (preemption-bounded) plus enumeration of completion orders',"Bounded: all schedules up to the preemption bound over the listed configurations, with scheduling points before statements of the algorithm, evaluator and fitness packages (sequential consistency); data races by the race detector on the explored executions and on free runs."),
'rnd':('exhaustive enumeration of the random draws consumed by the real code, with a replaced source',"Bounded: all sequences of representative draws for the listed sizes. Trusts that the source is only used through its package interface."),
'vals':('exhaustive enumeration of inputs over bounded domains on the real code, compared with a direct computation',"Bounded: all inputs over the listed domains. Trusts the reference computation."),
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in idx:
        t,n=T[idx[i]]
        checks.append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":"model_checking","level_note":n})
    else:
        na.append({"property":i,"reason":"check in preparation"})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"The checks add scheduling points and replace random sources with a compiler overlay at build time; /repo carries no hooks.","source_commits":[]},"checks":checks,"not_applicable":na,
"notes":"./run.sh --replay FILE runs a recorded violation again. DESIGN.md describes the machinery; known_findings.jsonl lists the known finding and the repaired defects."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
