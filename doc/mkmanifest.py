import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
syn='exhaustive exploration of the token-string state space of the real parsers in lockstep with a reference model of the RFC 9535 grammar'
ev='exhaustive enumeration of (query, document) pairs within bounds, every execution compared with a reference evaluator'
T={'C01':syn+': acceptance','C02':syn+': syntax trees','C03':'exhaustive enumeration of string literals by pieces and of all escapes, compared with a reference decoder','C04':'exhaustive enumeration of signatures x argument forms x contexts, compared with a reference type checker','C05':syn+': displayed text read back by model and parser, fixed point','C17':syn+': termination under a supervisor, time growth over nesting families','C19':syn+': source ranges against the model\'s','C21':'exhaustive enumeration of boundary integers in every position, and of integer token strings, against the reference grammar','C22':syn+': kind of error','C25':syn+': classification','C26':syn+': all entry points compared with each other and, for acceptance, with the model',
'C15':'exhaustive enumeration of operation histories on shared environments, each step compared with a history-free reference evaluator',
'C16':'stateless model checking: all schedules of the real code under a controlled scheduler by number of preemptions',
'C24':'exhaustive enumeration of operation histories on structure-sharing lists, compared with plain sequences',
'C23':'exhaustive enumeration of signatures, arguments and contexts; each call and result compared with a reference evaluator',
'C14':'exhaustive enumeration of patterns and subjects, compared with a reference I-Regexp matcher',
'C27':'exhaustive enumeration of trees in every shape they can be built in, each classified, displayed, read back and evaluated in comparison with the reference model',
'C12':ev+', between engines and entry points, and over all ways to consume the lazy results'}
N={'syn':'Every execution within the stated bounds is run on the real parsers and compared with the model; trusts the reference grammar and typing rules in /verif/jpmodel; texts outside the enumerated families are not covered.',
'ev':'Every (query, document) pair within the stated bounds is run in all five evaluators and compared with the model; trusts the reference evaluator in /verif/jpmodel; larger queries and documents are not covered.'}
checks=[]
for p in P:
    i=p['id']
    note=N['syn'] if i in('C01','C02','C03','C04','C05','C17','C19','C21','C22','C25','C26') else N['ev']
    if i=='C27': note='Every tree within the stated bounds is built without a parser in each of the listed shapes and compared with the reference model; larger trees are not covered.'
    if i=='C16': note='All schedules of the listed scenarios up to the number of preemptions given in the evidence (all of them for most), switching at every use of a synchronisation object; sequentially consistent memory; scenarios with two or three threads.'
    if i=='C24': note='All operation histories within the stated bounds on the real lists of both crates that have them, against plain vectors.'
    if i=='C15': note='All histories within the stated bounds on the real environments; the reference evaluator has no state.'
    checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',evidence_file=f'evidence/{i}.json',technique=T.get(i,ev),level='model_checking',level_note=note))
json.dump(dict(version=1,setup_cmd='./run.sh build',checks=checks,not_applicable=[],hooks=dict(guard='verif_hooks (rustc --cfg)',enable='RUSTFLAGS="--cfg verif_hooks" (run.sh sets it when it builds mc): exports ConsList, the list behind node::Location, from two crates',source_commits=['5fe25df8dad33feeb0c7e3f7c7373c0707577ccd']),notes='Everything else uses the public interface; for C16 the unmodified crates are compiled with a stand-in for std (rustc wrapper conc/wrap.sh). run.sh replay FILE runs the case of a replay file again. Repairs of defects in /repo are listed in known_findings.txt.'),open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
