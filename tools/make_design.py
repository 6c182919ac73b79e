import ast,glob,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
ORACLE={
'C01':('index arithmetic on the NumPy array written from the Kolda formula (independent of transpose/reshape order of the code); round trips fold(unfold) and unfold(fold); exact equality of bits','Orders above the 3 used in tests, singleton and equal mode sizes make permutations distinguishable that coincide on 3-way data.'),
'C02':('entry-by-entry placement from the listed axes; exact equality','axes order only matters from 3 modes on and coincides for sorted lists.'),
'C03':('np.kron, elementwise product, column-wise kron on the list that remains; integer data compared exactly','skip lists in arbitrary order and reversal only show with three or more matrices.'),
'C04':('np.tensordot + moveaxis per mode, float64; tolerance 64 eps of the sum of absolute products','skip and axis interact with order; order above 3 and axis lists not sorted are outside the tests.'),
'C05':('np.tensordot with the generated pairing / np.vdot; tolerance from the absolute sum; ValueError expected for unequal shapes','pairing in a non-monotone order is outside the tests.'),
'C06':('copies of all arguments taken before each call, results of the same call on pristine arguments in the same history','the defect class (mutation of a caller list, caching) needs two calls that share an object.'),
'C07':('a NumPy pool as model, every member compared after the whole program','stateful: method results cached in the object or written back show only after the second call.'),
'C08':('einsum in float64 with the tolerance of the given precision','order, rank > size and column-shaped weights.'),
'C09':('float64 formulas; TensorErr expected','sparse, sign-zero, tiny and huge entries, permuted shapes of equal size.'),
'C10':('the generated entry list itself (values parsed with float32(str))','file formats, unsorted entries and replaced files.'),
'C11':('reconstruction in float64 from the reported factors/core/weights; RMSE and residual recomputed from full','early stopping at unlogged steps, retraining.'),
'C12':('full at the same position, TensorErr before training','any position; call orders.'),
'C13':('float64 SVD of each unfolding: orthonormality, captured energy of each factor equal to the sum of leading squared singular values (robust to ties), core and full recomputed, error bounds sqrt(sum of tails), leading subspace compared where there is a gap','subspace optimality cannot be seen on one example.'),
'C14':('each observed sweep against captured-energy optimality for the projected unfolding, from the previous observed iterate; start from HOSVD; core energy never falls','the iterate of every step on generated data, including ties and rank = size.'),
'C15':('float64 Gauss-Seidel ALS sweep from the observed previous factors, projections compared with a tolerance that grows with the measured condition; the last update also checked against the truncated least-squares optimum; weights and normalisation','per-step optimality on generated data.'),
'C16':('harness/props/bcu.py: a reference step (projected gradient, 1/L, extrapolation, acceptance) fed with the observed previous iterates; free choice only where the decision is within rounding','needs the right history (rejected steps, extrapolation weights) to show errors.'),
'C17':('as C16, with core step first','as C16.'),
'C18':('replay of the stop rule over the returned history','stops at particular steps and tolerances.'),
'C19':('the first result of each training, the result of a lone model in a fresh graph','interleavings of several models.'),
'C20':('result equality between two logging settings; event file read back and compared with the history','logging intervals, early stops, second model in the graph.'),
'C21':('direct indexing; <A x, y> = <x, A* y>; constraints and ranks of generated matrices; coverage of sample positions','repeated samples and non-cubic shapes.'),
'C22':('float64 SVD reference plus proximal optimality (subgradient) condition','threshold between singular values; non-square matrices.'),
'C23':('float64 replay of the whole iteration on the sample drawn (recovered from a tensor with distinct entries, or handed in)','multi-step histories.'),
'C24':('numerical rank by float64 SVD of unfoldings, bounds on entries and noise, proportionality over levels with one seed','any shape/rank/seed.'),
'C25':('float64 NumPy','zeros in X, non-square, skip lists.'),
'C26':('the data itself','scale and order.'),
'C27':('the same decomposition on the transformed input (exact power-of-two scaling)','relations between two runs.'),
'C28':('public state read before, during (at every Session.run) and after each training; injected exception must come out itself; completed trainings compared with an undisturbed one in a fresh graph','needs a fault at a chosen session call and a retry.'),
'C29':('the shorter training is the oracle of the longer one (history prefix, state observed at that step)','needs two trainings of different length from one seed.'),
'C30':('the same models built and trained alone; a deterministic scheduler hands one baton between the threads at session calls, data requests and (via sys.setprofile) library function calls','needs particular interleavings.'),
'C31':('the training on the plain float64 array','tests use one array form.'),
'C32':('the other side of the identity, computed by the library itself; exact for integers','cross-operator conventions (order of reversed products) beyond order 3.'),
'C33':('the derivative: for an argument the operator is linear in, the same functional of the operator with that argument replaced by a direction (exact for integers); the formula for losses; a graph of constants for the re-runs','gradients and placeholders appear in no test.'),
'C34':('the exception: the spoiled call must raise when built or run; the fitting call beside it must answer, before and after, so refusing everything does not pass','misfits sit in arguments no test gives, and a broadcast or a clipped index answers them silently.'),
'C35':('the history the training returns (HOSVD: the RMSE of full; PITF: the summary; PITF_np: the returned records), to the digits printed; successive entries of np_y.txt must differ by the step size times the sampled data less np_e2.txt','output is where a user watches a training; it is filled by code beside the one that fills the history, with a condition of its own.'),
}
times={'C01':34,'C02':23,'C03':26,'C04':16,'C05':26,'C06':21,'C07':18,'C08':32,'C09':20,'C10':19,'C11':60,'C12':52,'C13':23,'C14':30,'C15':38,'C16':52,'C17':59,'C18':35,'C19':57,'C20':47,'C21':50,'C22':39,'C23':50,'C24':15,'C25':14,'C26':54,'C27':62,'C28':60,'C29':60,'C30':60,'C31':45,'C32':30,'C33':30,'C34':45,'C35':60}
out=open(V+'/docs/design_head.md').read()
out+='\n## Properties\n\n'
for p in props:
    t=ast.parse(open('%s/harness/props/%s.py'%(V,p['id'].lower())).read())
    c={}
    for n in t.body:
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name):
            try:c[n.targets[0].id]=ast.literal_eval(n.value)
            except Exception:pass
    o,w=ORACLE[p['id']]
    out+='### %s — %s\n\n- **Generated**: %s\n- **Oracle**: %s.\n- **Bounds and cost**: %d cases quick (about %d s on 8 idle cores), %d thorough; every case is a full execution of the code under test.\n- **Beyond the tests**: %s\n'%(p['id'],p['title'],c['RULE'],o,c['CASES']['quick'],times[p['id']],c['CASES']['thorough'],w)
    if c.get('ASSUMPTIONS'): out+='- **Assumptions**: %s.\n'%'; '.join(c['ASSUMPTIONS'])
    out+='\n'
kf=json.load(open(V+'/known_findings.json'))['findings']
out+='## Defects found in the pinned commit and repaired\n\nEach was first a VIOLATION of the named check on the base commit.\n\n'
for k in kf: out+='- %s `%s` %s\n'%(k['property'],k['commit'],k['what'])
seeds={}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(m)),d['needs']))
table='| check | catches |\n|---|---|\n'+''.join('| %s | %s |\n'%(k,'; '.join('`%s` (%s)'%x for x in v)) for k,v in sorted(seeds.items()))
out+='\n'+open(V+'/docs/design_tail.md').read().replace('SEEDED_TABLE',table)
open(V+'/DESIGN.md','w').write(out)
