"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH, MD, BAY = 'panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py'
PYX = 'panels/models/clpt_bardell_field.pyx'
T = 'deterministic simulation'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook), technique=technique, note=note))


prop('F01', 'Fields do not depend on the number of cores or on thread scheduling',
     'Displacements, strains and stresses of a shell, an assembly or a stiffened bay at any set of points are the same whatever number of cores they are computed with and however the '
     'threads are scheduled, also when fewer threads than requested are available or the points do not divide evenly among them. They are the values the amplitudes define at those points, '
     'and nothing outside the results is written.',
     ['schedules', 'configurations', 'inputs'], 'every number of requested and obtained threads, every number of points, every interleaving of the threads, every initial content of fresh memory',
     'The tests evaluate fields on a few grids with the default number of cores and let the operating system schedule; a race or a wrong chunk shows up in some schedules or remainders only.',
     [PYX, SH, MD, BAY], [('chunks of points given to threads', PYX + ' fuvw, fstrain'), ('default grids', SH + ' _default_field')],
     T + ': seeded scheduler of the OpenMP threads at memory accesses', 'Seeded search over schedules and team sizes, compared bit for bit between schedules and with an independent dense reference '
     'model; assumes sequentially consistent memory.', observe=['returned arrays', 'write log of the instrumented extensions'])

prop('F02', 'Separate models can be used by separate threads at the same time',
     'Threads that each work on models of their own (defining, editing, assembling matrices and vectors, evaluating fields) each get exactly what they would get alone, under every interleaving. '
     'No call blocks another thread forever.',
     ['schedules', 'histories'], 'every interleaving, at lines of the library and at memory accesses of the compiled parts, of two or three callers with arbitrary sequences of operations and edits',
     'The tests are single-threaded; state shared between models (module-level tables, caches, static buffers) is harmless until two callers interleave.',
     [SH, MD, BAY, PYX, 'panels/modelDB.py'], [('results are kept per model', SH + ' fields, matrices'), ('models are looked up in shared tables', 'panels/modelDB.py')],
     T + ': seeded scheduler of callers and OpenMP threads', 'Seeded search over interleavings; every result compared with an independent dense reference model and with the same caller alone.')

prop('F03', 'Results of a shell always follow its current definition',
     'After any history of calculations and of changes to its definition (dimensions, region covered, radius, laminate, thicknesses, materials, densities, offset, number of terms and of '
     'integration points, boundary conditions, initial stresses, loads, flow, cores) every stiffness, initial stress, tangent, mass or aerodynamic matrix, force vector and field of a shell is the one '
     'its definition at that moment gives, as a freshly created shell would. Results already handed out, and what the caller passed in, are never changed by later calls.',
     ['histories', 'inputs'], 'every finite sequence of operations, edits and overwritten results on one or two shells, and every content of fresh memory',
     'The tests create a model, calculate once and discard it; wrong reuse of something computed earlier needs a particular order of operations and edits.',
     [SH, 'panels/shell_fext.py', 'panels/models/plate_clpt_donnell_bardell.pyx', 'panels/models/cylshell_clpt_donnell_bardell.pyx', PYX],
     [('what depends on the definition is built again before every operation', SH + ' _rebuild, _rebuild_model'), ('laminate from the current plies', SH + ' _get_lam_ABD')],
     T + ': seeded histories with a reference model', 'Seeded search over histories; every result compared with an independent dense reference model that knows only the current definition; fresh '
     'memory is filled with arbitrary contents chosen by the seed.',
     state=[('derived values', 'laminate, plies, model, stiffness kept on the shell', SH)], observe=['every returned or stored matrix, vector and field'])

prop('F04', 'Results of an assembly always follow its panels and connections',
     'After any history of calculations, changes to panels (also panels shared by two assemblies or used on their own in between), to their order or to the connections, every matrix, '
     'force vector and field of an assembly is the one its panels and connections at that moment give, with each panel at its own place. The connections and panels the user passed in are only read.',
     ['histories', 'configurations', 'inputs'], 'every finite sequence of operations and edits on assemblies of two to four panels joined in every supported way',
     'The tests assemble a fixed set of panels once; positions, sizes or connections left over from earlier use need a second assembly, another order or an edit in between.',
     [MD, SH, 'panels/multidomain/connections/penalties.py', 'panels/multidomain/connections/kCSSxcte.pyx', 'panels/multidomain/connections/kCSB.pyx'],
     [('positions of the panels', MD + ' _set_positions'), ('connection matrices', MD + ' get_kC_conn')],
     T + ': seeded histories with a reference model', 'Seeded search over histories; compared with an independent dense reference model of the assembly.',
     observe=['every returned matrix, vector and field', 'the connectivity passed by the user'])

prop('F05', 'Results of a stiffened bay always follow its panels and stiffeners',
     'After any history of calculations and of changes to a stiffened bay (its own dimensions, terms, flow, boundary conditions and forces, its panels, its one- and two-dimensional blade '
     'stiffeners) every matrix, force vector and field of the bay is the one its definition at that moment gives. The order in which different results are asked for does not matter.',
     ['histories', 'configurations', 'inputs'], 'every finite sequence of operations and edits on one or two bays with up to three panels and stiffeners',
     'The tests compute one result for a fixed bay; a result that needs another one first, or that keeps something of the previous definition, needs another order or an edit.',
     [BAY, 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py', 'panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx',
      'panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx', SH],
     [('panels and stiffeners follow the bay', BAY + ' _rebuild'), ('stiffeners follow their panels', 'panels/stiffener/bladestiff2d.py _rebuild')],
     T + ': seeded histories with a reference model', 'Seeded search over histories; compared with an independent dense reference model of skin, bases and flanges.')

prop('F06', 'A loaded model is the one last saved under that name, in any process',
     'What is loaded under a name, in the same process or after a restart that keeps only the files, gives the same results as the model had when it was last saved under that name, before and after '
     'further edits, and shares nothing with the model still in memory. Saving does not change what the model itself gives, whatever was calculated before, and any model that can be defined with '
     'picklable functions can be saved.',
     ['histories', 'configurations'], 'every sequence of operations, edits, saves under arbitrary names, loads and restarts, for shells, bays and assemblies saved panel by panel',
     'No test saves or loads; what a pickle keeps or loses depends on what was calculated and edited before.',
     [SH, BAY], [('save and load', SH + ' save, load; ' + BAY + ' save, load'), ('results dropped before saving', SH + ' _clear_matrices; ' + BAY + ' _clear_matrices')],
     T + ': seeded sessions with process restarts', 'Seeded search over sessions; every loaded model evaluated against the independent reference model of the definition saved last; restarts are '
     'real processes that see only the files.', observe=['files', 'results of the loaded model'])

prop('F07', 'Saves are atomic under crashes, disk errors, interrupts and concurrency',
     'Whenever a save is cut short (killed process, loss of power, full or failing disk, interrupt, something that cannot be saved), what can be loaded under that name afterwards is the complete '
     'version saved before or the complete new one, and the new one once a save has returned. A save or load that did not succeed says so with an exception, leaves the model usable, '
     'and the next save on a working disk succeeds.',
     ['crash_points', 'fault_sequences', 'schedules'], 'every file operation at which the process is killed or power is lost, every failing, short or interrupted file operation, every line at which an '
     'interrupt arrives, every interleaving of two saves or of a save and a load',
     'No test saves a file, let alone fails while doing so.',
     [SH, BAY], [('written aside, synced, then renamed', SH + ' open_replacing'), ('reading a complete file', SH + ' load')],
     T + ': simulated disk with crashes and faults', 'Seeded search over crash points and fault sequences on a simulated disk; a loss of power keeps what was synced, an arbitrary part of what was '
     'not, and renames in order.', observe=['files after the crash', 'what load() gives in a fresh process', 'exceptions'])

prop('F08', 'Interrupted or failed calculations leave the model as it was',
     'A calculation, assembly or field evaluation that is interrupted, runs out of memory or whose load function fails reports it with that exception instead of returning something. Afterwards '
     'the definition is unchanged, earlier results are intact, and every later operation gives what the definition gives, as if the failed one had not been asked for.',
     ['fault_sequences', 'histories', 'crash_points'], 'every line at which an interrupt or failure strikes, every failing allocation, every failing call of a user function, within every history of operations and edits',
     'The tests never interrupt a calculation; half-updated state only exists in between.',
     [SH, MD, BAY, 'panels/shell_fext.py'], [('values computed before being stored', SH + ' calc_kC, uvw'), ('working copies', SH + ' calc_kA; ' + BAY + ' calc_kA')],
     T + ': injected interrupts and failing allocations', 'Seeded search over places where the fault strikes; later results compared with an independent dense reference model.',
     observe=['exceptions', 'later results', 'definition'])

prop('F09', 'Requests that do not fit the current definition are refused',
     'A request that does not fit the definition of that moment raises an exception: amplitudes kept from before an edit or of another shape, per-ply data of another stack, constitutive arrays or '
     'points of other grids, matrices or vectors too small for the model, more terms or integration points than the tables hold, panels of a bay with other terms than the bay, connections with '
     'panels outside the assembly, unknown parts. Nothing is computed from whatever happens to be in memory, nothing is written outside the results, definition and earlier results stay as they '
     'were, and after the request is corrected every operation gives what the definition defines.',
     ['histories', 'inputs'], 'every history of operations, edits, refused and corrected requests, every misfit of the kinds named, every content of fresh memory',
     'The tests make only requests that fit; a misfit that is accepted reads or writes past arrays and gives results that depend on the contents of memory.',
     [SH, MD, BAY], [('length and shape of amplitudes', SH + ' check_c'), ('plies', SH + ' _rebuild'), ('panels of a connection', MD + ' get_kC_conn'), ('constitutive arrays', 'panels/models/*_num.pyx')],
     T + ': misfitting requests injected into seeded histories', 'Seeded search over histories and misfits; what follows is compared with an independent dense reference model. Any exception counts as a refusal.',
     observe=['exceptions', 'later results', 'definition', 'arrays returned earlier'])

prop('F10', 'Plots show the field asked for and leave models and figures alone',
     'A contour plot of a shell, an assembly, the skin or a stiffener of a bay shows the field the amplitudes define, at the points and offsets (or deformed positions) and with the levels asked '
     'for, in the axes given or in a new figure, and writes a complete picture when it is to be saved. Whether it succeeds or fails (disk error, interrupt, failing allocation or drawing call), it '
     'leaves definition, arguments and earlier results of every model as they were and the figures of the user open; a failing plot says so and leaves no figure behind.',
     ['fault_sequences', 'histories', 'inputs'], 'every field, grid and option of a plot, every place at which drawing, writing or calculating fails, within every history of field calculations, edits and plots',
     'No test draws anything; what a plot replaces or leaves open shows only in what is calculated or drawn afterwards, and mostly when it fails.',
     ['panels/plot_shell.py', MD, BAY], [('results put back and figures closed', 'panels/plot_shell.py keeping_results, closing_figures'), ('contours of the panels of a group', MD + ' plot'),
      ('contours of skin and stiffeners', BAY + ' plot_skin, plot_stiffener')],
     T + ': injected faults in drawing, writing and calculating', 'Seeded search over sessions and faults; what is passed to the drawing calls is compared with an independent dense reference model.',
     observe=['what is drawn', 'pictures written', 'open figures', 'results kept on the model'])

prop('F11', 'Nonlinear analyses return equilibrium states that reach the load',
     'Every state returned by a nonlinear (or linear) static analysis driven by the functions of a shell or an assembly balances the internal forces of its definition at that moment against the applied '
     'share of the loads, and the analysis reaches the full load whenever the model allows it. This holds whatever was calculated or edited before and whether or not earlier analyses were interrupted, '
     'ran out of memory or had a failing load; failing analyses say so, and what earlier ones returned stays as it was.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of analyses with their options and loads, of edits and of other operations, and every line, allocation or load function that fails during an analysis',
     'One test runs one fixed nonlinear problem once; a state kept from an earlier definition, load or failed analysis shows only in a session.',
     [SH, MD, 'panels/models/plate_clpt_donnell_bardell_num.pyx', 'panels/models/cylshell_clpt_donnell_bardell_num.pyx'],
     [('internal forces', SH + ' calc_fint; ' + MD + ' calc_fint'), ('tangent stiffness', SH + ' calc_kC, calc_kG with NLgeom; ' + MD + ' calc_kC, calc_kG')],
     T + ': seeded analysis sessions with injected faults', 'Seeded search over sessions and faults; every load step checked with an independent dense reference model; whether the load can be reached is decided '
     'by the same analysis of the reference model.', observe=['load steps and states returned by the analysis', 'exceptions', 'earlier results'])

prop('F12', 'Ready-made analyses solve the structure described by their arguments',
     'The ready-made analyses (compressed cylinders of several panels with and without stringers, single perturbation loads, stiffened panels in compression, vibration or flutter) build the structure and '
     'the loads their arguments describe, panel by panel, return its static solution, load multipliers or frequencies with matching modes, and the returned assembly gives the same results afterwards. '
     'Calls do not depend on earlier, interrupted, failed or simultaneous ones, and arguments are only read.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'], 'every combination of arguments, every sequence of calls and uses of what was returned, every interrupt or failing allocation, every interleaving of two callers',
     'The tests call two of them with one set of arguments and compare the first multiplier.',
     ['panels/multidomain/cylinder.py', 'panels/multidomain/cylinder_blade_stiffened.py', 'panels/multidomain/tstiff2d_1stiff_compression.py',
      'panels/multidomain/tstiff2d_1stiff_freq.py', 'panels/multidomain/tstiff2d_1stiff_flutter.py', MD],
     [('panels, loads and connections from the arguments', 'panels/multidomain/cylinder.py, cylinder_blade_stiffened.py, tstiff2d_1stiff_*.py')],
     T + ': seeded sessions, injected faults and interleavings', 'Seeded search over arguments, sessions, faults and schedules; compared with an independent dense reference model of the described structure and its dense '
     'eigenvalues.', observe=['returned assemblies, vectors, multipliers and modes', 'exceptions', 'arguments'])

prop('F13', 'Work that is repeated does not pile up memory, files, figures or threads',
     'Repeating the same work (building models, editing them, calculations, fields, plots, saving, loading, copying, ready-made analyses; on one model or on new ones, with the same numbers or others; '
     'successful, refused, interrupted, or hit by disk errors, failing allocations or load functions) leaves the same behind after every repetition once its results are dropped: memory, objects, '
     'open files, files on disk, figures, threads and the work each repetition takes do not grow with the number of repetitions.',
     ['histories', 'fault_sequences'], 'every piece of work, every way it can end, and any number of repetitions',
     'The tests run every piece of work once, without faults, in processes that end before anything can pile up.',
     [SH, MD, BAY, 'panels/plot_shell.py', 'panels/shell_fext.py'],
     [('matrices and fields kept on the model are replaced', SH), ('files replaced when complete', SH + ' open_replacing'), ('figures of failed plots closed', 'panels/plot_shell.py, ' + MD + ' plot')],
     T + ': seeded sessions repeated under injected faults', 'Seeded search over pieces of work and faults; growth is measured over 8 rounds and confirmed over up to 432 more, so that bounded caches are no alarm; '
     'memory is that of NumPy arrays and of allocations made by the Python code of the library.',
     observe=['traced memory by allocator domain', 'live objects', '/proc/self/fd and task', 'files in the working directory', 'open figures', 'lines of the library run per round'])

NA = [
    ('F20', 'Structural matrices are symmetric and of the right sign',
     'Stiffness, mass and initial stress matrices are symmetric; mass and unsupported stiffness matrices are positive semidefinite, with exactly the rigid body modes as null space.',
     'For every definition.', [SH], [('upper triangle mirrored', SH + ' calc_kC, calc_kM')],
     'a pure function of the definition: no schedule, clock, I/O or fault takes part. (The histories of F03-F05 compare these matrices with a reference, but nothing is decided about this law as such.)'),
    ('F21', 'Buckling loads and frequencies converge to the exact solutions',
     'With more terms, buckling loads and natural frequencies of plates and shells converge from above to those of the exact or a refined solution.',
     'For every definition with a known solution.', [SH, MD, BAY], [('Ritz approximation', SH)],
     'a mathematical property of the approximation, a pure function of its inputs: nothing nondeterministic takes part.'),
    ('F22', 'Integrals of the shape functions and quadrature rules are exact',
     'Tabulated integrals of products of the shape functions, their values and derivatives, and the quadrature weights agree with exact integration.',
     'For every pair of terms, order of derivation, edge condition, interval and number of points.', ['panels/core/src/bardell.cpp', 'panels/core/src/bardell_functions.cpp',
      'panels/core/src/legendre_gauss_quadrature.cpp'], [('closed-form tables', 'panels/core/src/bardell.cpp')],
     'tables and pure functions: no schedule, time, I/O or fault takes part.'),
]


def main():
    from importlib import import_module
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ('technique', 'note')}
            f.write(json.dumps(q, ensure_ascii=False) + '\n')
        for id, title, st, quant, files, mech, why in NA:
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=['inputs'], text=quant),
                                    why_tests_cant='The tests check a few definitions.', anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), ensure_ascii=False) + '\n')
    man = dict(version=1, setup_cmd='python3 check.py --build',
               hooks=dict(guard='PANELS_SIM_DIR', enable='No hook in /repo: check.py builds a copy of the working tree with compiler instrumentation (clang/gcc -fsanitize=thread calls bound to '
                          'sim/shim.c) and preloads the simulator; PANELS_SIM_DIR names that build and is never read by the library.', source_commits=[]),
               checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                            evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']) for p in P],
               not_applicable=[dict(property=n[0], reason=n[-1]) for n in NA],
               notes='One seed is one exactly repeatable run; python3 check.py ID --replay FILE replays a violation. See DESIGN.md.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    try:
        import jsonschema
    except ImportError:
        return
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), ps)
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in P:
        assert len(p['title']) <= 80, p['id']


if __name__ == '__main__':
    main()
