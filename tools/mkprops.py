import json
L=[]
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    L.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
B='products/ellipy/'
PROP=B+'elltool/conf/properties/Properties.py'; PARSE=B+'elltool/conf/properties/_ParseProp.py'
ELL=B+'elltool/core/ellipsoid/Ellipsoid.py'; HYP=B+'elltool/core/hyperplane/Hyperplane.py'
AB=B+'elltool/core/abasicellipsoid/ABasicEllipsoid.py'; AE=B+'elltool/core/aellipsoid/AEllipsoid.py'
CORE=B+'elltool/core/core.py'; LOG=B+'gen/logging/logging.py'; COM=B+'gen/common/common.py'; DICT=B+'gen/dict/dict.py'
LA=B+'gras/la/la.py'; GEN=B+'gras/gen/gen.py'; TRI=B+'gras/geom/tri/tri.py'; GELL=B+'gras/geom/ell/ell.py'; SUP=B+'gras/geom/sup/sup.py'; GEOM=B+'gras/geom/geom.py'; SYM=B+'gras/sym/sym.py'
ALL=[PROP,PARSE,ELL,HYP,AB,AE,CORE,LOG,COM,DICT,LA,GEN,TRI,GELL,SUP,GEOM,SYM]
CONF=('process-wide configuration','one dictionary of eleven options shared by every thread','Properties.__conf_repo_mgr in '+PROP)
P('C01','Configuration options are atomic, independent, process-wide registers',
  'However threads interleave reads of options, writes of options, whole-configuration snapshots, replacements of the whole configuration and resets to defaults, the outcome is that of some sequential order of those calls which respects real time. In particular a completed write is seen by every later read in any thread, writing one option never loses or alters another, and nobody ever observes a partly built or partly replaced configuration.',
  ['schedules','histories'],'Every interleaving, at the granularity of single bytecode operations, of 2-4 threads running any sequence of getters, setters, snapshots, replacements and resets.',
  'The suite calls the setters and getters of the configuration almost nowhere and only from one thread; which interleaving loses an update depends on the schedule.',
  [PROP],[('single-store option write, single-load read','Properties.__set_option, __get_option'),('whole-dictionary replacement','Properties.init, set_conf_repo_mgr'),('snapshot by dict.copy','Properties.get_prop_dict')],[CONF],
  ['return values of the public getters and of the whole-configuration snapshot, with invoke/return order'])
P('C02','Objects capture one configuration at construction and keep it for ever',
  'Every ellipsoid or hyperplane takes each setting not given explicitly (tolerances, numbers of plot points) from one single configuration that was in force at some moment during the call that created it, even if other threads replace the configuration meanwhile. No later configuration change alters an existing object, and copies of an object (copies, replicas, projections of a copy) keep all the settings of the original rather than those of the configuration in force when they are made.',
  ['schedules','histories'],'Every interleaving of constructing calls (direct construction, from dictionaries, replication, results of operations) with replacements and resets of the configuration, and every later history of changes.',
  'Tests build objects under the untouched default configuration in one thread, so a torn or late-bound read of the configuration gives the same numbers.',
  [PARSE,PROP,ELL,HYP,AB],[('one snapshot per construction','ParsePropMixin.parse_prop'),('settings stored in the object','Ellipsoid.__init__, Hyperplane.__init__'),('settings passed on to copies','_get_single_copy of both classes, rep_mat, get_copy, get_projection')],[CONF],
  ['get_abs_tol/get_rel_tol/get_n_plot_2d_points/get_n_plot_3d_points of every object created'])
P('C03','Invalid settings are contained and recoverable',
  'A construction that meets an invalid setting, or a settings lookup that meets an invalid or unknown one, given explicitly or found in the current configuration, is rejected with a ValueError tagged wrongInput, produces no object and changes neither the configuration nor the caller\'s settings dictionary. Calls that do not use an invalid configured option, because they override it or do not need it, are unaffected, existing objects are unaffected, and as soon as a valid value is configured again everything works as before, in every thread.',
  ['fault_sequences','schedules','inputs'],'Every sequence, over several threads, of corrupting and repairing configuration options between and during constructions with valid and invalid explicit settings.',
  'One negative example of a settings lookup is tested, in one thread and never followed by a recovery.',
  [PARSE,PROP,ELL,HYP],[('check per option of the value actually used','ParsePropMixin.parse_prop'),('private copies of both dictionaries','args.copy(), get_prop_dict()')],[CONF],
  ['outcome of constructors and of Properties.parse_prop','Properties.get_prop_dict() before and after'])
P('C04','Each verbose diagnostic is emitted exactly once',
  'While verbose mode is on, every regularisation of a degenerate ellipsoid that the library reports writes each line of its diagnostic exactly once to the standard error stream in force at that moment, however many verbose calls came before, from whichever threads, and however calls overlap. While verbose mode is off nothing at all is written.',
  ['histories','schedules'],'Every history and interleaving of verbose operations on degenerate and regular ellipsoids, of switching verbose mode, and of redirecting standard error.',
  'No test switches verbose mode on; the effect of earlier calls and of simultaneous first calls on later output needs histories and schedules.',
  [LOG,ELL],[('one handler for each named logger','get_logger in gen/logging'),('verbose guard','is_bigger, is_internal, minksum_ea, minksum_ia')],
  [('handlers of the named loggers','process-wide registry of the standard logging package','get_logger in '+LOG)],['text written to sys.stderr during each call'])
P('C05','Diagnostics never change the outcome of a computation',
  'With verbose mode on, every operation returns the same result, or raises the same error, as with verbose mode off. This holds also when the log stream fails (I/O error, full disk, closed stream, short write, no stream at all, that is sys.stderr set to None) at any write or flush and when the wall clock jumps, and after the stream has recovered diagnostics are emitted again.',
  ['fault_sequences','histories'],'Every placement of stream faults and clock jumps within sequences of verbose operations, in one or several threads.',
  'Tests never run verbose, never with a failing stream, and cannot make time jump.',
  [LOG,ELL],[('standard logging handler swallowing stream errors','get_logger'),('diagnostics kept apart from the computation','verbose branches in Ellipsoid.py')],None,['results of the operations','text that reached the stream'])
P('C06','Concurrent calls do not interfere',
  'Any set of library calls run by several threads, on distinct or on shared arguments, in any interleaving, gives each caller exactly the result or error that call gives when run alone, as long as no call is documented to modify a shared object. Every call completes: no interleaving makes one block for ever.',
  ['schedules','inputs'],'Every interleaving at bytecode granularity of 2-4 threads calling any public operation of the package, in particular the same operation at the same time with different arguments.',
  'The suite is single-threaded; scratch storage, caches or temporary settings shared between calls show only when two calls overlap at the right place.',
  ALL,[('no state outside the arguments and the configuration','all modules')],[CONF],['returned values and raised errors of every public operation'])
P('C07','Results do not depend on what was called before',
  'The result of a call is determined by the contents of its arguments at the time of the call and the configuration in force: earlier calls, successful or failed, with the same or other arguments, never change it. This includes calling again with the same array object after its contents have changed.',
  ['histories','inputs'],'Every history of library calls, failed ones included, before a call, with arrays re-used and re-filled between calls.',
  'Tests call each function a few times on unrelated inputs and compare with constants; state carried from call to call needs particular sequences to show.',
  ALL,[('no caches or module-level scratch data','all modules')],None,['returned values of a call compared with the same call in a fresh process'])
P('C08','Calls never modify their arguments',
  'Except for the in-place projection, no operation changes any array, list, dictionary, ellipsoid or hyperplane passed to it: contents, shape, data type and writability are the same after the call, whether it succeeds or fails, and are never changed even temporarily while the call runs, as another thread reading the same data would notice. Operations therefore also accept read-only arrays wherever they accept writable ones.',
  ['schedules','inputs','fault_sequences'],'Every operation, every argument layout (vectors, matrices, stacks of matrices; writable or read-only; C or Fortran order), every instant during the call and every failure point.',
  'Tests look at results; scarcely any looks at the arguments afterwards and none during the call.',
  ALL,[('copies before in-place arithmetic','np.copy and expressions that allocate, throughout')],None,['arguments at every scheduling point and after the call'])
P('C09','Objects and results are independent of buffers held by callers',
  'Overwriting, at any time after a call returned, an array or dictionary that was passed to it or returned by it never changes any ellipsoid or hyperplane, any other result, the configuration, or any default or internal constant of the library. Copies and replicas of an object are likewise independent of it and of each other. (Exempt: an array helper that has nothing to do may return its own argument unchanged; and the configuration dictionary itself, as handed over whole by get_conf_repo_mgr and set_conf_repo_mgr.)',
  ['histories','fault_sequences'],'Every history of operations with the caller overwriting, between any two calls, any buffer it ever passed or received.',
  'Aliasing is invisible until a caller writes into a shared buffer and then looks elsewhere; tests hardly ever do.',
  [ELL,HYP,AE,AB,PROP,TRI,GEN,GEOM],[('copying property getters and setters','_shape_mat, _center_vec, _normal_vec'),('private copy of the configuration','Properties.get_prop_dict'),('fresh arrays from generators','icosahedron, sphere_tri, circle_part')],None,['state of every live object after every overwrite','results of fresh calls after overwrites'])
P('C10','A failed call leaves no trace',
  'If a call is cut short at any point by a failing allocation, a failing numerical routine or an interrupt, it raises that failure (or still returns the right result), never a wrong result; its arguments, all other objects, the configuration and locks are as before the call. For calls that change the configuration the change is then either complete or absent, and repeating a failed call succeeds with the usual result.',
  ['fault_sequences','crash_points'],'Every operation, and every point inside it at which memory can run out, a linear-algebra routine can fail to converge, or an interrupt can arrive.',
  'Tests never make an allocation or LAPACK call fail and never interrupt a call.',
  ALL,[('results built aside and returned whole','all modules'),('configuration replaced by one store','Properties.init')],[CONF],['outcome of the failed and of the repeated call','configuration, arguments and live objects after the failure'])
P('C11','In-place projection is all-or-nothing',
  'The in-place projection of an array of ellipsoids either projects every ellipsoid in it, each exactly once even if the same object occurs several times, or raises and leaves all of them exactly as they were; this holds for invalid bases, for ellipsoids whose projection is rejected, for failing allocations and for failing numerical routines at any point. An interrupt arriving at any moment never leaves an individual ellipsoid half projected: its centre and shape always belong together.',
  ['fault_sequences','crash_points','inputs'],'Every array of ellipsoids (with repetitions, mixed scales, any size), every basis, and every failure point inside the call.',
  'Tests project valid distinct ellipsoids and check the result; no failure in the middle of an array is tested.',
  [AE,ELL],[('validation before modification','AEllipsoid.projection'),('update of shape and centre','Ellipsoid._projection_single_internal')],[('centre and shape of an ellipsoid','the two must have the same dimension','Ellipsoid._center_vec/_shape_mat')],['parameters() of every ellipsoid of the array after the call'])
P('C12','Rejections name their origin even when sources are unreadable',
  'Every rejected call raises a ValueError whose text is the upper-case dotted place of rejection with colons, then the tag, then the message, and this text is the same whichever thread, call depth or history the call comes from and however rejections in several threads overlap. It is also the same when the source files of the library or of its callers have become missing, unreadable, truncated, or undecodable on disk: reporting an error never fails itself.',
  ['fault_sequences','schedules','histories'],'Every rejecting call, from any thread and depth, with any disk fault on any source file read while the report is being made.',
  'Tests check that the tag occurs in the message, with intact sources and in one thread.',
  [COM,LA,GEN,ELL,HYP,PARSE],[('caller identification from the stack','get_caller_name_ext'),('uniform error construction','throw_error')],None,['type and text of the exceptions raised'])
P('C13','User-supplied functions are called once per item, in order, transparently',
  'An operation that takes a function calls it exactly once for each item it must process (time point, slice, refinement step, comparison), in order; the function may fail at any call, run other library operations, pause while other threads run, keep its argument, or overwrite it. A failure reaches the caller unchanged with the caller\'s data untouched, and nothing such a function does to the buffers it is given changes the caller\'s arrays or other items\' results.',
  ['fault_sequences','schedules'],'Every failing call index, every re-entrant use, every interleaving with other threads, for every operation that takes a function.',
  'Tests pass well-behaved pure functions only.',
  [TRI,GEN,COM,AB],[('refinement callback','shrink_face_tri'),('per-time and per-slice evaluation','MatVector.from_func, eval_func'),('norm and reduction callbacks','abs_rel_compare, get_property')],None,['sequence of calls the function sees','exception identity','caller arrays'])
P('C14','Comparison of dictionaries does not depend on ordering',
  'Comparing dictionaries, or arrays of them, gives the same verdict and the same report text for the same contents, whatever the insertion order of keys at any nesting level, the hash values of the keys, or the interleaving with other comparisons. The same holds for equality of ellipsoids and hyperplanes and its report.',
  ['configurations','schedules','inputs'],'All insertion orders and hash seeds (iteration orders of hashed containers) for nested dictionaries with equal, different and missing keys, in one or several threads.',
  'A test runs with one insertion order and one hash seed.',
  [DICT,AB],[('sorted keys','dict_compare_vec')],None,['verdict and report of dict_compare, is_equal'])
P('C15','Saved objects survive restart under any configuration',
  'An ellipsoid or non-trivial hyperplane exported to a dictionary with its settings, or pickled, and restored in another process after a crash of the first, is equal to the original and has all its settings, whatever configuration either process was using at any of these moments. A crash during an export never damages exports completed earlier.',
  ['crash_points','configurations','histories'],'Every crash point during a sequence of exports, and every pair of configurations at export and at restore.',
  'Tests export and restore in one process under the default configuration.',
  [ELL,HYP,PARSE],[('export with settings','to_dict'),('restore with explicit settings','from_dict'),('plain picklable state','Ellipsoid, Hyperplane')],None,['is_equal with settings of original and restored object'])
P('C16','The library leaves the process environment as it found it',
  'After any call, successful, rejected or cut short by a fault, in one thread or overlapped with others, the interpreter-wide settings that belong to the application are as before: numerical error handling and printing options, warning filters, random generators, recursion limit, working directory, environment, signal handlers, standard streams, the root logger and other loggers, open files and threads, and the library\'s own configuration unless the call was to change it.',
  ['fault_sequences','schedules','histories'],'Every operation, every fault point in it and every overlap with other operations.',
  'Tests never look at interpreter-wide settings.',
  ALL,[('no use of global settings','all modules')],None,['snapshot of interpreter-wide settings before and after each call'])
P('C17','Any import order, or a failed import that is retried, gives the same library',
  'Whichever module of the package is imported first, in whatever order, and also when an import fails half-way because a file could not be read and is tried again, the package ends up importable, with one shared configuration holding the defaults, and every operation behaves the same. Importing further modules later never resets or duplicates the configuration.',
  ['fault_sequences','schedules','configurations'],'Every order of first imports of the modules, every position of a transient read failure during them, and every later import.',
  'The test run imports the modules in one order, without failures.',
  [PROP,PARSE,TRI,GEOM,ELL,CORE],[('single initialisation at import','Properties._implicit_init'),('late imports inside functions against cycles','Ellipsoid.py, geom.py')],[CONF],['identity of the configuration class and results of operations after importing'])
P('C18','A release stops at the first step that fails',
  'The release command builds, uploads, tags and pushes tags in that order, and when a step fails no later step is carried out: nothing is uploaded that was not built, and no version is tagged or published that was not uploaded.',
  ['fault_sequences'],'Every combination of failing steps.','The command is not tested at all; its steps act on the outside world.',
  ['products/setup.py'],[('sequence of shell commands','UploadCommand.run')],None,['commands handed to the shell, and the exit of the command'])
# ---- pure properties: not applicable
def N(id,title,statement,files,mech,why='Tests sample a few inputs; the property quantifies over all inputs.'):
    P(id,title,statement,['inputs'],'All admissible inputs.',why,files,[(mech,files[0])])
N('N01','Support values and boundary points are correct',
  'For every ellipsoid and direction the support value is the maximum of the direction functional over the ellipsoid, and the returned boundary point lies in the ellipsoid and attains it.',[GELL,ELL],'rho_mat, rho')
N('N02','Minkowski-sum approximations are external, internal and tight',
  'For every set of ellipsoids and every direction, the external approximation contains the geometric sum, the internal one is contained in it, and both touch it in that direction.',[ELL],'minksum_ea, minksum_ia')
N('N03','Containment tests are sound',
  'A point is reported inside an ellipsoid, or inside the union or intersection of several, exactly when it is within tolerance; one ellipsoid is reported bigger than another with the same centre exactly when it contains it.',[ELL,CORE],'is_internal, is_bigger, ell_sim_diag')
N('N04','Projections, polars and volumes are mathematically right',
  'The projection of an ellipsoid is the set of projections of its points, the polar of an ellipsoid is its polar set, and the volume, trace and extreme eigenvalues belong to its shape.',[AE,ELL,GELL],'projection, polar, volume')
N('N05','Linear-algebra helpers satisfy their defining identities',
  'Rotations map the source direction to the destination and are orthogonal; square roots are symmetric positive and square to the input; regularisation gives positive definite matrices that differ from the input only where needed; simultaneous diagonalisation diagonalises both matrices.',[LA,CORE],'orth_transl*, sqrtm_pos, reg_pos_def_mat, ell_sim_diag')
N('N06','Triangulations are consistent and cover the sphere',
  'Refinement of a triangulation keeps shared edges shared, never leaves an edge longer than the bound when steps suffice, and sphere triangulations are closed surfaces with all vertices on the unit sphere.',[TRI,GEOM],'shrink_face_tri, sphere_tri, map_face_2_edge')
N('N07','Matrix-in-time algebra equals slice-wise algebra',
  'Every operation on stacks of matrices equals the ordinary matrix operation applied to each time slice, for every combination of shapes and both evaluation methods.',[GEN],'MatVector and subclasses')
N('N08','Equality of objects is tolerance-consistent',
  'Two objects compare equal exactly when their defining data agree within the absolute or relative tolerance of the compared objects; hyperplanes that describe the same set compare equal.',[AB,DICT,COM],'is_equal, abs_rel_compare')
N('N09','Hyperplane predicates are right',
  'Membership of points, parallelism and dimension of hyperplanes agree with their geometric definitions within tolerance.',[HYP],'contains, is_parallel, dimension')
N('N10','Geometric differences and boundaries from support functions are right',
  'The support function of a geometric difference, and boundary points reconstructed from support values, agree with the convex sets they describe.',[SUP],'sup_geom_diff_2d/3d, sup_2_boundary_2/3')
N('N11','Symbolic helpers are right',
  'Dependence on time is reported exactly when the variable occurs as a whole word, and variable replacement replaces whole-word occurrences only.',[SYM],'is_dependent, var_replace')
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
import subprocess
