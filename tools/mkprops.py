import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)
B="pkm/src/pkm/"
V=B+"api/versions/version.py"; S=B+"api/versions/version_specifiers.py"; VP=B+"api/versions/version_parser.py"
p("C01","Versions are ordered by PEP 440 precedence, as a strict total order",
 "For all standard versions (with normalised local labels), less-than agrees with PEP 440 precedence: epoch, zero-padded release, then pre/post/dev markers, then local label; less-or-equal is less-than or equal. Exactly one of less, equal, greater holds for any pair and less-than is transitive. A url version sorts before every named version, and a named version before every standard one.",
 ["inputs"],"all pairs and triples of standard versions with release segments of any length, any optional part present or absent, plus named and url versions",
 "The unit test orders one fixed list of a few dozen versions; transitivity and totality quantify over all pairs and triples of unbounded release tuples and optional parts.",
 [V],[("_less",V+":_less"),("zero padding",V+":StandardVersion.normalized"),("__lt__/__le__",V+":Version.__lt__, StandardVersion.__le__")],
 "results of <, <=, == and sorted() on Version objects")
p("C02","Versions that denote the same version are equal and hash alike",
 "Two standard versions compare equal exactly when they agree on epoch (missing means 0), on release up to trailing zero segments, on pre, post, dev parts and on local label (ignored when the comparison asks for it). Equal versions always have equal hashes, so sets and dictionaries keyed by version treat them as one.",
 ["inputs"],"all pairs of standard versions of any release length",
 "Tests compare a handful of hand-written pairs and never hash epoch or zero-padded variants; the congruence is over all pairs.",
 [V],[("equals_to",V+":StandardVersion.equals_to"),("__hash__ and trailing zero removal",V+":StandardVersion.__hash__, standartize")],
 "== and hash() of versions, membership in sets")
p("C03","Version specifier algebra is the set algebra of the versions allowed",
 "For specifiers over public (non-local) versions and every public version that is not a post-release: an intersection allows it iff both operands do, a union iff at least one does, an inverse iff the original does not, a difference iff the first does and the second does not. If one specifier claims to allow all of another then everything the second allows the first allows, and if it claims to share nothing with another then no version is allowed by both. None of these operations changes its operands or fails.",
 ["inputs","programs"],"all specifiers built by any nesting of these operations from comparisons, exact matches, exclusions, the empty and the full specifier; all public non-post versions",
 "Tests check a few dozen concrete pairs by their printed form; the law must hold for every operand shape, every bound order and arbitrarily long unions and exclusion lists.",
 [S],[("intersect/union/inverse/difference of each specifier class",S),("segment merging in unions",S+":VersionsUnion.union_with"),("exclusion lists",S+":HetroVersionIntersection")],
 "allows_version on results of the operations; equality of operands before and after")
p("C04","A version specifier text accepts exactly the versions it denotes",
 "For every specifier text made of comma-separated clauses (==, !=, their .* prefix forms, ~=, >=, >, <=, <, *, optional whitespace and parentheses) a public version that is not a post-release is allowed iff it satisfies every clause; >=, >, <=, < and exact clauses compare by version order, and for final versions V.* (V a final version) means the release starts with V, padded with zeros, and ~= means at least V with all but V's last segment as prefix.",
 ["inputs"],"all clause lists over versions with releases of any length, and all final, pre- and dev-release public versions",
 "Tests parse a small fixed set of strings; release length, carry of the incremented segment, clause order and version are unbounded.",
 [VP,S],[("single clause to specifier",VP+":VersionParser._read_single_specifier"),("conjunction",VP+":VersionParser.read_specifier"),("range construction",S+":VersionSpecifier.create_range")],
 "VersionSpecifier.parse(text).allows_version(version)")
p("C05","Version text parses to its parts and prints back unchanged",
 "Parsing a PEP 440 normal-form version text yields exactly its epoch, release, pre, post, dev and local parts, and printing the result gives the same text; printing any standard version and parsing it again gives an equal version. The accepted alternative spellings (alpha, beta, c, preview, rev, r, a leading v, '-', '_' or '.' before a post or dev part, -N for a post part, '-' or '_' between the segments of a local part, upper case) give the same version as the normal form.",
 ["inputs"],"all version texts of the PEP 440 normal form and the listed spellings, release of any length",
 "Tests parse about twenty literals; the grammar is infinite and the interesting cases are combinations of optional parts.",
 [VP,V],[("reader",VP+":VersionParser.read_version"),("printer",V+":StandardVersion.__str__"),("character scanner",B+"utils/parsers.py:SimpleParser")],
 "Version.parse, str(version)")
M=B+"api/dependencies/env_markers.py"
p("C06","Environment markers evaluate as PEP 508 boolean expressions",
 "A marker text evaluates to the value of the boolean expression it denotes: 'and' binds tighter than 'or', parentheses group, comparisons of version-like operands compare as versions and other operands as strings, 'in'/'not in' test substrings, and extra == 'x' holds iff x is among the requested extras. Any string literal of characters allowed by PEP 508 is accepted.",
 ["inputs","configurations"],"all marker expressions of any nesting over the PEP 508 variables, all environments and extras",
 "Tests evaluate two fixed expressions; operator nesting and environment values are unbounded.",
 [M],[("precedence and grouping",M+":PEP508EnvMarkerParser._read_marker_compound_expr"),("operators",M+":PEP508EnvMarkerParser._read_marker_op"),("literals",M+":PEP508EnvMarkerParser._read_str")],
 "EnvironmentMarker.parse_pep508(text).evaluate_on(env, extras)")
G=B+"resolution/pubgrub.py"
p("C07","Dependency resolution returns only valid selections, and finds one if any",
 "When resolution succeeds, the root is selected, each package has one selected version that exists, and every dependency of every selected version is met by a selected version inside its constraint. When resolution reports the problem unsolvable, no such selection exists. Undoing decisions to an earlier level leaves exactly the assignments, decisions and requirements recorded up to that level.",
 ["inputs","histories"],"all finite package universes with public final versions, any dependency graph (cycles included), any order of versions; all sequences of assignments and backtracks",
 "Tests solve about ten hand-made universes; backtracking depth, conflict chains and version interleavings are unbounded.",
 [G],[("conflict resolution and propagation",G+":Solver._propagate, _resolve_conflict"),("backtracking",G+":PartialSolution.backtrack, assign, require"),("incompatibility check",G+":Incompatibility.check_satisfaction, IncompatibilitySatisfaction.find_satisfier"),("dependency widening",G+":_PackageVersion.compute_incompatibilities")],
 "Solver.solve() result or UnsolvableProblemException; PartialSolution state after backtrack",
 [("PartialSolution assignments/decisions/required","the trail of the solver")])
PK=B+"api/packages/package.py"
p("C08","Package names differing only in case or separators are one package",
 "Two valid project names that differ only in letter case and in which runs of '-', '_' and '.' separate their parts identify the same package, and names that differ otherwise do not. Normalising a name twice gives the same result as normalising it once, and the result starts and ends with a valid character.",
 ["inputs"],"all names over letters, digits, '-', '_', '.' (and, for normalisation, arbitrary text)",
 "No stable test exercises names at all; the identity is over all strings.",
 [PK],[("identity key",PK+":PackageDescriptor.package_name_key, normalize_src_package_name"),("normalisation",PK+":PackageDescriptor.normalize_name")],
 "PackageDescriptor.name, name_key, package_name_key")
F=B+"utils/files.py"
p("C09","A failed copy transaction leaves the target tree as it was",
 "If a copy transaction ends with an exception at any point between its operations, then after it every file that existed before has its original content at its original path, and every file and directory the transaction created is gone. If it ends normally, the copied files hold their sources' content and nothing outside the copied, created and removed paths has changed.",
 ["histories","crash_points"],"all sequences of directory creation, file copy, tree copy and removal over any tree, failing before or after any operation",
 "No test runs a transaction; the guarantee is over every operation sequence (including overwriting one path twice and nested new directories) and every failure point.",
 [F],[("undo log",F+":CopyTransaction.copy, mkdir, rm"),("rollback",F+":CopyTransaction._rollback"),("tree copy",F+":CopyTransaction.copy_tree")],
 "directory tree content after the with-block",
 [("_copied_files, _overwritten_files","undo log of the transaction")])
W=B+"api/distributions/wheel_distribution.py"; H=B+"utils/hashes.py"
p("C10","A wheel with altered or unlisted files is never accepted for installation",
 "Record verification accepts an unpacked wheel only if it has a RECORD, every file other than RECORD itself is listed with a hash, and every file outside the metadata directory matches its listed hash; an intact wheel is always accepted. A hash signature matches a file iff it is the encoded digest of the file's bytes under the named algorithm.",
 ["inputs","fault_sequences"],"all unpacked wheel trees and RECORD contents; any single or combined alteration, addition, or unlisting of files",
 "No test installs a tampered wheel; the set of alterations is unbounded.",
 [W,H],[("verification",W+":_verify_records"),("hash check",H+":HashSignature.validate_against"),("hash text",H+":HashSignature.parse_urlsafe_base64_nopad_encoded")],
 "exception or not from record verification; no file reaches the site when it fails")
SP=B+"api/packages/site_packages.py"
p("C11","Uninstalling removes what the package recorded and nothing else",
 "After a package is uninstalled, every file its record lists and its metadata directory are gone. Every other file in or beside the site remains with its content, except compiled caches next to removed files or directories, and only directories inside the site that became empty are removed.",
 ["inputs","histories"],"all site trees and record lists, including files outside the site and directories shared with other packages",
 "No test uninstalls anything; the frame condition is over every other path in the tree.",
 [SP,F],[("uninstall",SP+":InstalledPackage.uninstall"),("containment",F+":is_relative_to, is_empty_directory"),("recorded files",B+"api/distributions/distinfo.py:DistInfo.installed_files")],
 "directory tree before and after uninstall")
EI=B+"api/environments/environment_introspection.py"; SPK=B+"api/packages/standard_package.py"
p("C12","A wheel is chosen only if its tags fit the interpreter, and the best one wins",
 "A compatibility tag gets a score iff its interpreter, abi and platform parts (any alternative of each compressed set) are supported: same python major with required minor not above the interpreter's, an abi the interpreter has, 'any' or the exact platform or a manylinux/musllinux level the C library satisfies on the same architecture. Artifact choice never picks one whose python requirement or tags do not fit, picks a compatible wheel over a source archive, and picks one whose score no other compatible wheel exceeds.",
 ["inputs","configurations"],"all tags and all linux interpreter descriptions; all artifact lists",
 "No stable test scores tags; platform levels, versions and list orders are unbounded.",
 [EI,SPK],[("scoring",EI+":EnvironmentIntrospection._compatibility_tag_scorer, compatibility_score"),("selection",SPK+":AbstractPackage.best_artifact_for")],
 "compatibility_score(tag), best_artifact_for(env)")
L=B+"resolution/packages_lock.py"
p("C13","Locks of one environment survive locking of another and steer package order",
 "Locking an environment replaces exactly that environment's lock entries with its installed packages and keeps every entry of other environments. The locked versions offered to an environment start with its own when it has one, and contain nothing but locked entries of the asked package. Ordering packages by lock preference is a reordering in which locked versions come first and relative order is otherwise kept.",
 ["inputs","histories"],"all lock contents, environments and installed package sets; all package lists",
 "No stable test touches the lock; entries, environments and orders are unbounded.",
 [L],[("update",L+":PackagesLock.update_lock"),("lookup",L+":PackagesLock.locked_versions, env_specific_locks"),("ordering",L+":PackagesLock.sort_packages_by_lock_preference")],
 "lock contents and returned orders",[("lock entries by package name","what each environment pinned")])
R=B+"api/repositories/repository.py"
p("C14","Repositories offer only compatible packages and hold back pre-releases",
 "A repository match returns, in the order found, only packages it found that are compatible with the environment. Pre- and dev-releases are left out unless the dependency's version specifier has one as a bound or required version, or no other compatible package was found, and nothing else is ever left out.",
 ["inputs","configurations"],"all lists of found packages, environments and dependencies",
 "One test filters one fixed list; length, order and mixture are unbounded.",
 [R,B+"utils/iterators.py"],[("match",R+":AbstractRepository.match"),("pre-release filter",R+":AbstractRepository._filter_prereleases"),("partition",B+"utils/iterators.py:partition")],
 "list returned by Repository.match")
PI=B+"api/packages/package_installation.py"
p("C15","An installation plan touches every package exactly as needed",
 "For every package of the plan and every package installed in the target the plan gives exactly one operation: install if not installed, update if installed with another version or another requested store mode or user request, skip if nothing differs, and remove if installed but not in the plan. Packages are matched by normalised name, and computing the operations changes nothing.",
 ["inputs","configurations"],"all sets of planned and installed packages, store modes and user requests",
 "No stable test computes a plan; the sets are unbounded.",
 [PI],[("operations",PI+":InstallationPlan.compute_operations_for_target")],
 "mapping returned by compute_operations_for_target")
p("C16","Orphan packages are exactly those no requested package needs",
 "The packages reported as orphans are exactly the installed packages that cannot be reached from the user-requested installed packages by following dependencies on installed packages. The installation tree of a package is exactly the set reachable from it.",
 ["inputs"],"all finite installed package graphs, cycles and missing dependencies included",
 "No stable test computes orphans; reachability quantifies over all graphs.",
 [SP],[("orphans",SP+":SitePackages.find_orphan_packages"),("tree",SP+":SitePackages.installation_tree_of"),("worklist helpers",B+"utils/sequences.py:pop_or_none; utils/sets.py:add_if_absent; utils/dicts.py:put_if_absent")],
 "returned packages")
E=B+"api/environments/environment.py"
p("C17","Activating an environment is undone exactly when the block ends",
 "While an environment is active its scripts directory is the first PATH entry, the previous PATH follows and VIRTUAL_ENV names it. When the block ends, normally or by an exception, PATH and VIRTUAL_ENV are as before (absent if they were absent), nested activations unwind in order, and no other variable is touched.",
 ["inputs","fault_sequences"],"all initial variable mappings, all ways the block can end, any nesting",
 "No test activates an environment; mapping contents, exits and nesting are unbounded.",
 [E],[("activate",E+":Environment.activate")],"the variable mapping during and after the block")
C=B+"utils/http/cache_directive.py"
p("C18","HTTP cache directives never serve a copy they should refetch",
 "A cached copy counts as valid under 'retrieved after T' iff its retrieval time is known and not before T, always under 'always', never under 'ask for update' and 'never'. Asking for an update sends the stored etag if there is one, otherwise the stored retrieval time if there is one, and otherwise nothing; only 'never' forbids storing. A fetch is answered from the stored copy iff there is one and its directive counts it valid, whatever was fetched before; otherwise the server is asked.",
 ["inputs","histories"],"all stored etags, retrieval times and thresholds; all earlier fetches",
 "No test covers cache directives; times and header combinations are unbounded.",
 [C],[("directives",C+":CacheDirective"),("fetch",B+"utils/http/http_client.py:HttpClient.fetch_resource")],"is_cache_valid, add_headers, store_result")
p("C19","Bumping a version raises the chosen part and resets what follows",
 "Bumping major, minor or patch of a three-part version increments that part, zeroes the parts after it and drops pre, post, dev and local parts. Bumping a, b or rc increments the number of the same pre-release kind, starts a later kind (or the first one) at 0 keeping the release, and starts an earlier kind at 0 on the next patch release; the epoch is always kept and the original version object is never changed.",
 ["inputs"],"all three-part versions with any optional parts, all particles",
 "No stable test bumps a version; the parts are unbounded integers.",
 [V],[("bump",V+":StandardVersion.bump")],"StandardVersion.bump(particle)")
p("C20","Path containment and relative paths mean what the file system means",
 "A path is reported inside a root iff it is the root or lies below it component-wise. The relative path from a directory to a path, joined onto the directory and normalised, is that path, for every pair of absolute normalised paths.",
 ["inputs"],"all pairs of absolute normalised paths of any depth",
 "No test covers them; sibling names sharing a prefix and arbitrary depth are the cases that matter.",
 [F],[("containment",F+":is_relative_to"),("relative path",F+":path_to")],"is_relative_to, path_to")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sch); assert len(d['title'])<=80,d['id']; 
print(len(P))
