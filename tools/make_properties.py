import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))
p("C01","A step starts only after all its dependencies have finished",
 "When a set of build steps with dependencies between them is executed, the action of a step starts only after the action of every step it depends on, directly or transitively, has finished. This holds for every dependency graph, every number of worker threads and every order in which running actions happen to finish.",
 ["schedules","inputs"],"all finite acyclic dependency graphs, all worker counts >= 1, all completion orders of the running actions",
 "The only solver test runs one fixed five-node graph once per run, in whatever order the threads happened to finish.",
 ["licant/solver.py","licant/core.py","licant/util.py"],
 [("count of unfinished dependencies, a step is queued when it reaches zero","licant/solver.py DependableTargetRuntime.decrease_inverse_deps_count"),("dependents are released after the action's thread returned","licant/solver.py DependableTargetRuntime.doit"),("inverse dependency sets","licant/util.py invert_depends_dictionary, licant/solver.py InverseRecursiveSolver.__init__")],
 [("depcount","dependencies of a step not yet finished","licant/solver.py DependableTargetRuntime")],["the moment a step's action is called"])
p("C02","Each step runs at most once; success means every step ran",
 "During one execution of a set of build steps no step's action is called more than once, and it is called with exactly the arguments given for that step. If the execution reports success, every step's action was called once and finished, and none of them returned False.",
 ["schedules","inputs"],"all finite acyclic graphs, worker counts >= 1, completion orders, and action results",
 "Tests never count calls, pass no arguments, and use one graph with no failing action.",
 ["licant/solver.py"],[("queueing exactly when the dependency count reaches zero","licant/solver.py DependableTargetRuntime.decrease_inverse_deps_count"),("result is the negated error flag, after all steps are checked to be done","licant/solver.py InverseRecursiveSolver.exec")],
 [("_is_done","the step's action has finished","licant/solver.py DependableTarget")],["calls of the actions, return value of InverseRecursiveSolver.exec"])
p("C03","A failed step stops its dependents and makes the execution fail",
 "If the action of a step returns False or raises an ordinary exception, no step that depends on it, directly or transitively, is started, and the execution reports failure (False). Failure is reported only if some action really returned False or raised; any other return value, including None and 0, counts as success.",
 ["schedules","fault_sequences","inputs"],"all acyclic graphs, worker counts, completion orders and every choice of failing or raising steps",
 "No test has a failing or raising step.",
 ["licant/solver.py"],[("error flag set in the same event loop step that sees the result","licant/solver.py TaskInvoker.worker"),("flag checked after a step is taken from the queue","licant/solver.py TaskInvoker.worker"),("exceptions of an action become the result False","licant/solver.py DependableTarget.doit_impl")],
 [("error_while_execution","a step has failed","licant/solver.py TaskInvoker")],["calls of the actions, return value of InverseRecursiveSolver.exec"])
p("C04","An execution always comes to an end",
 "Executing an accepted set of build steps with at least one worker returns once the actions it started have returned: it never waits forever, whichever actions fail or raise an ordinary exception and in whatever order they finish.",
 ["schedules","fault_sequences","inputs"],"all accepted graphs, worker counts >= 1, completion orders and choices of failing or raising steps",
 "A hang needs a failing or raising step at a particular moment; tests have none.",
 ["licant/solver.py"],[("each item taken from the queue is acknowledged once","licant/solver.py TaskInvoker.worker"),("after an error the queue is drained","licant/solver.py TaskInvoker.release_queue"),("the execution waits for the queue to be joined, then cancels the workers","licant/solver.py TaskInvoker.start")],
 [("queue","steps ready to run, with the count of unacknowledged items","licant/solver.py TaskInvoker")],["InverseRecursiveSolver.exec returning"])
p("C05","Exactly the well-formed dependency graphs are accepted",
 "Preparing an execution from a list of distinctly named steps succeeds exactly when the list is not empty, every dependency names a step of the list, and the dependencies contain no cycle. Otherwise an exception is raised, and no action of any step has been called.",
 ["inputs"],"all finite lists of distinctly named steps and dependency sets, cyclic or not, connected or not",
 "Two three-to-five-node graphs are tested, one with an unknown name and one with a two-node cycle; cycles out of reach of any independent step, longer cycles and large accepted graphs are not.",
 ["licant/solver.py","licant/util.py"],[("depth first search with the current path","licant/solver.py InverseRecursiveSolver.dfs"),("everything must be reached from the independent steps","licant/solver.py InverseRecursiveSolver.connectivity_check"),("unknown names","licant/solver.py InverseRecursiveSolver.collect_depends_of_targets")],
 [],["construction of InverseRecursiveSolver"])
p("C06","The dependency closure of a target is exact",
 "The dependency list a core reports for a target contains exactly the names reachable from it through declared dependencies, and the target's own name if that is requested (or if it depends on itself); it is sorted and has no duplicates. It always reflects the dependencies as they are declared at the time of the call, and the computation ends even if the dependencies are cyclic.",
 ["inputs","histories"],"all registered dependency graphs, cyclic ones included, and all sequences of queries and registrations",
 "Tests never look at the closure; they only build chains of two or three files.",
 ["licant/core.py"],[("recursive accumulation of names not yet seen","licant/core.py Core.depends_as_set_impl"),("root inclusion and sorting","licant/core.py Core.depends_as_set")],
 [("depends_as_set_lazy_cache","memo of earlier answers","licant/core.py Core")],["Core.depends_as_set"])
p("C07","Exactly the targets that need it are updated",
 "Before an action on an updatable target, every updatable target is marked as needing an update exactly when its own update condition holds or that of some target it depends on, directly or transitively, holds. A recursive update of a target then calls the update action of exactly the marked targets among it and everything it depends on, each for its own target (a directory's exactly if its own condition holds), unless one of them fails before all were reached, and returns True if none of those actions returned False or raised and False otherwise.",
 ["inputs","histories"],"all acyclic sets of updatable targets, all values of their update conditions, all registration orders and all subsets of failing update actions",
 "One test uses two unconnected targets, one with a true and one with a false condition.",
 ["licant/core.py"],[("marks are cleared and recomputed for the whole core","licant/core.py Core.update_update_needity"),("own condition or any dependency","licant/core.py UpdatableTarget.recursive_update_needed_request"),("update only if marked","licant/core.py UpdatableTarget.update_if_need"),("one step per target of the closure, bound to that target","licant/core.py UpdatableTarget.recurse_update")],
 [("need_update","mark of a target","licant/core.py UpdatableTarget")],["calls of update actions, need_update, return value of recurse_update"])
p("C08","A file is out of date exactly when forced, missing or older than a file it needs",
 "A file target's own update condition holds exactly when it is forced, its file does not exist, or the modification time of some dependency that is a file (or a set of files, which counts with its newest member) is strictly later than its own. A directory target's own condition holds exactly when the directory does not exist, directories never make anything out of date by their time, and dependencies that are not files never matter.",
 ["inputs"],"all numbers and orders of dependencies of all kinds, all combinations of existing and missing files and of modification times",
 "Tests have one dependency per file, always fresh or always newer.",
 ["licant/make.py"],[("newest file dependency against own time","licant/make.py FileTarget.internal_update_if"),("newest member of a file set","licant/make.py MakeFileTarget.mtime"),("directory condition and time","licant/make.py DirectoryTarget")],
 [],["FileTarget.internal_update_if, need_update after an action"])
p("C09","Recorded file states follow the disk at each build and clean",
 "The existence and modification time used for decisions about a file are those the disk had when that file was last looked up for the first time, built, or deleted through its target; after the build action of a file target or its deletion has ended, the recorded state equals the state on disk, whether the action succeeded or not. Recording the state of one path never changes what is recorded for another.",
 ["histories"],"all sequences of lookups, external file changes, builds (successful or not) and deletions over several files",
 "One test checks that a manual refresh is seen; none checks the refresh after a build or deletion.",
 ["licant/cache.py","licant/make.py"],[("state kept per path","licant/cache.py FileCache"),("refresh after the build action","licant/make.py FileTarget.update"),("refresh after a shell command","licant/make.py do_execute")],
 [("cache","recorded state per path","licant/cache.py FileCache")],["FileTarget.is_exist, FileTarget.mtime"])
p("C10","Lookups find the latest target registered under a name or the same file",
 "Looking up a target by the exact name it was registered under, or else by any path spelling that resolves to the file it was registered for, yields the target most recently registered under that name; an exact name match is preferred. Looking up a name that matches nothing ends the program with an error status and never yields another target, asking whether a target exists answers exactly whether a lookup would succeed, and neither question ever changes the answer to a later one.",
 ["histories","inputs"],"all sequences of registrations, existence questions and lookups over plain names and path spellings",
 "Tests look up each target once, after it was registered once.",
 ["licant/core.py","licant/util.py"],[("exact name, then canonical path","licant/core.py Core.get, Core.has"),("registration under the target's name","licant/core.py Core.add"),("memo of canonical paths","licant/util.py canonical_path")],
 [("_targets","targets by name","licant/core.py Core")],["Core.add, Core.get, Core.has"])
p("C11","A command step runs its command once and succeeds exactly on exit status 0",
 "Building a target with a shell command runs that command exactly once, with the placeholders replaced by the target's attributes, whatever the message settings are. The step returns True if the command exits with status 0 and False otherwise (other statuses, death by a signal), for every amount and encoding of output, and the text the command wrote to its output streams is forwarded.",
 ["inputs","configurations","fault_sequences"],"all command templates and attribute values, exit statuses and signals, output sizes and bytes, quiet/debug settings",
 "Tests only run commands that succeed with little or no output, with default settings.",
 ["licant/make.py"],[("formatting, running, waiting and reporting","licant/make.py do_execute"),("the rule kept per target","licant/make.py Executor")],
 [],["return value of do_execute / Executor.__call__"])
p("C12","Clean deletes built files only, and all of them",
 "Cleaning a target deletes exactly the existing files of the file targets among itself, everything it depends on and its weak dependencies, except source files and directories, which are never deleted; no other file is touched, whatever characters the names contain. Uninstalling a library deletes exactly the copies its installation made.",
 ["inputs"],"all dependency graphs over file, directory, source, file set and plain targets, existing and missing files, and all file names",
 "No test calls clean or uninstall.",
 ["licant/make.py","licant/install.py"],[("selection over the closure and weak dependencies","licant/make.py MakeFileTarget.clean"),("source targets have no delete action","licant/make.py source, MakeCore.source"),("directories ignore deletion","licant/make.py DirectoryTarget.clr"),("uninstall target","licant/install.py install_library")],
 [],["files deleted by MakeFileTarget.clean"])
p("C13","A file's missing directories become dependencies and are created first",
 "When a file to be made is registered in a file core (touch, copy, file target with a command or function) and its directory does not exist, a directory target is registered for every missing directory above it, each depending on the missing one above it, and the file depends on its directory; if the directory exists, nothing is added. So the file's action finds its directory in place, and the content a touch or copy produces is the given text or the source's bytes.",
 ["inputs"],"all path depths, all splits into existing and missing directories, several files sharing directories",
 "Tests use one missing directory level, one or two files.",
 ["licant/make.py"],[("recursive registration of missing directories","licant/make.py MakeCore.dirkeep, MakeCore.makedir"),("dependencies of made files","licant/make.py MakeCore.touch, copy, ftarget"),("creation","licant/make.py DirectoryKeeper")],
 [],["deps of the registered targets, files on disk after a build"])
p("C14","Module lookups return exactly the registered implementation",
 "A module requested with an implementation name is the one most recently registered under exactly that module and implementation name, and a module requested without one is its default implementation as most recently declared; registering or declaring one never changes the answer for another. A request for an unregistered module or implementation, or without a declared default, ends the program with an error status; only the empty implementation named __none__ is created on demand, for registered modules.",
 ["histories","inputs"],"all sequences of module registrations, default declarations and requests",
 "One test registers a single module implicitly.",
 ["licant/modules.py"],[("registration by name and implementation","licant/modules.py ModuleLibrary.register_impl, VariantModule.addimpl"),("lookup","licant/modules.py ModuleLibrary.get, get_default"),("default declaration","licant/modules.py ModuleLibrary.set_defimpl, module, implementation")],
 [("modules, defimpls","registered implementations and defaults","licant/modules.py ModuleLibrary")],["ModuleLibrary.get"])
p("C15","Collecting modules yields the closure with one implementation per module",
 "The modules collected for a root module are exactly those requested, directly or transitively, by its module dependencies: each module name occurs once, with the implementation that is explicitly requested somewhere in the collection if there is one, and the default implementation otherwise. If two different implementations of one module are explicitly requested (or an explicit request contradicts a default already chosen), the program ends with an error status; mutual requests are no error and the collection always ends.",
 ["inputs"],"all module libraries and dependency declarations, by name and with implementation, cyclic ones included",
 "No test declares a module dependency.",
 ["licant/cxx_modules.py"],[("explicit requests at once, defaults from a queue","licant/cxx_modules.py collect_modules")],
 [("mdepends","chosen implementation per module name","licant/cxx_modules.py collect_modules")],["return value of collect_modules"])
p("C16","Combining module options follows each option's rule and changes neither input",
 "When the options of a module are combined with those of its base, or those of an included module are added, every option of the result follows its rule: accumulated lists are the base's entries followed by the module's own, file lists being resolved against the module's own directory; inherited single values are replaced by the module's own if given; options that are not passed on keep the base value. Neither combined option set is changed, and making an option set with an unknown option or an option of the wrong type ends the program with an error status.",
 ["inputs"],"all combinations of given and missing options, list lengths and directory settings, for both kinds of combination",
 "One application with a single source list is built in tests.",
 ["licant/cxx_modules.py"],[("rule table","licant/cxx_modules.py cxx_module_field_list"),("application of the rules","licant/cxx_modules.py CXXModuleOptions.merge"),("rules","licant/cxx_modules.py concat, strconcat, local, base, local_if_exist, concat_add_srcdir, local_add_srcdir, concat_add_locdir")],
 [],["CXXModuleOptions.merge"])
p("C17","Every source gets one output path, in order, inside the build directory",
 "The object and dependency file paths computed for a list of sources are as many as the sources and in the same order, each with the wanted extension in place of the source's own and with a wanted name prefix. Each lies below the build directory, also for relative sources that climb to parent directories and for absolute sources (given without parent references), and two relative or two absolute sources that differ in more than their extension, and do not use parent references, get different paths.",
 ["inputs"],"all lists of sources, relative, climbing or absolute, all build directories, extensions and prefixes",
 "One absolute source path is compiled in tests.",
 ["licant/cxx_modules.py","licant/util.py"],[("path construction","licant/cxx_modules.py build_paths"),("extension","licant/util.py changeext")],
 [],["return value of build_paths"])
p("C18","Objects depend on their source, dependency list and every header",
 "For each source of a module two targets are registered: a dependency list and an object, both depending on the source, on the additional dependencies of the module and on every header named in the existing dependency list, the object also on the dependency list itself; if the dependency list is missing or empty, it is forced to be made. The headers read from a dependency list are all the file names after the first one in the rule, across continuation lines, for names made of letters, digits, and the characters _ . / -.",
 ["inputs"],"all lists of sources and all contents of dependency files",
 "One build of a program without headers is tested.",
 ["licant/cxx_modules.py","licant/util.py"],[("registration","licant/cxx_modules.py link_objects"),("parsing","licant/util.py cxx_read_depends")],
 [],["targets registered by link_objects"])
p("C19","Each source is compiled by the right compiler with exactly its options",
 "A source is compiled with the C++ rule if its extension is cpp, cxx or cc, with the C rule if it is c, asm, s or S, and any other extension ends the program with an error status. The option strings contain each include directory, define and linker script once, in order, with its own prefix, the language standard, debug flag and flags of exactly the matching language, and each library directory and library in order.",
 ["inputs","configurations"],"all file names, all option values and list lengths, all toolchain choices",
 "One C++ file is compiled with default options in tests.",
 ["licant/cxx_make.py","licant/cxx_modules.py","licant/util.py"],[("choice by extension","licant/cxx_make.py object, depend"),("option strings","licant/cxx_make.py options, licant/util.py flag_prefix"),("conversion of module options","licant/cxx_modules.py cxx_options_from_modopts")],
 [],["build rule and options of the registered targets"])
p("C20","The command line runs the named action of the named target, or fails",
 "Without arguments the default target's default action is run; with a target's name its default action, with a target's name and one of its actions that action with the remaining arguments passed unchanged; with an action of the default target that action. A routine gets all the arguments after its name, anything else ends the program with an error status without running any action, and a build that fails makes the exit status nonzero.",
 ["inputs","configurations"],"all argument lists, sets of registered targets and actions, default targets, and action results",
 "Tests run the command line twice without arguments, with a build that succeeds.",
 ["licant/cli.py","licant/core.py"],[("dispatch","licant/cli.py __cliexecute, execute_with_default_action, cliexecute"),("invocation","licant/core.py Target.invoke, Target.hasaction")],
 [],["calls of actions and the exit status of licant.ex"])
p("C21","A library is included once, from the right place; the registry keeps the rest",
 "Including a library runs its script exactly once, however often it is included: the given path if there is one, otherwise the path registered for the user, otherwise the one registered for the system; an unregistered library ends the program with an error status. Adding or removing an entry with the registry command changes exactly that entry of the selected registry file.",
 ["histories","configurations","inputs"],"all contents of the two registry files and all sequences of includes, additions and removals",
 "No test includes a library or runs the registry command.",
 ["licant/libs.py","licant/licant_libs.py"],[("one execution per name","licant/libs.py include"),("user entries override system entries","licant/libs.py init, merge_two_dicts"),("registry edit","licant/licant_libs.py licant_libs_utility, add_record")],
 [("included","libraries already included","licant/libs.py")],["scripts executed, registry file contents"])
p("C22","Nested scripts run relative to their own directory and restore it",
 "A script executed from another script is looked up relative to the directory of the script that executes it, and while it runs, the current directory reported for scripts is its own directory. When it has ended, the reported current script and directory are again those of the script that executed it, at every nesting depth.",
 ["histories","inputs"],"all nesting structures and relative paths",
 "No test executes a nested script.",
 ["licant/scripter.py"],[("stack of scripts","licant/scripter.py ScriptQueue")],
 [("stack","paths of the scripts being executed","licant/scripter.py ScriptQueue")],["ScriptQueue.last, ScriptQueue.curdir"])
p("C23","Installation goes to the directories the environment selects",
 "Programs, headers and libraries are installed below the bin, include and lib directories of PREFIX if that is set. Otherwise programs go to /usr/local/bin if that is an entry of PATH, else to the first entry containing it (an entry spelled with backslashes before others), else to the first entry containing /usr/bin, else installing programs and libraries is refused with a warning; headers go to /usr/local/include and libraries to /usr/lib. Each header keeps its path relative to the installed directory.",
 ["configurations","inputs"],"all values of PATH and PREFIX, all header trees",
 "No test imports the installation module with any environment but the test runner's, or installs anything.",
 ["licant/install.py"],[("directory choice","licant/install.py find_application_path, find_headers_path, find_libraries_path"),("target names","licant/install.py install_application, install_headers, install_shared_library")],
 [],["return values of the find functions, names of the registered targets"])
for x in P: 
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
