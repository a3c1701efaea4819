#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text can be reviewed in one place).
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

prop("S01", "A package is never built before its dependencies are in place",
 "During an install, R is started to build or install a planned package only after every planned package it needs (through Depends, Imports and LinkingTo, transitively) is completely installed in the library, including pkgr's own edit of its DESCRIPTION, and nothing pkgr does touches those dependencies while that build runs. This holds for every dependency graph, number of threads, build duration and outcome of other packages.",
 ["schedules", "inputs", "fault_sequences"],
 "all acyclic dependency graphs over packages spread over several repositories, thread counts, R run times (equal and different), worker/update/request interleavings, warm and cold caches, failing siblings",
 "The unit tests call the queue with no concurrency-sensitive graph and the integration tests (not run here) see one schedule of a few fixed graphs; the property quantifies over schedules and graphs.",
 ["rcmd/install.go", "rcmd/worker.go", "gpsr/solution.go", "gpsr/dependencies.go"],
 [("ready-set propagation in the update callback", "rcmd/install.go:InstallPackagePlan"), ("transitive dependency table", "gpsr/solution.go:ResolveInstallationReqs"), ("worker pool", "rcmd/worker.go:Start")],
 [("installedPkgs", "packages whose install finished without error")], ["start and end of every R process", "writes below the library directory"])

prop("S02", "Every install terminates, and attempts each package at most once",
 "An install always ends by itself, whatever packages fail and in whatever order, with no deadlock, livelock or runtime crash; every planned package is built at most once and installed at most once. Once a package has failed, no package that needs it (directly or transitively) is ever attempted.",
 ["schedules", "fault_sequences", "inputs"],
 "all graphs, thread counts and schedules, combined with failing, killed, unspawnable or half-finished R processes, failing copies to the package cache, and plans from zero to several thousand packages",
 "Termination and at-most-once are statements over all interleavings of the requester, workers and update handler with failures; tests exercise successful single-schedule runs.",
 ["rcmd/install.go", "rcmd/worker.go", "cran/download-package.go", "cmd/install.go"],
 [("wait group accounting between update callback and requester", "rcmd/install.go:InstallPackagePlan"), ("bounded work and update queues", "rcmd/worker.go:NewInstallQueue"), ("download fan-out", "cran/download-package.go:DownloadPackages")],
 [("wg", "outstanding requests"), ("anyFailed", "a package failed; no more are requested")], ["end of the pkgr process", "R processes started per package"])

prop("S03", "A successful install leaves exactly the planned library",
 "An install in which nothing goes wrong reports success. When an install reports no failure, every planned package is in the library with the content and version of the index entry of the repository it was selected from, its DESCRIPTION carrying pkgr's annotations of that repository and otherwise unchanged. Packages that were already there and are not outdated, or not part of the plan (or any outdated one, with updates disabled), are byte for byte untouched, and nothing else appears in the library.",
 ["inputs", "schedules", "configurations"],
 "all package universes (overlapping repositories with different versions, R-version constraints, ignored packages, suggests, customisations), preinstalled libraries (older, equal, newer, foreign packages), update/no-update, cache states, schedules and latencies",
 "Tests check a few fixed plans without installing; the composed result of planning, downloading, building, caching and annotating under concurrency is only sampled by integration tests against one real repository.",
 ["cmd/install.go", "cmd/plan.go", "rcmd/install.go", "gpsr/solution.go", "cran/pkg_nexus.go", "pacman/utils.go"],
 [("plan resolution", "gpsr/solution.go:ResolveInstallationReqs"), ("package selection", "cran/pkg_nexus.go:GetPackage"), ("two-pass install", "rcmd/install.go:InstallThroughBinary"), ("annotation", "rcmd/install.go:updateDescriptionInfo"), ("outdated detection", "pacman/utils.go:GetOutdatedPackages")],
 None, ["library directory contents after the run"])

prop("S04", "A failed install rolls the library back exactly",
 "When an install with rollback enabled cannot be completed because any package (repository or tarball) fails to download, build or install, the library directory ends up byte for byte as it was before the run: updated and overwritten packages are back in their old version, new packages and backup directories are gone, and a library the run created is removed. There is no intermediate outcome: afterwards the library is either the complete planned one or the previous one.",
 ["fault_sequences", "schedules", "inputs"],
 "all library states and plans (new, outdated, tarball-overwritten packages in one run), any R process failing in any phase (exit, kill, spawn failure, half-written package, missing binary), any network or disk fault while fetching or caching packages, any schedule",
 "The rollback unit tests drive the helpers on fixed directories; nothing runs the whole install with a failure at each possible point and concurrent packages in flight.",
 ["rollback/operations.go", "rollback/types.go", "cmd/install.go"],
 [("staging of outdated packages", "rollback/types.go:PreparePackagesForUpdate"), ("staging of tarball overwrites", "rollback/types.go:PrepareAdditionalPackagesForOverwrite"), ("restore", "rollback/operations.go:RollbackPackageEnvironment"), ("failure detection", "cmd/install.go:rInstall")],
 [("UpdateRollbacks", "packages moved to backup directories")], ["library directory before and after"])

prop("S05", "No disk fault or crash ever destroys an installed package",
 "With rollback enabled, whatever file system operation fails during staging, installing, rolling back or cleaning up, and wherever pkgr is killed, every package that was in the library before still exists complete afterwards: in place (in its old version, or complete in the version it was being updated to) or in its backup directory. After a kill, the next fault-free install ends with every such package complete under its own name and no backup directory left.",
 ["crash_points", "fault_sequences", "histories"],
 "every file system operation pkgr performs, as a crash point or failing with EIO/ENOSPC/EACCES/EBUSY/EXDEV, alone or combined with a failing package, including faults inside rollback and cleanup and repeated crashes",
 "No test injects I/O errors or kills pkgr between staging and cleanup; the number of operation points is unbounded by any example.",
 ["rollback/operations.go", "rollback/types.go", "cmd/install.go", "pacman/utils.go"],
 [("rename to and from backup", "rollback/operations.go:tagOldInstallation"), ("restore loop", "rollback/operations.go:rollbackChangedPackages"), ("backup removal", "rollback/operations.go:DeleteBackupPackageFolders")],
 [("__OLD__ directories", "backups of packages being replaced")], ["library directory after the fault and after the next run"])

prop("S06", "Failures are always reported, success is never claimed falsely",
 "If after a finished install some planned package (repository or tarball) is not completely installed in its planned version, the run ends with a non-zero status or logs an error, and a package is logged as successfully installed only if R installed it into the library and exited cleanly in that run. A requested package that no repository offers ends the run with an error and an untouched library.",
 ["fault_sequences", "schedules"],
 "all network faults (refused, timeout, reset, truncated, HTTP error codes), disk faults and R process outcomes at any point of the run, in any order of completion",
 "Tests check messages on the success path; whether every failure path reaches the user is a statement over all fault points.",
 ["cran/download-package.go", "rcmd/install.go", "cmd/install.go", "cmd/plan.go"],
 [("download results", "cran/download-package.go:DownloadPackages"), ("R exit status", "rcmd/install.go:Install"), ("final report", "cmd/install.go:rInstall")],
 None, ["exit status", "log records", "R process exit statuses"])

prop("S07", "A cached package download is always complete",
 "Whatever network or disk fault or crash interrupts downloading, a file pkgr later accepts as an already downloaded package is the complete file the repository served, with a successful status. After any such interruption an undisturbed install succeeds and installs the right content without cleaning the cache by hand.",
 ["fault_sequences", "crash_points", "schedules"],
 "connection refused/reset/timeout/stall, bodies cut or failing at any byte, with and without Content-Length, error statuses with a body, redirects, disk errors, short writes, full disk and kill at every operation, for http and local repositories, with up to ten downloads in flight",
 "Tests never interrupt a transfer; the cache poisons all later runs, so only histories of several runs show it.",
 ["cran/download-package.go", "cmd/install.go"],
 [("download to cache", "cran/download-package.go:DownloadPackage"), ("cache hit test", "cran/download-package.go:DownloadPackage")],
 [("<cache>/<repo>/src, binary", "downloaded packages")], ["cache files", "later installs"])

prop("S08", "The cache of built binaries never serves a damaged package",
 "Storing a freshly built binary in the package cache is all or nothing: whatever disk fault or crash happens there, a later install in any library that shares the cache succeeds and gets the complete package. A failure to store the binary never makes the install hang and never damages the package just installed.",
 ["crash_points", "fault_sequences", "histories"],
 "disk errors, short writes, full disk and kills at every operation of the copy to the cache, followed by installs into fresh libraries that reuse the cache",
 "Only a second run in another library reads the cached binary; no test combines a fault in the first with the second.",
 ["rcmd/install.go"],
 [("binary copy in the update callback", "rcmd/install.go:InstallPackagePlan"), ("cache lookup", "rcmd/install.go:isInCache")],
 [("<cache>/<repo>/binary/<R version>", "built binaries")], ["cache files", "libraries installed later"])

prop("S09", "A partly unpacked tarball is never used",
 "Whatever disk fault or crash interrupts unpacking a tarball package into the cache, every later install or plan either uses the complete unpacked content of the listed tarball or fails with an error; an undisturbed install afterwards succeeds with the complete content. A tarball file whose content changes is unpacked anew.",
 ["crash_points", "fault_sequences", "histories"],
 "disk errors, short writes and kills at each operation of the extraction, followed by undisturbed runs with the same or a changed tarball",
 "The extraction test unpacks intact archives once; the cached directory is only reused in the next run.",
 ["cmd/tarballOps.go", "internal/archive/extract.go"],
 [("hash-named directory as cache key", "cmd/tarballOps.go:untar"), ("extraction", "internal/archive/extract.go:Extract")],
 [("<cache>/<hash of tarball>", "unpacked tarball")], ["unpacked directory", "installed content"])

prop("S10", "Planning is deterministic and honours repository priority",
 "Which packages, versions and repositories are planned depends only on the configuration, the repository indexes and the library: each package comes from the first listed repository that offers it (or from the one it is pinned to), regardless of the order or timing in which index responses arrive and of the schedule. If the index of any listed repository cannot be obtained, pkgr stops with an error and changes nothing rather than planning from the remaining ones.",
 ["schedules", "fault_sequences", "inputs"],
 "all latencies and arrival orders of index responses, several overlapping repositories, pins, ignored packages, index fetch faults (refused, reset, truncated, error status, stall) on any of them",
 "Tests use one in-order response set; the result as a function of arrival order and partial failure is a statement over schedules.",
 ["cran/pkg_nexus.go", "cran/repodb.go", "cmd/plan.go", "gpsr/solution.go"],
 [("concurrent index fetch", "cran/pkg_nexus.go:NewPkgDb"), ("fetch and parse", "cran/repodb.go:FetchPackages"), ("lookup order", "cran/pkg_nexus.go:GetPackage")],
 None, ["plan output", "installed packages", "exit status"])

prop("S11", "A cached index is fresh, intact and belongs to its repository",
 "A cached repository index is used only while younger than its maximum age (one hour, or the value set in the environment) and only for the same repository URL and R version; otherwise it is fetched again. A fetch that failed is never cached, and a cache file left partial by a crash or disk fault never breaks or falsifies a later run.",
 ["histories", "crash_points", "fault_sequences"],
 "sequences of runs separated by simulated time below and above the limit, changed repositories, changed URLs, fetch faults, and disk faults or kills at each operation that writes the index cache",
 "Needs a controlled clock and several runs with a fault between them; the tests call the fetch once.",
 ["cran/repodb.go"],
 [("age test", "cran/repodb.go:FetchPackages"), ("cache write", "cran/repodb.go:Encode"), ("cache key", "cran/repodb.go:Hash")],
 [("r_packagedb_caches/<hash>", "cached index")], ["index requests", "plan of later runs"])

prop("S12", "Adding and removing packages edits the configuration atomically",
 "pkgr add and pkgr remove change exactly the named entries of the Packages list: adding a listed package or removing an unlisted one changes nothing, every other line stays as it was. Whatever disk fault or crash happens during the edit, the configuration file is afterwards either the old or the new one, complete, and a failed edit is reported.",
 ["crash_points", "fault_sequences", "inputs"],
 "all layouts of the Packages section (indented or not, comments, other lists with equal names, names that are prefixes of others), disk errors, short writes and kills at each operation of the edit, sequences of edits",
 "The tests add one package to fixed files; neither interrupted writes nor prefix names occur.",
 ["configlib/add_package.go", "configlib/config.go", "cmd/add.go", "cmd/remove.go"],
 [("line insertion and rewrite", "configlib/add_package.go:AddPackages"), ("line removal and rewrite", "configlib/config.go:remove")],
 None, ["configuration file"])

prop("S13", "The load report is complete and truthful",
 "pkgr load tries exactly the requested packages (with --all every planned one), each once, and reports for each whether R could load it, with the path and version R found; the failure count equals the number of packages reported as failed, and without --json it says that all were loaded exactly if none failed. This holds for every order in which the R sessions finish and whichever of them fail or are killed.",
 ["schedules", "fault_sequences", "inputs"],
 "package sets, thread counts, completion orders, packages that fail to load, R sessions that exit non-zero or are killed in either phase",
 "Tests check result records in isolation; concurrent collection of results is not exercised.",
 ["cmd/load.go", "cmd/structs.go"],
 [("fan-out and collection", "cmd/load.go:load"), ("single attempt", "cmd/load.go:attemptLoad")],
 None, ["JSON report", "R sessions started"])

prop("S14", "The thread limit bounds concurrent R processes",
 "At no instant does an install run more R build or install processes than the configured number of threads (by default the processor count, at most eight), nor does a load run more R sessions than twice that number. With several threads, independent packages are built concurrently: no thread stays idle for a whole build while a package is ready.",
 ["schedules", "configurations", "inputs"],
 "thread settings from configuration and command line, processor counts, graphs of all widths, run times and schedules",
 "Concurrency bounds are statements about every instant of every schedule; tests only check the number computed.",
 ["cmd/utils.go", "rcmd/worker.go", "cmd/load.go", "rcmd/install.go"],
 [("worker pool size", "cmd/utils.go:getWorkerCount"), ("pool", "rcmd/worker.go:NewInstallQueue"), ("load semaphore", "cmd/load.go:attemptLoadConcurrent")],
 None, ["R process start and end events"])

prop("S15", "R processes get their own package's environment and an isolated library",
 "Every R process that builds or installs a package sees exactly the environment variables customised for that package, never those of another package built concurrently, and otherwise the user's environment. Its user library is a fresh empty directory not shared with another process, and the user's own library variables (R_LIBS, R_LIBS_USER, R_LIBS_SITE) are never inherited; a build searches the target library.",
 ["schedules", "configurations"],
 "all concurrent combinations of customised and plain packages, thread counts, schedules, user environments with library variables set",
 "Tests compute one environment at a time; sharing between concurrent builds only shows under interleavings.",
 ["rcmd/configure.go", "rcmd/install.go", "configlib/config.go"],
 [("environment assembly", "rcmd/configure.go:configureEnv"), ("customisations", "configlib/config.go:SetCustomizations"), ("library path for builds", "rcmd/install.go:InstallThroughBinary")],
 None, ["environment and arguments of every R process"])

prop("S16", "Repeating an install changes nothing; after a crash it converges",
 "Running install again after a successful one, with unchanged configuration and repositories, builds and downloads nothing and leaves library and configuration unchanged. After pkgr was killed at any point of an install, running it again, however often it is killed again in between, ends in the same packages, versions and content that an undisturbed run produces; only pkgr's own annotation lines in a DESCRIPTION, and hidden temporary files, may differ for packages that were in flight when it was killed, and a package that R itself had left damaged may have to be installed anew.",
 ["crash_points", "histories", "schedules"],
 "every crash point of every install (R children dying with it or finishing on their own), repeated crashes, then undisturbed runs",
 "Crash points are unbounded and need a simulated crash with only the disk surviving; no test kills pkgr.",
 ["cmd/install.go", "rcmd/install.go", "rollback/operations.go", "pacman/utils.go", "cran/download-package.go"],
 [("already installed test", "rcmd/install.go:InstallThroughBinary"), ("library scan", "pacman/utils.go:GetPriorInstalledPackages"), ("cache hits", "cran/download-package.go:DownloadPackage")],
 None, ["library after convergence", "R processes and requests of the repeated run"])

prop("S17", "Planning and inspecting never change the library",
 "The plan, inspect, load, add, remove and clean subcommands never create, change or remove anything in the library, whatever they are given and whatever fails or crashes meanwhile. In strict mode an install into a missing library directory ends with an error and does not create it.",
 ["fault_sequences", "crash_points", "configurations"],
 "all of these subcommands with options, over libraries with outdated, foreign and damaged packages, under network, disk and R faults and kills",
 "Tests do not snapshot the library around commands under faults.",
 ["cmd/plan.go", "cmd/inspect.go", "cmd/load.go", "cmd/cleanCache.go", "cmd/install.go"],
 [("shared planner", "cmd/plan.go:planInstall"), ("strict check", "cmd/install.go:rInstall")],
 None, ["library directory before and after"])

prop("S18", "What plan and inspect report is what install does",
 "For the same configuration, repository indexes and library, pkgr plan announces exactly the changes an install makes: the packages it names as updated (with both versions) are those install updates, its numbers of packages to install, to update, outdated, installed, not from pkgr and per repository are right, and with updates disabled outdated packages are named as such and not counted as updates. inspect --deps gives for every planned package exactly the planned packages it needs, directly or indirectly, with --reverse those that need it, with package arguments only their records, with --tree the same below each package; inspect --installed-from lists every package of the library once, as pkgr's exactly if it carries pkgr's annotation. This holds after any history of installs, index changes, failures and crashes that leaves no interrupted install pending, whatever is in the library, and also when nothing is left to do; a plan or inspection that cannot be made because something fails ends with a non-zero status instead.",
 ["histories", "fault_sequences", "configurations"],
 "all histories of installs, configuration and index changes, faults and kills before and during planning; libraries with outdated, foreign, unrequested and damaged packages; tarballs replacing planned packages; all options of plan and inspect",
 "Tests compare fixed log lines for one library; that the announcement matches what is done relates two invocations and depends on the state histories leave behind.",
 ["cmd/plan.go", "cmd/inspect.go", "gpsr/dependencies.go", "gpsr/solution.go", "pacman/utils.go"],
 [("announcements", "cmd/plan.go:planInstall"), ("dependency records", "gpsr/solution.go:ResolveInstallationReqs"), ("inversion", "gpsr/dependencies.go:InvertDependencies"), ("counts", "gpsr/dependencies.go:GetNumPackagesToInstall")],
 None, ["log and standard output of plan and inspect", "library before and after install"])

prop("S19", "Tarball packages are installed last, from the listed file, overriding",
 "Each package listed as a tarball ends up installed with the content of exactly that file, replacing a version already in the library or offered by a repository, and R is started for it only after all packages it depends on, imports or links to, other tarball packages included, are completely installed. The packages it needs are planned even when not listed otherwise.",
 ["schedules", "inputs", "fault_sequences"],
 "several tarballs with dependencies in repositories, packages also preinstalled, schedules, warm and cold unpack cache",
 "Integration tests install one tarball on one schedule; order and override under concurrency and repeated runs are not covered.",
 ["cmd/tarballOps.go", "cmd/install.go", "cmd/plan.go"],
 [("tarball install loop", "cmd/install.go:installAdditionalPackages"), ("dependency injection", "cmd/plan.go:planInstall"), ("unpack", "cmd/tarballOps.go:unpackTarballs")],
 None, ["library contents", "R process events"])

prop("S20", "Nothing is taken from a server whose certificate does not verify",
 "Unless certificate verification is disabled by flag or configuration, no index entry and no package file obtained over https from a server whose certificate does not verify is used, cached or installed, also when reached by a redirect; the run fails instead. With verification disabled the same repositories work.",
 ["fault_sequences", "configurations"],
 "which of several servers fails verification, from the start or from a later request on (index fine, package request not), redirects between servers, both settings of the switch by flag and by configuration",
 "Tests never present a bad certificate, let alone one that turns bad between two requests.",
 ["cran/repodb.go", "cran/download-package.go", "cmd/root.go"],
 [("index client", "cran/repodb.go:FetchPackages"), ("package client", "cran/download-package.go:DownloadPackage")],
 None, ["requests", "cache and library contents", "exit status"])

prop("S21", "Cleaning removes what was asked and nothing else",
 "pkgr clean cache removes exactly the cached files of the selected kind and repositories plus the unpacked copies of the configured tarballs, and pkgr clean pkgdbs exactly the cached indexes of the selected repositories; everything else on disk stays as it was, and an undisturbed install afterwards works. If a disk fault keeps a selected file from being removed, that is reported.",
 ["fault_sequences", "crash_points", "configurations"],
 "all option combinations over caches filled by earlier runs of several projects, default and configured cache locations, disk faults and kills at each removal",
 "The test deletes from a fixed tree without faults; selectivity over arbitrary caches and interrupted cleaning are not covered.",
 ["cmd/cleanCache.go", "cmd/cleanPkgdb.go", "cmd/clean.go"],
 [("cache removal", "cmd/cleanCache.go:deleteCacheSubfolders"), ("unpacked tarballs", "cmd/cleanCache.go:cleanCacheFolders"), ("index removal", "cmd/cleanPkgdb.go:removePackageDatabases")],
 None, ["whole disk before and after"])

prop("S22", "Concurrent pkgr runs sharing a cache do not disturb each other",
 "Two pkgr installs of different projects that run at the same time and share the package cache and the index cache each end as if they had run alone: both succeed and both libraries have the planned content. This holds wherever one of them is suspended while the other one runs.",
 ["schedules", "histories"],
 "every point at which one process is suspended and the other runs to any of its own points, with overlapping package sets, cold and partly filled caches",
 "Needs control over the interleaving of two processes at file system operations.",
 ["cran/download-package.go", "cran/repodb.go", "rcmd/install.go", "cmd/tarballOps.go"],
 [("download to shared cache", "cran/download-package.go:DownloadPackage"), ("index cache write and expiry", "cran/repodb.go:FetchPackages"), ("binary store", "rcmd/install.go:InstallPackagePlan"), ("unpack", "cmd/tarballOps.go:untar")],
 None, ["both libraries, exit statuses and logs"])

prop("S23", "pkgr works with the configured R and on the configured library",
 "Every R process pkgr starts is the executable set as RPath (or in PKGR_RPATH), or else the first R in PATH, and with RPath set the directory of that R comes first in the PATH of the R processes that build, install, run or answer for it; and install, plan and run work on the library given with --library, in PKGR_LIBRARY or as Library, or else on the one renv (asked with that R in the project's directory) or packrat defines, wherever pkgr is started. If renv's library cannot be determined, whatever happens to the R process that is asked, pkgr ends with an error and neither a library nor the configuration changes. pkgr run starts R once, with exactly that library besides R's own, and with the environment customised for the given package.",
 ["configurations", "fault_sequences", "schedules"],
 "all combinations of flags, environment variables and settings for R and the library (absolute, relative, with a tilde, renv, packrat), working directories with --config, and renv answering late, partly, with other output, failing, killed or not startable",
 "Tests read fixed configuration files without starting R; which process is started with which library under which failure needs the whole program and a model of R.",
 ["configlib/config.go", "cmd/root.go", "rcmd/Rsettings.go", "cmd/run.go", "rcmd/RunR.go"],
 [("library discovery", "configlib/config.go:NewConfig"), ("renv query", "configlib/config.go:getRenvLibrary"), ("working directory", "cmd/root.go:initConfig"), ("R executable", "rcmd/Rsettings.go:R"), ("interactive session", "rcmd/RunR.go:StartR")],
 None, ["executable, directory, environment and arguments of every R process", "library directories after the run"])

prop("S24", "Log files hold every record of every run",
 "With a log file configured, every record a command prints after reading its configuration is also appended to it as one JSON line, exactly once; install writes to the install log file instead if there is one. Records of earlier runs stay unless overwriting is configured, with concurrent workers, with several processes that share the file, and after a kill, which loses only records of the killed run. If the log file cannot be opened or written, the command still does its work and reports the same outcome.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "all subcommands, numbers of workers, log settings, processes interleaved at any file system operation, kills at any point, disk faults on the log files and elsewhere",
 "The logger's tests write single lines; the combination of commands, concurrent workers, processes and faults is not tested.",
 ["logger/logger.go", "cmd/install.go", "cmd/root.go"],
 [("file hook", "logger/logger.go:Fire"), ("opening of log files", "logger/logger.go:AddLogFile"), ("install log", "cmd/install.go:initInstallLog")],
 None, ["log files before and after each run", "output of the run"])

na = [
 ("N01", "R version comparison and constraint checks are a total, consistent order", "Version strings are compared component-wise like R does, and a package is offered exactly when its R constraint holds.", ["desc/version.go", "cran/repodb.go"], "desc/version.go:CompareVersions"),
 ("N02", "DESCRIPTION and PACKAGES records parse to the fields they state", "Every well-formed DESCRIPTION or PACKAGES record is read with exactly the dependencies, constraints and versions it states.", ["desc/desc.go"], "desc/desc.go:ParseDep"),
 ("N03", "Paths and environment variables in the configuration expand as documented", "A leading tilde, environment variable references and relative paths in the configuration denote the documented absolute paths.", ["configlib/config.go"], "configlib/config.go:NewConfig"),
 ("N04", "Archives cannot write outside their target directory", "No archive entry, whatever its name or type, creates a file outside the directory an archive is unpacked to.", ["internal/archive/extract.go"], "internal/archive/extract.go:extractFile"),
 ("N05", "Secrets in the environment are not written to logs", "Values of environment variables known to hold tokens never appear in log output.", ["rcmd/configure.go"], "rcmd/configure.go:censoredEnvVars"),
]
for id, t, s, files, where in na:
    prop(id, t, s, ["inputs"], "all inputs of the function", "Tests sample a handful of inputs.", files, [("pure function", where)])
with open(os.environ.get("VERIF", "/verif") + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
