------------------------------ MODULE BuildTrace ----------------------------
(***************************************************************************)
(* Binds Build to runs of ModuleBuilder.py and ModuleInstaller.py.  The    *)
(* state is the output folder and the package.  Folders come as sequences  *)
(* of [f, c].  Events: build (args, tree, exit status, the output folder   *)
(* afterwards), edit (a file put into the output folder by hand), install  *)
(* (exit status, package and output folder afterwards).  spoilt: the files  *)
(* of the ICU tree that are not as they were before the build.             *)
(***************************************************************************)
EXTENDS Build, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, folder, package, bad

vars == <<hist, pos, folder, package, bad>>

Folder(x) == [f \in {x[k].f : k \in 1 .. Len(x)} |-> x[CHOOSE k \in 1 .. Len(x) : x[k].f = f].c]

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0 /\ bad = {}
             /\ folder = Folder(Histories[hist].folder)
             /\ package = Folder(Histories[hist].package)

SameContent(x, y) ==
    /\ x[1] = y[1]
    /\ IF x[1] = "raw" THEN x[2] = y[2]
       ELSE /\ Len(x[2]) = Len(y[2])
            /\ \A k \in 1 .. Len(x[2]) : x[2][k].n = y[2][k].n /\ x[2][k].t = y[2][k].t /\ x[2][k].v = y[2][k].v
Differ(want, have) == {"missing " \o f : f \in DOMAIN want \ DOMAIN have} \cup {"extra " \o f : f \in DOMAIN have \ DOMAIN want}
                      \cup {f \in DOMAIN want \cap DOMAIN have : ~SameContent(want[f], have[f])}

Python(x) == {x[k].f : k \in {j \in 1 .. Len(x) : x[j].c[1] = "module"}}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET e == Histories[hist].events[pos + 1]
                IN  CASE e.k = "build" ->
                           /\ package' = package
                           /\ folder' = Built(folder, e.args, e.tree)
                           /\ bad' = (IF e.status # (IF Accepted(e.args) THEN 0 ELSE 1) THEN {"exit status"} ELSE {})
                                     \cup Differ(folder', Folder(e.after)) \cup {"spoilt " \o e.spoilt[k] : k \in 1 .. Len(e.spoilt)}
                      [] e.k = "edit" ->
                           /\ package' = package
                           /\ folder' = (e.f :> e.c) @@ folder
                           /\ bad' = {}
                      [] e.k = "install" ->
                           /\ folder' = folder
                           /\ package' = Installed(package, folder, {f \in DOMAIN folder : folder[f][1] = "module"})
                           /\ bad' = (IF e.status # 0 THEN {"exit status"} ELSE {}) \cup Differ(package', Folder(e.after))
                                     \cup Differ(folder', Folder(e.folder))

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
G04_Build == bad \subseteq {"machinery"}
=============================================================================
