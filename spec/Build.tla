-------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* The module builder and installer as programs on files.  A folder is a   *)
(* function from file names to contents: <<"raw", id>> or <<"module", b>>  *)
(* with the names b that a Python module binds, in order.                  *)
(***************************************************************************)
EXTENDS DataSources, TypeDictionaries

Required == {"--sourceDir", "--buildDir", "--outputDir"}

(* Arguments: options in any order, each once, each with a value.          *)
RECURSIVE Options(_, _)
Options(args, seen) ==
    IF args = <<>> THEN seen
    ELSE IF args[1] \notin Required \/ args[1] \in DOMAIN seen \/ Len(args) = 1 THEN <<"bad">>
    ELSE Options(SubSeq(args, 3, Len(args)), (args[1] :> args[2]) @@ seen)
Accepted(args) == LET o == Options(args, [x \in {} |-> ""])
                  IN  o # <<"bad">> /\ DOMAIN o = Required /\ \A x \in Required : o[x] # ""

(* What is built from tree t.                                              *)
RECURSIVE AllBinds(_, _)
AllBinds(source, requests) == IF requests = <<>> THEN <<>> ELSE Binds(source, requests[1]) \o AllBinds(source, Tail(requests))

Headers == [uprops_h |-> [extra |-> <<>>, ignore |-> {}],
            ucase_h  |-> [extra |-> <<>>, ignore |-> {"UCASECONTEXT_INITIALIZER"}],
            uchar_h  |-> [extra |-> <<[n |-> "U_MASK", t |-> "function", v |-> <<>>]>>, ignore |-> {"U_NO_NUMERIC_VALUE"}],
            uscript_h |-> [extra |-> <<>>, ignore |-> {}]]
HeaderBinds(m, constants) == Headers[m].extra \o SelectSeq(constants, LAMBDA c : c.n \notin Headers[m].ignore)

RECURSIVE AfterLines(_, _)
AfterLines(s, lines) == IF lines = <<>> THEN s ELSE AfterLines(AfterLine(s, lines[1]), Tail(lines))

\* the dictionaries as name, and pairs of number and name
NumberIn(t, c) == LET all == t.headers.uchar_h \o t.headers.uscript_h
                  IN  all[CHOOSE k \in 1 .. Len(all) : all[k].n = c].v[1]
Dictionary(t, d) == [n |-> DictionaryName(d.p), t |-> "dict",
                     v |-> [k \in 1 .. Len(d.entries) |-> NumberIn(t, d.entries[k].c) \o " " \o d.entries[k].s]]

Modules == {"BidiPropsData", "CharPropsData", "CasePropsData"} \cup DOMAIN Headers \cup {"UCDTypeDictionaries", "UnicodeVersion"}

Module(t, m) ==
    IF m \in DOMAIN BuildRequests THEN AllBinds(t.sources[m], BuildRequests[m])
    ELSE IF m \in DOMAIN Headers THEN HeaderBinds(m, t.headers[m])
    ELSE LET s == AfterLines(Begin, t.ppucd)
         IN  IF m = "UnicodeVersion" THEN <<[n |-> "unicodeVersion", t |-> "text", v |-> <<s.version>>]>>
             ELSE [k \in 1 .. Len(s.dicts) |-> Dictionary(t, s.dicts[k])]

Product(t) == [f \in {m \o ".py" : m \in Modules} \cup {"icudata.dat", "LICENSE"} |->
                 IF f = "icudata.dat" THEN <<"raw", t.data>> ELSE IF f = "LICENSE" THEN <<"raw", t.license>>
                 ELSE <<"module", Module(t, CHOOSE m \in Modules : m \o ".py" = f)>>]

Built(folder, args, t) == IF Accepted(args) THEN Product(t) @@ folder ELSE folder

(* Installing from folder into the package: kinds says which are Python    *)
(* files; the package's files have the paths UnicodeData/... .             *)
Installed(package, folder, python) ==
    [p \in {"UnicodeData/" \o f : f \in python} |-> folder[CHOOSE f \in python : "UnicodeData/" \o f = p]]
    @@ [p \in {"UnicodeData/Data/icudata.dat"} |-> folder["icudata.dat"]]
    @@ [p \in {"UnicodeData/Data/LICENSE"} |-> folder["LICENSE"]] @@ package
=============================================================================
