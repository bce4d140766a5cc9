---------------------------- MODULE DataSources -----------------------------
(***************************************************************************)
(* The generated C data sources of ICU and the Python modules made from    *)
(* them.  A source is a sequence of declarations, in any order; a request  *)
(* asks for one of them, and what it binds does not depend on the others.  *)
(* Values are decimal strings.                                             *)
(*   array   n, v: the elements                                            *)
(*   scalar  n, v                                                          *)
(*   trie    n, v: the fields of a UTrie2                                  *)
(*   props   n, v: the fields of the UTrie2 inside the structure           *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* Fields of UTrie2 in the order of utrie2.h.                              *)
TrieFields == <<"index", "data16", "data32", "indexLength", "dataLength", "index2NullOffset", "dataNullOffset",
                "initialValue", "errorValue", "highStart", "highValueIndex">>
Field(v, f) == v[CHOOSE k \in 1 .. Len(TrieFields) : TrieFields[k] = f]

Declaration(source, k, n) == CHOOSE d \in {source[i] : i \in 1 .. Len(source)} : d.k = k /\ d.n = n
Has(source, k, n) == \E i \in 1 .. Len(source) : source[i].k = k /\ source[i].n = n

Parameters(v, prefix) == <<
    [n |-> prefix \o "_index_length",        t |-> "int", v |-> <<Field(v, "indexLength")>>],
    [n |-> prefix \o "_index_2_null_offset", t |-> "int", v |-> <<Field(v, "index2NullOffset")>>],
    [n |-> prefix \o "_data_null_offset",    t |-> "int", v |-> <<Field(v, "dataNullOffset")>>],
    [n |-> prefix \o "_high_start",          t |-> "int", v |-> <<Field(v, "highStart")>>],
    [n |-> prefix \o "_high_value_index",    t |-> "int", v |-> <<Field(v, "highValueIndex")>>] >>

Binds(source, r) ==
    LET v == Declaration(source, r.k, r.n).v
    IN  CASE r.k = "array"  -> <<[n |-> r.n, t |-> "list", v |-> v]>>
          [] r.k = "scalar" -> <<[n |-> r.n, t |-> "int", v |-> v]>>
          [] OTHER          -> Parameters(v, r.prefix)

(* What a build asks of the three data sources of ICU.                     *)
Request(k, n, prefix) == [k |-> k, n |-> n, prefix |-> prefix]
BuildRequests == [
    BidiPropsData |-> <<Request("array", "ubidi_props_indexes", ""), Request("array", "ubidi_props_trieIndex", ""),
                        Request("array", "ubidi_props_mirrors", ""), Request("array", "ubidi_props_jgArray", ""),
                        Request("array", "ubidi_props_jgArray2", ""), Request("props", "ubidi_props_singleton", "ubidi_props_trie")>>,
    CharPropsData |-> <<Request("array", "propsTrie_index", ""), Request("trie", "propsTrie", "propsTrie"),
                        Request("array", "propsVectorsTrie_index", ""), Request("trie", "propsVectorsTrie", "propsVectorsTrie"),
                        Request("array", "propsVectors", ""), Request("scalar", "propsVectorsColumns", ""),
                        Request("array", "scriptExtensions", "")>>,
    CasePropsData |-> <<Request("array", "ucase_props_indexes", ""), Request("array", "ucase_props_trieIndex", ""),
                        Request("array", "ucase_props_exceptions", ""), Request("array", "ucase_props_unfold", ""),
                        Request("props", "ucase_props_singleton", "ucase_props_trie")>>]
=============================================================================
