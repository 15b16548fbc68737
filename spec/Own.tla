--------------------------------- MODULE Own ---------------------------------
(* Ownership of objects between a caller and the library.                       *)
(* An object is [k: kind, h: objects it may refer to, fp: fingerprint of its    *)
(* content]. Values (arrays, quantities, tables, lists, dicts) refer to nothing;*)
(* distributions, models and samplers hold what they were made of; the content  *)
(* of a model does not include that of its distribution. Object 1 is            *)
(* the environment (rcParams, floating-point error handling, directory).        *)
EXTENDS Naturals, Sequences, FiniteSets
Env == 1
Holders == {"dist", "rad", "kel", "ebl", "smp", "smp0", "rsmp", "sher", "pos"}
\* kinds the caller may write into
Writable == {"ene", "energy1", "edict", "etab", "amp", "We", "B", "dq", "seeds", "tab", "tdict", "vec",
             "lab", "opts", "uopts", "pe", "tabE", "tabV", "eun", "val", "ml", "pos", "kev", "shp", "dep", "mask"}
\* op, kinds of its arguments, kind of its result ("" for none), whether it has to
\* fail, what it may change: "" nothing, "own" its first argument, "dist" the
\* distribution of its first argument
O(n, a, r, bad, ch) == [op |-> n, a |-> a, r |-> r, bad |-> bad, ch |-> ch]
C(n, a, r) == O(n, a, r, FALSE, "")
F(n, a) == O(n, a, "", TRUE, "")
Ops == <<
  C("pd", <<"amp">>, "dist"), C("table", <<"tabE", "tabV">>, "dist"),
  C("pd_eval", <<"dist", "ene">>, "val"), C("pd_eval", <<"dist", "edict">>, "val"),
  C("pd_eval", <<"dist", "etab">>, "val"), C("pd_eval", <<"dist", "energy1">>, "val"),
  C("syn", <<"dist", "B">>, "rad"), C("ic", <<"dist", "seeds">>, "rad"), C("brem", <<"dist">>, "rad"),
  C("pion", <<"dist">>, "rad"), C("kel", <<"dist">>, "kel"),
  C("flux", <<"rad", "ene", "dq">>, "val"), C("flux", <<"rad", "edict", "dq">>, "val"),
  C("flux", <<"rad", "etab", "dq">>, "val"), C("flux", <<"rad", "tab", "dq">>, "val"),
  C("flux", <<"rad", "energy1", "dq">>, "val"), C("flux", <<"kel", "ene", "dq">>, "val"),
  C("content", <<"rad">>, "val"), O("set", <<"rad", "We">>, "", FALSE, "dist"),
  C("trapz", <<"tabV", "tabE">>, "val"), C("edges", <<"tabE">>, "val"), C("edges", <<"eun">>, "val"), C("pd_eval", <<"dist", "eun">>, "val"),
  C("ebl", <<>>, "ebl"), C("trans", <<"ebl", "ene">>, "val"), C("trans", <<"ebl", "edict">>, "val"),
  C("sedconv", <<"ene">>, "val"), C("sedconv", <<"tab">>, "val"),
  C("estB", <<"tab", "tab">>, "val"), C("estB", <<"tab", "tab">>, "val"),
  C("check", <<"tab">>, "tab"), C("check2", <<"tab", "tab">>, "tab"),
  C("build", <<"tabE", "tabV", "mask">>, "tab"),
  C("prior", <<"vec">>, "val"), C("minimize", <<"vec">>, "val"),
  C("sampler", <<"tab", "vec", "lab", "pe">>, "smp"), C("sampler2", <<"tab", "tab", "vec", "lab", "pe">>, "smp"),
  C("start", <<"tab", "vec", "lab", "pe">>, "pos"),
  C("get", <<"tab", "vec", "lab", "pe">>, "smp0"), O("run", <<"smp0">>, "pos", FALSE, "own"), O("run", <<"smp">>, "pos", FALSE, "own"), O("resume", <<"smp", "pos">>, "pos", FALSE, "own"),
  C("best", <<"smp">>, "ml"), C("chains", <<"smp">>, ""), C("blob", <<"smp">>, ""), C("corner", <<"smp", "opts">>, ""),
  C("fit", <<"smp", "opts", "uopts">>, ""), C("data", <<"tab", "tab", "opts", "uopts">>, ""),
  C("data1", <<"tab", "opts">>, ""), C("data1", <<"tdict", "opts">>, ""), C("data1", <<"smp", "opts">>, ""),
  C("results", <<"smp">>, ""), C("save", <<"smp">>, ""), C("reread", <<"smp">>, "rsmp"), C("best", <<"rsmp">>, "ml"), C("fit", <<"rsmp", "opts", "uopts">>, ""),
  C("corner", <<"rsmp", "opts">>, ""), C("blob", <<"rsmp">>, ""), C("results", <<"rsmp">>, ""),
  C("inter", <<"tab", "vec", "lab", "pe">>, ""), C("diag", <<"smp", "lab">>, ""),
  C("sher", <<>>, "sher"), C("shcalc", <<"sher", "kev", "shp">>, "val"),
  O("shguess", <<"sher", "kev", "dep">>, "", FALSE, "own"),
  F("flux_bad", <<"rad", "amp">>), F("pd_bad", <<"dist", "amp">>), F("We_bad", <<"rad", "amp">>),
  F("check_bad", <<"badtab">>), F("check2_bad", <<"tab", "badtab">>), F("sampler_bad", <<"badtab", "vec", "lab", "pe">>),
  F("sampler_bad2", <<"tab", "vec", "lab", "pe">>), F("fit_bad", <<"smp", "opts">>), F("blob_bad", <<"smp">>),
  F("corner_bad", <<"smp", "opts">>), C("diag_bad", <<"smp", "lab">>, ""), F("inter_bad", <<"tab", "vec", "lab", "pe">>),
  F("trapz_bad", <<"tabV", "amp">>), F("data_bad", <<"badtab", "opts">>), O("run_bad", <<"smp0", "vec">>, "", TRUE, "own"),
  F("save_bad", <<"smp">>) >>
\* objects reachable from the arguments q
Reach(objs, q) == {q[i] : i \in 1..Len(q)} \union UNION {objs[q[i]].h : i \in 1..Len(q)}
Holding(objs, r, q) == IF r \in Holders THEN Reach(objs, q) ELSE {}
\* objects that may be another one after the call of op (a record of Ops) with args q
MayChange(objs, o, q) ==
  CASE o.ch = "" -> {}
    [] o.ch = "own" -> {q[1]}
    [] o.ch = "dist" -> {i \in objs[q[1]].h : objs[i].k = "dist"}
\* ... after the caller wrote into x
Written(objs, x) == {x} \union {i \in 1..Len(objs) : x \in objs[i].h}
=============================================================================
