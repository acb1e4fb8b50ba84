-------------------------------- MODULE Booz --------------------------------
(***************************************************************************)
(* The booz_xform library as a state machine.                              *)
(*                                                                         *)
(*   objs  : object name -> record of all attributes (names as in Python)  *)
(*   files : file name   -> content                                        *)
(*                                                                         *)
(* Every public call is an action.  The data (spectra, conversion, layout) *)
(* come from constant operators, so that the same actions are checked      *)
(* exhaustively with symbolic data (BoozMC.tla) and against traces of the  *)
(* real library with real numbers (BoozTrace.tla).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  NoFile,              \* content of a file that does not exist
  ModesM(_, _), ModesN(_, _, _),   \* output mode list for (mboz, nboz[, nfp])
  Outputs(_),          \* the ten spectra and G, I for the selection of an input
  Profiles(_),         \* G, I on all input surfaces
  Radii(_),            \* s of the selected surfaces
  Consistent(_, _),    \* are the arguments of a load consistent with the object
  Loaded(_, _),        \* attributes set by loading the arguments
  InputComplete(_),    \* does the object hold input data
  WoutHeader(_),       \* attributes read_wout() copies from a wout content
  WoutArgs(_, _),      \* load arguments read_wout() takes from a wout content
  IsWout(_, _),        \* is the content a readable wout file (with/without flux)
  Unwritable(_),       \* do the arrays of an object not fit the sizes of a boozmn file
  Encode(_),           \* boozmn content written for an object
  IsBoozmn(_),         \* is the content a readable boozmn file
  Decode(_),           \* attributes set by reading a boozmn content
  AfterWrite(_),       \* attributes changed by writing
  DefaultObject        \* attributes of a new object

VARIABLES objs, files
vars == <<objs, files>>

\* Output attributes; the first group is empty for symmetric configurations.
AsymOutputs == {"bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"}
SymOutputs  == {"bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b"}
OutputAttrs == AsymOutputs \cup SymOutputs \cup
  {"ns_b", "s_b", "mnboz", "xm_b", "xn_b", "Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all"}
InputAttrs == DOMAIN DefaultObject \ OutputAttrs
\* The scalars and arrays that make up the equilibrium (without run options).
RunOptions == {"verbose", "compute_surfs", "mboz", "nboz"}
AsymInputs == {"rmns", "zmnc", "lmnc", "bmns", "bsubumns", "bsubvmns"}


TypeOK == /\ \A o \in DOMAIN objs : DOMAIN objs[o] = DOMAIN DefaultObject
          /\ \A o \in DOMAIN objs : objs[o].asym \in BOOLEAN

------------------------------------------------------------------------------
\* What a run accepts, and what it produces.
RunValid(x) == /\ x.mboz >= 1 /\ x.nboz >= 0
               /\ \A k \in 1..Len(x.compute_surfs) : x.compute_surfs[k] \in 0..(x.ns_in - 1)
               /\ InputComplete(x)

\* Everything but the spectra and the selected G and I.
RunFrame(x) ==
  LET prof == Profiles(x) IN
  [ns_b |-> Len(x.compute_surfs), s_b |-> Radii(x),
   mnboz |-> Len(ModesM(x.mboz, x.nboz)),
   xm_b |-> ModesM(x.mboz, x.nboz), xn_b |-> ModesN(x.mboz, x.nboz, x.nfp),
   Boozer_G_all |-> prof.G, Boozer_I_all |-> prof.I]

AfterRun(x) == Outputs(x) @@ RunFrame(x) @@ x

------------------------------------------------------------------------------
\* Actions.  A call on a bad argument raises an error; a load that fails may
\* leave the object partly overwritten (any attribute record `junk'), but
\* never touches another object or a file.
NewObj(o) == /\ objs' = (o :> DefaultObject) @@ objs
             /\ UNCHANGED files

SetAttr(o, a, v) ==
  /\ o \in DOMAIN objs /\ a \in InputAttrs
  /\ objs' = [objs EXCEPT ![o][a] = v]
  /\ UNCHANGED files

Load(o, args) ==
  /\ o \in DOMAIN objs /\ Consistent(objs[o], args)
  /\ objs' = [objs EXCEPT ![o] = Loaded(@, args) @@ @]
  /\ UNCHANGED files

LoadError(o, args, junk) ==
  /\ o \in DOMAIN objs /\ ~Consistent(objs[o], args)
  /\ objs' = [objs EXCEPT ![o] = junk]
  /\ UNCHANGED files

ReadWout(o, f, flux) ==
  /\ o \in DOMAIN objs /\ f \in DOMAIN files /\ IsWout(files[f], flux)
  /\ LET x == WoutHeader(files[f]) @@ objs[o]
         a == WoutArgs(files[f], flux)
     IN  /\ Consistent(x, a)
         /\ objs' = [objs EXCEPT ![o] = Loaded(x, a) @@ x]
  /\ UNCHANGED files

ReadWoutError(o, f, flux, junk) ==
  /\ o \in DOMAIN objs
  /\ IF f \in DOMAIN files /\ IsWout(files[f], flux)
     THEN ~Consistent(WoutHeader(files[f]) @@ objs[o], WoutArgs(files[f], flux))
     ELSE TRUE
  /\ objs' = [objs EXCEPT ![o] = junk]
  /\ UNCHANGED files

Run(o) ==
  /\ o \in DOMAIN objs /\ RunValid(objs[o])
  /\ objs' = [objs EXCEPT ![o] = AfterRun(@)]
  /\ UNCHANGED files

RunError(o) ==
  /\ o \in DOMAIN objs /\ ~RunValid(objs[o])
  /\ UNCHANGED vars

Write(o, f) ==
  /\ o \in DOMAIN objs /\ ~Unwritable(objs[o])
  /\ objs' = [objs EXCEPT ![o] = AfterWrite(@) @@ @]
  /\ files' = (f :> Encode(objs[o])) @@ files

\* No file is made or overwritten.
WriteRejected(o, f) ==
  /\ o \in DOMAIN objs /\ Unwritable(objs[o])
  /\ UNCHANGED vars

\* The file system fails: nothing usable is promised in the file.
WriteError(o, f, content) ==
  /\ o \in DOMAIN objs
  /\ \E x \in {objs[o], AfterWrite(objs[o]) @@ objs[o]} : objs' = [objs EXCEPT ![o] = x]
  /\ files' = (f :> content) @@ files

ReadBoozmn(o, f) ==
  /\ o \in DOMAIN objs /\ f \in DOMAIN files /\ IsBoozmn(files[f])
  /\ objs' = [objs EXCEPT ![o] = Decode(files[f]) @@ @]
  /\ UNCHANGED files

ReadBoozmnError(o, f, junk) ==
  /\ o \in DOMAIN objs
  /\ f \in DOMAIN files => ~IsBoozmn(files[f])
  /\ objs' = [objs EXCEPT ![o] = junk]
  /\ UNCHANGED files
=============================================================================
