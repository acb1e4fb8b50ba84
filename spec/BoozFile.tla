------------------------------ MODULE BoozFile ------------------------------
(***************************************************************************)
(* The boozmn and wout file formats.                                       *)
(*                                                                         *)
(* A file content is a record [format, dims, vars]; vars maps a variable   *)
(* name to [t |-> type, dims |-> dimension names, v |-> values in file     *)
(* order], values being a sequence of integers, a vector of reals or a     *)
(* string.                                                                 *)
(***************************************************************************)
EXTENDS BoozReal

\* Files may hold a number in any numeric type; it is converted when read.
IntTypes == {"int", "short", "byte", "int64", "uint", "ushort", "ubyte"}
RealTypes == {"double", "float"}
NumTypes == IntTypes \cup RealTypes
HasNum(c, name) == name \in DOMAIN c.vars /\ c.vars[name].t \in NumTypes
Reals(c, name) == IF c.vars[name].t \in RealTypes THEN c.vars[name].v ELSE FromInts(c.vars[name].v)
Ints(c, name)  == IF c.vars[name].t \in RealTypes THEN ToInts(c.vars[name].v) ELSE c.vars[name].v
Shape(c, name) == [k \in 1..Len(c.vars[name].dims) |-> c.dims[c.vars[name].dims[k]]]
IsScalar(c, name) == HasNum(c, name) /\ \A k \in 1..Len(c.vars[name].dims) : Shape(c, name)[k] = 1
IsArray(c, name, shape) == HasNum(c, name) /\ Shape(c, name) = shape
Int1(c, name) == Ints(c, name)[1]

NoFileContent == [format |-> "none", dims |-> [none |-> 0], vars |-> [none |-> 0]]

V(t, dims, v) == [t |-> t, dims |-> dims, v |-> v]
D0(v) == V("double", <<>>, v)
I0(v) == V("int", <<>>, <<v>>)

\* ----- boozmn: written from the attributes of an object.
EncodeDims(x) ==
  [radius |-> x.ns_in + 1, mn_mode |-> x.mnboz, mn_modes |-> x.mnboz,
   comput_surfs |-> Len(x.compute_surfs), pack_rad |-> Len(x.compute_surfs)]

EncodeVars(x, version) ==
  LET n == x.ns_in + 1
      Rad(v) == V("double", <<"radius">>, v)
      Spec(M) == V("double", <<"pack_rad", "mn_modes">>, M.d)
      zeros == Fill(n, Zero)
      flux == LenR(x.phip) # 0
      Lead0(v) == CatAll(<<Zero, v>>)
      base ==
       [version |-> V("char", <<"strlen">>, "C++/Python booz_xform " \o version),
        lasym__logical__ |-> I0(IF x.asym THEN 1 ELSE 0),
        ns_b |-> I0(n), nfp_b |-> I0(x.nfp),
        mboz_b |-> I0(x.mboz), nboz_b |-> I0(x.nboz), mnboz_b |-> I0(x.mnboz),
        aspect_b |-> D0(x.aspect),
        rmax_b |-> D0(Zero), rmin_b |-> D0(Zero), betaxis_b |-> D0(Zero),
        jlist |-> V("int", <<"comput_surfs">>, [k \in 1..Len(x.compute_surfs) |-> x.compute_surfs[k] + 2]),
        ixm_b |-> V("int", <<"mn_modes">>, x.xm_b), ixn_b |-> V("int", <<"mn_modes">>, x.xn_b),
        iota_b |-> Rad(Lead0(x.iota)), buco_b |-> Rad(Lead0(x.Boozer_I_all)), bvco_b |-> Rad(Lead0(x.Boozer_G_all)),
        beta_b |-> Rad(zeros),
        \* The derivative of the flux is stored like a half-grid quantity: first entry 0.
        phip_b |-> Rad(IF flux THEN Lead0(Slice(x.phip, 2, n - 1)) ELSE zeros),
        chi_b |-> Rad(IF flux THEN x.chi ELSE zeros),
        pres_b |-> Rad(IF flux THEN x.pres ELSE zeros),
        phi_b |-> Rad(IF flux THEN x.phi ELSE zeros),
        bmnc_b |-> Spec(x.bmnc_b), rmnc_b |-> Spec(x.rmnc_b), zmns_b |-> Spec(x.zmns_b),
        pmns_b |-> V("double", <<"pack_rad", "mn_modes">>, Neg(x.numns_b.d)),
        gmn_b |-> Spec(x.gmnc_b)]
      asy ==
       [bmns_b |-> Spec(x.bmns_b), rmns_b |-> Spec(x.rmns_b), zmnc_b |-> Spec(x.zmnc_b),
        pmnc_b |-> V("double", <<"pack_rad", "mn_modes">>, Neg(x.numnc_b.d)),
        gmns_b |-> Spec(x.gmns_b)]
  IN  IF x.asym THEN base @@ asy ELSE base

\* Writing sets the first entry of the object's phip to 0 (the one attribute it changes).
WriteEffect(x) == IF LenR(x.phip) = 0 THEN [phip |-> x.phip]
                  ELSE [phip |-> CatAll(<<Zero, Slice(x.phip, 2, LenR(x.phip) - 1)>>)]

\* ----- boozmn: reading.
NetCDFFormats == {"classic", "offset64", "data64", "netcdf4", "netcdf4classic"}
BoozmnScalars == {"lasym__logical__", "nfp_b", "aspect_b", "mboz_b", "nboz_b", "mnboz_b", "ns_b"}
BoozmnRadial == {"iota_b", "bvco_b", "buco_b", "phi_b", "phip_b", "pres_b"}
BoozmnSpectra == {"bmnc_b", "rmnc_b", "zmns_b", "pmns_b", "gmn_b"}
BoozmnAsymSpectra == {"bmns_b", "rmns_b", "zmnc_b", "pmnc_b", "gmns_b"}
BoozmnVars == BoozmnScalars \cup BoozmnRadial \cup BoozmnSpectra \cup {"ixm_b", "ixn_b", "jlist"}

BoozmnReadable(c) ==
  /\ c.format \in NetCDFFormats
  /\ \A v \in BoozmnScalars : IsScalar(c, v)
  /\ {"radius", "comput_surfs"} \subseteq DOMAIN c.dims
  /\ LET mn == Int1(c, "mnboz_b")  rad == c.dims.radius  nsb == c.dims.comput_surfs IN
     /\ mn >= 1 /\ rad >= 1
     /\ \A v \in {"ixm_b", "ixn_b"} : IsArray(c, v, <<mn>>)
     /\ \A v \in BoozmnRadial : IsArray(c, v, <<rad>>)
     /\ "chi_b" \in DOMAIN c.vars => IsArray(c, "chi_b", <<rad>>)     \* the Fortran program does not write it
     /\ IsArray(c, "jlist", <<nsb>>)
     /\ \A k \in 1..nsb : Ints(c, "jlist")[k] - 2 \in 0..(rad - 2)
     /\ \A v \in BoozmnSpectra : IsArray(c, v, <<nsb, mn>>)
     /\ Int1(c, "lasym__logical__") # 0 => \A v \in BoozmnAsymSpectra : IsArray(c, v, <<nsb, mn>>)

BoozmnDecode(c) ==
  LET I(name) == Int1(c, name)
      W(name) == Reals(c, name)
      asym == I("lasym__logical__") # 0
      nsin == c.dims.radius - 1
      nsb == c.dims.comput_surfs
      mn == I("mnboz_b")
      M(name) == Mat(mn, nsb, W(name))
      A(name) == IF asym THEN M(name) ELSE EmptyMat
      Tail1(v) == Slice(v, 2, nsin)
      sel == [k \in 1..nsb |-> Ints(c, "jlist")[k] - 2]
      G == Tail1(W("bvco_b"))   II == Tail1(W("buco_b"))
      idx == [k \in 1..nsb |-> sel[k] + 1]
  IN  [asym |-> asym, nfp |-> I("nfp_b"), aspect |-> W("aspect_b"),
       mboz |-> I("mboz_b"), nboz |-> I("nboz_b"), mnboz |-> mn, xm_b |-> Ints(c, "ixm_b"), xn_b |-> Ints(c, "ixn_b"),
       ns_in |-> nsin, iota |-> Tail1(W("iota_b")), Boozer_G_all |-> G, Boozer_I_all |-> II,
       phi |-> W("phi_b"), phip |-> W("phip_b"), pres |-> W("pres_b"),
       chi |-> IF "chi_b" \in DOMAIN c.vars THEN W("chi_b") ELSE Fill(nsin + 1, Zero),
       toroidal_flux |-> At(W("phi_b"), nsin + 1),
       ns_b |-> nsb, compute_surfs |-> sel,
       bmnc_b |-> M("bmnc_b"), rmnc_b |-> M("rmnc_b"), zmns_b |-> M("zmns_b"),
       numns_b |-> Mat(mn, nsb, Neg(W("pmns_b"))), gmnc_b |-> M("gmn_b"),
       bmns_b |-> A("bmns_b"), rmns_b |-> A("rmns_b"), zmnc_b |-> A("zmnc_b"),
       numnc_b |-> IF asym THEN Mat(mn, nsb, Neg(W("pmnc_b"))) ELSE EmptyMat, gmns_b |-> A("gmns_b"),
       Boozer_G |-> Pick(G, idx), Boozer_I |-> Pick(II, idx),
       s_b |-> CatAll([k \in 1..nsb |-> Quo(Add(FromInt(sel[k]), Half), FromInt(I("ns_b") - 1))])]

\* ----- wout: the variables that are used, their matrices stored by radius.
WoutScalars == {"lasym__logical__", "ns", "nfp", "mpol", "ntor", "mnmax", "mnmax_nyq", "aspect"}
WoutMats == {"rmnc", "zmns", "lmns"}              WoutNyqMats == {"bmnc", "bsubumnc", "bsubvmnc"}
WoutAsymMats == {"rmns", "zmnc", "lmnc"}          WoutAsymNyqMats == {"bmns", "bsubumns", "bsubvmns"}
WoutFluxVars == {"chi", "phipf", "pres", "phi"}
WoutReadable(c, flux) ==
  /\ c.format \in NetCDFFormats
  /\ \A v \in WoutScalars : IsScalar(c, v)
  /\ LET ns == Int1(c, "ns")  mn == Int1(c, "mnmax")  mnq == Int1(c, "mnmax_nyq") IN
     /\ ns >= 2 /\ mn >= 1 /\ mnq >= 1 /\ Int1(c, "nfp") >= 1
     /\ IsArray(c, "iotas", <<ns>>)
     /\ \A v \in {"xm", "xn"} : IsArray(c, v, <<mn>>)
     /\ \A v \in {"xm_nyq", "xn_nyq"} : IsArray(c, v, <<mnq>>)
     /\ \A v \in WoutMats : IsArray(c, v, <<ns, mn>>)
     /\ \A v \in WoutNyqMats : IsArray(c, v, <<ns, mnq>>)
     /\ Int1(c, "lasym__logical__") # 0 => /\ \A v \in WoutAsymMats : IsArray(c, v, <<ns, mn>>)
                                           /\ \A v \in WoutAsymNyqMats : IsArray(c, v, <<ns, mnq>>)
     /\ flux => \A v \in WoutFluxVars : IsArray(c, v, <<ns>>)

\* Division of C: rounds towards zero.
DivC(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

WoutAttrs(c) ==
  LET I(name) == Int1(c, name)  N(name) == Ints(c, name) IN
  [asym |-> I("lasym__logical__") # 0, nfp |-> I("nfp"), mpol |-> I("mpol"), ntor |-> I("ntor"),
   mnmax |-> I("mnmax"), mnmax_nyq |-> I("mnmax_nyq"), aspect |-> Reals(c, "aspect"),
   xm |-> N("xm"), xn |-> N("xn"), xm_nyq |-> N("xm_nyq"), xn_nyq |-> N("xn_nyq"),
   mpol_nyq |-> N("xm_nyq")[I("mnmax_nyq")],
   ntor_nyq |-> DivC(N("xn_nyq")[I("mnmax_nyq")], I("nfp"))]

WoutLoadArgs(c, flux) ==
  LET ns == Int1(c, "ns")   mn == Int1(c, "mnmax")   mnq == Int1(c, "mnmax_nyq")
      asym == Int1(c, "lasym__logical__") # 0
      W(name) == Reals(c, name)
      M(name) == Mat(mn, ns, W(name))                 N(name) == Mat(mnq, ns, W(name))
      MA(name) == IF asym THEN M(name) ELSE EmptyMat  NA(name) == IF asym THEN N(name) ELSE EmptyMat
      F(name) == IF flux THEN W(name) ELSE <<>>
  IN  [ns |-> ns, iotas |-> W("iotas"),
       rmnc0 |-> M("rmnc"), rmns0 |-> MA("rmns"), zmnc0 |-> MA("zmnc"), zmns0 |-> M("zmns"),
       lmnc0 |-> MA("lmnc"), lmns0 |-> M("lmns"), bmnc0 |-> N("bmnc"), bmns0 |-> NA("bmns"),
       bsubumnc0 |-> N("bsubumnc"), bsubumns0 |-> NA("bsubumns"),
       bsubvmnc0 |-> N("bsubvmnc"), bsubvmns0 |-> NA("bsubvmns"),
       phips |-> F("phipf"), chi |-> F("chi"), pres |-> F("pres"), phi |-> F("phi")]
=============================================================================
