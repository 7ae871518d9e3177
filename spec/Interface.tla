------------------------------ MODULE Interface ------------------------------
(* How the public functions may be called.  A signature is                     *)
(*   [req, opt, kw, any]: required and optional parameters that may be given    *)
(* by position, in this order; parameters that are given by name; and whether   *)
(* further names are handed on to others.  Optional parameters are              *)
(* <<name, documented default>>; None stands for the default as well.           *)
(* A call is [pos, named]: sequences of <<value>> and <<name, value>>, where a   *)
(* value is <<owner, how>>: "value" (one that is no default), "doc" (the         *)
(* documented default spelled out), or "None".                                 *)
EXTENDS Integers, Sequences, FiniteSets
Sg(req, opt, kw) == [req |-> req, opt |-> opt, kw |-> kw, any |-> FALSE]
Any(s) == [s EXCEPT !.any = TRUE]
Nn == "None"
IntSrc == "'internal'"
Pt == <<"radius", "theta", "phi">>
TPt == <<"time">> \o Pt
TB == <<"theta", "phi", "base_1", "base_2", "base_3">>
Ext == <<"extrapolate", "'linear'">>
Der == <<"deriv", "0">>
Grd == <<"grid", "False">>
Nm == <<"nmax", Nn>>
Sigs == [
  mjd2000 |-> Sg(<<"year">>, <<<<"month", "1">>, <<"day", "1">>, <<"hour", "0">>, <<"minute", "0">>, <<"second", "0">>,
                              <<"microsecond", "0">>, <<"nanosecond", "0">>>>, <<>>),
  timestamp |-> Sg(<<"time">>, <<>>, <<>>),
  dyear_to_mjd |-> Sg(<<"time">>, <<<<"leap_year", "True">>>>, <<>>),
  mjd_to_dyear |-> Sg(<<"time">>, <<<<"leap_year", "True">>>>, <<>>),
  gauss_units |-> Sg(<<>>, <<Der>>, <<>>),
  load_shcfile |-> Sg(<<"filepath">>, <<<<"leap_year", "True">>, <<"comment", "'#'">>>>, <<>>),
  save_shcfile |-> Sg(<<"time", "coeffs">>, <<<<"order", "1">>, <<"filepath", "'model.shc'">>, <<"nmin", "1">>, Nm,
                                            <<"leap_year", "True">>, <<"header", "''">>>>, <<>>),
  load_matfile |-> Any(Sg(<<"filepath">>, <<<<"variable_names", Nn>>>>, <<>>)),
  load_RC_datfile |-> Sg(<<"filepath">>, <<<<"parse_dates", "False">>>>, <<>>),
  design_matrix |-> Sg(<<"knots", "order", "n_tdep">> \o TPt, <<<<"n_static", Nn>>, <<"source", IntSrc>>>>, <<>>),
  colloc_matrix |-> Sg(<<"x", "knots", "order">>, <<Der>>, <<>>),
  augment_breaks |-> Sg(<<"breaks", "order">>, <<>>, <<>>),
  pp_from_bspline |-> Sg(<<"coeffs", "knots", "order">>, <<>>, <<>>),
  synth_from_pp |-> Sg(<<"breaks", "order", "coeffs">> \o TPt, <<>>, <<Nm, <<"source", IntSrc>>, Der, Grd>>),
  synth_values |-> Sg(<<"coeffs">> \o Pt, <<>>, <<Nm, <<"nmin", "1">>, <<"mmax", Nn>>, <<"source", IntSrc>>, Grd>>),
  design_gauss |-> Sg(Pt \o <<"nmax">>, <<>>, <<<<"nmin", "1">>, <<"mmax", Nn>>, <<"source", IntSrc>>>>),
  legendre_poly |-> Sg(<<"nmax", "theta">>, <<>>, <<>>),
  power_spectrum |-> Sg(<<"coeffs">>, <<<<"radius", Nn>>>>, <<Nm, <<"source", IntSrc>>, <<"axis", "-1">>>>),
  degree_correlation |-> Sg(<<"coeffs_1", "coeffs_2">>, <<>>, <<>>),
  sensitivity |-> Sg(<<"coeffs", "coeffs_true">>, <<>>, <<>>),
  igrf_dipole |-> Sg(<<>>, <<<<"epoch", "'2015'">>>>, <<>>),
  dipole_to_vec |-> Sg(<<>>, <<<<"dipole", Nn>>>>, <<>>),
  synth_rotate_gauss |-> Sg(<<"time", "frequency", "spectrum">>, <<<<"scaled", "False">>>>, <<>>),
  rotate_gauss_fft |-> Sg(<<"nmax", "kmax">>, <<>>, <<<<"step", "1.0">>, <<"filter", Nn>>, <<"reference", "'gsm'">>,
                                                     <<"scaled", "False">>, <<"start_date", "0.0">>, <<"save_to", "False">>>>),
  rotate_gauss |-> Sg(<<"nmax", "kmax", "base_1", "base_2", "base_3">>, <<>>, <<>>),
  sh_analysis |-> Sg(<<"func", "nmax">>, <<<<"kmax", Nn>>>>, <<>>),
  sun_position |-> Sg(<<"time">>, <<>>, <<>>),
  zenith_angle |-> Sg(<<"time", "theta", "phi">>, <<>>, <<>>),
  local_time |-> Sg(<<"time", "phi">>, <<>>, <<>>),
  spherical_to_cartesian |-> Sg(Pt, <<>>, <<>>),
  cartesian_to_spherical |-> Sg(<<"x", "y", "z">>, <<>>, <<>>),
  gg_to_geo |-> Sg(<<"height", "beta">>, <<<<"X", Nn>>, <<"Z", Nn>>>>, <<>>),
  geo_to_gg |-> Sg(<<"radius", "theta">>, <<<<"B_radius", Nn>>, <<"B_theta", Nn>>>>, <<>>),
  basevectors_gg |-> Sg(<<"theta", "beta">>, <<>>, <<>>),
  basevectors_gsm |-> Sg(<<"time">>, <<<<"dipole", Nn>>>>, <<>>),
  basevectors_sm |-> Sg(<<"time">>, <<<<"dipole", Nn>>>>, <<>>),
  basevectors_mag |-> Sg(<<>>, <<<<"dipole", Nn>>>>, <<>>),
  basevectors_use |-> Sg(<<"theta", "phi">>, <<>>, <<>>),
  geo_to_base |-> Sg(TB, <<<<"inverse", "False">>>>, <<>>),
  matrix_geo_to_base |-> Sg(TB, <<<<"inverse", "False">>>>, <<>>),
  transform_points |-> Sg(<<"theta", "phi">>, <<<<"time", Nn>>>>, <<<<"inverse", "False">>, <<"dipole", Nn>>>>),
  transform_vectors |-> Sg(<<"theta", "phi", "B_theta", "B_phi", "time", "reference">>,
                           <<<<"inverse", "False">>, <<"dipole", Nn>>>>, <<>>),
  q_response_1D |-> Sg(<<"periods", "sigma", "radius", "n">>, <<<<"kind", "'quadratic'">>>>, <<>>),
  q_response |-> Sg(<<"frequency", "nmax">>, <<>>, <<>>),
  Base |-> Sg(<<"name">>, <<<<"breaks", Nn>>, <<"order", Nn>>, <<"coeffs", Nn>>, <<"meta", Nn>>>>, <<>>),
  BaseModel |-> Sg(<<"name">>, <<<<"breaks", Nn>>, <<"order", Nn>>, <<"coeffs", Nn>>, <<"source", IntSrc>>, <<"meta", Nn>>>>, <<>>),
  CHAOS |-> Sg(<<"breaks">>, <<<<"order", Nn>>>>, <<<<"coeffs_tdep", Nn>>, <<"coeffs_static", Nn>>, <<"name", "'CHAOS'">>,
                                                   <<"meta", Nn>>>>),
  from_bspline |-> Sg(<<"name", "knots", "coeffs", "order">>, <<<<"source", IntSrc>>, <<"meta", Nn>>>>, <<>>),
  base_coeffs |-> Sg(<<"time">>, <<>>, <<<<"dim", Nn>>, Der, Ext>>),
  model_coeffs |-> Sg(<<"time">>, <<>>, <<Nm, Der, Ext>>),
  model_values |-> Sg(TPt, <<>>, <<Nm, Der, Grd, Ext>>),
  model_spectrum |-> Any(Sg(<<"time">>, <<<<"radius", "6371.2">>>>, <<Nm, Der, Ext>>)),
  to_shc |-> Sg(<<"filepath">>, <<>>, <<<<"leap_year", "False">>, <<"nmin", "1">>, Nm, <<"header", Nn>>>>),
  from_shc |-> Sg(<<"filepath">>, <<>>, <<<<"name", Nn>>, <<"leap_year", "False">>, <<"source", IntSrc>>, <<"meta", Nn>>>>),
  call |-> Sg(TPt, <<<<"rc_e", Nn>>, <<"rc_i", Nn>>, <<"source_list", "['tdep', 'static', 'gsm', 'sm']">>,
                    <<"nmax_static", Nn>>, <<"verbose", "False">>>>, <<>>),
  coeffs_tdep |-> Any(Sg(<<"time">>, <<>>, <<Nm, Der, Ext>>)),
  values_tdep |-> Sg(TPt, <<>>, <<Nm, Der, Grd, Ext>>),
  coeffs_static |-> Any(Sg(<<>>, <<>>, <<Nm>>)),
  values_static |-> Any(Sg(Pt, <<>>, <<Nm, Grd>>)),
  coeffs_gsm |-> Sg(<<"time">>, <<>>, <<Nm, <<"source", "'external'">>>>),
  values_gsm |-> Sg(TPt, <<>>, <<Nm, <<"source", "'all'">>, Grd>>),
  coeffs_sm |-> Sg(<<"time">>, <<>>, <<Nm, <<"source", "'external'">>, <<"rc", Nn>>>>),
  values_sm |-> Sg(TPt, <<>>, <<<<"rc_e", Nn>>, <<"rc_i", Nn>>, Nm, <<"source", "'all'">>, Grd>>),
  euler |-> Sg(<<"time", "satellite">>, <<>>, <<<<"dim", Nn>>, Der, Ext>>),
  chaos_save_shc |-> Sg(<<"filepath">>, <<>>, <<<<"model", "'tdep'">>, <<"leap_year", "False">>>>),
  load_CHAOS_matfile |-> Sg(<<"filepath">>, <<<<"name", Nn>>, <<"satellites", Nn>>>>, <<>>),
  CHAOS_from_mat |-> Sg(<<"filepath">>, <<<<"name", Nn>>, <<"satellites", Nn>>>>, <<>>),
  load_CHAOS_shcfile |-> Sg(<<"filepath">>, <<<<"name", Nn>>, <<"leap_year", "False">>>>, <<>>),
  load_IGRF |-> Sg(<<"filepath">>, <<<<"name", Nn>>>>, <<>>),
  load_CovObs |-> Sg(<<"filepath">>, <<<<"name", Nn>>>>, <<>>),
  load_gufm1 |-> Sg(<<"filepath">>, <<<<"name", Nn>>>>, <<>>),
  load_CALS7K |-> Sg(<<"filepath">>, <<<<"name", Nn>>>>, <<>>),
  save_RC_h5file |-> Sg(<<"filepath", "read_from">>, <<>>, <<>>),
  save_matfile |-> Sg(<<"filepath">>, <<<<"path", "'/pp'">>>>, <<>>),
  is_leap_year |-> Sg(<<"year">>, <<>>, <<>>),
  center_azimuth |-> Sg(<<"phi">>, <<>>, <<>>),
  plot_timeseries |-> Any(Sg(Pt, <<>>, <<Nm, Der, Ext>>)),
  plot_spectrum |-> Any(Sg(<<"time">>, <<>>, <<<<"radius", "6371.2">>, Nm, Der>>)),
  context |-> Sg(<<"key", "value">>, <<>>, <<>>) ]

\* functions for which None does not stand for the default
Strict == {"mjd2000"}
\* functions that find a required parameter elsewhere when it is left out
Helped == [load_RC_datfile |-> "filepath", save_RC_h5file |-> "read_from"]

NamesOf(ps) == [i \in 1..Len(ps) |-> ps[i][1]]
PosOf(s) == s.req \o NamesOf(s.opt)
KwOf(s) == NamesOf(s.kw)
Rng(q) == {q[i] : i \in 1..Len(q)}
Doc(s, p) == LET ps == s.opt \o s.kw IN ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = p][2]
Optional(s) == Rng(NamesOf(s.opt)) \cup Rng(KwOf(s))

\* ---- how a call is understood ------------------------------------------------
\* whether it is understood, and what the parameters get, defaults left out
Given(s, c) == [i \in 1..Len(c.pos) |-> <<PosOf(s)[i], c.pos[i]>>] \o c.named
NoCall == [ok |-> FALSE, args |-> {}]
Bind(s, c) ==
    IF Len(c.pos) > Len(PosOf(s)) THEN NoCall
    ELSE LET g == Given(s, c)
             names == Rng(NamesOf(g))
             kept == {j \in 1..Len(g) : ~(g[j][1] \in Optional(s) /\ g[j][2][2] \in {"doc", Nn})}
         IN IF Cardinality(names) # Len(g) THEN NoCall
            ELSE IF ~s.any /\ ~(names \subseteq (Rng(PosOf(s)) \cup Rng(KwOf(s)))) THEN NoCall
            ELSE IF ~(Rng(s.req) \subseteq names) THEN NoCall
            ELSE [ok |-> TRUE, args |-> {g[i] : i \in kept}]
=============================================================================
