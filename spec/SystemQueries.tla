---------------------------- MODULE SystemQueries ----------------------------
(* The public queries and what each of them reads.                             *)
Catalogue == [
  mjd2000 |-> {"yr"}, timestamp |-> {"t"}, dyear_to_mjd |-> {"dy"}, mjd_to_dyear |-> {"t"},
  is_leap_year |-> {"yr"}, gauss_units |-> {}, load_shcfile |-> {}, save_shcfile |-> {"ts", "g"},
  load_matfile |-> {}, load_RC_datfile |-> {},
  synth_values |-> {"g", "r", "th", "ph"}, synth_values_grid |-> {"g1", "r1", "th", "ph"},
  synth_values_poles |-> {"g1", "r1", "ph"}, synth_values_ext |-> {"g", "r", "th", "ph"}, design_gauss |-> {"r", "th", "ph"},
  legendre_poly |-> {"th"}, power_spectrum |-> {"g", "r1"}, power_spectrum_ext |-> {"g"},
  degree_correlation |-> {"g1", "g2"}, sensitivity |-> {"g1", "g2"},
  design_matrix |-> {"kn", "t", "r", "th", "ph"}, colloc_matrix |-> {"kn", "t"},
  augment_list |-> {"bl"}, augment_breaks |-> {"br"}, pp_from_bspline |-> {"bc", "kn"},
  synth_from_pp |-> {"br", "pp", "t", "r", "th", "ph"},
  synth_rotate_gauss |-> {"t", "fr", "sp"}, rotate_gauss |-> {"b1", "b2", "b3"},
  rotate_gauss_fft |-> {}, sh_analysis |-> {}, sun_position |-> {"t"},
  zenith_angle |-> {"t", "th", "ph"}, local_time |-> {"t", "ph"}, center_azimuth |-> {"ph"},
  spherical_to_cartesian |-> {"r", "th", "ph"}, cartesian_to_spherical |-> {"x", "y", "z"},
  gg_to_geo |-> {"h", "th"}, gg_to_geo_vec |-> {"h", "th", "x", "z"}, geo_to_gg |-> {"r", "th"},
  geo_to_gg_vec |-> {"r", "th", "x", "z"}, basevectors_gg |-> {"th", "h"},
  basevectors_gsm |-> {"t"}, basevectors_sm |-> {"t", "dip"}, basevectors_mag |-> {},
  basevectors_use |-> {"th", "ph"}, geo_to_base |-> {"th", "ph", "b1", "b2", "b3"},
  geo_to_base_inv |-> {"th", "ph", "b1", "b2", "b3"},
  matrix_geo_to_base |-> {"th", "ph", "b1", "b2", "b3"},
  matrix_geo_to_base_inv |-> {"th", "ph", "b1", "b2", "b3"},
  transform_points |-> {"th", "ph", "t"}, transform_points_mag |-> {"th", "ph", "dip"},
  transform_vectors |-> {"th", "ph", "x", "y", "t"}, transform_vectors_inv |-> {"th", "ph", "x", "y", "t"},
  q_response_1D |-> {"per", "sig", "rad"}, q_response |-> {"fq"}, dipole_to_vec |-> {"dip"},
  igrf_dipole |-> {},
  base_coeffs |-> {"base", "t"}, base_coeffs_deriv |-> {"base", "t"}, base_linear |-> {"base", "tx"}, base_constant |-> {"base", "tx"},
  base_off |-> {"base", "tx"}, base_spline |-> {"base", "tx"},
  base_values |-> {"base", "t", "r", "th", "ph"}, base_spectrum |-> {"base", "t"},
  base_ppdict |-> {"base"}, from_bspline |-> {"kn", "bc"}, base_shc |-> {"base"},
  coeffs_tdep |-> {"model", "t"}, values_tdep |-> {"model", "t", "r", "th", "ph"},
  values_tdep_grid |-> {"model", "r1", "th", "ph"},
  coeffs_static |-> {"model"}, values_static |-> {"model", "r", "th", "ph"},
  coeffs_gsm |-> {"model", "t"}, values_gsm |-> {"model", "t", "r", "th", "ph"},
  coeffs_sm |-> {"model", "t", "rc"}, coeffs_sm_file |-> {"model", "t"},
  values_sm |-> {"model", "t", "r", "th", "ph", "rc"}, euler |-> {"model", "t"},
  call |-> {"model", "t", "r", "th", "ph", "rc", "src"}, call_all |-> {"model", "t", "r", "th", "ph"},
  save_shc |-> {"model"}, save_mat |-> {"model"}, model_coeffs |-> {"model", "tx"},
  bad_theta |-> {"g", "r", "tx", "ph"}, bad_source |-> {"model", "t", "r", "th", "ph"},
  bad_shape |-> {"g", "r", "th", "bc"}, bad_reference |-> {"th", "ph", "t"}, bad_deriv |-> {"base", "t"},
  timeseries |-> {"base", "r1", "th", "ph"}, plot_spectrum |-> {"base", "t"}, maps |-> {"model", "t", "r1"} ]
\* queries that work on the same things
Families == <<
  {q \in DOMAIN Catalogue : "base" \in Catalogue[q]},
  {q \in DOMAIN Catalogue : "model" \in Catalogue[q]},
  {q \in DOMAIN Catalogue : "model" \in Catalogue[q]} \cap
      {"coeffs_gsm", "values_gsm", "coeffs_sm", "coeffs_sm_file", "values_sm", "call", "call_all", "euler"},
  {q \in DOMAIN Catalogue : Catalogue[q] \cap {"g", "g1", "g2", "kn", "bc", "br", "bl"} # {}} \cup
      {"design_gauss", "legendre_poly"},
  {q \in DOMAIN Catalogue : Catalogue[q] \cap {"b1", "dip", "fr", "fq", "per", "h", "x", "z"} # {}} \cup
      {"rotate_gauss_fft", "sh_analysis", "basevectors_mag", "basevectors_use", "basevectors_gsm", "geo_to_gg",
       "transform_points", "igrf_dipole", "bad_reference"},
  {"mjd2000", "timestamp", "dyear_to_mjd", "mjd_to_dyear", "is_leap_year", "gauss_units", "load_shcfile",
   "save_shcfile", "load_matfile", "load_RC_datfile", "sun_position", "zenith_angle", "local_time",
   "center_azimuth", "coeffs_sm_file", "base_shc", "save_shc"} >>
=============================================================================
