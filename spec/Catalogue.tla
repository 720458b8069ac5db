------------------------------ MODULE Catalogue ------------------------------
(* The public classes: for every parameter, which forms of value are invalid   *)
(* and refused (bad; ctor at construction), whether it can be left out at construction (opt), and *)
(* the reciprocal parameter through which it can also be set (alias); the       *)
(* queries with the rank of their components (-1: an attribute), whether there   *)
(* is an array of frequencies or times, ...; which observation arguments every query refuses (badpts).           *)
(* Written by tools/mkcatalogue.py.                                             *)
EXTENDS Integers
Classes ==
  [
   PointMass |-> [attrs |-> [
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      mass |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""]],
      queries |-> <<"gravitational_potential", "gravitational_field", "gravitational_gradient">>,
      rank |-> <<0, 1, 2>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   GravitySphere |-> [attrs |-> [
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      radius |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> FALSE, alias |-> ""],
      rho |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> FALSE, alias |-> "mass"]],
      queries |-> <<"gravitational_potential", "gravitational_field", "gravitational_gradient", "@mass">>,
      rank |-> <<0, 1, 2, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   GravityPrism |-> [attrs |-> [
      max_location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words", "reversed1", "reversed2", "reversed3", "flat1", "flat2", "flat3">>, opt |-> FALSE, alias |-> ""],
      min_location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""],
      rho |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""]],
      queries |-> <<"gravitational_potential", "gravitational_field", "gravitational_gradient", "@mass", "@volume", "@location">>,
      rank |-> <<0, 1, 2, -1, -1, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   MagneticPrism |-> [attrs |-> [
      magnetization |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      max_location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words", "reversed1", "reversed2", "reversed3", "flat1", "flat2", "flat3">>, opt |-> FALSE, alias |-> ""],
      min_location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"scalar_potential", "magnetic_field", "magnetic_flux_density", "magnetic_field_gradient", "@moment", "@volume", "@location">>,
      rank |-> <<0, 1, 1, 2, -1, -1, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   ElectrostaticSphere |-> [attrs |-> [
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      primary_field |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      radius |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> FALSE, alias |-> ""],
      sigma_background |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> FALSE, alias |-> ""],
      sigma_sphere |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"potential/total", "potential/primary", "potential/secondary", "electric_field/total", "electric_field/primary", "electric_field/secondary", "current_density/total", "current_density/primary", "current_density/secondary", "charge_density">>,
      rank |-> <<0, 0, 0, 1, 1, 1, 1, 1, 1, 0>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   MagnetostaticSphere |-> [attrs |-> [
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      mu_background |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> FALSE, alias |-> ""],
      mu_sphere |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> FALSE, alias |-> ""],
      primary_field |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      radius |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"potential/total", "potential/primary", "potential/secondary", "magnetic_field/total", "magnetic_field/primary", "magnetic_field/secondary", "magnetic_flux_density/total", "magnetic_flux_density/primary", "magnetic_flux_density/secondary">>,
      rank |-> <<0, 0, 0, 1, 1, 1, 1, 1, 1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   PointCurrentWholeSpace |-> [attrs |-> [
      current |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      rho |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> FALSE, alias |-> "sigma"]],
      queries |-> <<"potential", "electric_field", "current_density", "scalar_potential">>,
      rank |-> <<0, 1, 1, 0>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   PointCurrentHalfSpace |-> [attrs |-> [
      current |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      location |-> [bad |-> <<"above", "aboveint", "column", "empty", "justabove", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"above", "aboveint", "column", "empty", "justabove", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      rho |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"potential", "electric_field", "current_density">>,
      rank |-> <<0, 1, 1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2", "wrongside">>],
   DipoleHalfSpace |-> [attrs |-> [
      current |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      location_a |-> [bad |-> <<"above", "aboveint", "column", "empty", "justabove", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"above", "aboveint", "column", "empty", "justabove", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      location_b |-> [bad |-> <<"above", "aboveint", "column", "empty", "justabove", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"above", "aboveint", "column", "empty", "justabove", "long", "nine", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      rho |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"potential", "electric_field", "current_density", "~potential", "~electric_field", "~current_density">>,
      rank |-> <<0, 1, 1, -1, -1, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> TRUE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2", "wrongside">>],
   StaticMagneticDipole |-> [attrs |-> [
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      moment |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, ctor |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"]],
      queries |-> <<"vector_potential", "vector_potential/cartesian", "vector_potential/cylindrical", "magnetic_field", "magnetic_field/cartesian", "magnetic_field/cylindrical", "magnetic_flux_density", "magnetic_flux_density/cartesian", "magnetic_flux_density/cylindrical", "~distance", "~vector_distance", "~dot_orientation", "~cross_orientation", "@rho">>,
      rank |-> <<1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -1, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   StaticMagneticPole |-> [attrs |-> [
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      moment |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, ctor |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"]],
      queries |-> <<"magnetic_field", "magnetic_field/cartesian", "magnetic_field/cylindrical", "magnetic_flux_density", "magnetic_flux_density/cartesian", "magnetic_flux_density/cylindrical", "~distance", "~vector_distance", "~dot_orientation", "~cross_orientation", "@rho">>,
      rank |-> <<1, 1, 1, 1, 1, 1, -1, -1, -1, -1, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   CircularLoop |-> [attrs |-> [
      current |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, ctor |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, opt |-> TRUE, alias |-> ""],
      radius |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"]],
      queries |-> <<"vector_potential", "vector_potential/cartesian", "vector_potential/cylindrical", "magnetic_field", "magnetic_field/cartesian", "magnetic_field/cylindrical", "magnetic_flux_density", "magnetic_flux_density/cartesian", "magnetic_flux_density/cylindrical", "~distance", "~vector_distance", "~dot_orientation", "~cross_orientation", "@rho">>,
      rank |-> <<1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -1, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   LineCurrent |-> [attrs |-> [
      current |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      nodes |-> [bad |-> <<"cube", "number", "pair", "pairs", "text", "wide", "words">>, ctor |-> <<"cube", "number", "pair", "pairs", "text", "wide", "words">>, opt |-> FALSE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"]],
      queries |-> <<"scalar_potential", "vector_potential", "magnetic_field", "magnetic_flux_density", "electric_field", "current_density", "@n_segments", "@rho">>,
      rank |-> <<0, 1, 1, 1, 1, 1, -1, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   HarmonicElectricDipole |-> [attrs |-> [
      current |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      frequency |-> [bad |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, ctor |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""],
      length |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, ctor |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, opt |-> TRUE, alias |-> ""],
      quasistatic |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"]],
      queries |-> <<"vector_potential", "electric_field", "current_density", "magnetic_field", "magnetic_flux_density", "@omega", "@sigma_hat", "@wavenumber", "@skin_depth", "~distance", "~vector_distance", "~dot_orientation", "~cross_orientation", "@rho">>,
      rank |-> <<1, 1, 1, 1, 1, -1, -1, -1, -1, -1, -1, -1, -1, -1>>, sampled |-> TRUE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   HarmonicMagneticDipole |-> [attrs |-> [
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      frequency |-> [bad |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, ctor |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      moment |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, ctor |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, opt |-> TRUE, alias |-> ""],
      quasistatic |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"]],
      queries |-> <<"vector_potential", "electric_field", "current_density", "magnetic_field", "magnetic_flux_density", "@omega", "@sigma_hat", "@wavenumber", "@skin_depth", "~distance", "~vector_distance", "~dot_orientation", "~cross_orientation", "@rho">>,
      rank |-> <<1, 1, 1, 1, 1, -1, -1, -1, -1, -1, -1, -1, -1, -1>>, sampled |-> TRUE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   HarmonicPlaneWave |-> [attrs |-> [
      amplitude |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      frequency |-> [bad |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, ctor |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"down", "lowup", "minus", "name", "rows", "short", "tilted", "tiny", "up", "words", "xx", "yy">>, ctor |-> <<"down", "lowup", "minus", "name", "rows", "short", "tilted", "tiny", "up", "words", "xx", "yy">>, opt |-> TRUE, alias |-> ""],
      quasistatic |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"]],
      queries |-> <<"electric_field", "current_density", "magnetic_field", "magnetic_flux_density", "@omega", "@sigma_hat", "@wavenumber", "@skin_depth">>,
      rank |-> <<1, 1, 1, 1, -1, -1, -1, -1>>, sampled |-> TRUE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   TransientElectricDipole |-> [attrs |-> [
      current |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      length |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, ctor |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"],
      time |-> [bad |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, ctor |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"vector_potential", "electric_field", "current_density", "magnetic_field", "magnetic_flux_density", "magnetic_field_time_deriv", "magnetic_flux_density_time_deriv", "@diffusion_distance", "@theta", "~distance", "~vector_distance", "~dot_orientation", "~cross_orientation", "@rho", "~peak_time">>,
      rank |-> <<1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -1, -1, -1, -1, -1>>, sampled |-> TRUE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   TransientPlaneWave |-> [attrs |-> [
      amplitude |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      epsilon |-> [bad |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, ctor |-> <<"complex", "dict", "negative", "none", "pair", "text", "tinyneg", "vec">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"down", "lowup", "minus", "name", "rows", "short", "tilted", "tiny", "up", "words", "xx", "yy">>, ctor |-> <<"down", "lowup", "minus", "name", "rows", "short", "tilted", "tiny", "up", "words", "xx", "yy">>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"],
      time |-> [bad |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, ctor |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"electric_field", "current_density", "magnetic_field", "magnetic_flux_density", "@diffusion_distance", "@theta", "~peak_time">>,
      rank |-> <<1, 1, 1, 1, -1, -1, -1>>, sampled |-> TRUE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2">>],
   HarmonicDipoleHalfSpace |-> [attrs |-> [
      frequency |-> [bad |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, ctor |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words", "above", "below">>, opt |-> TRUE, alias |-> ""],
      moment |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, ctor |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, opt |-> TRUE, alias |-> ""],
      quasistatic |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"]],
      queries |-> <<"magnetic_field", "magnetic_field/secondary", "magnetic_field/total", "@omega", "@sigma_hat", "@wavenumber", "@skin_depth">>,
      rank |-> <<1, 1, 1, -1, -1, -1, -1>>, sampled |-> TRUE, squeeze |-> TRUE, rows |-> FALSE, arrays |-> TRUE, pair |-> FALSE,
      badpts |-> <<"scalar", "text", "tuple2", "ragged", "none">>],
   HarmonicDipoleLayered |-> [attrs |-> [
      epsilon |-> [bad |-> <<"below", "cube", "long", "scalar", "short", "table", "text">>, ctor |-> <<"below", "cube", "long", "scalar", "short", "table", "text">>, opt |-> TRUE, alias |-> ""],
      frequency |-> [bad |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, ctor |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""],
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words", "below", "justbelow">>, opt |-> TRUE, alias |-> ""],
      moment |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"below", "cube", "long", "scalar", "short", "table", "text">>, ctor |-> <<"below", "cube", "long", "scalar", "short", "table", "text">>, opt |-> TRUE, alias |-> ""],
      orientation |-> [bad |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, ctor |-> <<"blank", "empty", "long", "minus", "name", "none", "number", "rows", "short", "word", "words", "xx", "zz">>, opt |-> TRUE, alias |-> ""],
      quasistatic |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"cube", "long", "lossy", "negative", "scalarneg", "short", "table", "text", "words", "zero">>, ctor |-> <<"cube", "long", "lossy", "negative", "scalarneg", "short", "table", "text", "words", "zero">>, opt |-> TRUE, alias |-> ""],
      thickness |-> [bad |-> <<"firstnegative", "negative", "table", "text", "words">>, ctor |-> <<"firstnegative", "negative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"magnetic_field", "magnetic_field/secondary", "magnetic_field/total", "@omega">>,
      rank |-> <<1, 1, 1, -1>>, sampled |-> TRUE, squeeze |-> TRUE, rows |-> TRUE, arrays |-> TRUE, pair |-> FALSE,
      badpts |-> <<"column", "emptypairs", "four", "none", "pair", "pairs", "ragged", "scalar", "text", "tuple2", "wrongside">>],
   TransientDipoleHalfSpace |-> [attrs |-> [
      location |-> [bad |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, ctor |-> <<"column", "empty", "long", "nine", "none", "number", "rows", "short", "text", "words">>, opt |-> TRUE, alias |-> ""],
      moment |-> [bad |-> <<"complex", "dict", "none", "pair", "text", "vec">>, ctor |-> <<"complex", "dict", "none", "pair", "text", "vec">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> ""],
      sigma |-> [bad |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, ctor |-> <<"complex", "dict", "izero", "minuszero", "negative", "none", "pair", "text", "tinyneg", "vec", "zero">>, opt |-> TRUE, alias |-> "rho"],
      time |-> [bad |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, ctor |-> <<"lastnegative", "negative", "onenegative", "table", "text", "words">>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<"magnetic_field", "magnetic_flux_density", "magnetic_field_time_derivative", "magnetic_flux_time_derivative", "@diffusion_distance", "@theta", "~peak_time">>,
      rank |-> <<1, 1, 1, 1, -1, -1, -1>>, sampled |-> TRUE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<"four", "scalar", "text", "ragged", "column", "none">>],
   Fault |-> [attrs |-> [
      O |-> [bad |-> <<"long", "number", "rows", "short", "text", "words">>, ctor |-> <<"long", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""],
      U |-> [bad |-> <<"long", "number", "rows", "short", "text", "words">>, ctor |-> <<"long", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""],
      V |-> [bad |-> <<"long", "number", "rows", "short", "text", "words">>, ctor |-> <<"long", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""],
      beta |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> TRUE, alias |-> ""],
      center |-> [bad |-> <<"long", "number", "rows", "short", "text", "words">>, ctor |-> <<"long", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""],
      depth_bottom |-> [bad |-> <<"dict", "none", "pair", "text", "v-5", "v10">>, ctor |-> <<"dict", "none", "pair", "text", "v-5", "v10">>, opt |-> TRUE, alias |-> ""],
      depth_top |-> [bad |-> <<"dict", "none", "pair", "text", "v-1", "v-1e-09">>, ctor |-> <<"dict", "none", "pair", "text", "v-1", "v-1e-09">>, opt |-> FALSE, alias |-> ""],
      dip |-> [bad |-> <<"dict", "none", "pair", "text", "v-1", "v90.5", "v91">>, ctor |-> <<"dict", "none", "pair", "text", "v-1", "v90.5", "v91">>, opt |-> TRUE, alias |-> ""],
      length |-> [bad |-> <<"dict", "none", "pair", "text", "v-1">>, ctor |-> <<"dict", "none", "pair", "text", "v-1">>, opt |-> TRUE, alias |-> ""],
      mu |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> TRUE, alias |-> ""],
      rake |-> [bad |-> <<"dict", "none", "pair", "text", "v-181", "v180.5", "v181">>, ctor |-> <<"dict", "none", "pair", "text", "v-181", "v180.5", "v181">>, opt |-> TRUE, alias |-> ""],
      shape |-> [bad |-> <<"long", "short", "words">>, ctor |-> <<"long", "short", "words">>, opt |-> TRUE, alias |-> ""],
      slip |-> [bad |-> <<"dict", "none", "pair", "text", "v-1">>, ctor |-> <<"dict", "none", "pair", "text", "v-1">>, opt |-> TRUE, alias |-> ""],
      strike |-> [bad |-> <<"dict", "none", "pair", "text", "v-1", "v360.5", "v361">>, ctor |-> <<"dict", "none", "pair", "text", "v-1", "v360.5", "v361">>, opt |-> TRUE, alias |-> ""]],
      queries |-> <<"@simulation_grid", "@displacement_vector">>,
      rank |-> <<-1, -1>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<>>],
   Interferogram |-> [attrs |-> [
      copyright |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""],
      data |-> [bad |-> <<"words">>, ctor |-> <<"words">>, opt |-> FALSE, alias |-> ""],
      data_source |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""],
      description |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""],
      event_country |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""],
      event_gcmt_id |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""],
      event_name |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""],
      local_earth_radius |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> TRUE, alias |-> ""],
      local_rigidity |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> TRUE, alias |-> ""],
      location |-> [bad |-> <<"long", "number", "rows", "short", "text", "words">>, ctor |-> <<"long", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""],
      location_UTM_zone |-> [bad |-> <<"none", "text">>, ctor |-> <<"none", "text">>, opt |-> FALSE, alias |-> ""],
      pixel_size |-> [bad |-> <<"long", "number", "rows", "short", "text", "words">>, ctor |-> <<"long", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""],
      processed_by |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""],
      ref |-> [bad |-> <<"long", "number", "rows", "short", "text", "words">>, ctor |-> <<"long", "number", "rows", "short", "text", "words">>, opt |-> FALSE, alias |-> ""],
      ref_incidence |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> FALSE, alias |-> ""],
      satellite_altitude |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> FALSE, alias |-> ""],
      satellite_azimuth |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> FALSE, alias |-> ""],
      satellite_fringe_interval |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> TRUE, alias |-> ""],
      satellite_name |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""],
      scaling |-> [bad |-> <<"dict", "none", "pair", "text">>, ctor |-> <<"dict", "none", "pair", "text">>, opt |-> TRUE, alias |-> ""],
      shape |-> [bad |-> <<"long", "short", "words">>, ctor |-> <<"long", "short", "words">>, opt |-> FALSE, alias |-> ""],
      title |-> [bad |-> <<>>, ctor |-> <<>>, opt |-> FALSE, alias |-> ""]],
      queries |-> <<>>,
      rank |-> <<>>, sampled |-> FALSE, squeeze |-> FALSE, rows |-> FALSE, arrays |-> FALSE, pair |-> FALSE,
      badpts |-> <<>>]]
Functions == {"cylindrical_to_cartesian",
  "cylindrical_to_cartesian+vec",
  "cartesian_to_cylindrical",
  "cartesian_to_cylindrical+vec",
  "spherical_to_cartesian",
  "spherical_to_cartesian+vec",
  "cartesian_to_spherical",
  "cartesian_to_spherical+vec",
  "cylindrical_2_cartesian",
  "cartesian_2_cylindrical",
  "spherical_2_cartesian",
  "cartesian_2_spherical",
  "vector_magnitude",
  "vector_distance",
  "distance",
  "vector_dot",
  "repeat_scalar",
  "rotation_matrix_from_normals",
  "rotation_matrix_from_normals/same",
  "rotate_points_from_normals",
  "mkvc",
  "ndgrid",
  "ndgrid/list",
  "check_xyz_dim",
  "append_ndim",
  "omega",
  "wavenumber",
  "wavenumber/qs",
  "skin_depth",
  "sigma_hat",
  "peak_time",
  "diffusion_distance",
  "theta",
  "loop_fd_field",
  "loop_fd_field/total",
  "loop_fd_flux",
  "td_vertical_magnetic_field_horizontal_loop",
  "td_vertical_magnetic_flux_horizontal_loop",
  "td_vertical_magnetic_field_time_deriv_horizontal_loop",
  "td_vertical_magnetic_flux_time_deriv_horizontal_loop",
  "td_magnetic_field_vertical_magnetic_dipole",
  "td_magnetic_field_time_deriv_magnetic_dipole",
  "td_magnetic_flux_vertical_magnetic_dipole",
  "td_magnetic_flux_time_deriv_magnetic_dipole",
  "hz_from_vert",
  "dhz_from_vert",
  "hp_from_vert",
  "dhp_from_vert",
  "prism_f",
  "_prism_f",
  "prism_fz",
  "_prism_fz",
  "prism_fzz",
  "_prism_fzz",
  "prism_fzx",
  "_prism_fzx",
  "prism_fzy",
  "_prism_fzy",
  "prism_fzzz",
  "_prism_fzzz",
  "prism_fxxy",
  "_prism_fxxy",
  "prism_fxxz",
  "_prism_fxxz",
  "prism_fxyz",
  "_prism_fxyz",
  "rTE_forward",
  "rTE_gradient",
  "_rTE_forward",
  "_rTE_gradient",
  "plot2Ddata",
  "plot2Ddata/flat",
  "plot2Ddata/vec",
  "plot2Ddata/mask",
  "plot2Ddata/clim",
  "plot2Ddata/log",
  "plot2Ddata/opts",
  "plot2Ddata/vmin",
  "plot2Ddata/stream"}
Layouts == {"array", "strided", "readonly", "fortran"}
==============================================================================
