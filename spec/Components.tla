----------------------------- MODULE Components -----------------------------
(* The 21 gas components, in the order in which compositions list them. *)
EXTENDS Integers, Sequences
NC == 21
Names == <<"methane", "nitrogen", "carbon_dioxide", "ethane", "propane", "isobutane", "n_butane", "isopentane",
  "n_pentane", "hexane", "heptane", "octane", "nonane", "decane", "hydrogen", "oxygen", "carbon_monoxide", "water",
  "hydrogen_sulfide", "helium", "argon">>
=============================================================================
