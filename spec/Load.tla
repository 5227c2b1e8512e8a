-------------------------------- MODULE Load --------------------------------
(* What a command line tool makes of the file it is given: files are put into
   a directory one by one, then one of them is asked for.

   yaml: name of the summary file, which may contain force constants itself.
   A file is identified by what is in it, not only by its name. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES dir, ask, freqs, got
vars == <<dir, ask, freqs, got>>

Summaries == {"phonopy.yaml", "phonopy_fc.yaml", "other.yaml", "other_fc.yaml"}
Others == {"FORCE_CONSTANTS", "force_constants.hdf5", "renamed.hdf5", "BORN"}
(* phonons with and without eigenvectors *)
With == {"mesh.yaml", "mesh.hdf5", "band.hdf5", "qpoints.hdf5", "a.phonon",
         "modes.json"}
Without == {"mesh_no_evec.yaml", "band_no_evec.hdf5", "qpoints_no_evec.hdf5",
            "freqs.json"}
Direct == {"fc.json", "a.castep_bin", "a.check"}
Bad == {"spectrum.json", "a.txt", "noext"}
(* phonopy.yaml and phonopy_fc.yaml are different contents of one file *)
NameOf(f) == CASE f = "phonopy_fc.yaml" -> "phonopy.yaml"
               [] f = "other_fc.yaml" -> "other.yaml" [] OTHER -> f
Holds(f) == \E g \in dir : NameOf(g) = f
Embedded(f) == \E g \in dir : NameOf(g) = f /\ g # f
Error == [class |-> "error"]
Phonons(f) == [class |-> IF freqs \/ f \in Without THEN "QpointFrequencies"
                         ELSE "QpointPhononModes", name |-> f]
Phonopy(s, fc) ==
  IF ~Embedded(s) /\ ~Holds(fc) THEN Error
  ELSE [class |-> "ForceConstants", summary |-> s, fc |-> fc,
        born |-> IF Holds("BORN") THEN <<"BORN">> ELSE <<>>]
Result(f) ==
  CASE f \in With \cup Without -> Phonons(f)
    [] f \in Direct -> [class |-> "ForceConstants", name |-> f]
    [] f \in Bad -> Error
    [] f \in {"force_constants.hdf5", "renamed.hdf5"} ->
         IF Holds("phonopy.yaml") THEN Phonopy("phonopy.yaml", f) ELSE Error
    [] OTHER -> Phonopy(f, IF Holds("force_constants.hdf5")
                           THEN "force_constants.hdf5" ELSE "FORCE_CONSTANTS")

Names == {"phonopy.yaml", "other.yaml", "force_constants.hdf5", "renamed.hdf5"}
         \cup With \cup Without \cup Direct \cup Bad
(* one thing at a time: a directory has phonopy force constants or phonons *)
Put(f) == /\ ask = "" /\ \A g \in dir : NameOf(g) # NameOf(f)
          /\ dir' = dir \cup {f} /\ UNCHANGED <<ask, freqs, got>>
Open(f) == /\ ask = ""
           /\ f \in Names
           /\ Holds(f) \/ f \notin Names \cap {NameOf(g) : g \in Summaries \cup Others}
           /\ (f \in With \cup Without \cup Direct \cup Bad => dir = {})
           /\ ask' = f
           /\ got' = Result(f)
           /\ UNCHANGED <<dir, freqs>>
Init == dir = {} /\ ask = "" /\ freqs \in BOOLEAN /\ got = [class |-> "none"]
Next == (\E f \in Summaries \cup Others : Put(f)) \/ (\E f \in Names : Open(f))
Spec == Init /\ [][Next]_vars
(* force constants come with frequencies only or not; files that are there but
   not asked for are no reason to fail *)
Enough == (ask # "" /\ got.class = "error") =>
  \/ ask \in Bad
  \/ ~Holds("phonopy.yaml") /\ ask \in {"force_constants.hdf5", "renamed.hdf5"}
  \/ ~Embedded(ask) /\ ~Holds("FORCE_CONSTANTS") /\ ~Holds("force_constants.hdf5")
FreqsOnly == (ask # "" /\ freqs) => got.class # "QpointPhononModes"
Emit == (ask # "") => PrintT("@@" \o ToJson([dir |-> dir, ask |-> ask, freqs |-> freqs,
                                             got |-> got]))
=============================================================================
