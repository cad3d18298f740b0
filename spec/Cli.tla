-------------------------------- MODULE Cli --------------------------------
(* C28.  What a command line asks for.

   A command line is a sequence of tokens, read from left to right:

     [k |-> "opt", name]            an option on its own           --n-scenes
     [k |-> "opteq", name] @@ val   an option with its value       --n-scenes=3
     [k |-> "val"] @@ val           anything else                  3

   where val is what its text means under each type, "" where it means nothing:
   [int, float, tri, path, word, level].

   A table lists the options: [opt, par, arity, type, gives]; arity "flag" (sets
   par to `gives`), "one" (one value) or "many" (one or more).  Defaults are a
   function from parameters to sequences of values, empty if there is no default.

   The reader is a machine: one token per step, waiting for values in between;
   at the end it asks for exactly one build, or refuses without any effect.     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Flaw
Required == <<>>

Start(defaults) == [got |-> defaults, want |-> "", fed |-> FALSE, bad |-> FALSE, set |-> {}]
Row(table, o) == {table[i] : i \in {j \in 1..Len(table) : table[j].opt = o}}

Put(s, par, v) == IF Flaw = "firstWins" /\ par \in s.set THEN s
                  ELSE [s EXCEPT !.got = [s.got EXCEPT ![par] = v], !.set = s.set \cup {par}]
Bad(s) == [s EXCEPT !.bad = TRUE]

\* one token into an option that waits for it
Feed(table, s, v) ==
    LET r == CHOOSE x \in Row(table, s.want) : TRUE
        t == v[r.type]
    IN IF t = "" THEN Bad(s)
       ELSE IF r.arity = "one" THEN [Put(s, r.par, <<t>>) EXCEPT !.want = "", !.fed = FALSE]
       ELSE [Put(s, r.par, IF s.fed THEN Append(s.got[r.par], t) ELSE <<t>>) EXCEPT !.fed = TRUE]
\* an option that still waits for its first value cannot be followed by another
Settled(s) == IF s.want # "" /\ ~s.fed /\ Flaw # "dangling" THEN Bad(s) ELSE [s EXCEPT !.want = "", !.fed = FALSE]

Step(table, s, tok) ==
    IF s.bad THEN s
    ELSE IF tok.k = "val" THEN (IF s.want = "" THEN Bad(s) ELSE Feed(table, s, tok))
    ELSE LET t == Settled(s) R == Row(table, tok.name) IN
         IF t.bad THEN t
         ELSE IF R = {} THEN Bad(t)
         ELSE LET r == CHOOSE x \in R : TRUE IN
              IF tok.k = "opt"
              THEN IF r.arity = "flag" THEN Put(t, r.par, <<r.gives>>) ELSE [t EXCEPT !.want = r.opt]
              ELSE IF r.arity = "flag" THEN Bad(t)
              ELSE Settled([Feed(table, [t EXCEPT !.want = r.opt], tok) EXCEPT !.fed = (r.arity = "many")])
End(s) == LET t == Settled(s) IN
          IF t.bad \/ (\E p \in DOMAIN t.got : t.got[p] = Required) THEN [ok |-> FALSE, args |-> <<>>]
          ELSE [ok |-> TRUE, args |-> t.got]
RECURSIVE Fold(_, _, _)
Fold(table, s, line) == IF line = <<>> THEN s ELSE Fold(table, Step(table, s, Head(line)), Tail(line))
Read(table, defaults, line) == End(Fold(table, Start(defaults), line))

(* ---- the dataset builder's table ---------------------------------------- *)
One(o, p, t) == [opt |-> o, par |-> p, arity |-> "one", type |-> t, gives |-> ""]
On(o, p, g) == [opt |-> o, par |-> p, arity |-> "flag", type |-> "", gives |-> g]
Pair(o, p) == <<On("--" \o o, p, "yes"), On("--no-" \o o, p, "no")>>
BuildTable ==
    <<One("--cmu-root", "cmu_root", "path"), One("--dataset-root", "dataset_root", "path"),
      [opt |-> "--speakers", par |-> "speakers", arity |-> "many", type |-> "word", gives |-> ""],
      One("--n-scenes", "n_scenes", "int"), One("--n-sources", "n_sources", "int"),
      One("--n-moving-sources", "n_moving_sources", "int"), One("--duration-sec", "duration_sec", "float"),
      One("--room-size", "room_size", "tri"), One("--mic-center", "mic_center", "tri"), One("--source-margin", "source_margin", "tri"),
      One("--octa-edge-m", "octa_edge_m", "float"), One("--trajectory-steps", "trajectory_steps", "int"),
      One("--rir-samples", "rir_samples", "int"), One("--rt60", "rt60", "float"), One("--sound-speed", "sound_speed", "float"),
      One("--max-order", "max_order", "int"), One("--seed", "seed", "int"), One("--layout-video-fps", "layout_video_fps", "float"),
      On("--overwrite-dataset", "overwrite", "yes"), On("--layout-video-no-audio", "layout_video_mux_audio", "no"),
      On("--no-annotate-source-indices", "annotate_source_indices", "no"), One("--log-level", "log_level", "level")>>
    \o Pair("download-cmu", "download_cmu") \o Pair("randomize-mic-center", "randomize_mic_center")
    \o Pair("save-layout-images", "save_layout_images") \o Pair("save-layout-images-3d", "save_layout_images_3d")
    \o Pair("save-layout-mp4", "save_layout_mp4") \o Pair("save-layout-mp4-3d", "save_layout_mp4_3d")
BuildDefaults ==
    [cmu_root |-> Required, dataset_root |-> <<"outputs/cmu_arctic_torchrir_dynamic_dataset">>,
     speakers |-> <<"bdl", "slt", "clb", "rms", "jmk", "awb">>, n_scenes |-> <<"10">>, n_sources |-> <<"3">>, n_moving_sources |-> <<"1">>,
     duration_sec |-> <<"20.0">>, room_size |-> <<"8.0|6.0|3.0">>, mic_center |-> <<"4.0|3.0|1.5">>, source_margin |-> <<"0.5|0.5|0.3">>,
     octa_edge_m |-> <<"1.0">>, trajectory_steps |-> <<"1024">>, rir_samples |-> <<"4096">>, rt60 |-> <<"0.3">>, sound_speed |-> <<"343.0">>,
     max_order |-> <<"6">>, seed |-> <<"42">>, layout_video_fps |-> <<"none">>, overwrite |-> <<"no">>, layout_video_mux_audio |-> <<"yes">>,
     annotate_source_indices |-> <<"yes">>, log_level |-> <<"INFO">>, download_cmu |-> <<"no">>, randomize_mic_center |-> <<"yes">>,
     save_layout_images |-> <<"yes">>, save_layout_images_3d |-> <<"yes">>, save_layout_mp4 |-> <<"yes">>, save_layout_mp4_3d |-> <<"yes">>]

(* ---- the shared output options: which exist depends on how they are added -- *)
OutTable(c) ==
    <<One("--out-dir", "out_dir", "path")>>
    \o (IF c.plot THEN <<On("--plot", "plot", "yes")>> ELSE <<>>)
    \o (IF c.plot /\ c.plotted THEN <<On("--no-plot", "plot", "no")>> ELSE <<>>)
    \o (IF c.show THEN <<On("--show", "show", "yes")>> ELSE <<>>)
    \o (IF c.gif THEN <<On("--gif", "gif", "yes"), One("--gif-fps", "gif_fps", "int")>> ELSE <<>>)
\* a parameter that does not exist is "absent"
OutDefaults(c) ==
    [out_dir |-> <<c.out>>, plot |-> <<IF ~c.plot THEN "absent" ELSE IF c.plotted THEN "yes" ELSE "no">>,
     show |-> <<IF c.show THEN "no" ELSE "absent">>, gif |-> <<IF c.gif THEN "no" ELSE "absent">>,
     gif_fps |-> <<IF c.gif THEN "-1" ELSE "absent">>]
=============================================================================
