------------------------------ MODULE Commands ------------------------------
(* Command lines (C24): each is carried out, or refused with nothing done.    *)
(*                                                                            *)
(* A command line is a record                                                 *)
(*   cmd     the command                                                      *)
(*   help    is --help given                                                  *)
(*   badflag is there an unknown option, or one with a value it cannot have   *)
(*   args    number of arguments                                              *)
(*   flag    what is at the path given by --metadata ("no": not given,        *)
(*           "blank": given as the empty string)                              *)
(*   env     the same for the environment variable BTRFSCUE_METADATA          *)
(*   id      "ok", "zero" or "no" (not given)                                 *)
(*   same    was an index for writing made with this id and block size        *)
(*   image   "ok", "absent", "dir", "meta" (the metadata file itself)         *)
(*   size    of the image                                                     *)
(*   bs      block size                                                       *)
(*   dest    what is at the destination: "absent", "dir", "link" (to a        *)
(*           directory), "file", "below" (a file)                             *)
EXTENDS Integers

Cmds == {"identify", "recon", "ls", "recover", "dump-index", "mount", "completion", "help", "version", "bare", "unknown"}
Kinds == {"index", "absent", "empty", "junk", "dir", "lost"}     \* lost: in a directory that does not exist

\* The option counts if it is given at all, else the environment does
Used(c) == IF c.flag # "no" THEN "flag" ELSE IF c.env # "no" THEN "env" ELSE "none"
Meta(c) == LET k == IF c.flag # "no" THEN c.flag ELSE c.env IN IF k \in {"no", "blank"} THEN "none" ELSE k

NeedsMeta == {"recon", "ls", "recover", "dump-index", "mount"}
MinDevice == 64 * 1024 * 1024
MinBlock == 101 + 25                \* header of a block and one item
ArgsOk(c) ==
    CASE c.cmd \in {"identify", "recon"} -> c.args = 1
      [] c.cmd = "recover" -> c.args = 2
      [] c.cmd = "mount" -> c.args \in {1, 2}
      [] c.cmd = "dump-index" -> c.args = 0
      [] OTHER -> TRUE

\* Is it the kind of call that has to be refused
Refuse(c) ==
    \/ c.cmd = "unknown"
    \/ c.badflag
    \/ c.cmd \notin {"help", "version", "bare"} /\ ~c.help /\
       \/ ~ArgsOk(c)
       \/ c.cmd \in NeedsMeta /\ Meta(c) = "none"
       \/ c.cmd \in {"ls", "recover", "dump-index", "mount"} /\ Meta(c) # "index"
       \/ c.cmd = "recon" /\ (c.id # "ok" \/ c.image = "meta" \/ Meta(c) \in {"junk", "dir", "lost"} \/ (Meta(c) = "index" /\ ~c.same))
       \/ c.cmd \in {"recon", "identify"} /\ (c.image \in {"absent", "dir"} \/ c.size < MinDevice \/ c.bs < MinBlock \/ c.bs > c.size)
       \/ c.cmd = "recover" /\ (c.image = "absent" \/ c.dest \in {"file", "below"})
       \/ c.cmd = "mount" /\ c.args = 2 /\ c.image = "absent"
\* Those that need not be carried out, though they may be
Doubtful(c) ==
    \/ c.cmd \in {"recon", "identify"} /\ (c.bs < 4096 \/ c.bs % 512 # 0 \/ c.bs > 1048576 \/ c.size < MinDevice + 101 * c.bs)
    \/ c.cmd \in {"recover", "mount"} /\ c.image = "dir"
    \/ c.cmd \in {"completion", "help", "version", "bare", "ls"} /\ c.args > 0

\* What a call may change, and what it has to
Changes(c, done) ==
    IF ~done \/ c.help THEN {}
    ELSE IF c.cmd = "recon" THEN {Used(c)}
    ELSE IF c.cmd = "recover" THEN {"dest"}
    ELSE IF c.cmd = "mount" THEN {"mount"} ELSE {}
Must(c) ==
    IF c.help THEN {}
    ELSE IF c.cmd = "recon" /\ Meta(c) # "index" THEN {Used(c)}
    ELSE IF c.cmd = "recover" /\ c.dest = "absent" THEN {"dest"}
    ELSE IF c.cmd = "mount" THEN {"mount"} ELSE {}

(* o: r ("ok", "err" = exit status 1, other), said (a message), changed (what  *)
(* differs afterwards), read (the indexes whose content it may have printed). *)
Refused(o) == o.r = "err" /\ o.said /\ o.changed = {}
Done(c, o) ==
    /\ o.changed \subseteq Changes(c, TRUE) /\ Must(c) \subseteq o.changed
    /\ IF c.cmd = "mount" /\ ~c.help
       THEN o.r = "err" /\ o.said              \* the stand-in lets no mount succeed
       ELSE o.r = "ok"
    /\ (c.cmd \in {"ls", "dump-index", "recover"} /\ ~c.help /\ c.args < 3) => Used(c) \in o.read
    /\ (c.help \/ c.cmd \in {"help", "version", "bare", "completion"}) => o.printed

Allowed(c, o) == IF Refuse(c) THEN Refused(o)
                                        \* (a directory may pass for a device until it is read)
                                        \/ (c.cmd = "recon" /\ c.image = "dir" /\ o.r = "err" /\ o.said /\ o.changed \subseteq {Used(c)})
                 ELSE IF Doubtful(c) THEN Refused(o) \/ (o.r = "ok" /\ o.changed \subseteq Changes(c, TRUE))
                                          \/ (c.cmd = "mount" /\ o.r = "err" /\ o.said /\ o.changed \subseteq {"mount"})
                 ELSE Done(c, o)
=============================================================================
