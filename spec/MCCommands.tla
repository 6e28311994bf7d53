----------------------------- MODULE MCCommands -----------------------------
(* The order in which a command looks at its options, its index, its image    *)
(* and its destination: whatever is wrong, and however much of it, nothing    *)
(* has been created or changed when it gives up (C24).                        *)
EXTENDS Commands, FiniteSets, TLC

CONSTANTS Mode     \* "ok", or wrong: "openfirst" (recon makes the index before it looks at the image), "destfirst"
                   \* (recover makes the destination before it opens the image), "envwins", "nosize" (block sizes are
                   \* not looked at), "creates" (reading commands make an index that is missing)

VARIABLES cl, at, changed, res, read
vars == <<cl, at, changed, res, read>>

MiB == 1024 * 1024
Base == [cmd |-> "bare", help |-> FALSE, badflag |-> FALSE, args |-> 0, flag |-> "no", env |-> "no", id |-> "ok", same |-> TRUE,
         image |-> "ok", size |-> 80 * MiB, bs |-> 4096, dest |-> "absent"]
Paths == [flag : {"no", "blank", "index", "absent", "junk", "lost", "empty"}, env : {"no", "blank", "index", "absent", "dir"}]
Init ==
    /\ \E p \in Paths, h \in BOOLEAN, b \in BOOLEAN, n \in 0..3, cmd \in Cmds \ {"unknown"} :
        LET d == [Base EXCEPT !.flag = p.flag, !.env = p.env, !.help = h, !.badflag = b /\ ~h, !.args = n, !.cmd = cmd]
            \* what cannot matter otherwise
            img == IF cmd \in {"recon", "identify", "recover", "mount"} THEN {"ok", "absent", "dir", "meta"} ELSE {"ok"}
        IN  \E i \in IF cmd = "recon" THEN {"ok", "zero", "no"} ELSE {"ok"}, s \in IF cmd = "recon" THEN BOOLEAN ELSE {TRUE},
               m \in img, z \in IF cmd \in {"recon", "identify"} THEN {0, 80 * MiB, MiB} ELSE {80 * MiB},
               k \in IF cmd \in {"recon", "identify"} THEN {0, 1, 125, 126, 4096, 100 * MiB} ELSE {4096},
               e \in IF cmd = "recover" THEN {"absent", "dir", "link", "file", "below"} ELSE {"absent"} :
                cl = [d EXCEPT !.id = i, !.same = s, !.image = m, !.size = z, !.bs = k, !.dest = e]
    /\ at = "parse" /\ changed = {} /\ res = "none" /\ read = {}

Which == IF Mode = "envwins" /\ cl.env # "no" THEN "env" ELSE Used(cl)
What == LET k == IF Which = "flag" THEN cl.flag ELSE IF Which = "env" THEN cl.env ELSE "no" IN IF k \in {"no", "blank"} THEN "none" ELSE k

Stop(r) == at' = "end" /\ res' = r /\ UNCHANGED <<cl, changed, read>>
Go(l) == at' = l /\ UNCHANGED <<cl, res, changed, read>>
Change(what, l) == at' = l /\ changed' = changed \union what /\ UNCHANGED <<cl, res, read>>

Parse ==
    /\ at = "parse"
    /\ IF cl.badflag THEN Stop("err")
       ELSE IF cl.help \/ cl.cmd \in {"help", "version", "bare"} THEN Stop("ok")
       ELSE IF ~ArgsOk(cl) THEN Stop("err")
       ELSE IF cl.cmd \in NeedsMeta /\ What = "none" THEN Stop("err")
       ELSE CASE cl.cmd = "recon" -> Go(IF Mode = "openfirst" THEN "create" ELSE "id")
              [] cl.cmd = "identify" -> Go("image")
              [] cl.cmd = "completion" -> Stop("ok")
              [] OTHER -> Go("open")
Id == at = "id" /\ IF cl.id # "ok" THEN Stop("err") ELSE Go("image")
Image == at = "image" /\ IF cl.image = "absent" \/ (cl.cmd = "recon" /\ cl.image = "meta") THEN Stop("err") ELSE Go("size")
Size ==
    /\ at = "size"
    /\ IF cl.image = "dir" THEN Stop("err")
       ELSE IF cl.bs < MinBlock /\ Mode # "nosize" THEN Stop("err")
       ELSE IF cl.bs = 0 THEN Stop("crash")
       ELSE IF cl.size < cl.bs \/ cl.size < MinDevice + 100 * cl.bs THEN Stop("err")
       ELSE Go(IF cl.cmd = "identify" THEN "print" ELSE IF Mode = "openfirst" THEN "scan" ELSE "create")
\* recon opens the index for writing
Create ==
    /\ at = "create"
    /\ IF What \in {"junk", "dir", "lost"} \/ (What = "index" /\ ~cl.same) THEN Stop("err")
       ELSE Change(IF What = "index" THEN {} ELSE {Which}, IF Mode = "openfirst" THEN "id" ELSE "scan")
Scan == at = "scan" /\ \E s \in SUBSET {Which} : at' = "end" /\ res' = "ok" /\ changed' = changed \union s /\ UNCHANGED <<cl, read>>
Show == at = "print" /\ Stop("ok")
\* The others open it for reading
Open ==
    /\ at = "open"
    /\ IF What # "index"
       THEN /\ at' = "end" /\ res' = "err" /\ UNCHANGED <<cl, read>>
            /\ changed' = changed \union IF Mode = "creates" /\ What \in {"absent", "empty"} THEN {Which} ELSE {}
       ELSE /\ at' = (CASE cl.cmd = "recover" -> IF Mode = "destfirst" THEN "dest" ELSE "device" [] cl.cmd = "mount" -> "device" [] OTHER -> "print")
            /\ read' = {Which} /\ UNCHANGED <<cl, res, changed>>
Device ==
    /\ at = "device"
    /\ IF cl.image = "absent" /\ (cl.cmd = "recover" \/ cl.args = 2) THEN Stop("err")
       ELSE IF cl.cmd = "mount" THEN Change({"mount"}, "refused")
       ELSE Go(IF Mode = "destfirst" THEN "print" ELSE "dest")
Dest ==
    /\ at = "dest"
    /\ IF cl.dest \in {"file", "below"} THEN Stop("err")
       ELSE Change({"dest"}, IF Mode = "destfirst" THEN "device" ELSE "print")
NoMount == at = "refused" /\ Stop("err")
Next == Parse \/ Id \/ Image \/ Size \/ Create \/ Scan \/ Show \/ Open \/ Device \/ Dest \/ NoMount
Spec == Init /\ [][Next]_vars

Right == at = "end" => Allowed(cl, [r |-> res, said |-> res # "ok", printed |-> TRUE, changed |-> changed, read |-> read])
Ends == at = "end" \/ ENABLED Next
=============================================================================
