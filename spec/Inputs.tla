------------------------------- MODULE Inputs -------------------------------
(* What may become of the image and of the metadata index (C14).              *)
(*                                                                            *)
(* A file is in some state (content, size, time, permissions; "absent" if     *)
(* there is none), identified by a number.  The name that is given for the    *)
(* index may lead to the image itself.                                        *)
EXTENDS Naturals

Commands == {"identify", "recon", "ls", "recover", "dump-index", "mount", "completion",
             "request"}       \* a mutating request on the mounted view

\* before, after: [image, index]; same: both names lead to the same file
Kept(cmd, same, before, after) ==
    /\ after.image = before.image
    /\ (cmd # "recon" \/ same) => after.index = before.index

\* What a command may say about how it went
Outcome(cmd, r) == r = "err" \/ (r = "ok" /\ cmd # "request")
=============================================================================
