------------------------------ MODULE MCInputs ------------------------------
(* How the commands use files, for all ways in which names can lead to the    *)
(* same file: the index named by a link to the image, links to image or index *)
(* in the destination, images that look like an index (C14).                  *)
EXTENDS Inputs, FiniteSets, TLC

CONSTANTS Mode      \* "ok", or wrong: "samefile", "through", "rwopen", "setattr"

Img == "img"   Idx == "idx"   Fresh == "fresh"
Inodes == {Img, Idx, Fresh}

VARIABLES content,   \* inode -> "leaves", "index", "empty", "junk"; what the file looks like
          version,   \* inode -> how often it was written
          exists,    \* is there a file for the index
          meta,      \* the inode that the name of the index leads to
          dest,      \* what is at a restored path of the destination
          last       \* the last command
vars == <<content, version, exists, meta, dest, last>>

Places == {"none", "own", "hard img", "hard idx", "sym img", "sym idx"}
LeadsTo(d) == CASE d \in {"hard img", "sym img"} -> Img [] d \in {"hard idx", "sym idx"} -> Idx [] OTHER -> Fresh

Init == /\ content \in [{Img, Idx} -> {"leaves", "index", "empty", "junk"}]
        /\ version = [n \in {Img, Idx} |-> 0]
        /\ meta \in {Img, Idx} /\ exists \in BOOLEAN /\ (meta = Img => exists)
        /\ dest \in Places /\ last = "none"

Write(n) == version' = IF n \in DOMAIN version THEN [version EXCEPT ![n] = @ + 1] ELSE version

\* Opening as an index: an empty or missing file becomes one if it is opened for writing
Opens(write) == IF ~exists THEN write
                ELSE content[meta] = "index" \/ (write /\ content[meta] = "empty")

Recon ==
    /\ last' = "recon" /\ UNCHANGED dest
    /\ IF content[Img] = "empty" \/ (meta = Img /\ Mode # "samefile") \/ ~Opens(TRUE)
       THEN UNCHANGED <<content, version, exists>>
       ELSE /\ Write(meta) /\ content' = [content EXCEPT ![meta] = "index"] /\ exists' = TRUE
    /\ UNCHANGED meta

Read(cmd) ==
    /\ last' = cmd /\ UNCHANGED <<dest, meta, content, exists>>
    /\ IF Mode = "rwopen" /\ Opens(FALSE) THEN Write(meta) ELSE UNCHANGED version

Recover(clobber) ==
    /\ last' = "recover" /\ UNCHANGED <<meta, content, exists>>
    /\ IF ~Opens(FALSE) \/ (dest # "none" /\ ~clobber)
       THEN UNCHANGED <<dest, version>>
       ELSE IF Mode = "through" /\ dest # "none"
       THEN Write(LeadsTo(dest)) /\ UNCHANGED dest       \* wrong: opened and truncated
       ELSE dest' = "own" /\ UNCHANGED version           \* removed and created anew

\* A mutating request on the metadata file of the view
Request ==
    /\ last' = "mount" /\ UNCHANGED <<dest, meta, content, exists>>
    /\ IF Mode = "setattr" /\ Opens(FALSE) THEN Write(meta) ELSE UNCHANGED version

Next == \/ Recon \/ Recover(TRUE) \/ Recover(FALSE) \/ Request
        \/ \E c \in {"identify", "ls", "dump-index", "mount", "completion"} : Read(c)
Spec == Init /\ [][Next]_vars
Bound == version[Idx] < 3 /\ version[Img] < 2

State(v, e, n) == IF e THEN v[n] ELSE 100
Respected == [][Kept(last', meta = Img,
                  [image |-> version[Img], index |-> State(version, exists, meta)],
                  [image |-> version'[Img], index |-> State(version', exists', meta)])]_vars
=============================================================================
