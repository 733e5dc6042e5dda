-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded histories of the real program against the              *)
(* specification.  Every event is one command (or something the            *)
(* environment did) together with the state observed afterwards.  The      *)
(* observed state is adopted; wherever it differs from what the            *)
(* specification allows, or violates a property, a line MISMATCH with a    *)
(* label is printed.                                                       *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

D == JsonDeserialize(IOEnv.TRACE)

TRxOk(re) == D.rxok[re]
TRxMatch(re, s) == D.rx[re][s]
TFollow(c, tg) == IF c \in DOMAIN D.follow /\ tg \in DOMAIN D.follow[c] THEN D.follow[c][tg] ELSE "?"
\* Paths beyond the prepared tables are taken apart here.
RECURSIVE SlashAt(_, _)
SlashAt(p, j) == IF SubSeq(p, j, j) = "/" THEN j ELSE SlashAt(p, j - 1)
TParOf(p) == IF p \in DOMAIN D.par THEN D.par[p] ELSE SubSeq(p, 1, SlashAt(p, Len(p)) - 1)
TNmOf(p) == IF p \in DOMAIN D.nm THEN D.nm[p] ELSE SubSeq(p, SlashAt(p, Len(p)) + 1, Len(p))
THexOf(n) == D.hex[ToString(n)]
THugeOf(n) == D.huge[ToString(n)]
TRepoParOf(p) == D.rpar[p]
TSplit(p) == D.rsplit[p]

VARIABLES h, i, fs, meta, repo, ghost, live

vars == <<h, i, fs, meta, repo, ghost, live>>

Ev == D.hist[h][i + 1]

\* Empty JSON objects and empty functions are the same to us.
Fn(x) == IF DOMAIN x = {} THEN <<>> ELSE x

Field(ev, name, old) == IF name \in DOMAIN ev THEN ev[name] ELSE old
PostFs == Field(Ev, "fs", fs)
PostMeta == Field(Ev, "meta", meta)
PostRepo == Field(Ev, "repo", repo)

Init == /\ h \in 1..Len(D.hist) /\ i = 0 /\ fs = <<>> /\ meta = NoMeta /\ repo = <<>>
        /\ ghost = <<>> /\ live = TRUE

\* set of {label, detail}
B(cond, label, detail) == IF cond THEN {} ELSE {[label |-> label, detail |-> ToString(detail)]}

Count(seq, x) == Cardinality({j \in 1..Len(seq) : seq[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Count(a, x) = Count(b, x)
TailSeq(s, n) == IF Len(s) < n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Lead(s, n) == IF Len(s) < n THEN <<>> ELSE SubSeq(s, 1, Len(s) - n)

OutDiff(lines, tail, prefix) ==
  IF Ev.noout THEN {} ELSE
  LET t == TailSeq(Ev.out, Len(tail))
      f == Lead(Ev.out, Len(tail))
      extra == {x \in ToSet(f) : Count(f, x) > Count(lines, x)}
      lacking == {x \in ToSet(lines) : Count(lines, x) > Count(f, x)}
  IN  B(t = tail, prefix \o "-tail", [expected |-> tail, got |-> t])
      \cup B(SameBag(f, lines), prefix \o "-lines", [extra |-> extra, lacking |-> lacking])

SameFs(a, b) == Fn(a) = Fn(b)
DiffKeys(a, b) == {p \in DOMAIN a \cup DOMAIN b :
                     ~(p \in DOMAIN a /\ p \in DOMAIN b /\ a[p] = b[p])}

FsUnchanged(label) == B(SameFs(fs, PostFs), label, DiffKeys(fs, PostFs))

\* The lockfile is the only thing a command may remove when it does nothing.
NoLock(r) == [p \in DOMAIN r \ {"lockfile"} |-> r[p]]
RepoUnchanged(label) ==
  B(SameFs(NoLock(repo), NoLock(PostRepo)) /\ ("lockfile" \in DOMAIN PostRepo => "lockfile" \in DOMAIN repo \/ "fault" \in DOMAIN Ev),
    label, DiffKeys(NoLock(repo), PostRepo))
MetaUnchanged(label) == B(meta = PostMeta, label, "metadata")

----------------------------------------------------------------- (* backup *)
SameState(pred, obs) ==
  IF pred.t = "reg" /\ obs.t = "reg" /\ pred.sl = "?"
  THEN [pred EXCEPT !.sl = obs.sl] = obs
  ELSE pred = obs

MetaDiff(pred, obs) ==
  B(pred.times = obs.times, "meta-times", [expected |-> pred.times, got |-> obs.times])
  \cup B(DOMAIN pred.paths \ DOMAIN obs.paths = {}, "meta-path-lacks",
         DOMAIN pred.paths \ DOMAIN obs.paths)
  \cup B(DOMAIN obs.paths \ DOMAIN pred.paths = {}, "meta-path-extra",
         DOMAIN obs.paths \ DOMAIN pred.paths)
  \cup UNION {
    LET a == pred.paths[p]
        b == obs.paths[p]
        same == Len(a.hist) = Len(b.hist)
    IN  B(a.pol = b.pol, "meta-policy", [path |-> p, expected |-> a.pol, got |-> b.pol])
        \cup B(same, "meta-history", [path |-> p, expected |-> a.hist, got |-> b.hist])
        \cup (IF ~same THEN {} ELSE
              B(\A j \in 1..Len(a.hist) : a.hist[j].id = b.hist[j].id, "meta-ids",
                [path |-> p, expected |-> a.hist, got |-> b.hist])
              \cup B(\A j \in 1..Len(a.hist) : SameState(a.hist[j].st, b.hist[j].st), "meta-state",
                     [path |-> p, expected |-> a.hist, got |-> b.hist]))
    : p \in DOMAIN pred.paths \cap DOMAIN obs.paths}

\* Properties of any metadata.
WellFormed(m, r) ==
  LET n == Len(m.times) IN
  B(\A p \in DOMAIN m.paths : m.paths[p].pol # "track" => Len(m.paths[p].hist) = 1,
         "wf-single", "")
  \cup B(\A p \in DOMAIN m.paths : LET hs == m.paths[p].hist IN
           \A j \in 1..Len(hs) : hs[j].st.t = "non" =>
             m.paths[p].pol = "track" /\ j < Len(hs) /\ hs[j + 1].st.t # "non", "wf-removed", "")
  \* what lies below a path can be reached when restoring
  \cup B(\A p \in DOMAIN m.paths :
           ParOf(p) # "" => (m.paths[ParOf(p)].pol # "track" => m.paths[ParOf(p)].hist[1].st.t = "dir"),
         "wf-reach", {p \in DOMAIN m.paths : ParOf(p) # "" /\ m.paths[ParOf(p)].hist[1].st.t # "dir"})
  \* ... and no earlier state of a tracked path is cut off
  \cup UNION {B(\A j \in 1..Len(m.paths[p].hist) : LET x == m.paths[p].hist[j] IN
                  x.st.t = "non" \/ StateAt(m.paths, ParOf(p), x.id).t = "dir", "wf-cut-off", p)
             : p \in {p \in DOMAIN m.paths : m.paths[p].pol = "track" /\ ParOf(p) # ""}}
  \cup B(\A b \in 0..(n - 1) : \E p \in DOMAIN m.paths :
           \E j \in 1..Len(m.paths[p].hist) : m.paths[p].hist[j].id = b, "wf-referenced",
         {b \in 0..(n - 1) : ~\E p \in DOMAIN m.paths :
            \E j \in 1..Len(m.paths[p].hist) : m.paths[p].hist[j].id = b})
  \cup B(AllIntact(m, r), "store-intact", Broken(m, r))

ContentIn(r, st) ==
  IF Big(st) THEN (IF StoredName(st) \in DOMAIN r /\ r[StoredName(st)].t = "reg"
                   THEN r[StoredName(st)].c ELSE "?")
  ELSE st.k

\* With the weak hash: a content not told apart from the previous one of the
\* same path keeps the previous one's storage.
Unnoticed(old, p, v) ==
  D.weak /\ p \in DOMAIN old.paths /\ v.st.t = "reg" /\
    LET hs == old.paths[p].hist
        st == hs[IF hs[1].st.t = "non" THEN 2 ELSE 1].st
    IN  st.t = "reg" /\ st.k = v.st.k /\ st.sz = v.st.sz

\* Recorded states are those of the file system.
Recorded(sel, old, m, r) ==
  UNION {
    LET v == sel[p] IN
    IF v.pol = "none" THEN {}
    ELSE IF p \notin DOMAIN m.paths THEN B(FALSE, "not-recorded", p)
    ELSE LET st == m.paths[p].hist[1].st IN
         B(m.paths[p].pol = v.pol, "recorded-policy", p)
         \cup B(SameState(Rec(v.st), [st EXCEPT !.t = @]), "recorded-state",
                [path |-> p, expected |-> v.st, got |-> st])
         \cup (IF Big(st) /\ StoredName(st) \in DOMAIN r /\ ~Unnoticed(old, p, v)
               THEN B(r[StoredName(st)].t = "reg" /\ r[StoredName(st)].c = v.st.c, "recorded-content",
                      [path |-> p, got |-> StoredName(st)])
               ELSE {})
    : p \in DOMAIN sel}

\* What a retained backup of a path says does not change anymore.
StateIn(m, p, b) == OwnState(m.paths[p], b)
\* A path loses its history together with a parent that was not a directory.
RECURSIVE BelowLoser(_, _, _)
BelowLoser(old, new, p) ==
  LET q == ParOf(p) IN
  q # "" /\ (\/ q \in DOMAIN old.paths /\ old.paths[q].pol = "track"
                 /\ (q \in DOMAIN new.paths => new.paths[q].pol # "track")
                 /\ LET hs == old.paths[q].hist
                        k == IF hs[1].st.t = "non" THEN 2 ELSE 1
                    IN  hs[k].st.t # "dir"
             \/ BelowLoser(old, new, q))

HistoryKept(old, new) ==
  UNION {
    LET a == old.paths[p].hist
        b == new.paths[p].hist
        k == Len(b) - Len(a)
    IN  B(k >= 0 /\ \A j \in 1..Len(a) :
              /\ b[k + j].st = a[j].st
              /\ new.times[b[k + j].id + 1] = old.times[a[j].id + 1], "history-kept",
          [path |-> p, before |-> a, after |-> b])
    : p \in {p \in DOMAIN old.paths \cap DOMAIN new.paths :
               old.paths[p].pol = "track" /\ new.paths[p].pol = "track"
               /\ ~BelowLoser(old, new, p)
               /\ \A j \in 1..Len(new.paths[p].hist) : new.paths[p].hist[j].id < Len(new.times)}}

\* Backups keep their order.
RECURSIVE PartOf(_, _)
PartOf(s, t) ==
  IF s = <<>> THEN TRUE
  ELSE IF t = <<>> THEN FALSE
  ELSE PartOf(IF s[1] = t[1] THEN Tail(s) ELSE s, Tail(t))

OrderKept(old, new) ==
  B(PartOf(new.times, old.times) \/ (new.times # <<>> /\ PartOf(Tail(new.times), old.times)),
    "order-kept", [before |-> old.times, after |-> new.times])

\* Stored files are never modified.
StoreKept(old, new) ==
  LET S == {p \in DOMAIN old \cap DOMAIN new : SplitStored(p).slot >= 0 /\ old[p].t = "reg"}
  IN  B(\A p \in S : new[p] = old[p], "store-kept", {p \in S : new[p] # old[p]})

\* A content already stored is found again, a new one gets the first free slot.
SlotsOk(old, new, m) ==
  LET sp == TLCEval([p \in DOMAIN new \cup DOMAIN old |-> SplitStored(p)])
      fresh == {p \in DOMAIN new \ DOMAIN old : sp[p].slot >= 0}
      reg == {p \in fresh : new[p].t = "reg"}
      group(p) == <<sp[p].k, sp[p].sz>>
      groups == {group(p) : p \in fresh}
      stored == {p \in DOMAIN old : sp[p].slot >= 0 /\ group(p) \in groups}
      taken == TLCEval([g \in groups |-> {sp[p].slot : p \in {q \in stored : group(q) = g}}])
      \* the first slot not taken
      first == TLCEval([g \in groups |-> CHOOSE s \in 0..256 : s \notin taken[g] /\ (0..(s - 1)) \subseteq taken[g]])
      known == {<<group(p), old[p].c>> : p \in {p \in stored : old[p].t = "reg" /\ sp[p].slot < first[group(p)]}}
      got == {<<group(p), new[p].c>> : p \in reg}
  IN  B(got \cap known = {}, "stored-twice", fresh)
      \cup B(Cardinality(got) = Cardinality(reg), "stored-twice", fresh)
      \cup B(\A p \in fresh : new[p].t = "reg" /\ new[p].sz > InlineMax, "stored-small", fresh)

\* Ghost: for each retained backup the states of the paths tracked since.
\* Backups are told apart by their times; nothing is remembered of backups
\* made in the same second.
GhostNow(cfg, vis, sel, old, m, r) ==
  LET found == {p \in DOMAIN sel : sel[p].pol = "track" /\ p \in DOMAIN m.paths}
      lost == {p \in DOMAIN m.paths : m.paths[p].pol = "track" /\ p \notin DOMAIN sel
                 /\ (ParOf(p) = "" \/ (ParOf(p) \in DOMAIN sel /\ sel[ParOf(p)].st.t = "dir"
                                       /\ sel[ParOf(p)].pol = "track"))}
  IN  [p \in found \cup lost |-> IF p \notin found THEN Gone
                              ELSE IF Unnoticed(old, p, sel[p]) /\ Big(m.paths[p].hist[1].st)
                                THEN [sel[p].st EXCEPT !.c = ContentIn(r, m.paths[p].hist[1].st)]
                              ELSE sel[p].st]

StillTracked(m, s) == {p \in DOMAIN s : p \in DOMAIN m.paths /\ m.paths[p].pol = "track"}

\* A parent whose history is given up while its last state has nothing below
\* it takes the history of everything below it along.
GivenUp(old, m, p) ==
  \E q \in ToSet(Parents(p)) :
    /\ q \in DOMAIN old.paths /\ old.paths[q].pol = "track"
    /\ Existing(old.paths[q]).t # "dir"
    /\ q \in DOMAIN m.paths => m.paths[q].pol # "track"

GhostNext(cfg, vis, sel, old, m, r) ==
  LET prev == [t \in (DOMAIN ghost \cap ToSet(m.times)) \ {Ev.now} |->
                 LET S == {p \in StillTracked(m, ghost[t]) :
                             p \in DOMAIN old.paths /\ old.paths[p].pol = "track" /\ ~GivenUp(old, m, p)}
                 IN  [p \in S |-> ghost[t][p]]]
  IN  IF Ev.now \in ToSet(m.times) /\ Ev.now \notin ToSet(old.times)
      THEN (Ev.now :> GhostNow(cfg, vis, sel, old, m, r)) @@ prev ELSE prev

SameAsGhost(st, gst, r) ==
  IF gst.t = "gone" THEN st.t = "gone"
  ELSE /\ st.t = gst.t
       /\ SameState(Rec(gst), st)
       /\ Big(st) => (StoredName(st) \in DOMAIN r /\ r[StoredName(st)].c = gst.c)

GhostOk(g, m, r) ==
  UNION { LET b == (CHOOSE b \in 1..Len(m.times) : m.times[b] = t) - 1 IN
          UNION { B(SameAsGhost(StateIn(m, p, b), g[t][p], r), "ghost",
                    [path |-> p, backup |-> b, expected |-> g[t][p], got |-> StateIn(m, p, b)])
                  : p \in DOMAIN g[t] \cap DOMAIN m.paths }
          : t \in DOMAIN g }

NoTmp(r) == [p \in DOMAIN r \ {"lockfile", "tmp-file"} |-> r[p]]
DiscardLine(n) == "Discarding unreferenced data... 100.0%25 (" \o Size(n) \o " deleted)"

\* A command that was killed, or one of whose system calls failed.
Faulty == "fault" \in DOMAIN Ev

\* What is told on stderr.
Told == Ev.err
Quiet == B(Faulty \/ Told = <<>>, "told-nothing", Told)
Complains == B(Ev.exit = 0 \/ (Told # <<>> /\ Begins(Told[Len(Told)], "nb: error: ")), "told-error", Told)
Warned(lines) ==
  IF Faulty THEN {}
  ELSE LET got == SelectSeq(Told, LAMBDA l : ~Begins(l, "nb: error: "))
       IN  B(SameBag(got, lines), "warnings",
             [extra |-> {x \in ToSet(got) : Count(got, x) > Count(lines, x)},
              lacking |-> {x \in ToSet(lines) : Count(lines, x) > Count(got, x)}])
           \cup B(Len(got) = Len(Told) \/ Ev.exit # 0, "told-error", Told)

Fails(why) ==
  B(Ev.exit = 1, "should-fail", why) \cup Complains
  \cup RepoUnchanged("fail-repo") \cup MetaUnchanged("fail-repo") \cup FsUnchanged("frame-fs")

BackupSpec ==
  LET cfg == Parse(Ev.config)
      vis == Search(cfg, fs)
  IN  IF cfg.err # "" THEN
        [bad |-> Fails("config: " \o cfg.err)
                 \cup B(Len(Told) = 1 /\ Blames(Told[1], Blame(Ev.config, cfg)), "blame",
                        [got |-> Told, expected |-> Blame(Ev.config, cfg)]),
         ghost |-> ghost]
      ELSE IF SearchFails(vis) THEN
        [bad |-> Fails("search") \cup B(Explained(cfg, vis, Told), "blame", Told), ghost |-> ghost]
      ELSE
      LET sel == Selected(vis)
          nodes == Initiate(cfg, vis, meta)
          rep == Report(cfg, nodes, TRUE)
          change == ContainsChanges(rep.s)
          ask == Consent(Ev.input, 0)
          head == <<"">> \o Totals(rep.s) \o Questions("proceed?", ask.asked)
          pred == Commit(nodes, meta.times, Ev.now)
          m2 == PostMeta
          \* a lockfile that could not be removed does no harm
          r2 == IF "fault" \in DOMAIN Ev THEN NoLock(PostRepo) ELSE PostRepo
          \* there are 256 slots for contents of the same hash and size
          overflow == /\ D.weak /\ Ev.exit = 1 /\ ask.ok
                      /\ Told = <<NbError("overflow calculating slot number")>>
                      /\ LET R == {p \in DOMAIN PostRepo : PostRepo[p].t = "reg"} IN
                         \E p \in R : Cardinality({q \in R : PostRepo[q].sz = PostRepo[p].sz
                                                            /\ PostRepo[q].k = PostRepo[p].k}) >= 256
          warned == Warned(Warnings(cfg, fs, vis, nodes))
      IN  IF ~change THEN
            [bad |-> warned \cup B(Ev.exit = 0, "exit", "no change") \cup OutDiff(rep.l, <<>>, "backup-out")
                     \cup RepoUnchanged("nochange-repo") \cup MetaUnchanged("nochange-repo")
                     \cup FsUnchanged("frame-fs"),
             ghost |-> ghost]
          ELSE IF ~ask.ok THEN
            [bad |-> warned \cup B(Ev.exit = 1, "consent-exit", "declined")
                     \cup OutDiff(rep.l, head, "backup-out")
                     \cup RepoUnchanged("consent-repo") \cup MetaUnchanged("consent-repo")
                     \cup FsUnchanged("frame-fs"),
             ghost |-> ghost]
          ELSE IF overflow THEN [bad |-> MetaUnchanged("fail-repo"), ghost |-> ghost]
          ELSE
            LET g2 == GhostNext(cfg, vis, sel, meta, m2, r2)
                refs == Referenced(m2)
                added == [p \in DOMAIN r2 \ DOMAIN repo |-> r2[p]]
                full == NoTmp(repo) @@ added
            IN
            [bad |-> warned \cup B(Ev.exit = 0, "exit", "backup failed")
                     \cup B(Told # <<NbError("overflow calculating slot number")>>, "slots", "slots left")
                     \cup OutDiff(rep.l, head \o <<"", DiscardLine(Deleted(NoTmp(repo), refs))>>,
                                  "backup-out")
                     \cup B(m2.ex, "meta-none", "")
                     \cup MetaDiff(pred, m2)
                     \cup WellFormed(m2, r2)
                     \cup Recorded(sel, meta, m2, r2)
                     \cup HistoryKept(meta, m2) \cup OrderKept(meta, m2)
                     \cup StoreKept(repo, r2) \cup SlotsOk(repo, r2, m2)
                     \cup B(DOMAIN Clean(full, refs) = DOMAIN r2, "gc-exact",
                            [lacks |-> DOMAIN Clean(full, refs) \ DOMAIN r2,
                             extra |-> DOMAIN r2 \ DOMAIN Clean(full, refs)])
                     \cup B("config" \in DOMAIN r2 /\ r2["config"] = repo["config"], "config-file", "")
                     \cup GhostOk(g2, m2, r2)
                     \cup FsUnchanged("frame-fs"),
             ghost |-> g2]

-------------------------------------------------------------------- (* gc *)
GcSpec ==
  IF ~meta.ex THEN [bad |-> Fails("no metadata"), ghost |-> ghost]
  ELSE LET refs == Referenced(meta)
           r == Clean(NoLock(repo), refs)
       IN  [bad |-> B(Ev.exit = 0, "exit", "gc") \cup Quiet
                    \cup OutDiff(<<>>, <<DiscardLine(Deleted(NoLock(repo), refs))>>, "gc-out")
                    \cup B(SameFs(r, IF "fault" \in DOMAIN Ev THEN NoLock(PostRepo) ELSE PostRepo), "gc-exact",
                           DiffKeys(r, PostRepo))
                    \cup MetaUnchanged("gc-meta") \cup FsUnchanged("frame-fs"),
            ghost |-> ghost]

------------------------------------------------------------- (* integrity *)
IntegritySpec ==
  IF ~meta.ex THEN [bad |-> Fails("no metadata"), ghost |-> ghost]
  ELSE LET broken == Broken(meta, repo)
           listed == SelectSeq(Ev.out, LAMBDA l : Len(l) > 3 /\ SubSeq(l, 1, 3) = "?? ")
           want == {"?? " \o p \o " (corrupted)" : p \in broken}
       IN  [bad |-> B(Ev.exit = (IF broken = {} THEN 0 ELSE 1), "integrity-exit", broken)
                    \cup B(ToSet(listed) = want /\ Len(listed) = Cardinality(want),
                           "integrity-list", [expected |-> want, got |-> listed])
                    \cup (IF broken = {} THEN Quiet
                          ELSE B(Faulty \/ Told = <<NbError("found " \o ToString(Cardinality(broken)) \o " item"
                                              \o (IF Cardinality(broken) = 1 THEN "" ELSE "s")
                                              \o " with corrupted backup history")>>, "integrity-count", Told))
                    \cup B(Count(Ev.out, "Status of repository: Healthy") =
                             (IF broken = {} THEN 1 ELSE 0), "integrity-status", Ev.out)
                    \cup RepoUnchanged("integrity-repo") \cup MetaUnchanged("integrity-repo")
                    \cup FsUnchanged("frame-fs"),
            ghost |-> ghost]

--------------------------------------------------------------- (* restore *)
InScope(path, p) == path = "" \/ p = path \/ IsBelow(p, path)

\* Every restored path has its recorded state now.
RECURSIVE Restored(_, _, _, _)
Restored(new, m, p, id) ==
  LET st == StateAt(m.paths, p, id)
      is == ActualAt(new, p, st)
      same == CASE st.t = "reg" -> is.t = "reg" /\ is.u = st.u /\ is.g = st.g /\ is.m = st.m
                                   /\ is.mt = st.mt /\ is.sz = st.sz /\ is.k = st.k
                [] OTHER -> is = st
  IN  IF st = Gone THEN {}
      ELSE (IF m.paths[p].pol = "none" THEN B(is.t = st.t, "restored", p)
            ELSE B(same, "restored", [path |-> p, expected |-> st, got |-> is]))
           \cup (IF st.t = "dir"
                 THEN UNION {Restored(new, m, q, id) : q \in {q \in DOMAIN m.paths : ParOf(q) = p}}
                 ELSE {})

\* Restoring brings back what the backup had seen.
RestoredGhost(new, id, path) ==
  IF id + 1 > Len(meta.times) \/ meta.times[id + 1] \notin DOMAIN ghost THEN {}
  ELSE LET g == ghost[meta.times[id + 1]]
           \* below parents which existed then
       IN  UNION {B(LET is == ActualAt(new, p, g[p]) IN
                      IF g[p].t = "reg"
                      THEN \/ is = g[p]
                           \* a collision with what is there is not noticed
                           \/ D.weak /\ LET was == ActualAt(fs, p, g[p]) IN
                                was.t = "reg" /\ was.k = g[p].k /\ was.sz = g[p].sz
                                /\ is.t = "reg" /\ is = [g[p] EXCEPT !.c = is.c]
                      ELSE is = Rec(g[p]),
                    "restored-ghost",
                    [path |-> p, expected |-> g[p], got |-> ActualAt(new, p, g[p])])
                  : p \in {p \in DOMAIN g : InScope(path, p) /\ g[p] # Gone /\ p \in DOMAIN meta.paths}}

\* Two recorded paths leading to the same place through a symlink, or one of
\* them into what has to give way for the other, which is where restoring one
\* of them undoes the other.
PlaceIn(f, p, st) ==
  LET c == Locate(f, p) IN
  IF c # "?" /\ c \in DOMAIN f /\ st.t = "dir" /\ f[c].t = "lnk"
  THEN LET r == Resolve(f, p, 8) IN IF r = "?" THEN c ELSE r
  ELSE c
AliasedIn(f, id) ==
  LET S == {p \in DOMAIN meta.paths : StateAt(meta.paths, p, id) # Gone}
      L == {p \in S : PlaceIn(f, p, StateAt(meta.paths, p, id)) # "?"}
  IN  \/ Cardinality({PlaceIn(f, p, StateAt(meta.paths, p, id)) : p \in L}) < Cardinality(L)
      \/ "" \in {PlaceIn(f, p, StateAt(meta.paths, p, id)) : p \in L}
      \/ (\E p \in L, q \in L : /\ StateAt(meta.paths, q, id).t # "dir"
                              /\ IsBelow(PlaceIn(f, p, StateAt(meta.paths, p, id)), Locate(f, q)))
      \* ... or one of them is a symlink on the way to another
      \/ \E p \in L : LET c == Locate(f, p) IN
           c \in DOMAIN f /\ f[c].t = "lnk"
           /\ \E q \in S : q # p /\ ~IsBelow(q, p)
                         /\ c \in Via(f, IF StateAt(meta.paths, q, id).t = "dir" THEN q ELSE ParOf(q), 8)
      \* ... or what has to give way for one of them contains a symlink on the way to another
      \/ \E p \in L, q \in S :
           StateAt(meta.paths, p, id).t # "dir"
           /\ \E c \in Via(f, IF StateAt(meta.paths, q, id).t = "dir" THEN q ELSE ParOf(q), 8) :
                IsBelow(c, Locate(f, p))
Aliased(id) == AliasedIn(fs, id)

RestoreSpec ==
  IF ~meta.ex THEN [bad |-> Fails("no metadata"), ghost |-> ghost]
  ELSE
  LET init == InitiateRestore(fs, meta, Ev.id, Ev.path)
      rep == Report([sum |-> <<>>], init.nodes, FALSE)
      change == ContainsChanges(rep.s)
      ask == Consent(Ev.input, 0)
      linked == ToSet(Ev.linked)
      need == UNION {Needed(fs, init.nodes, q, Ev.id, linked) : q \in Kids(init.nodes, "")}
      cont == [st \in {s \in need : Big(s)} |-> ContentIn(repo, st)]
      pred == FinishRestore(fs, init.nodes, Ev.id, cont)
      f2 == PostFs
      \* replacing a file with further hard links touches its directory
      touched == {c \in {ParOf(l) : l \in linked} \cap DOMAIN pred \cap DOMAIN f2 :
                    "mt" \in DOMAIN f2[c] /\ f2[c].mt = "NOW" /\ pred[c].t = f2[c].t /\ f2[c] = [pred[c] EXCEPT !.mt = "NOW"]}
      \* ... and brings its content back even if that has the hash of the old one
      refilled == {c \in linked \cap DOMAIN pred \cap DOMAIN f2 :
                     D.weak /\ pred[c].t = "reg" /\ f2[c].t = "reg" /\ f2[c].k = pred[c].k
                     /\ f2[c] = [pred[c] EXCEPT !.c = f2[c].c]}
      diff == DiffKeys(pred, f2) \ (touched \cup refilled)
      loc == IF Ev.path = "" THEN "" ELSE Locate(f2, Ev.path)
      inside == {c \in diff : loc = "" \/ c = loc \/ IsBelow(c, loc)}
      outside == diff \ inside
      \* a symlink in the repository: whatever it leads to
      symlinked == \E st \in need : Big(st) /\ StoredName(st) \in DOMAIN repo
                                /\ repo[StoredName(st)].t = "lnk"
      damaged == \E st \in need : Big(st) /\ (ContentIn(repo, st) = "?" \/
                                              repo[StoredName(st)].sz < st.sz)
      \* contents of the right size are restored as they are
      spoilt == \E st \in need : Big(st) /\ StoredName(st) \in DOMAIN repo
                                 /\ repo[StoredName(st)].t = "reg" /\ repo[StoredName(st)].k # st.k
      stay == RepoUnchanged("restore-repo") \cup MetaUnchanged("restore-repo")
      again == "again" \in DOMAIN Ev /\ ~AliasedIn(Fn(Ev.base), Ev.id)
  IN  IF init.err # "" THEN
        [bad |-> Fails("restore path") \cup B(Told = <<NbError(init.err)>>, "blame", <<Told, init.err>>), ghost |-> ghost]
      ELSE IF Aliased(Ev.id) THEN [bad |-> stay, ghost |-> ghost]
      ELSE IF again /\ (change \/ Ev.out # <<>>)
        THEN [bad |-> B(FALSE, "restore-again", [model |-> rep.l, got |-> Ev.out]), ghost |-> ghost]
      ELSE IF ~change THEN
        [bad |-> B(Ev.exit = 0, "exit", "restore") \cup Quiet \cup OutDiff(rep.l, <<>>, "restore-out")
                 \cup FsUnchanged("restore-nochange-fs") \cup stay, ghost |-> ghost]
      ELSE IF ~ask.ok THEN
        [bad |-> B(Ev.exit = 1, "consent-exit", "declined") \cup Quiet
                 \cup OutDiff(rep.l, <<"">> \o Questions("restore?", ask.asked), "restore-out")
                 \cup FsUnchanged("restore-consent-fs") \cup stay, ghost |-> ghost]
      ELSE IF symlinked THEN [bad |-> stay, ghost |-> ghost]
      ELSE IF damaged THEN
        [bad |-> B(Ev.exit = 1, "restore-damaged", "missing content") \cup stay, ghost |-> ghost]
      ELSE IF spoilt THEN [bad |-> B(Ev.exit = 0, "exit", "restore failed") \cup stay, ghost |-> ghost]
      ELSE
        [bad |-> B(Ev.exit = 0, "exit", "restore failed") \cup Quiet
                 \cup OutDiff(rep.l, <<"">> \o Questions("restore?", ask.asked), "restore-out")
                 \cup B(inside = {}, "restore-fs",
                        [p \in inside |-> [expected |-> IF p \in DOMAIN pred THEN pred[p] ELSE Gone,
                                           got |-> IF p \in DOMAIN f2 THEN f2[p] ELSE Gone]])
                 \cup B(outside = {}, "restore-frame",
                        [p \in outside |-> [expected |-> IF p \in DOMAIN pred THEN pred[p] ELSE Gone,
                                            got |-> IF p \in DOMAIN f2 THEN f2[p] ELSE Gone]])
                 \cup (IF Ev.path = ""
                       THEN UNION {Restored(f2, meta, q, Ev.id)
                                   : q \in {q \in DOMAIN meta.paths : ParOf(q) = ""}}
                       ELSE Restored(f2, meta, Ev.path, Ev.id))
                 \cup RestoredGhost(f2, Ev.id, Ev.path)
                 \cup stay,
         ghost |-> ghost]

--------------------------------------------------------- (* interruptions *)
Interrupted == Faulty /\ Ev.exit # 0

ConfigKept == B("config" \in DOMAIN repo =>
                ("config" \in DOMAIN PostRepo /\ PostRepo["config"] = repo["config"]), "config-file", "")

\* Every content that a retained state refers to is there, unaltered.
NothingLost == B(AllIntact(meta, repo) => AllIntact(PostMeta, PostRepo), "torn-store", Broken(PostMeta, PostRepo))

InterruptedBackup ==
  LET cfg == Parse(Ev.config)
      vis == Search(cfg, fs)
      ok == cfg.err = "" /\ ~SearchFails(vis) /\ Consent(Ev.input, 0).ok
      nodes == Initiate(cfg, vis, meta)
      diff == IF ok THEN MetaDiff(Commit(nodes, meta.times, Ev.now), PostMeta) ELSE {}
      new == ok /\ PostMeta.ex /\ diff = {}
      old == PostMeta = meta
  IN  [bad |-> B(old \/ new, "torn-meta", diff)
               \cup NothingLost
               \cup (IF new /\ ~old
                     THEN Recorded(Selected(vis), meta, PostMeta, PostRepo) \cup WellFormed(PostMeta, PostRepo)
                     ELSE {})
               \cup StoreKept(repo, PostRepo) \cup ConfigKept \cup FsUnchanged("frame-fs"),
       ghost |-> IF new /\ ~old THEN GhostNext(cfg, vis, Selected(vis), meta, PostMeta, PostRepo) ELSE ghost]

InterruptedGc ==
  [bad |-> MetaUnchanged("torn-meta") \cup NothingLost \cup ConfigKept \cup FsUnchanged("frame-fs")
           \cup B(\A p \in DOMAIN NoLock(PostRepo) : p \in DOMAIN repo /\ PostRepo[p] = repo[p], "store-kept", ""),
   ghost |-> ghost]

RepoStays(label) == B(SameFs(NoLock(repo), NoLock(PostRepo)), label, DiffKeys(NoLock(repo), NoLock(PostRepo)))

InterruptedRestore ==
  LET par == IF Ev.path = "" \/ Ev.path \notin DOMAIN meta.paths THEN {} ELSE ToSet(Parents(Ev.path))
      scope == {q \in DOMAIN meta.paths : InScope(Ev.path, q)}
      at(f, S) == {Locate(f, q) : q \in S} \cup {Resolve(f, q, 8) : q \in S}
      top == (at(fs, scope) \cup at(PostFs, scope)) \ {"?", ""}
      may == top \cup at(fs, par) \cup at(PostFs, par)
  IN  [bad |-> RepoStays("restore-repo") \cup MetaUnchanged("restore-repo")
               \cup (IF meta.ex /\ Aliased(Ev.id) THEN {}
                     ELSE B(\A c \in DiffKeys(fs, PostFs) : c \in may \/ \E x \in top : IsBelow(c, x),
                            "restore-frame", DiffKeys(fs, PostFs))),
       ghost |-> ghost]

\* A backup while somebody else changed a file.  For paths of which there are
\* several versions, a content one of them had has to be recorded.
TouchedBackup ==
  LET cfg == Parse(Ev.config)
      states == <<fs>> \o (IF Ev.mids = <<>> THEN <<>> ELSE Ev.mids) \o <<PostFs>>
      searches == [k \in 1..Len(states) |-> Search(cfg, Fn(states[k]))]
      sels == [k \in 1..Len(states) |-> Selected(searches[k])]
      some == UNION {DOMAIN sels[k] : k \in 1..Len(states)}
      both == {p \in some : \A k \in 1..Len(states) : p \in DOMAIN sels[k]}
      calm == {p \in both : \A k \in 1..Len(states) : sels[k][p] = sels[1][p]}
      stirred == (some \ calm) \cap DOMAIN PostMeta.paths
      m2 == PostMeta
      r2 == PostRepo
      version(p, k) ==
        IF p \notin DOMAIN sels[k] THEN {}
        ELSE {sels[k][p].st}
             \cup (IF k = 1 \/ sels[k][p].st.t # "lnk" THEN {}
                   \* what a symlink put there leads to
                   ELSE LET f == Fn(states[k])
                            c == Resolve(f, p, 8)
                        IN  IF c \in DOMAIN f /\ f[c].t = "reg" THEN {f[c]} ELSE {})
      versions(p) == UNION {version(p, k) : k \in 1..Len(states)}
      \* gone in one of the versions: the last state may be kept
      kept(p, st) == /\ p \in DOMAIN meta.paths
                     /\ \E j \in 1..Len(meta.paths[p].hist) : SameState(meta.paths[p].hist[j].st, st)
                     /\ (p \notin both \/ \E v \in versions(p) : v.t # st.t)
      fits(p, st) ==
        \/ st.t = "non" /\ p \notin both
        \/ st.t = "dir" /\ \E v \in versions(p) : v.t = "dir"
        \/ st.t = "lnk" /\ \E v \in versions(p) : v.t = "lnk" /\ v.tg = st.tg
        \/ st.t = "reg" /\ \E v \in versions(p) :
              v.t = "reg" /\ v.sz = st.sz /\
              (IF Big(st) THEN StoredName(st) \in DOMAIN r2 /\ r2[StoredName(st)].t = "reg"
                               /\ r2[StoredName(st)].c = v.c
               ELSE st.k = v.k)
      safe == NothingLost \cup StoreKept(repo, NoLock(r2)) \cup ConfigKept
              \cup B(SameFs(Ev.mid, PostFs), "frame-fs", DiffKeys(Ev.mid, PostFs))
  IN  IF cfg.err # "" \/ (\E k \in 1..Len(states) : SearchFails(searches[k])) \/ ~Consent(Ev.input, 0).ok
      THEN [bad |-> safe, ghost |-> <<>>]
      ELSE IF Ev.exit # 0 THEN [bad |-> safe \cup MetaUnchanged("torn-meta"), ghost |-> <<>>]
      ELSE
        [bad |-> safe
                 \cup (IF m2.ex THEN WellFormed(m2, r2) ELSE {})
                 \cup Recorded([p \in calm |-> sels[1][p]], meta, m2, r2)
                 \cup HistoryKept(meta, m2) \cup OrderKept(meta, m2)
                 \cup UNION {LET st == m2.paths[p].hist[1].st IN
                             B(m2.paths[p].pol = "none" \/ fits(p, st) \/ kept(p, st), "touched-content",
                               [path |-> p, recorded |-> st, versions |-> versions(p)])
                             : p \in stirred},
         ghost |-> <<>>]

InterruptedSpec ==
  CASE Ev.op = "backup" -> InterruptedBackup
    [] Ev.op = "gc" -> InterruptedGc
    [] Ev.op = "integrity" -> [bad |-> RepoStays("integrity-repo") \cup MetaUnchanged("integrity-repo")
                                       \cup FsUnchanged("frame-fs"), ghost |-> ghost]
    [] Ev.op = "restore" -> InterruptedRestore

\* What an undisturbed run of the same command leads to.  Left out: times of
\* paths nobody restored, and attributes of directories without a policy,
\* which are only set when nb creates them.
LikeReference ==
  IF "ref" \notin DOMAIN Ev \/ Aliased(Ev.id) \/ AliasedIn(Fn(Ev.refbase), Ev.id) THEN {}
  ELSE LET a == Fn(Ev.ref)
           b == Fn(PostFs)
           free == {Locate(b, q) : q \in {q \in DOMAIN meta.paths : meta.paths[q].pol = "none"}}
           same(x, y) == x = y \/ ("mt" \in DOMAIN x /\ x.mt = "NOW" /\ x = [y EXCEPT !.mt = "NOW"])
       IN  B(DOMAIN a = DOMAIN b /\ \A p \in DOMAIN a :
                same(a[p], b[p]) \/ (p \in free /\ a[p].t = b[p].t), "differs-from-undisturbed",
             DiffKeys(a, b))

\* What single system calls changed, even if only for a moment.
Effects ==
  IF "eff" \notin DOMAIN Ev THEN {}
  ELSE LET lock == "/r/lockfile"
           inRepo(p) == p = "/r" \/ IsBelow(p, "/r")
           parents == IF Ev.op # "restore" \/ Ev.path = "" THEN {} ELSE ToSet(Parents(Ev.path)) \cap DOMAIN meta.paths
           may(p) ==
             CASE Ev.op \in {"backup", "gc"} -> inRepo(p)
               [] Ev.op = "restore" -> /\ (inRepo(p) => "/r" \in DOMAIN meta.paths)
                                       /\ InScope(Ev.path, p) \/ p \in parents
               [] OTHER -> FALSE
           E == {e \in ToSet(Ev.eff) : e.p # lock}
       IN  B(\A e \in E : may(e.p), "effects", {e \in E : ~may(e.p)})
           \cup B(\A e \in E : ~e.b \/ Ev.op \in {"gc", "integrity"}, "effects-unasked", {e \in E : e.b})

FsyncSeen == IF Faulty /\ "fsync" \in DOMAIN Ev THEN B(Ev.exit # 0, "fsync-ignored", "") ELSE {}

------------------------------------------------------------------ (* other *)
\* A command line or repository which has to be refused.
RefusedSpec == [bad |-> Fails("command line"), ghost |-> ghost]

\* Everything of one repository was copied over another one, keeping what was
\* there, except for the configuration and the metadata: the other repository
\* becomes this one.  Names denote contents, in any repository.
SyncSpec ==
  [bad |-> B(Broken(PostMeta, PostRepo) \subseteq Broken(meta, repo), "sync-intact", Broken(PostMeta, PostRepo))
           \cup MetaUnchanged("sync-meta")
           \cup B(\A p \in Referenced(meta) \cap DOMAIN repo : p \in DOMAIN PostRepo /\ PostRepo[p] = repo[p],
                  "sync-intact", {p \in Referenced(meta) \cap DOMAIN repo : p \notin DOMAIN PostRepo \/ PostRepo[p] # repo[p]}),
   ghost |-> ghost]

Result ==
  CASE Faulty /\ Ev.fault = "touched" -> TouchedBackup
    [] Interrupted -> InterruptedSpec
    [] Ev.op = "backup" -> BackupSpec
    [] Ev.op = "gc" -> GcSpec
    [] Ev.op = "integrity" -> IntegritySpec
    [] Ev.op = "restore" -> RestoreSpec
    [] Ev.op = "refused" -> RefusedSpec
    [] Ev.op = "sync" -> SyncSpec
    [] OTHER -> [bad |-> {}, ghost |-> ghost]

\* Metadata so broken that nothing else can be said.
Structure(m) ==
  B(\A p \in DOMAIN m.paths : ParOf(p) = "" \/ ParOf(p) \in DOMAIN m.paths, "wf-parents", "")
  \cup B(\A p \in DOMAIN m.paths : LET hs == m.paths[p].hist IN
           /\ Len(hs) >= 1
           /\ \A j \in 1..Len(hs) : hs[j].id < Len(m.times)
           /\ \A j \in 2..Len(hs) : hs[j].id > hs[j - 1].id, "wf-history",
         {p \in DOMAIN m.paths : LET hs == m.paths[p].hist IN
           ~(/\ Len(hs) >= 1
             /\ \A j \in 1..Len(hs) : hs[j].id < Len(m.times)
             /\ \A j \in 2..Len(hs) : hs[j].id > hs[j - 1].id)})

Broke == IF "broke" \in DOMAIN Ev THEN {[label |-> Ev.broke, detail |-> ""]} ELSE {}

Say(b) == PrintT("MISMATCH " \o ToJson([h |-> h, i |-> i + 1, op |-> Ev.op,
                                         label |-> b.label, detail |-> b.detail]))

Next ==
  /\ i < Len(D.hist[h])
  /\ LET ruin == IF live THEN Broke \cup Structure(PostMeta) ELSE {}
         r == IF ~live THEN [bad |-> {}, ghost |-> ghost]
              ELSE IF ruin # {} THEN [bad |-> ruin, ghost |-> ghost]
              ELSE [Result EXCEPT !.bad = @ \cup LikeReference \cup FsyncSeen \cup Effects]
     IN  /\ \A b \in r.bad : Say(b)
         /\ ghost' = r.ghost
         /\ live' = (live /\ ruin = {})
  /\ i' = i + 1
  /\ fs' = PostFs /\ meta' = PostMeta /\ repo' = PostRepo
  /\ UNCHANGED h

Spec == Init /\ [][Next]_vars
Accepted == TRUE
=============================================================================
